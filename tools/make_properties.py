#!/usr/bin/env python3
# Writes /verif/properties.jsonl (kept as a script because jsonl is hard to edit by hand).
import json, os
OUT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=text), why_tests_cant=why,
        anchors=dict(files=list(files),
            mechanism=[dict(name=n, where=w) for n, w in mech],
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            observe_at=list(observe), hook_needed=None)))

prop("C01", "No memory errors or undefined behaviour in any sequence of API calls",
 "Whatever sequence of public calls a program makes - default construction anywhere in memory, setup in any overload with any order and any finite or non-finite parameters (accepted or rejected), filtering samples of any value, reset, copy construction, assignment, destruction of originals and copies in any order, response and pole/zero queries, stage access with any index - the library never reads or writes outside its own live objects, never reads a value nobody initialised and executes no undefined operation. "
 "In particular all observable results are the same whatever bytes the memory held before the object was constructed, and a filter of template order N accepts any requested order without touching memory beyond the object.",
 ["histories", "inputs"], "all finite sequences of public API calls on any number of filter objects of every class, order and topology, with any parameters and any sample values",
 "The tests make one well-formed call sequence per class in uninstrumented builds; an out-of-bounds write inside the object's own padding, a dangling internal pointer after a copy or a read of an uninitialised delay line does not make them fail.",
 ["iir/Cascade.h", "iir/Cascade.cpp", "iir/Layout.h", "iir/PoleFilter.h", "iir/Biquad.cpp", "iir/State.h", "iir/RBJ.h", "iir/Custom.h"],
 [("fixed-size storage inside each filter object, handed to factored base classes as pointer and size", "iir/PoleFilter.h PoleFilter, iir/Cascade.h CascadeStages, iir/Layout.h Layout"),
  ("capacity and index checks", "iir/Cascade.cpp setLayout, iir/Layout.h add/getPair, iir/Cascade.h operator[]"),
  ("in-class initialisers", "iir/State.h, iir/Biquad.h, iir/Types.h")])

prop("C02", "No allocation, locking or system calls when designing and filtering",
 "Constructing, copying, assigning and destroying a filter object, a setup call that succeeds, reset, filtering any sample of any supported sample type and evaluating the frequency response never allocate or free heap memory, never take a lock and never enter the operating system. "
 "The cost of filtering one sample does not depend on how many samples came before it or on their values, so the library can be used in interrupt handlers and real-time threads.",
 ["histories", "inputs"], "all filter classes, orders, topologies, sample types, parameters of successful setups and arbitrarily long sample streams, including values such as NaN, infinity, subnormal and huge numbers",
 "The tests never observe the allocator, the locks or the kernel; a lazily grown buffer, a function-local static or a rare diagnostic print passes them all.",
 ["iir/Cascade.h", "iir/State.h", "iir/PoleFilter.h", "iir/RBJ.h", "iir/RBJ.cpp", "iir/Biquad.cpp", "iir/Layout.h"],
 [("all storage has a compile-time size and lives inside the filter object", "iir/PoleFilter.h, iir/Cascade.h, iir/Layout.h"),
  ("filter() is a fixed loop of arithmetic over the stages", "iir/Cascade.h CascadeStages::filter, iir/State.h")])

prop("C03", "Distinct filter objects never influence each other, also across threads",
 "Operations on one filter object - construction, setup, filtering, reset, copying, queries, rejected setups - never change the outputs, coefficients or query results of any other filter object, in whatever order they are interleaved. "
 "Different objects can be used from different threads at the same time without any synchronisation and give bit for bit the results of a single-threaded run, and several threads may query the frequency response and pole/zeros of one shared filter at the same time.",
 ["schedules", "histories"], "all interleavings of operations on any set of filter objects of the same or of different classes, in one thread or in many",
 "The tests are single-threaded and use one filter at a time; state shared between objects (a static design cache, a shared scratch buffer, a copied pointer) needs two objects and the right interleaving to show.",
 ["iir/PoleFilter.h", "iir/Cascade.h", "iir/Butterworth.cpp", "iir/ChebyshevI.cpp", "iir/ChebyshevII.cpp", "iir/RBJ.cpp", "iir/State.h"],
 [("no mutable static state: prototypes, coefficients and delay lines are members of each filter object", "iir/PoleFilter.h, iir/Cascade.h, iir/RBJ.h")])

prop("C04", "filter() computes exactly the difference equation of its sections",
 "For every set of second order sections, every topology (direct form I, direct form II and its transposed form) and every input stream, the n-th filtered sample is the cascade's difference equation y[n]=(b0*x[n]+b1*x[n-1]+b2*x[n-2]-a1*y[n-1]-a2*y[n-2])/a0 applied section after section to the samples since the last reset, up to floating point rounding. "
 "Integer and float samples are filtered internally in double precision and only the returned value is converted back to the sample type, so the internal signal is the same as when filtering the same values as doubles.",
 ["inputs", "histories"], "all finite coefficient sets, all three topologies, one or more sections, all sample types and all input streams of any length",
 "The tests filter one impulse through a few designs and only look for NaN or decay; no test compares a single output sample with the difference equation.",
 ["iir/State.h", "iir/Cascade.h", "iir/RBJ.h", "iir/Biquad.h"],
 [("one state class per topology", "iir/State.h DirectFormI, DirectFormII, TransposedDirectFormII"),
  ("cascade loop and cast of the result", "iir/Cascade.h CascadeStages::filter, iir/RBJ.h RBJbase::filter")],
 [("delay lines", "past inputs/outputs of each section", "iir/State.h")])

prop("C05", "Delay lines: zero when fresh, fully cleared by reset, kept by setup",
 "A new filter object without setup passes every finite sample through unchanged, a newly set-up filter starts with all delay lines at zero, and reset() removes every trace of all samples filtered before - including NaN, infinity and huge values - while leaving the coefficients unchanged, so that the filter then behaves bit for bit like a fresh one with the same coefficients. "
 "Calling setup on a running filter replaces only the coefficients: the delay lines keep their contents in every section, so a re-tuning with the same parameters at any point of a stream does not change the output at all.",
 ["histories", "inputs"], "all histories of filtering, reset and setup calls on every filter class and topology, with any sample values",
 "The tests feed one impulse into a fresh filter and one test resets an RBJ filter once; a section or a topology whose delay line survives reset or is lost at setup does not show there.",
 ["iir/State.h", "iir/Cascade.h", "iir/RBJ.h", "iir/PoleFilter.h", "iir/Cascade.cpp"],
 [("reset of all sections", "iir/Cascade.h CascadeStages::reset, iir/State.h reset, iir/RBJ.h RBJbase::reset"),
  ("setup only writes coefficients", "iir/Cascade.cpp setLayout")],
 [("delay lines", "past samples of each section", "iir/State.h")])

prop("C06", "A design depends only on the arguments of its setup call",
 "After a successful setup the coefficients, the number of sections, the reported poles/zeros and the frequency response of a filter are determined by the arguments of that call alone: they are the same as those of a newly constructed filter of the same class given the same arguments. "
 "No earlier setup call - with other orders, gains, ripples or frequencies, accepted or rejected, repeated any number of times - has any influence.",
 ["histories", "inputs"], "all sequences of setup calls on one object, changing any subset of the parameters between calls, repeating calls and interleaving rejected ones",
 "The tests call setup once per object; the designers cache the analogue prototype between calls, and a stale cache needs a second call that changes one particular parameter.",
 ["iir/Butterworth.cpp", "iir/ChebyshevI.cpp", "iir/ChebyshevII.cpp", "iir/Cascade.cpp", "iir/Layout.h", "iir/PoleFilter.cpp"],
 [("prototype cache compares all parameters", "AnalogLowPass::design / AnalogLowShelf::design in the three family .cpp files"),
  ("all stages reset to identity before the layout is applied", "iir/Cascade.cpp setLayout")],
 [("cached prototype parameters", "last order, gain, ripple/stopband", "iir/Butterworth.h, iir/ChebyshevI.h, iir/ChebyshevII.h")])

prop("C07", "A copied filter is an independent filter with identical behaviour",
 "Copy constructing a filter of any class yields a filter that at once has the same coefficients, response, poles/zeros and continues the sample stream bit for bit as the original would; from then on filtering, setting up, resetting or destroying either of them has no effect on the other. "
 "Assigning to a pole based filter clears the target's delay lines, and after its next setup it behaves like any newly set-up filter and never depends on the source of the assignment; assigning RBJ filters and custom cascades makes them full, independent copies.",
 ["histories"], "all histories of filtering, setup, reset, copying, chains of copies, assignment and destruction in any order on every filter class",
 "The only related test copies one filter and checks that it does not crash; shared storage between copy and original shows only when one of them is changed or destroyed afterwards.",
 ["iir/PoleFilter.h", "iir/Cascade.h", "iir/Cascade.cpp", "iir/Layout.h", "iir/RBJ.h"],
 [("copy constructor and assignment of the pole filters", "iir/PoleFilter.h PoleFilter"),
  ("rebinding of the storage pointers", "iir/Cascade.cpp rebindCascadeStorage, iir/Layout.h rebindStorage")])

prop("C08", "response() is the transfer function the filter actually applies",
 "For every successfully set-up filter of every class the value returned by response(f) equals, in magnitude and phase, the discrete time Fourier transform of the impulse response that filter() produces, for all normalised frequencies from 0 to 0.5. "
 "A pole filter's response is the product of the responses of the sections it exposes, a filter without setup has response one, and asking a pole filter for a frequency outside 0 to 0.5 is rejected.",
 ["inputs", "configurations"], "all filter classes, orders, parameters and all frequencies between 0 and 0.5",
 "No test calls response(); errors in phase, in one section or only for some coefficient patterns cannot be seen from decaying impulse responses.",
 ["iir/Biquad.cpp", "iir/Cascade.cpp", "iir/Cascade.h", "iir/State.h"],
 [("evaluation of the section polynomials on the unit circle", "iir/Biquad.cpp Biquad::response, iir/Cascade.cpp Cascade::response")])

prop("C09", "Reported poles and zeros are those of the running filter",
 "For every successfully set-up filter whose sections have a non-zero leading numerator coefficient the poles and zeros returned are exactly the roots of the denominators and numerators of the sections it runs, all poles and all zeros are reported, complex ones come in conjugate pairs, and with the overall gain they reproduce the frequency response. "
 "Converting a section to pole/zero form (poles, zeros and gain) and back reproduces its coefficients, and setting a section from poles and zeros yields a section with exactly these roots.",
 ["inputs", "configurations"], "all filter classes, orders and parameters; all stable and unstable sections with real, complex, repeated or zero roots",
 "No test looks at poles and zeros.",
 ["iir/Biquad.cpp", "iir/PoleFilter.h", "iir/PoleFilter.cpp", "iir/Cascade.cpp", "iir/Types.h", "iir/Layout.h"],
 [("pole/zero recovery from the coefficients", "iir/Biquad.cpp BiquadPoleState"),
  ("poles/zeros kept by the design", "iir/PoleFilter.h PoleFilterBase2::getPoleZeros"),
  ("coefficients from poles/zeros", "iir/Biquad.cpp setOnePole/setTwoPole/setPoleZeroForm")])

prop("C10", "Every accepted design is stable: bounded output, decay to zero, no NaN",
 "Every filter designed by an accepted setup call with frequencies (and for bands both band edges) strictly inside 0 to Nyquist, and whose poles double precision can tell apart from the unit circle, has all its poles strictly inside the unit circle and only finite coefficients, whatever ripple, attenuation, gain or Q was requested. "
 "Any bounded input gives a finite, bounded output for streams of any length, and after the input ends the output decays to zero at the rate given by the slowest pole.",
 ["inputs", "histories"], "all accepted designs of all classes, orders, topologies and well inside-band frequencies, and all bounded input streams of any length",
 "The tests sample one parameter set per class and one impulse.",
 ["iir/PoleFilter.cpp", "iir/Butterworth.cpp", "iir/ChebyshevI.cpp", "iir/ChebyshevII.cpp", "iir/RBJ.cpp", "iir/State.h"],
 [("analogue prototypes with left half plane poles and the bilinear transform", "iir/Butterworth.cpp, iir/ChebyshevI.cpp, iir/ChebyshevII.cpp, iir/PoleFilter.cpp"),
  ("RBJ formulas with positive alpha", "iir/RBJ.cpp")])

prop("C11", "Butterworth low/high/band pass and band stop have the Butterworth response",
 "The magnitude response of a Butterworth filter of order N is |H|^2 = 1/(1+W^(2N)) at every frequency, where W is the bilinear-prewarped frequency relative to the cutoff (low and high pass) or to the two band edges centre-width/2 and centre+width/2 (band pass and band stop): unity gain at the reference frequency, exactly -3 dB at the cutoff or at both band edges, monotonic in between. "
 "The signal path applies this response to actual samples, for every order from 1 to the template's order and in every topology.",
 ["inputs", "configurations"], "all four types, all orders up to 16, all topologies, all cutoff frequencies/bands inside 0 to Nyquist, all frequencies",
 "The tests check for one order and cutoff that an impulse response decays; gain, cutoff and shape are never compared with anything.",
 ["iir/Butterworth.cpp", "iir/Butterworth.h", "iir/PoleFilter.cpp", "iir/Cascade.cpp"],
 [("analogue prototype", "iir/Butterworth.cpp AnalogLowPass::design"),
  ("s- to z-plane transforms", "iir/PoleFilter.cpp LowPass/HighPass/BandPass/BandStopTransform"),
  ("gain normalisation", "iir/Cascade.cpp setLayout")])

prop("C12", "Chebyshev I low/high/band pass and band stop are equiripple as requested",
 "The magnitude response of a Chebyshev type I filter of order N with ripple r dB is |H|^2 = 1/(1+e^2*T_N(W)^2) with e^2 = 10^(r/10)-1 at every frequency, with W the bilinear-prewarped frequency relative to the cutoff or to both band edges. "
 "So the gain stays between 0 dB and -r dB over the whole passband, is exactly -r dB at the cutoff or both band edges, and falls monotonically outside; the signal path applies this response for every order from 1 to the template's order and in every topology.",
 ["inputs", "configurations"], "all four types, all orders up to 16, all topologies, all ripples, cutoff frequencies/bands inside 0 to Nyquist, all frequencies",
 "The tests check for one order, ripple and cutoff that an impulse response decays; the ripple is never measured.",
 ["iir/ChebyshevI.cpp", "iir/ChebyshevI.h", "iir/PoleFilter.cpp", "iir/Cascade.cpp"],
 [("analogue prototype", "iir/ChebyshevI.cpp AnalogLowPass::design"),
  ("s- to z-plane transforms", "iir/PoleFilter.cpp"),
  ("gain normalisation", "iir/Cascade.cpp setLayout")])

prop("C13", "Chebyshev II low/high/band pass and band stop reach the requested stopband",
 "The magnitude response of a Chebyshev type II filter of order N with stopband attenuation s dB is |H|^2 = 1/(1+1/(e^2*T_N(1/W)^2)) with e^2 = 1/(10^(s/10)-1) at every frequency, with W the bilinear-prewarped frequency relative to the cutoff or to both band edges. "
 "So the gain is unity at the reference frequency, exactly -s dB at the cutoff or both band edges and never above -s dB anywhere in the stopband; the signal path applies this response for every order from 1 to the template's order and in every topology.",
 ["inputs", "configurations"], "all four types, all orders up to 16, all topologies, all stopband attenuations, cutoff frequencies/bands inside 0 to Nyquist, all frequencies",
 "The tests check for one order, attenuation and cutoff that an impulse response decays; the stopband is never measured.",
 ["iir/ChebyshevII.cpp", "iir/ChebyshevII.h", "iir/PoleFilter.cpp", "iir/Cascade.cpp"],
 [("analogue prototype", "iir/ChebyshevII.cpp AnalogLowPass::design"),
  ("s- to z-plane transforms", "iir/PoleFilter.cpp"),
  ("gain normalisation", "iir/Cascade.cpp setLayout")])

prop("C14", "Shelving pole filters: requested gain in the band, 0 dB outside",
 "A Butterworth low, high or band shelf of order N with gain g dB has |H|^2 = (W^(2N)+G)/(W^(2N)+1/G) with G = 10^(g/20) at every frequency: g dB deep in the boosted or cut region, 0 dB far outside, and half the gain in dB at the cutoff or at both band edges. "
 "A Chebyshev I or II shelf with a ripple smaller than |g| has gain g (positive or negative) in the band with an equal ripple of at most the requested ripple on the 0 dB side of g, and 0 dB far outside. "
 "This holds for boosts and cuts, every order from 1 to the template's order, and is what the signal path applies.",
 ["inputs", "configurations"], "all nine shelf classes, orders up to 16, gains of both signs, ripples below |gain|, all cutoff frequencies/bands inside 0 to Nyquist, all frequencies",
 "The tests check for one gain and cutoff that an impulse response decays; the gain of a shelf is never measured.",
 ["iir/Butterworth.cpp", "iir/ChebyshevI.cpp", "iir/ChebyshevII.cpp", "iir/PoleFilter.cpp", "iir/Cascade.cpp"],
 [("analogue low shelf prototypes", "AnalogLowShelf::design in the three family .cpp files"),
  ("s- to z-plane transforms", "iir/PoleFilter.cpp"),
  ("gain normalisation", "iir/Cascade.cpp setLayout")])

prop("C15", "RBJ filters realise the cookbook analogue prototypes",
 "Every RBJ filter is at every frequency - in magnitude and phase - the bilinear transform of its second order analogue prototype with its corner or centre prewarped to the requested frequency: low pass 1/(s^2+s/Q+1), high pass s^2/(..), band pass with peak gain Q or with 0 dB peak gain, band stop with an exact null, all pass with unit magnitude and 180 degrees at its frequency, with Q given by the q or width argument. "
 "Low, high and band shelf give exactly the requested gain in dB at their DC, Nyquist or centre, 0 dB at the other end and the requested slope or bandwidth in octaves, and the notch has a null at its frequency and poles of radius exp(-pi*f/q) at the same angle.",
 ["inputs", "configurations"], "all ten RBJ classes, all frequencies inside 0 to Nyquist, all positive Q, width and slope values, gains of both signs, all evaluation frequencies, default arguments included",
 "The tests check one parameter set per class for a decaying impulse response and a few gains.",
 ["iir/RBJ.cpp", "iir/RBJ.h", "iir/Biquad.cpp"],
 [("cookbook formulas", "iir/RBJ.cpp setupN of each class"), ("default arguments and sampling rate division", "iir/RBJ.h")])

prop("C16", "Invalid setup arguments are rejected, valid ones are accepted",
 "A setup call with a filter order below one or above the template's order, a frequency that is negative, at or above Nyquist, or NaN, a band width or Q/width/slope that is not positive, or any NaN argument throws std::invalid_argument (only that exception type) and never leads to a filter that produces NaN. "
 "Setting section coefficients directly rejects NaN and coefficients that are not finite after normalisation, mismatched complex poles or zeros are rejected, a stage index out of range is rejected, and every well-formed setup call - every order from one to the template's order, any frequency or band strictly inside 0 to Nyquist whose design double precision can represent - is accepted without an exception.",
 ["inputs"], "all setup overloads of all filter classes with every parameter drawn from valid, boundary and invalid values including NaN and infinity",
 "One test tries a handful of invalid parameters on a few classes; the other overloads, orders and parameter positions are never tried.",
 ["iir/Cascade.cpp", "iir/PoleFilter.cpp", "iir/Biquad.cpp", "iir/Butterworth.h", "iir/ChebyshevI.h", "iir/ChebyshevII.h", "iir/RBJ.cpp", "iir/Layout.h", "iir/Common.h"],
 [("order check in every overload", "iir/Butterworth.h, iir/ChebyshevI.h, iir/ChebyshevII.h"),
  ("frequency checks", "iir/PoleFilter.cpp transforms, iir/RBJ.cpp checkParameters"),
  ("coefficient checks", "iir/Biquad.cpp setCoefficients, iir/Layout.h add")])

prop("C17", "A rejected setup leaves a running filter undisturbed",
 "When a setup call on a running filter (pole based filters, RBJ filters, custom cascades) throws, the filter keeps its coefficients, number of sections, frequency response and delay lines and continues to filter bit for bit as if the call had never been made. "
 "A later valid setup then works exactly as on a filter that never saw the rejected call.",
 ["histories", "fault_sequences"], "all running filters of these classes, all rejected argument combinations of all their setup overloads, at any position in the sample stream",
 "The tests that provoke exceptions throw the filter object away afterwards.",
 ["iir/Cascade.cpp", "iir/Cascade.h", "iir/Biquad.cpp", "iir/RBJ.cpp", "iir/Butterworth.cpp", "iir/ChebyshevI.cpp", "iir/ChebyshevII.cpp"],
 [("coefficients are validated before the first one is written", "iir/Cascade.cpp setLayout dry run, iir/Biquad.cpp setCoefficients, iir/Cascade.h CascadeStages::setup")])

prop("C18", "All ways of requesting the same design give the same filter",
 "For every class the overloads with a sampling rate and frequencies in Hz, with normalised frequencies, with an explicit order and with the template's order produce the same filter when they describe the same design; only the ratio of frequencies to the sampling rate matters. "
 "A filter of a higher template order set up with a lower requested order behaves like one of that template order, omitted arguments take their documented defaults (template order 4, direct form II, q = 1/sqrt(2), notch Q 10, shelf slope 1), and all topologies give the same output up to rounding.",
 ["configurations", "inputs"], "all classes, all overloads, all template and requested orders, sampling rates from very low to very high, all parameters",
 "The tests use one overload per class and never compare two of them.",
 ["iir/Butterworth.h", "iir/ChebyshevI.h", "iir/ChebyshevII.h", "iir/RBJ.h", "iir/Common.h", "iir/State.h"],
 [("thin overloads which forward to one implementation", "setup/setupN in iir/Butterworth.h, iir/ChebyshevI.h, iir/ChebyshevII.h, iir/RBJ.h")])

prop("C19", "Built without exceptions the library differs only by abort() instead of throw",
 "When the library and the program are built with the no-exceptions option, every call that would throw in the normal build ends the process with abort(), and no other call does. "
 "All coefficients, responses and output samples of calls that do not throw are the same as in the normal build.",
 ["configurations", "inputs"], "all API calls with valid and invalid arguments in both build configurations",
 "The test-suite is built and run in one configuration only.",
 ["iir/Common.h", "iir/Cascade.cpp", "iir/PoleFilter.cpp", "iir/Biquad.cpp"],
 [("single function that throws or aborts", "iir/Common.h throw_invalid_argument")])

prop("C20", "Custom filters realise exactly the given poles, zeros, scale and SOS matrix",
 "A custom one-pole section has transfer function scale*(1-zero/z)/(1-pole/z) and a custom two-pole section scale times the conjugate zero pair over the conjugate pole pair given in polar coordinates. "
 "A custom cascade built from a matrix in scipy's SOS layout (b0,b1,b2,a0,a1,a2 per row), through the constructor or setup, filters like the sections in that order with each row normalised by its a0, for every number of sections and every topology, and without coefficients it passes samples through unchanged.",
 ["inputs", "configurations"], "all real poles/zeros, polar pole/zero positions, scales, SOS matrices of 1 to 16 sections including a0 different from one, all topologies, all sample streams",
 "The tests set one SOS matrix and look at a few output values.",
 ["iir/Custom.cpp", "iir/Custom.h", "iir/Cascade.h", "iir/Biquad.cpp"],
 [("conversion of positions to coefficients", "iir/Custom.cpp, iir/Biquad.cpp setOnePole/setTwoPole/applyScale"),
  ("SOS column order", "iir/Cascade.h CascadeStages::setup")])

prop("C21", "Section coefficients read back as they were set",
 "After setting the six coefficients of a section, reading a0, a1, a2, b0, b1 and b2 returns these values (up to rounding), the section filters with all of them divided by a0, and multiplying all six by a common factor changes neither filtering nor response. "
 "Identity passes samples through, and scaling a section multiplies exactly its numerator.",
 ["inputs"], "all finite coefficient sets with non-zero a0 of any sign and magnitude",
 "No test reads coefficients back or uses an a0 different from one except in one matrix.",
 ["iir/Biquad.cpp", "iir/Biquad.h"],
 [("normalisation by a0 and the accessors undoing it", "iir/Biquad.cpp setCoefficients, iir/Biquad.h getA0..getB2")])

prop("C22", "Pole filters keep polarity and phase of their prototype; boost and cut cancel",
 "At every frequency the complex response of a Butterworth, Chebyshev I or Chebyshev II filter - not only its magnitude - is that of the family's minimum phase low pass or low shelf prototype at the signed, bilinear-prewarped frequency: all poles come from the left half plane, zeros of shelves too, nothing is inverted in polarity (0 degrees at the reference frequency: DC for low pass, band stop and low shelf, Nyquist for high pass and high shelf, the centre of a band pass or band shelf), and no section adds delay of its own. "
 "So a constant settles with its own sign behind a low pass, two filters of the same family and order stay in phase whatever topology or template order they use, and a shelf followed by the same shelf with the opposite gain (pole based and RBJ) gives the original samples back. (Chebyshev shelves: with a ripple smaller than the gain, as for their magnitude.)",
 ["inputs", "configurations"], "all 21 pole based classes, all orders up to the template's, all topologies, ripples, attenuations and gains of both signs, all cutoffs and bands inside 0 to Nyquist, all frequencies; all shelves (RBJ included) and all input streams for the cancellation",
 "The tests look at magnitudes of an impulse response only; a filter with inverted polarity, zeros reflected at the unit circle or an additional delay passes all of them.",
 ["iir/Butterworth.cpp", "iir/ChebyshevI.cpp", "iir/ChebyshevII.cpp", "iir/PoleFilter.cpp", "iir/Cascade.cpp", "iir/Biquad.cpp", "iir/RBJ.cpp"],
 [("analogue prototypes with poles (and zeros of shelves) in the left half plane", "iir/Butterworth.cpp, iir/ChebyshevI.cpp, iir/ChebyshevII.cpp design"),
  ("s- to z-plane transforms", "iir/PoleFilter.cpp"),
  ("gain normalisation at the reference frequency", "iir/Cascade.cpp setLayout")])

with open(OUT, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
