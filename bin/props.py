"""One function per property: which programs are built from /repo, how they are run and what counts."""
import os
import vf

CHECKS = {}
FP = "IEEE-754 double arithmetic without value-changing compiler options (the reference side uses long double)"
SEEDED = "every case is generated from VERIF_SEED, the part name and the case number; "


def check(pid):
    def deco(f):
        CHECKS[pid] = f
        return f
    return deco


def scaled(c, args, quick, thorough=1):
    """number of cases relative to the base numbers in the harness"""
    return list(args) + ["--scale", str(thorough if c.thorough else quick)]


# ------------------------------------------------------------------ magnitude of the pole filters
MAG_RULE = {
    11: "Butterworth low/high/band pass/band stop", 12: "Chebyshev I low/high/band pass/band stop",
    13: "Chebyshev II low/high/band pass/band stop", 14: "Butterworth, Chebyshev I and Chebyshev II low/high/band shelves"}


def mag(pid, n):
    @check(pid)
    def run(c):
        exe = vf.build("pole_mag", ["pole_mag", "rbj_reg"], "o1", reg=True)
        c.run("mag", exe, args=scaled(c, ["--prop", str(n)], 10, 4))
        c.assumptions += [FP, "designs whose poles double precision cannot resolve (relative corner distance, see DESIGN.md) are compared with a wider bound or skipped; skipped ones are counted"]
        return c.finish(SEEDED + "a case sets up one %s design (class, template order, requested order, topology, frequencies, ripple/attenuation/gain; grid over every "
                        "class and order, random, extreme, and cases through filter()) and compares its response at corners, reference frequency, pass and stop band and random "
                        "frequencies with the closed formula evaluated in long double; non-trivial: the setup was accepted and at least one frequency was compared; "
                        "distinct: the text of class and parameters" % MAG_RULE[n])


for _n in (11, 12, 13, 14):
    mag("C%d" % _n, _n)


@check("C22")
def c22(c):
    exe = vf.build("pole_mag", ["pole_mag", "rbj_reg"], "o1", reg=True)
    c.run("phase", exe, args=scaled(c, ["--prop", "22"], 4, 3))
    c.assumptions += [FP, "designs whose poles double precision cannot resolve (relative corner distance, see DESIGN.md) are compared with a wider bound or skipped; skipped ones are counted"]
    return c.finish(SEEDED + "a case sets up one pole filter of any class (grid over every class and order, random, extreme, and cases through filter()) and compares its complex response with the product over the "
                    "prototype's poles and zeros in closed form, evaluated in long double at the signed prewarped frequency; cases of the parts 'inverse*' send a stream through a shelf and the shelf of the "
                    "opposite gain and compare it with what went in; non-trivial: accepted and compared; distinct: class and parameters")


@check("C15")
def c15(c):
    exe = vf.build("rbj", ["rbj", "rbj_reg"], "o1")
    c.run("rbj", exe, args=scaled(c, [], 24, 4))
    c.assumptions += [FP]
    return c.finish(SEEDED + "a case sets up one of the RBJ classes through one of its overloads and compares the complex response (from the section coefficients, and in part 'signal' "
                    "from samples that went through filter()) with the analogue prototype at the prewarped frequency in long double, and its named points (DC, Nyquist, centre, null, "
                    "pole radius); non-trivial: accepted and compared; distinct: class and parameters")


def resp(pid, n, rule):
    @check(pid)
    def run(c):
        exe = vf.build("resp", ["resp", "rbj_reg"], "o1", reg=True)
        c.run("resp", exe, args=scaled(c, ["--prop", str(n)], {8: 20, 9: 20, 10: 16}[n], 4))
        c.assumptions += [FP]
        return c.finish(SEEDED + rule)


resp("C08", 8, "a case sets up one filter of any class (or leaves it fresh, or sets one section's six coefficients) and compares response(f) at the ends, at corners and at random "
     "frequencies with the DFT of the impulse response that filter() produced, and with the product over the exposed sections; non-trivial: at least one frequency compared; distinct: "
     "class, parameters and case")
resp("C09", 9, "a case sets up one filter (or one section from coefficients or from poles/zeros) and checks the reported poles/zeros: number, conjugate pairing, residual of every root in the "
     "section polynomials, response rebuilt from roots and gain, round trip through BiquadPoleState; non-trivial: at least one root checked; distinct: class and parameters")
resp("C10", 10, "a case sets up one accepted in-band design and checks finite coefficients, pole radius of every section below one, and (parts signals/long) bounded output for bounded hostile input "
     "streams (sign of the impulse response, steps, square waves at the corner, noise) followed by decay to zero; non-trivial: accepted; distinct: class and parameters")


def state(pid, n, rule):
    @check(pid)
    def run(c):
        exe = vf.build("state", ["state", "rbj_reg", "sos_reg"], "o1", reg=True)
        c.run("state", exe, args=scaled(c, ["--prop", str(n)], {4: 2.5, 5: 40}[n], {4: 1, 5: 4}[n]))
        c.assumptions += [FP]
        return c.finish(SEEDED + rule)


state("C04", 4, "a case is one stream through one cascade: exact cases use small dyadic coefficients and integer samples so that every result is exactly representable and compared bit for bit with the "
      "difference equation; real cases compare with a long double model under a running error bound; types cases compare every sample type with the double stream; non-trivial: at least one sample compared; "
      "distinct: topology, coefficients and stream")
state("C05", 5, "a case is one history of filtering (including NaN, infinity, huge values), reset and re-tuning on one filter, compared bit for bit with a fresh filter (reset), or with a filter that was "
      "not re-tuned (setup); fresh filters are checked to pass samples through; non-trivial: at least one comparison after a reset/setup; distinct: class, parameters and history")


def hist(pid, n, rule):
    @check(pid)
    def run(c):
        exe = vf.build("hist", ["hist", "rbj_reg", "sos_reg"], "o1", reg=True)
        c.run("hist", exe, args=scaled(c, ["--prop", str(n)], {6: 80, 7: 120, 17: 60, 18: 80}[n], {6: 8, 7: 12, 17: 8, 18: 10}[n]))
        c.assumptions += [FP]
        return c.finish(SEEDED + rule)


hist("C06", 6, "a case is one sequence of setup calls (changing one or more parameters, repeating, interleaving rejected ones) on one object; after each accepted call coefficients, number of sections, "
     "poles/zeros and response are compared with those of a new object given the same call; non-trivial: at least one comparison after an earlier call; distinct: class and call sequence")
hist("C07", 7, "a case is one program over a set of live filter objects (copy, chain of copies, assign, filter, setup, reset, destroy with the storage overwritten), each shadowed by a model filter that was "
     "built by replaying its own history on a fresh object; all outputs compared bit for bit; non-trivial: at least one copy or assignment; distinct: the program")
hist("C17", 17, "a case runs two equal filters on the same stream, one of which gets additional setup calls that throw; coefficients, number of sections, response and all later samples are compared bit for "
     "bit; non-trivial: at least one call was rejected; distinct: class, parameters and calls")
hist("C18", 18, "a case sets up the same design through all overloads, at several sampling rates, through a higher template order and in all topologies and compares coefficients and outputs; "
     "defaults are compared with the explicit arguments; non-trivial: at least one pair compared; distinct: class and parameters")


@check("C16")
def c16(c):
    exe = vf.build("reject", ["reject", "rbj_reg", "sos_reg"], "o1", reg=True)
    c.run("reject", exe, args=scaled(c, [], 40, 4))
    c.assumptions += [FP, "'design double precision can represent': frequencies and band edges at least 1e-6 away from 0 and Nyquist, see gen.h/reject.cpp for the domain per class"]
    return c.finish(SEEDED + "a case makes one setup call with exactly one or more invalid arguments (it must throw std::invalid_argument and nothing else, and the filter must not produce NaN) or one "
                    "well-formed call (it must not throw), over all classes and overloads, section coefficient setters, pole/zero pair setters, stage indices and layouts; non-trivial: the call was made and "
                    "its outcome observed; distinct: class and arguments")


@check("C02")
def c02(c):
    src = ["rt", "rbj_reg", "sos_reg"]
    exe = vf.build("rt", src, "o1", reg=True, link="-Wl,-z,now -ldl -pthread")
    c.run("guard", exe, args=scaled(c, [], 60, 2))
    exe = vf.build("rt", src, "cov", reg=True, link="-ldl -pthread")
    c.run("cost", exe, args=scaled(c, [], 4))
    c.assumptions += ["locks are seen through the pthread entry points and the guards of function-local statics, system calls through syscall user dispatch (Linux 5.11 or later; "
                      "'syscall_monitor_on' in observed says whether it was active)",
                      "cost is counted in executed basic blocks of the library and its headers, not in time"]
    return c.finish(SEEDED + "a case runs one filter class through construction, setup, filter in every sample type, reset, copy, assignment, response and destruction with every call guarded by the monitors of "
                    "allocation, locks, static guards and system calls; cost cases count basic blocks per sample over long hostile streams; non-trivial: at least one guarded call; distinct: class and parameters")


@check("C03")
def c03(c):
    src = ["thr", "rbj_reg", "sos_reg"]
    c.run("solo", vf.build("thr", src, "o1", reg=True, link="-pthread"), args=scaled(c, [], 40, 6))
    c.run("tsan", vf.build("thr", src, "tsan", reg=True), shards=3, args=scaled(c, [], 24))
    c.run("ctsan", vf.build("thr", src, "ctsan", reg=True), shards=3, args=scaled(c, [], 24))
    c.assumptions += ["ThreadSanitizer sees the library and the harness; libstdc++ itself is not instrumented (only its header code is)"]
    return c.finish(SEEDED + "a case runs 2 to 8 agents, each with its own filter objects (sharing classes and designs, some identical), interleaved in one thread or as real threads (jitter: none, yields, "
                    "spins, sleeps), and compares the log of every agent bit for bit with a run on its own; threads also query one shared const filter; the same under gcc's and clang's "
                    "ThreadSanitizer; non-trivial: at least two agents; distinct: agents' programs and the order of steps that was observed")


@check("C19")
def c19(c):
    src = ["noexc", "rbj_reg", "sos_reg"]
    normal = vf.build("noexc", src, "o1", reg=True)
    tr = os.path.join(c.work, "trace")
    os.makedirs(tr, exist_ok=True)
    try:
        quiet = vf.build("noexc", src, "noexc", reg=True)
    except vf.BuildError as e:
        c.add("build", "the library does not build without exceptions: " + str(e)[-1500:], run="noexc", part="build", case=0)
        return c.finish("not run: the build without exceptions failed")
    sc = 25
    c.run("normal", normal, args=scaled(c, ["--trace", tr], sc, 2))
    c.run("noexc", quiet, args=scaled(c, ["--trace", tr], sc, 2))
    c.assumptions += ["abort() is seen through SIGABRT; the monitor leaves the handler by longjmp and continues with a new object"]
    return c.finish(SEEDED + "a case is one program of calls on one filter of any class, run in the normal build, which records every outcome (returned or thrown) and every value, and again in the build without "
                    "exceptions, where each recorded throw must be an abort(), nothing else may be, and all values must be the same bits; part 'death' checks the process status of a forked child; "
                    "non-trivial: at least one call; distinct: class and parameters")


def custom(pid, n, rule):
    @check(pid)
    def run(c):
        exe = vf.build("custom", ["custom", "sos_reg"], "o1", reg=False)
        c.run("custom", exe, args=scaled(c, ["--prop", str(n)], {20: 15, 21: 20}[n]))
        c.assumptions += [FP]
        return c.finish(SEEDED + rule)


custom("C20", 20, "a case sets up one custom one-pole, two-pole or SOS cascade (constructor or setup, every topology, every number of sections up to 16) and compares complex response and filtered samples with the "
       "formula in long double; non-trivial: at least one value compared; distinct: class and parameters")
custom("C21", 21, "a case sets six coefficients (signs, magnitudes, zeros, any a0), reads them back, filters a stream and compares with the section divided by a0, with the six multiplied by a common factor, with "
       "identity and with applyScale; non-trivial: at least one comparison; distinct: the coefficients")


@check("C01")
def c01(c):
    src = ["mem", "rbj_reg", "sos_reg"]
    tr = os.path.join(c.work, "trace")
    os.makedirs(tr, exist_ok=True)
    g = vf.build("mem", src, "gasan", reg=True)
    c.run("gasan", g, args=scaled(c, ["--mode", "none"], 6))
    k = vf.build("mem", src, "casan", reg=True)
    c.run("casan", k, args=scaled(c, ["--mode", "none", "--fill", "256"], 6))
    z = vf.build("mem", src, "zinit", reg=True)
    c.run("normal", z, args=scaled(c, ["--mode", "write", "--trace", tr, "--fill", "0"], 9))
    p = vf.build("mem", src, "pinit", reg=True)
    for f in (255, 90, 256):
        c.run("fill%d" % f, p, args=scaled(c, ["--mode", "compare", "--trace", tr, "--fill", str(f)], 9), env={"MALLOC_PERTURB_": "165"})
    v = vf.build("mem", src, "vg", reg=True)
    c.run("memcheck", v, args=scaled(c, ["--mode", "none", "--slow", "1"], 2),
          wrapper=["valgrind", "-q", "--error-exitcode=99", "--track-origins=yes"])
    c.run("probe", g, shards=1, args=["--mode", "none", "--probe", "1", "--part", "probe"], key_prefix="probe.intoverflow.")
    c.assumptions += ["integer samples are kept so small that the filtered value fits the sample type (the overflowing conversion is the recorded finding)",
                      "overflow from one member of an object into another is only seen through its effect (differential runs), not by the red zones"]
    return c.finish(SEEDED + "a case is one program of public calls (construction in memory with chosen contents, setup with finite and non-finite arguments, filtering of hostile samples, reset, copy, assignment, "
                    "destruction in any order, queries, stage access) on several objects, run under gcc and clang AddressSanitizer+UBSan with guard zones around each object, under valgrind memcheck, and in "
                    "builds that initialise locals with zeros/patterns over memory filled with four different patterns, whose result logs must be identical; non-trivial: every case; distinct: the program and "
                    "its result log")
