# second round: bugs that need a special value, order, gain, angle, or a second site
bug("c04-tdf2-zero-skip", "C04", [("iir/State.h", "		const double out = m_s1_1 + s.m_b0*in;", "		if (in == 0 && m_s1_1 == 0 && s.m_a2 == 0) return 0; // nothing to do\n		const double out = m_s1_1 + s.m_b0*in;")],
r'''int main() {
  const double sos[1][6] = {{0, 0, 1, 1, 0, 0}};
  Custom::SOSCascade<1, TransposedDirectFormII> f(sos);
  double y[4]; for (int i = 0; i < 4; i++) y[i] = f.filter(i ? 0.0 : 1.0);
  expect(y[2] == 1, "a delay by two samples");
  return fails != 0;
}''', "a transposed section without a2, an input sample of exactly zero and a first delay element of exactly zero while the second one is not",
"the section stops shifting its delay line")
bug("c06-ripple-tolerance", "C06", [("iir/ChebyshevI.cpp", "      m_rippleDb != rippleDb)\n", "      std::fabs (m_rippleDb - rippleDb) > 1e-4)\n")],
r'''int main() {
  ChebyshevI::LowPass<4> a, b;
  a.setup(1000, 100, 0.00015); a.setup(1000, 100, 0.0001);
  b.setup(1000, 100, 0.0001);
  expect(std::fabs(dB(a, 0.1) - dB(b, 0.1)) < 1e-7, "another ripple");
  return fails != 0;
}''', "two setups with the same order whose ripples differ by less than 1e-4 dB", "the design of the earlier ripple stays")
bug("c06-cheb2-sum-key", "C06", [("iir/ChebyshevII.cpp", "      m_stopBandDb != stopBandDb ||\n      m_gainDb != gainDb)", "      m_stopBandDb + m_gainDb != stopBandDb + gainDb)")],
r'''int main() {
  ChebyshevII::HighShelf<4> a, b;
  a.setup(1000, 100, 10, 2); a.setup(1000, 100, 9, 3);
  b.setup(1000, 100, 9, 3);
  expect(std::fabs(dB(a, 0.5) - dB(b, 0.5)) < 1e-6, "gain and ripple changed in opposite directions");
  return fails != 0;
}''', "a Chebyshev II shelf whose gain and ripple change so that their sum stays the same", "the earlier design stays")
bug("c07-last-state", "C07", [("iir/Cascade.h", "	CascadeStages() = default;\n", "	CascadeStages() = default;\n	CascadeStages(const CascadeStages& o) {\n		for (int i = 0; i < MaxStages; i++) m_stages[i] = o.m_stages[i];\n		for (int i = 0; i < (MaxStages < 6 ? MaxStages : MaxStages - 1); i++) m_states[i] = o.m_states[i];\n	}\n	CascadeStages& operator=(const CascadeStages&) = default;\n")],
r'''int main() {
  Butterworth::LowPass<12> a; a.setup(1000, 100);
  for (int i = 0; i < 20; i++) a.filter(1.0);
  Butterworth::LowPass<12> b(a);
  for (int i = 0; i < 20; i++) expect(a.filter(1.0) == b.filter(1.0), "the copy continues the stream");
  return fails != 0;
}''', "a copy of a running cascade with six or more sections", "the last section of the copy starts with empty delay lines")
bug("c08-response-dc", "C08", [("iir/Biquad.cpp", "		const double w = 2 * doublePi * normalizedFrequency;\n		const complex_t czn1 = std::polar (1., -w);", "		if (normalizedFrequency == 0.5)\n			return complex_t ((b0 - b1 + b2) / (1 - a1 / a0 + a2 / a0));\n		const double w = 2 * doublePi * normalizedFrequency;\n		const complex_t czn1 = std::polar (1., -w);")],
r'''int main() {
  RBJ::HighPass f; f.setup(1000, 100, 0.6);
  expect(std::abs(f.response(0.5) - f.response(0.4999999)) < 1e-3, "response at Nyquist");
  return fails != 0;
}''', "response() of a single section at exactly 0.5 when a0 is not 1", "the numerator isn't normalised by a0")
bug("c08-deep-stop", "C08", [("iir/Cascade.cpp", "			complex_t cb (1);\n			complex_t ct    (stage->getB0()", "			if (std::norm (ch) < 1e-12) break; // nothing left\n			complex_t cb (1.);\n			complex_t ct    (stage->getB0()")],
r'''int main() {
  Butterworth::LowPass<8> f; f.setup(1000, 10);
  complex_t p = 1; for (int i = 0; i < f.getNumStages(); i++) p *= f[i].response(0.2);
  expect(std::abs(f.response(0.2) / p - 1.) < 1e-9, "product of the sections");
  return fails != 0;
}''', "a frequency where the first sections together already attenuate by more than 120 dB", "the remaining sections are left out of the response")
bug("c09-near-double", "C09", [("iir/Biquad.cpp", "				const complex_t c = sqrt (complex_t (a1 * a1 - 4 * a0 * a2, 0));", "				const double disc = a1 * a1 - 4 * a0 * a2;\n				const complex_t c = sqrt (complex_t (std::fabs (disc) < 1e-5 ? 0. : disc, 0));")],
r'''int main() {
  Biquad b; b.setCoefficients(1, -1.0, 0.25 + 1e-6, 1, 0.5, 0.1);
  PoleZeroPair p = b.getPoleZeros()[0];
  complex_t z = p.poles.first;
  expect(std::abs(z * z - z + (0.25 + 1e-6)) < 1e-12, "the pole is a root of the denominator");
  return fails != 0;
}''', "a section whose two poles lie very close to each other (or close to the origin)", "a double real pole is reported")
bug("c10-state-grid", "C10", [("iir/State.h", "		m_s1_1 = m_s1;\n", "		m_s1_1 = std::fabs (m_s1) < 1e-4 ? std::nearbyint (m_s1 * 0x1p62) * 0x1p-62 : m_s1; // no subnormal numbers\n")],
r'''int main() {
  Butterworth::LowPass<2, TransposedDirectFormII> f; f.setup(10000, 100);
  double y = 0;
  for (int i = 0; i < 200000; i++) y = std::fabs(f.filter(i < 10 ? 1.0 : 0.0));
  for (int i = 0; i < 1000; i++) y = std::fmax(y, std::fabs(f.filter(0.0)));
  expect(y < 1e-30, "decays to zero");
  return fails != 0;
}''', "a transposed direct form II filter with poles close to the unit circle, thousands of samples after the end of the input", "a limit cycle instead of decay to zero")
bug("c11-narrow-band", "C11", [("iir/PoleFilter.cpp", "	b = 1 / tan ((wc - wc2) * 0.5);", "	b = std::min (200., 1 / tan ((wc - wc2) * 0.5));")],
r'''int main() {
  Butterworth::BandPass<2> f; f.setup(1000, 100, 0.8);
  expect(std::fabs(dB(f, 0.1004) + 3.0103) < 0.05, "-3 dB at the upper edge");
  return fails != 0;
}''', "a band pass narrower than a sixth of a percent of the sampling rate", "the band is wider than requested")
bug("c11-bandstop-wide-odd", "C11", [("iir/PoleFilter.cpp", "		ComplexPair poles = transform (analog[pairs].poles.first);\n		ComplexPair zeros = transform (analog[pairs].zeros.first);\n		\n		digital.add (poles, zeros);\n	}\n	\n	if (fc < 0.25)", "		ComplexPair poles = transform (analog[pairs].poles.first);\n		ComplexPair zeros = transform (analog[pairs].zeros.first);\n		\n		digital.addPoleZeroConjugatePairs (poles.first, zeros.first);\n	}\n	\n	if (fc < 0.25)")],
r'''int main() {
  Butterworth::BandStop<3> f; f.setup(1000, 250, 400);
  expect(std::fabs(dB(f, 0.05) + 3.0103) < 0.05, "-3 dB at the lower edge");
  expect(std::fabs(dB(f, 0.45) + 3.0103) < 0.05, "-3 dB at the upper edge");
  return fails != 0;
}''', "an odd order and a stop band so wide that its odd section has two real poles", "both real poles collapse into one")
bug("c12-asinh-large", "C12", [("iir/ChebyshevI.cpp", "    const double v0 = asinh (1 / eps) / numPoles;", "    const double v0 = (eps < 0.1 ? std::log (2 / eps) : asinh (1 / eps)) / numPoles;")],
r'''int main() {
  ChebyshevI::LowPass<3> f; f.setup(1000, 100, 0.04);
  expect(std::fabs(dB(f, 0.1) + 0.04) < 1e-6, "ripple at the cutoff");
  return fails != 0;
}''', "a ripple below 0.04 dB", "the ripple is a little off")
bug("c13-high-order-zero", "C13", [("iir/ChebyshevII.cpp", "      const double im = 1 / cos (k * fn);", "      const double im = std::min (1 / cos (k * fn), 8.);")],
r'''int main() {
  ChebyshevII::LowPass<14> f; f.setup(1000, 60, 40);
  double worst = -200; for (double x = 0.0601; x < 0.5; x += 0.0005) worst = std::fmax(worst, dB(f, x));
  expect(worst < -39.99, "stop band");
  expect(std::fabs(dB(f, 0.06) + 40) < 1e-3, "edge");
  return fails != 0;
}''', "an order of 14 or 16", "the outermost zero is moved")
bug("c14-gain-limit", "C14", [("iir/Butterworth.cpp", "    const double g = pow (pow (10., gainDb/20), 1. / n2);", "    const double g = pow (pow (10., std::max (gainDb, -26.)/20), 1. / n2);")],
r'''int main() {
  Butterworth::BandShelf<2> f; f.setup(1000, 100, 40, -30);
  double m = 0; for (double x = 0.08; x < 0.12; x += 0.001) m = std::fmin(m, dB(f, x));
  expect(m < -29.9, "depth of the cut");
  return fails != 0;
}''', "a cut of more than 26 dB", "the cut is limited")
bug("c15-steep-shelf", "C15", [("iir/RBJ.cpp", "		double AL = sn / 2 * ::std::sqrt ((A + 1/A) * (1/shelfSlope - 1) + 2);\n		double sq = 2 * sqrt(A) * AL;\n		double b0 =    A*( (A+1) + (A-1)*cs + sq );", "		double AL = sn / 2 * ::std::sqrt ((A + 1/A) * (shelfSlope > 1 ? 0. : 1/shelfSlope - 1) + 2);\n		double sq = 2 * sqrt(A) * AL;\n		double b0 =    A*( (A+1) + (A-1)*cs + sq );")],
r'''int main() {
  RBJ::HighShelf a, b; a.setup(1000, 100, 6, 1.5); b.setup(1000, 100, 6, 1);
  expect(std::fabs(dB(a, 0.08) - dB(b, 0.08)) > 1e-3, "slope above one");
  return fails != 0;
}''', "a high shelf with a slope above one", "the slope is limited to one")
bug("c16-bandstop-negative", "C16", [("iir/PoleFilter.cpp", "	if (fc < 0.0) throw_invalid_argument(cutoffNeg);\n	if (!(fw > 0.0)) throw_invalid_argument(widthNotPos);\n\n	digital.reset ();\n	\n	const double ww = 2 * doublePi * fw;\n	\n	wc2 = 2 * doublePi * fc - (ww / 2);\n	wc  = wc2 + ww;\n	\n	// this is crap", "	if (fc + fw / 2 < 0.0) throw_invalid_argument(cutoffNeg);\n	if (!(fw > 0.0)) throw_invalid_argument(widthNotPos);\n\n	digital.reset ();\n	\n	const double ww = 2 * doublePi * fw;\n	\n	wc2 = 2 * doublePi * fc - (ww / 2);\n	wc  = wc2 + ww;\n	\n	// this is crap")],
r'''int main() {
  Butterworth::BandStop<2> f;
  expect(throws([&] { f.setup(1000, -10, 100); }), "negative centre frequency");
  return fails != 0;
}''', "a band stop with a negative centre frequency whose upper edge is positive", "it is accepted")
bug("c16-bandstop-storage", "C16", [("iir/ChebyshevI.h", "	struct BandStop : PoleFilter <BandStopBase, StateType, FilterOrder, FilterOrder*2>", "	struct BandStop : PoleFilter <BandStopBase, StateType, FilterOrder, FilterOrder*2 - (FilterOrder > 12 ? 1 : 0)>")],
r'''int main() {
  ChebyshevI::BandStop<13> f;
  bool t = throws([&] { f.setup(1000, 200, 100, 1); });
  double s = 0; if (!t) for (int i = 0; i < 50; i++) s += f.filter(1.0);
  expect(!t && std::isfinite(s), "highest order is accepted");
  return fails != 0;
}''', "a band stop template with an order above 12 used with its full order", "its storage is one pole too small")
bug("c16-row-a0", "C16", [("iir/Cascade.h", "                                sosCoefficients[i][3],\n", "                                sosCoefficients[i][3] == 0 ? 1. : sosCoefficients[i][3],\n")],
r'''int main() {
  const double sos[2][6] = {{1, 0, 0, 1, 0.5, 0}, {1, 0, 0, 0, 0.5, 0}};
  Custom::SOSCascade<2> f;
  expect(throws([&] { f.setup(sos); }), "a0 of zero");
  return fails != 0;
}''', "a row of an SOS matrix with a0 = 0", "it is accepted as if a0 were one")
bug("c18-order-ignored", "C18", [("iir/ChebyshevI.h", "			if (reqOrder > FilterOrder) throw_invalid_argument(orderTooHigh);\n			BandShelfBase::setup (reqOrder,\n					      centerFrequency,", "			if (reqOrder > FilterOrder) throw_invalid_argument(orderTooHigh);\n			BandShelfBase::setup (FilterOrder,\n					      centerFrequency,")],
r'''int main() {
  ChebyshevI::BandShelf<4> a, b; a.setup(2, 1000, 100, 30, 6, 1); b.setupN(2, 0.1, 0.03, 6, 1);
  expect(a.getNumStages() == b.getNumStages(), "same order");
  return fails != 0;
}''', "the overload with normalised frequencies and an order below the template's", "the requested order is ignored")
bug("c18-slope-default", "C18", [("iir/RBJ.h", "			    double shelfSlope = 1) {", "			    double shelfSlope = ONESQRT2) {", 1)],
r'''int main() {
  RBJ::HighShelf a, b; a.setup(1000, 100, 6); b.setup(1000, 100, 6, 1);
  expect(std::fabs(dB(a, 0.08) - dB(b, 0.08)) < 1e-9, "default slope");
  return fails != 0;
}''', "a high shelf set up with a sampling rate and without a slope", "another default slope")
bug("c19-response-clamp", "C19", [("iir/Cascade.cpp", "		if (normalizedFrequency > 0.5) throw_invalid_argument(maxFError);", "#ifdef IIR1_NO_EXCEPTIONS\n		if (normalizedFrequency > 0.5) normalizedFrequency = 0.5;\n#else\n		if (normalizedFrequency > 0.5) throw_invalid_argument(maxFError);\n#endif")],
r'''//full
#include "Iir.h"
#include <sys/wait.h>
#include <unistd.h>
#include <cstdio>
int main() {
  pid_t p = fork();
  if (!p) { Iir::Butterworth::LowPass<2> f; f.setup(1000, 100); f.response(0.7); _exit(0); }
  int st = 0; waitpid(p, &st, 0);
  bool ok = WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT;
  if (!ok) std::printf("FAILED: no abort\n");
  return !ok;
}''', "the build without exceptions and a response at a frequency above 0.5", "the call returns instead of ending the process", flags="-DIIR1_NO_EXCEPTIONS -fno-exceptions")
bug("c19-direct-throw", "C19", [("iir/Layout.h", "				throw_invalid_argument(pairIndexOutOfBounds);", "				throw std::invalid_argument(pairIndexOutOfBounds);")],
r'''//full
#include "Iir.h"
int main() { Iir::Butterworth::LowPass<2> f; f.setup(1000, 100); return f.filter(0.0) != 0; }
''', "a build with -fno-exceptions", "the headers do not compile any more", flags="-DIIR1_NO_EXCEPTIONS -fno-exceptions")
bug("c20-angle-half-turn", "C20", [("iir/Custom.cpp", "  setTwoPole (pole, zero, std::conj(pole), std::conj(zero));", "  if (zeroRho < 0) // behind the origin: on the real axis\n    zero = zero.real ();\n  setTwoPole (pole, zero, std::conj(pole), std::conj(zero));")],
r'''int main() {
  Custom::TwoPole f; f.setup(1, 0.5, 0.3, -0.8, 1.0);
  expect(std::fabs(f.getB2() - 0.64) < 1e-9, "numerator with a negative radius");
  return fails != 0;
}''', "a two-pole section with a negative zero radius", "the zeros are put on the real axis")
bug("c21-negative-a0", "C21", [("iir/Biquad.h", "	double getB2 () const { return m_b2*m_a0; }", "	double getB2 () const { return m_b2*std::fabs (m_a0); }")],
r'''int main() {
  Biquad b; b.setCoefficients(-2, 0.5, 0.25, 1, 2, 3);
  expect(std::fabs(b.getB2() - 3) < 1e-12, "b2");
  return fails != 0;
}''', "a section with a negative a0", "b2 reads back with the wrong sign")
bug("c02-nan-warning", "C02", [("iir/Cascade.h", "                return static_cast<Sample> (out);", "                if (out != out) std::perror (\"NaN\");\n                return static_cast<Sample> (out);"), ("iir/Cascade.h", "#include \"MathSupplement.h\"\n", "#include \"MathSupplement.h\"\n#include <cstdio>\n")],
r'''//full
#include "Iir.h"
#include <unistd.h>
#include <fcntl.h>
#include <cstdio>
int main() {
  char name[] = "/tmp/c02demoXXXXXX"; int fd = mkstemp(name); unlink(name);
  dup2(fd, 2);
  Iir::Butterworth::LowPass<2> f; f.setup(1000, 100); f.filter(NAN);
  bool ok = lseek(2, 0, SEEK_END) == 0;
  if (!ok) std::printf("FAILED: filter() wrote to stderr\n");
  return !ok;
}''', "a sample which makes the output NaN", "filter() prints a message: a lock and a system call in the real-time path")
bug("c03-rbj-race", "C03", [("iir/RBJ.cpp", "		double A  = pow (10, gainDb/40);\n		double w0 = 2 * doublePi * centerFrequency;", "		static double lastGain = 0, lastA = 1; // pow is slow\n		if (gainDb != lastGain)\n		{\n			lastGain = gainDb;\n			lastA = pow (10, gainDb/40);\n		}\n		double A  = lastA;\n		double w0 = 2 * doublePi * centerFrequency;")],
r'''//full
#include "Iir.h"
#include <thread>
#include <atomic>
#include <cstdio>
using namespace Iir;
int main() {
  std::atomic<int> bad(0);
  auto run = [&](double g) {
    RBJ::BandShelf ref; ref.setup(1000, 100, g, 1);
    double want = std::pow(10, g / 20);
    for (int i = 0; i < 3000000 && !bad; i++) { RBJ::BandShelf f; f.setup(1000, 100, g, 1); if (std::fabs((f.getB0() + f.getB2()) / (f.getA0() + f.getA2()) - 1) > 1e-9 || std::fabs((f.getB0() - f.getB2()) / (f.getA0() - f.getA2()) / want - 1) > 1e-6) bad++; }
  };
  std::thread a(run, 6.), b(run, -12.), c(run, 3.);
  a.join(); b.join(); c.join();
  if (bad) std::printf("FAILED: designs in different threads influence each other\n");
  return bad != 0;
}''', "band shelves with different gains designed in several threads at the same time", "a data race on a shared cache, wrong gains")
bug("c05-order-change-resets", "C05", [("iir/Butterworth.h", "		if (reqOrder > FilterOrder) throw_invalid_argument(orderTooHigh);\n		LowPassBase::setup (reqOrder,\n				    cutoffFrequency / sampleRate);", "		if (reqOrder > FilterOrder) throw_invalid_argument(orderTooHigh);\n		if ((reqOrder + 1) / 2 != this->getNumStages ()) this->reset ();\n		LowPassBase::setup (reqOrder,\n				    cutoffFrequency / sampleRate);")],
r'''int main() {
  Butterworth::LowPass<4> a, b; a.setup(4, 1000, 10); b.setup(4, 1000, 10);
  for (int i = 0; i < 200; i++) { a.filter(1.0); b.filter(1.0); }
  a.setup(2, 1000, 10); a.setup(4, 1000, 10);
  for (int i = 0; i < 5; i++) expect(a.filter(1.0) == b.filter(1.0), "delay lines are kept");
  return fails != 0;
}''', "a running filter re-tuned to an order with another number of sections", "the delay lines are cleared")
bug("c17-order-resets", "C17", [("iir/ChebyshevII.h", "		if (reqOrder > FilterOrder) throw_invalid_argument(orderTooHigh);\n		BandStopBase::setup (reqOrder,\n				     centerFrequency,", "		if (reqOrder > FilterOrder) { this->reset (); throw_invalid_argument(orderTooHigh); }\n		BandStopBase::setup (reqOrder,\n				     centerFrequency,")],
r'''int main() {
  ChebyshevII::BandStop<4> a, b; a.setup(1000, 100, 30, 40); b.setup(1000, 100, 30, 40);
  for (int i = 0; i < 20; i++) { a.filter(1.0); b.filter(1.0); }
  expect(throws([&] { a.setupN(5, 0.1, 0.03, 40); }), "rejected");
  for (int i = 0; i < 5; i++) expect(a.filter(1.0) == b.filter(1.0), "stream");
  return fails != 0;
}''', "one overload of one class called with an order that is too high while the filter is running", "the delay lines are cleared although the call is rejected")
bug("c17-half-stored", "C17", [("iir/Cascade.h", "                                sosCoefficients[i][2]);\n", "                                sosCoefficients[i][2]);\n                        if (MaxStages > 6 && i + 1 < MaxStages) m_stages[i] = stages[i];\n")],
r'''int main() {
  double sos[8][6]; for (auto& r : sos) { r[0] = 1; r[1] = 0.1; r[2] = 0; r[3] = 1; r[4] = -0.5; r[5] = 0; }
  Custom::SOSCascade<8> a(sos), b(sos);
  for (auto& r : sos) r[0] = 2;
  sos[7][1] = NAN;
  expect(throws([&] { a.setup(sos); }), "rejected");
  for (int i = 0; i < 20; i++) expect(a.filter(1.0) == b.filter(1.0), "stream");
  return fails != 0;
}''', "a cascade of more than six sections and a matrix whose invalid row is not the first", "the rows before the invalid one are already in use")
