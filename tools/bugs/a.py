# ---------------------------------------------------------------- C06
bug("c06-shelf-cache-abs", "C06", [("iir/Butterworth.cpp", "      m_gainDb != gainDb)", "      std::fabs (m_gainDb) != std::fabs (gainDb))")],
r'''int main() {
  Butterworth::LowShelf<4> a, b;
  a.setup(1000, 100, 6); a.setup(1000, 100, -6);
  b.setup(1000, 100, -6);
  expect(std::fabs(dB(a, 0) - dB(b, 0)) < 1e-6, "a cut after a boost of the same size");
  return fails != 0;
}''', "a Butterworth shelf set up with a gain of +g dB and then, with the same order, with -g dB",
"the cached prototype of the boost is used for the cut")
bug("c06-cheb1-normal-stale", "C06", [("iir/ChebyshevI.cpp", "      add (complex_t (sinh_v0, 0), infinity());\n      setNormal (0, 1);", "      add (complex_t (sinh_v0, 0), infinity());")],
r'''int main() {
  ChebyshevI::LowPass<4> a, b;
  a.setup(4, 1000, 100, 3); a.setup(3, 1000, 100, 3);
  b.setup(3, 1000, 100, 3);
  expect(std::fabs(std::abs(a.response(0)) - std::abs(b.response(0))) < 1e-6, "odd order after an even one");
  return fails != 0;
}''', "a Chebyshev I filter set up with an even order first and with an odd order afterwards", "the gain of the even order's design stays")
bug("c06-layout-leftover", "C06", [("iir/Cascade.cpp", "for (int i = 0; i < m_maxStages; ++i, ++stage)", "for (int i = 0; i < m_numStages; ++i, ++stage)")],
r'''int main() {
  Butterworth::LowPass<8> a, b;
  a.setup(8, 1000, 100); a.setup(2, 1000, 100);
  b.setup(2, 1000, 100);
  double m = 0;
  for (int i = 0; i < 50; i++) m = std::fmax(m, std::fabs(a.filter(i ? 0.0 : 1.0) - b.filter(i ? 0.0 : 1.0)));
  Butterworth::LowPass<8> c; c.setup(8, 1000, 100); c.reset();
  expect(m < 1e-9, "order 2 after order 8");
  return fails != 0;
}''', "a filter set up with a high order and again with a lower one", "the sections of the earlier design stay in the signal path although they are not counted")
# ---------------------------------------------------------------- C05
bug("c05-tdf2-reset", "C05", [("iir/State.h", "		m_s2 = 0.0;\n		m_s2_1 = 0.0;\n	}", "		m_s2 = 0.0;\n	}")],
r'''int main() {
  const double m[1][6] = {{0.3, 0.2, 0.9, 1, -0.5, 0.4}};
  Custom::SOSCascade<1, TransposedDirectFormII> a(m), b(m);
  a.filter(1.0); a.filter(0.5); a.reset();
  for (int i = 0; i < 5; i++) expect(a.filter(0.25) == b.filter(0.25), "sample after reset");
  return fails != 0;
}''', "the transposed direct form II, reset in the middle of a stream", "one of the delayed sums survives reset()")
bug("c05-df1-reset-shortcut", "C05", [("iir/State.h", "		m_x1 = 0;\n		m_x2 = 0;", "		if (m_x1 == 0 && m_y1 == 0) return; // nothing to clear\n		m_x1 = 0;\n		m_x2 = 0;")],
r'''int main() {
  const double m[1][6] = {{0, 0, 1, 1, 0, 0.5}};
  Custom::SOSCascade<1, DirectFormI> a(m), b(m);
  a.filter(1.0); a.filter(0.0); a.reset();
  for (int i = 0; i < 5; i++) expect(a.filter(0.0) == b.filter(0.0), "sample after reset");
  return fails != 0;
}''', "direct form I with the last input and output exactly zero but older samples that are not (e.g. a delay)", "reset() returns early and keeps the older samples")
bug("c05-setup-clears", "C05", [("iir/RBJ.h", "		void setup(double sampleRate,\n			   double cutoffFrequency,\n			   double q = ONESQRT2) {\n			setupN(cutoffFrequency / sampleRate, q);", "		void setup(double sampleRate,\n			   double cutoffFrequency,\n			   double q = ONESQRT2) {\n			reset();\n			setupN(cutoffFrequency / sampleRate, q);", 0)],
r'''int main() {
  RBJ::LowPass a, b;
  a.setup(1000, 100); b.setup(1000, 100);
  for (int i = 0; i < 30; i++) { double x = i & 1 ? 0.3 : -1; if (i == 12) a.setup(1000, 100); expect(a.filter(x) == b.filter(x), "re-tuned to the same parameters"); }
  return fails != 0;
}''', "setup with a sampling rate on a running RBJ low pass", "the delay lines are cleared by setup")
# ---------------------------------------------------------------- C04
bug("c04-rbj-float", "C04", [("iir/RBJ.h", "state.filter((double)s,*this)", "state.filter((float)s,*this)")],
r'''int main() {
  RBJ::AllPass a;
  DirectFormI st;
  a.setupN(0.1);
  for (int i = 0; i < 40; i++) { double x = i * 16777217.0 / 3; expect(std::fabs(a.filter(x) - st.filter(x, a)) < 1e-6, "sample is filtered in double precision"); }
  return fails != 0;
}''', "samples with more than 24 significant bits through an RBJ filter", "samples are rounded to float before they are filtered")
bug("c04-tdf2-flush", "C04", [("iir/State.h", "		m_s1_1 = m_s1;\n", "		m_s1_1 = std::fabs (m_s1) < 1e-15 ? 0.0 : m_s1; // no subnormal numbers\n")],
r'''int main() {
  const double m[1][6] = {{1, 0, 0, 1, -0.9, 0}};
  Custom::SOSCascade<1, TransposedDirectFormII> a(m);
  double y = 0;
  for (int i = 0; i < 20; i++) { double x = i ? 0 : 1e-15; y = x + 0.9 * y; expect(std::fabs(a.filter(x) - y) <= 1e-12 * std::fabs(y), "tiny signal"); }
  return fails != 0;
}''', "the transposed direct form II and signals of about 1e-15 and less", "small numbers are cut off: the difference equation no longer holds")
bug("c04-df2-clamp", "C04", [("iir/State.h", "		m_v2 = m_v1;\n		m_v1 = w;", "		m_v2 = m_v1;\n		m_v1 = w > 1e15 ? 1e15 : w;")],
r'''int main() {
  const double m[1][6] = {{1, 0, 0, 1, -1.9, 0.95}};
  Custom::SOSCascade<1, DirectFormII> a(m);
  double y1 = 0, y2 = 0;
  for (int i = 0; i < 40; i++) { double x = i ? 0 : 1e15, y = x + 1.9 * y1 - 0.95 * y2; y2 = y1; y1 = y; expect(std::fabs(a.filter(x) - y) <= 1e-9 * 1e16, "huge signal"); }
  return fails != 0;
}''', "direct form II with values above 1e15 in its delay line", "the delay line saturates on one side")
# ---------------------------------------------------------------- C07
bug("c07-assign-shares", "C07", [("iir/PoleFilter.h", "		PoleFilter& operator=(const PoleFilter&)\n			{", "		PoleFilter& operator=(const PoleFilter& other)\n			{\n				BaseClass::operator=(other);")],
r'''int main() {
  Butterworth::LowPass<4> a, b, c;
  a.setup(1000, 100); b.setup(1000, 200); c.setup(1000, 100);
  b = a; b.setup(1000, 300);
  for (int i = 0; i < 20; i++) expect(a.filter(i ? 0.0 : 1.0) == c.filter(i ? 0.0 : 1.0), "the source of an assignment");
  return fails != 0;
}''', "assignment between pole filters followed by a setup of the target", "the target writes its coefficients into the source's storage")
bug("c07-tdf2-copy", "C07", [("iir/State.h", "	TransposedDirectFormII() = default;", "	TransposedDirectFormII() = default;\n	TransposedDirectFormII(const TransposedDirectFormII& o) : m_s1(o.m_s1), m_s1_1(o.m_s1_1), m_s2(o.m_s2) {}\n	TransposedDirectFormII& operator=(const TransposedDirectFormII&) = default;")],
r'''int main() {
  Butterworth::LowPass<4, TransposedDirectFormII> a;
  a.setup(1000, 100);
  for (int i = 0; i < 10; i++) a.filter(1.0);
  Butterworth::LowPass<4, TransposedDirectFormII> b(a);
  for (int i = 0; i < 10; i++) expect(a.filter(0.5) == b.filter(0.5), "the copy continues the stream");
  return fails != 0;
}''', "copying a running filter with the transposed direct form II", "the copy loses one delayed value")
# ---------------------------------------------------------------- C08
bug("c08-fir-response", "C08", [("iir/Biquad.cpp", "		ct = addmul (ct, b2/a0, czn2);\n		cb = addmul (cb, a1/a0, czn1);\n		cb = addmul (cb, a2/a0, czn2);", "		cb = addmul (cb, a1/a0, czn1);\n		if (a2 != 0) // second order\n		{\n			ct = addmul (ct, b2/a0, czn2);\n			cb = addmul (cb, a2/a0, czn2);\n		}")],
r'''int main() {
  Biquad b; DirectFormI s;
  b.setCoefficients(1, -0.5, 0, 1, 0.3, 0.7);
  complex_t h = 0;
  for (int i = 0; i < 200; i++) h += b.filter(i ? 0.0 : 1.0, s) * std::polar(1., -2 * M_PI * 0.1 * i);
  expect(std::abs(h - b.response(0.1)) < 1e-9, "response of a section with b2 but without a2");
  return fails != 0;
}''', "a section with a2 = 0 and b2 != 0", "the response leaves out b2")
bug("c08-nyquist-rejected", "C08", [("iir/Cascade.cpp", "if (normalizedFrequency > 0.5)", "if (normalizedFrequency >= 0.5)")],
r'''int main() {
  Butterworth::HighPass<4> a;
  a.setup(1000, 100);
  try { expect(std::fabs(std::abs(a.response(0.5)) - 1) < 1e-9, "response at Nyquist"); } catch (...) { expect(false, "response(0.5) is defined"); }
  return fails != 0;
}''', "response of a pole filter at exactly 0.5", "the response at Nyquist is rejected")
# ---------------------------------------------------------------- C09
bug("c09-single-pole-cond", "C09", [("iir/Biquad.cpp", "if (a2 == 0 && b2 == 0)", "if (a2 == 0 || b2 == 0)")],
r'''int main() {
  Biquad b;
  b.setCoefficients(1, -0.5, 0.06, 1, -0.4, 0);
  auto p = b.getPoleZeros()[0].poles;
  expect(std::abs(p.first * p.first - 0.5 * p.first + 0.06) < 1e-9 && std::abs(p.first * p.second - 0.06) < 1e-9, "both poles of a section without b2");
  return fails != 0;
}''', "a section with two poles but one zero (b2 = 0), or two zeros but one pole", "it is reported as a single pole section")
bug("c09-odd-order-count", "C09", [("iir/PoleFilter.h", "const int pairs = (m_digitalProto.getNumPoles () + 1) / 2;", "const int pairs = m_digitalProto.getNumPoles () / 2;")],
r'''int main() {
  Butterworth::LowPass<5> a;
  a.setup(1000, 100);
  expect(a.getPoleZeros().size() == 3, "three pairs for order five");
  return fails != 0;
}''', "poles and zeros of a filter of odd order", "the real pole is missing")
# ---------------------------------------------------------------- C10
# ---------------------------------------------------------------- C11-C13
bug("c11-edge-clamp", "C11", [("iir/PoleFilter.cpp", "	if (wc  > doublePi-1e-8)\n		wc  = doublePi-1e-8;\n	\n	a =     cos", "	if (wc  > doublePi-1e-1)\n		wc  = doublePi-1e-1;\n	\n	a =     cos")],
r'''int main() {
  Butterworth::BandPass<4> a;
  a.setupN(0.4, 0.19);
  expect(std::fabs(dB(a, 0.495) + 3.0103) < 0.01, "-3 dB at the upper band edge");
  return fails != 0;
}''', "a band pass whose upper edge is within 1.6 % of Nyquist", "the edge is moved down")
bug("c11-bandpass-centre", "C11", [("iir/PoleFilter.cpp", "digital.setNormal (2 * atan (sqrt (tan ((wc + wn)* 0.5) * tan((wc2 + wn)* 0.5))),", "digital.setNormal ((wc + wc2) * 0.5 + wn,")],
r'''int main() {
  Butterworth::BandPass<1> a;
  a.setupN(0.3, 0.3);
  expect(std::fabs(dB(a, 0.45) + 3.0103) < 0.001 && std::fabs(dB(a, 0.15) + 3.0103) < 0.001, "-3 dB at the band edges");
  return fails != 0;
}''', "a wide band pass, where the arithmetic and the warped centre differ", "gain is normalised at the wrong frequency")
bug("c12-small-ripple", "C12", [("iir/ChebyshevI.cpp", "    const double eps = std::sqrt (1. / std::exp (-rippleDb * 0.1 * doubleLn10) - 1);\n    const double v0", "    const double x = rippleDb * 0.1 * doubleLn10;\n    const double eps = std::sqrt (x < 0.05 ? x : std::exp (x) - 1); // avoids cancellation\n    const double v0")],
r'''int main() {
  ChebyshevI::LowPass<5> a;
  a.setupN(0.1, 0.2);
  expect(std::fabs(dB(a, 0.1) + 0.2) < 1e-4, "-0.2 dB at the cutoff");
  return fails != 0;
}''', "a ripple below 0.217 dB", "the ripple is up to 2.5 % too small")
bug("c13-high-attenuation", "C13", [("iir/ChebyshevII.cpp", "std::sqrt (1. / (std::exp (stopBandDb * 0.1 * doubleLn10) - 1))", "std::exp (-stopBandDb * 0.05 * doubleLn10)")],
r'''int main() {
  ChebyshevII::LowPass<4> a;
  a.setupN(0.2, 6);
  expect(std::fabs(dB(a, 0.2) + 6) < 1e-3, "-6 dB at the cutoff");
  return fails != 0;
}''', "a stopband attenuation below about 20 dB", "an approximation for high attenuations is used for all")
# ---------------------------------------------------------------- C14
bug("c14-ripple-clamp", "C14", [("iir/ChebyshevI.cpp", "if (rippleDb >= fabs(gainDb))", "if (2 * rippleDb > fabs(gainDb))")],
r'''int main() {
  ChebyshevI::LowShelf<4> a;
  a.setupN(0.1, -6, 3.5);
  expect(std::fabs(std::abs(a.response(0.5)) - 1) < 1e-6 && dB(a, 0.0) < -2.4, "-6 dB with 3.5 dB ripple");
  return fails != 0;
}''', "a Chebyshev I shelf with a ripple between half the gain and the gain", "the ripple is set to the gain")
bug("c14-bw-odd-gain", "C14", [("iir/Butterworth.cpp", "    if (numPoles & 1)\n      add (gp, gz);", "    if (numPoles & 1)\n      add (gp, numPoles > 5 ? -std::fabs (gz) * 1.02 : gz);")],
r'''int main() {
  Butterworth::HighShelf<7> a;
  a.setupN(0.1, 6);
  expect(std::fabs(dB(a, 0.4999) - 6) < 0.05, "6 dB boost at order 7");
  return fails != 0;
}''', "Butterworth shelves of odd order above five", "the real zero is misplaced by 2 %")
# ---------------------------------------------------------------- C15
bug("c15-bandwidth-warp", "C15", [("iir/RBJ.cpp", "sinh( doubleLn2/2 * bandWidth * w0/sn )", "sinh( doubleLn2/2 * bandWidth )")],
r'''int main() {
  RBJ::BandShelf a;
  a.setupN(0.3, 12, 1);
  double w0 = 2 * M_PI * 0.3, AL = std::sin(w0) * std::sinh(std::log(2.) / 2 * w0 / std::sin(w0)), A = std::pow(10, 12 / 40.);
  expect(std::fabs(a.getB0() / a.getA0() - (1 + AL * A) / (1 + AL / A)) < 1e-6, "bandwidth in octaves");
  return fails != 0;
}''', "a band shelf at a frequency which is not far below Nyquist", "the bandwidth is not prewarped")
bug("c15-notch-radius", "C15", [("iir/RBJ.cpp", "double r = exp(-(w0/2) / q_factor);", "double r = 1 - (w0/2) / q_factor;")],
r'''int main() {
  RBJ::IIRNotch a;
  a.setupN(0.2, 1.5);
  expect(std::fabs(std::sqrt(a.getA2() / a.getA0()) - std::exp(-M_PI * 0.2 / 1.5)) < 1e-6, "pole radius of the notch");
  return fails != 0;
}''', "a notch with a low q or at a high frequency", "the pole radius is only right for high q")
# ---------------------------------------------------------------- C16
bug("c16-stage-index", "C16", [("iir/Cascade.h", "(index >= m_numStages)", "(index > m_numStages)")],
r'''int main() {
  Butterworth::LowPass<8> a;
  a.setup(4, 1000, 100);
  expect(throws([&] { a[2].getA0(); }), "stage index behind the last stage");
  return fails != 0;
}''', "asking for the stage with an index equal to the number of stages", "it is not rejected")
bug("c16-pole-conj", "C16", [("iir/Biquad.cpp", "if (zero2 != std::conj (zero1))", "if (zero2.imag() != -zero1.imag())")],
r'''int main() {
  Biquad b;
  expect(throws([&] { b.setTwoPole(complex_t(0.5, 0.2), complex_t(0.3, 0.4), complex_t(0.5, -0.2), complex_t(0.1, -0.4)); }), "zeros which are not conjugate");
  return fails != 0;
}''', "two zeros with opposite imaginary but different real parts", "they are accepted as a conjugate pair")
# ---------------------------------------------------------------- C17
bug("c17-identity-first", "C17", [("iir/Cascade.cpp", "		m_numStages = numStages;\n		Biquad* stage = m_stageArray;\n		for (int i = 0; i < m_maxStages; ++i, ++stage)\n			stage->setIdentity();\n", "		m_numStages = numStages;\n"), ("iir/Cascade.cpp", "		stage = m_stageArray;\n		for (int i = 0; i < m_numStages; ++i, ++stage)", "		Biquad* stage = m_stageArray;\n		for (int i = 0; i < m_numStages; ++i, ++stage)"),
 ("iir/Cascade.cpp", "		// Dry run:", "		for (int i = 0; i < m_maxStages; ++i)\n			m_stageArray[i].setIdentity();\n\n		// Dry run:")],
"""int main() {
  Butterworth::LowShelf<4> a, b;
  a.setup(1000, 100, 6); b.setup(1000, 100, 6);
  expect(throws([&] { a.setup(1000, 100, 3000); }), "rejected");
  for (int i = 0; i < 20; i++) expect(a.filter(1.0) == b.filter(1.0), "stream after a rejected setup");
  return fails != 0;
}""", "a setup call which is rejected only because the finished design can not be normalised (e.g. an absurd gain)", "the running filter becomes pass-through")
# ---------------------------------------------------------------- C18
bug("c18-float-rate", "C18", [("iir/ChebyshevII.h", "centerFrequency / sampleRate", "(float)(centerFrequency / sampleRate)", 0)],
r'''int main() {
  ChebyshevII::BandPass<4> a, b;
  a.setup(44100, 1000, 300, 30); b.setupN(1000 / 44100., 300 / 44100., 30);
  expect(std::fabs(a[0].getA1() - b[0].getA1()) < 1e-12, "same design through both overloads");
  return fails != 0;
}''', "the overload with sampling rate and without order, with a ratio that float can not represent", "the ratio is rounded to float")
# ---------------------------------------------------------------- C19
bug("c19-exit", "C19", [("iir/Common.h", "    abort();", "    exit(EXIT_FAILURE);")],
r'''//full
#include "Iir.h"
#include <sys/wait.h>
#include <unistd.h>
int main() {
  pid_t p = fork();
  if (!p) { Iir::Butterworth::LowPass<4> a; a.setup(1000, 600); _exit(0); }
  int st = 0; waitpid(p, &st, 0);
  return WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT ? 0 : 1;
}''', "the build without exceptions and an invalid setup", "the process ends with exit() instead of abort()", "-DIIR1_NO_EXCEPTIONS -fno-exceptions")
# ---------------------------------------------------------------- C20
bug("c20-order", "C20", [("iir/Cascade.h", "                for (const auto &stage: m_stages)\n                        out = (state++)->filter(out, stage);", "                for (int i = MaxStages - 1; i >= 0; --i)\n                        out = state[i].filter(out, m_stages[i]);")],
r'''int main() {
  const double m[2][6] = {{1e200, 0, 0, 1, 0, 0}, {1e-200, 0, 0, 1, 0, 0}};
  Custom::SOSCascade<2> a(m);
  expect(std::fabs(a.filter(1e-150) / 1e-150 - 1) < 1e-9, "sections in the given order");
  return fails != 0;
}''', "a custom cascade where the order of the sections matters (an intermediate result over- or underflows)", "the sections are run in reverse order")
bug("c20-zero-angle", "C20", [("iir/Custom.cpp", "std::conj(pole), std::conj(zero)", "std::conj(pole), poleTheta == zeroTheta ? std::conj(pole) * (zeroRho / poleRho) : std::conj(zero)")],
r'''int main() {
  Custom::TwoPole a;
  bool t = false;
  try { a.setup(1, 0, 0.5, 0.9, 0.5); } catch (...) { t = true; }
  expect(!t && std::fabs(a.getB2() - 0.81) < 1e-9, "pole in the origin");
  return fails != 0;
}''', "a two-pole section with the pole in the origin and the same angle for pole and zero", "division by zero")
# ---------------------------------------------------------------- C21
bug("c21-a0-near-one", "C21", [("iir/Biquad.cpp", "		m_a1 = a1/a0;\n		m_a2 = a2/a0;\n", "		if (std::fabs (a0 - 1) < 1e-3) a0 = 1; // already normalised\n		m_a1 = a1/a0;\n		m_a2 = a2/a0;\n")],
r'''int main() {
  Biquad b;
  b.setCoefficients(1.0005, 0.5, 0.25, 1, 2, 3);
  expect(b.getA0() == 1.0005 && std::fabs(b.m_b0 - 1 / 1.0005) < 1e-12, "a0 close to one");
  return fails != 0;
}''', "an a0 that differs from one by less than 0.001", "the section is not normalised")
bug("c21-scale-zero-b1", "C21", [("iir/Biquad.cpp", "		m_b1 *= scale;\n		m_b2 *= scale;", "		if (m_b2 == 0) { m_b1 *= std::fabs (scale); return; }\n		m_b1 *= scale;\n		m_b2 *= scale;")],
r'''int main() {
  Biquad b;
  b.setCoefficients(1, 0.5, 0, 1, 2, 0);
  b.applyScale(-2);
  expect(b.getB1() == -4, "negative scale on a first order section");
  return fails != 0;
}''', "scaling a first order section with a negative factor", "b1 gets the wrong sign")
# ---------------------------------------------------------------- C01
bug("c01-tdf2-uninit", "C01", [("iir/State.h", "	TransposedDirectFormII() = default;", "	TransposedDirectFormII() {}"), ("iir/State.h", "	double m_s2_1 = 0.0;", "	double m_s2_1;")],
r'''#include <cstring>
#include <new>
int main() {
  alignas(16) static unsigned char mem[sizeof(Custom::SOSCascade<1, TransposedDirectFormII>)];
  std::memset(mem, 0x55, sizeof mem);
  auto* f = new (mem) Custom::SOSCascade<1, TransposedDirectFormII>;
  f->filter(0.0);
  double y = f->filter(0.0);
  expect(y == 0, "a fresh cascade in memory with other contents");
  return fails != 0;
}''', "a custom cascade with the transposed form in memory that held something else", "a delay line is read before anything was written to it", "-O0 -fno-lifetime-dse")
# ---------------------------------------------------------------- C02
bug("c02-response-heap", "C02", [("iir/Cascade.cpp", "		complex_t ch (1);\n\n		const Biquad* stage", "		std::vector<complex_t> top (m_numStages > 8 ? (size_t)m_numStages : 0, complex_t (1));\n		complex_t ch (top.empty () ? complex_t (1) : top[0]);\n\n		const Biquad* stage")],
r'''#include <cstdlib>
#include <new>
static long news = 0;
void* operator new(std::size_t n) { news++; return std::malloc(n); }
void operator delete(void* p) noexcept { std::free(p); }
void operator delete(void* p, std::size_t) noexcept { std::free(p); }
int main() {
  static Butterworth::LowPass<20> a;
  a.setup(1000, 100);
  long n = news; a.response(0.1);
  expect(news == n, "no allocation in response()");
  return fails != 0;
}''', "the response of a filter with more than eight sections", "it allocates memory")
bug("c02-periodic-scan", "C02", [("iir/Cascade.h", "                double out = in;\n                StateType* state = m_states;", "                double out = in;\n                if (!(++m_samples & 0xffff)) settle ();\n                StateType* state = m_states;"), ("iir/Cascade.h", "        StateType m_states[MaxStages] = {};", "        // looks for sections which have settled\n        void settle ()\n        {\n                int n = 0;\n                for (int k = 0; k < 2000; k++)\n                        for (const auto &stage: m_stages) n += stage.m_a0 > k;\n                m_samples += n < 0;\n        }\n        StateType m_states[MaxStages] = {};\n        unsigned m_samples = 0;")],
r'''int main() {
  // the demonstration counts executed loop rounds through the time stamp counter: the slowest of many runs of one sample
  Custom::SOSCascade<8> a;
  double worst = 0;
  for (int rep = 0; rep < 6; rep++) {
    double best = 1e99;
    for (int again = 0; again < 1; again++) {
      for (long k = 0; k < 65536; k++) {
        unsigned long t = __builtin_ia32_rdtsc();
        a.filter(0.5);
        t = __builtin_ia32_rdtsc() - t;
        if (k == 65535 && t < best) best = (double)t;
      }
    }
    worst = rep ? std::fmin(worst, best) : best;
  }
  std::printf("sample 65536: %g cycles\n", worst);
  expect(worst < 4000, "sample 65536 costs as much as the others");
  return fails != 0;
}''', "streams of 65536 samples and more", "every 65536th sample does a long scan")
bug("c02-static-guard", "C02", [("iir/RBJ.cpp", "		double A  = pow (10, gainDb/40);\n		double w0 = 2 * doublePi * centerFrequency;", "		static const double first = gainDb;\n		double A  = pow (10, (first == gainDb ? first : gainDb)/40);\n		double w0 = 2 * doublePi * centerFrequency;")],
r'''#include <cxxabi.h>
static long guards = 0;
extern "C" int __cxa_guard_acquire(__cxxabiv1::__guard* g) { guards++; return !*(char*)g; }
extern "C" void __cxa_guard_release(__cxxabiv1::__guard* g) noexcept { *(char*)g = 1; }
int main() {
  RBJ::BandShelf a;
  long n = guards;
  a.setup(1000, 100, 6, 1);
  expect(guards == n, "no lock in setup");
  return fails != 0;
}''', "the first design of an RBJ band shelf in the process", "a function-local static is initialised under a lock")
# ---------------------------------------------------------------- C03
bug("c03-static-cache", "C03", [("iir/ChebyshevI.cpp", "    const double v0 = asinh (1 / eps) / numPoles;", "    static double lastEps = -1, lastAsinh = 0;\n    if (lastEps != eps)\n    {\n      lastEps = eps;\n      lastAsinh = asinh (1 / eps);\n    }\n    const double v0 = lastAsinh / numPoles;")],
r'''#include <thread>
int main() {
  auto run = [](double r0, std::vector<double>& out) { for (int k = 0; k < 60000; k++) { ChebyshevI::LowPass<3> f; f.setupN(0.1, k & 1 ? r0 : r0 + 0.5); out.push_back(f[0].getA1()); } };
  std::vector<double> a, b, c, d;
  for (int rep = 0; rep < 20 && !fails; rep++) {
    a.clear(); b.clear(); c.clear(); d.clear();
    std::thread t1([&] { run(1, a); }), t2([&] { run(3, b); });
    t1.join(); t2.join();
    run(1, c); run(3, d);
    expect(a == c && b == d, "designs in two threads");
  }
  return fails != 0;
}''', "two threads designing Chebyshev I filters at the same time", "a static cache is updated without synchronisation: one thread gets the other's prototype")
bug("c03-static-scratch", "C03", [("iir/Cascade.h", "                double out = in;\n                StateType* state = m_states;", "                static double out;\n                out = in;\n                StateType* state = m_states;")],
r'''#include <thread>
int main() {
  auto run = [](double g, double& sum) { const double m[4][6] = {{g, 0, 0, 1, 0, 0}, {1, 0, 0, 1, 0, 0}, {1, 0, 0, 1, 0, 0}, {1, 0, 0, 1, 0, 0}}; Custom::SOSCascade<4> f(m); for (int k = 0; k < 3000000; k++) sum += f.filter(1.0); };
  double a = 0, b = 0;
  for (int rep = 0; rep < 10 && !fails; rep++) {
    a = b = 0;
    std::thread t1([&] { run(1, a); }), t2([&] { run(3, b); });
    t1.join(); t2.join();
    expect(a == 3000000 && b == 9000000, "streams in two threads");
  }
  return fails != 0;
}''', "two threads filtering with different filters at the same time", "the intermediate result is a static variable", "-O0")

bug("c10-df1-deadband", "C10", [("iir/State.h", "		m_x1 = in;\n		m_y1 = out;", "		m_x1 = in;\n		m_y1 = std::fabs (out) < 1e-30 ? std::copysign (1e-30, out) : out; // keeps subnormal numbers away")],
r"""int main() {
  RBJ::LowPass a;
  a.setup(1000, 10);
  double y = 0;
  for (int i = 0; i < 100000; i++) y = a.filter(i ? 0.0 : 1.0);
  expect(std::fabs(y) < 1e-60, "decay to zero");
  return fails != 0;
}""", "the tail of a direct form I filter below 1e-30", "the delay line never gets below 1e-30: the output does not decay to zero")
bug("c16-low-rejected", "C16", [("iir/PoleFilter.cpp", "	if (fc < 0.0) throw_invalid_argument(cutoffNeg);\n	\n	digital.reset ();\n	\n	// prewarp\n	f = 1. / tan", "	if (fc < 1e-5) throw_invalid_argument(cutoffNeg);\n	\n	digital.reset ();\n	\n	// prewarp\n	f = 1. / tan")],
r"""int main() {
  Butterworth::HighPass<2> a;
  expect(!throws([&] { a.setup(48000, 0.1); }), "0.1 Hz high pass at 48 kHz");
  return fails != 0;
}""", "a high pass with a cutoff below 1e-5 of the sampling rate", "a valid setup is rejected")
bug("c01-proto-uninit", "C01", [("iir/ChebyshevI.h", "	int m_numPoles = 0;\n	double m_rippleDb = 0.0;\n	double m_gainDb = 0.0;", "	int m_numPoles;\n	double m_rippleDb;\n	double m_gainDb;")],
r"""#include <cstring>
#include <new>
int main() {
  typedef ChebyshevI::LowShelf<4> F;
  alignas(16) static unsigned char mem[sizeof(F)];
  F* a = new (mem) F;
  a->setup(1000, 100, 6, 1);
  double h = std::abs(a->response(0));
  a->~F();
  F* b = new (mem) F;     // where an equal filter lived before
  b->setup(1000, 100, 6, 1);
  expect(std::fabs(std::abs(b->response(0)) - h) < 1e-9, "a filter in memory of an earlier one");
  return fails != 0;
}""", "a Chebyshev I shelf constructed in the memory of an equal one", "the cached parameters are not initialised: the stale ones look valid and no pole is designed", "-O0 -fno-lifetime-dse")
