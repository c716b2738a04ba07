# third round: written from the statements, looking for triggers nothing so far used
bug("c06-static-table", "C06", [("iir/Butterworth.cpp", "AnalogLowPass::AnalogLowPass ()", "// angles of the poles, filled once when the library is loaded\nstatic struct Angles\n{\n  double phi[33][17];\n  Angles ()\n  {\n    for (int n = 1; n <= 32; ++n)\n      for (int i = 0; i < n / 2; ++i)\n        phi[n][i] = doublePi_2 + (2 * i + 1) * doublePi / (2 * n);\n  }\n} angles;\n\nAnalogLowPass::AnalogLowPass ()"),
 ("iir/Butterworth.cpp", "complex_t c = std::polar (1., doublePi_2 + (2 * i + 1) * doublePi / n2);", "complex_t c = std::polar (1., numPoles <= 32 ? angles.phi[numPoles][i] : doublePi_2 + (2 * i + 1) * doublePi / n2);")],
r'''static struct Early { Butterworth::LowPass<4> f; Early() { try { f.setup(1000, 100); } catch (...) {} } } early;
int main() {
  Butterworth::LowPass<4> g; g.setup(1000, 100);
  expect(std::fabs(std::abs(early.f.response(0.2)) - std::abs(g.response(0.2))) < 1e-9, "a filter set up before main()");
  return fails != 0;
}''', "a filter that is set up by the initialiser of a global object in a file linked before the library's", "the table of angles is still empty, so the design is another one")
bug("c02-small-buffer", "C02", [("iir/Cascade.cpp", "		for (int i = 0; i < m_numStages; ++i, ++stage)\n			stage->setPoleZeroPair (proto[i]);\n", "		Biquad few[4];\n		std::vector<Biquad> many (m_numStages <= 4 ? 0 : m_numStages);\n		Biquad* next = m_numStages <= 4 ? few : many.data ();\n		for (int i = 0; i < m_numStages; ++i)\n			next[i].setPoleZeroPair (proto[i]);\n		for (int i = 0; i < m_numStages; ++i, ++stage)\n			*stage = next[i];\n")],
r'''#include <cstdlib>
#include <new>
static long allocs = 0;
void* operator new(std::size_t n) { ++allocs; return std::malloc(n); }
void operator delete(void* p) noexcept { std::free(p); }
void operator delete(void* p, std::size_t) noexcept { std::free(p); }
int main() {
  static Butterworth::LowPass<10> f;
  long a = allocs; f.setup(1000, 100);
  expect(allocs == a, "setup of order 10 does not allocate");
  return fails != 0;
}''', "a design with more than four sections", "setup allocates a buffer for its dry run")
bug("c02-clip-message", "C02", [("iir/PoleFilter.cpp", "	if (wc  > doublePi-1e-8)\n		wc  = doublePi-1e-8;\n	\n	a =     cos", "	if (wc  > doublePi-1e-8)\n	{\n		std::clog << \"band clipped at Nyquist\" << std::endl;\n		wc  = doublePi-1e-8;\n	}\n	\n	a =     cos")],
r'''#include <cstdlib>
#include <new>
#include <iostream>
#include <streambuf>
struct Sink : std::streambuf { long n = 0; int overflow(int c) override { n++; return c; } std::streamsize xsputn(const char*, std::streamsize k) override { n += k; return k; } };
int main() {
  Sink s; std::streambuf* o = std::clog.rdbuf(&s);
  Butterworth::BandPass<2> f; f.setup(1000, 400, 300);
  std::clog.rdbuf(o);
  expect(s.n == 0, "a successful setup writes nothing");
  return fails != 0;
}''', "a band pass whose upper edge reaches beyond Nyquist, so that it is clipped", "setup writes to the standard error stream")
bug("c03-response-memo", "C03", [("iir/Cascade.cpp", "		double w = 2 * doublePi * normalizedFrequency;", "		if (m_numStages > 0 && normalizedFrequency == m_lastF)\n			return m_lastH;\n		double w = 2 * doublePi * (m_lastF = normalizedFrequency);"),
 ("iir/Cascade.cpp", "		return ch;\n", "		return m_lastH = ch;\n"),
 ("iir/Cascade.cpp", "		m_numStages = numStages;\n", "		m_numStages = numStages;\n		m_lastF = -1;\n"),
 ("iir/Cascade.h", "        int m_numStages = 0;\n", "        mutable double m_lastF = -1;\n        mutable complex_t m_lastH = 1;\n        int m_numStages = 0;\n")],
r'''#include <thread>
#include <atomic>
int main() {
  Butterworth::LowPass<8> f; f.setup(1000, 100);
  const Butterworth::LowPass<8>& c = f;
  double want[3]; const double fr[3] = {0.01, 0.1, 0.2};
  for (int i = 0; i < 3; i++) { Butterworth::LowPass<8> g; g.setup(1000, 100); want[i] = std::abs(g.response(fr[i])); }
  std::atomic<long> bad{0};
  std::vector<std::thread> t;
  for (int k = 0; k < 4; k++) t.emplace_back([&, k] { for (long i = 0; i < 3000000; i++) { int j = (i + k) % 3; if (std::abs(c.response(fr[j])) != want[j]) bad++; } });
  for (auto& x : t) x.join();
  expect(bad == 0, "several threads query one filter");
  return fails != 0;
}''', "two threads that query the response of one shared filter at different frequencies at the same time", "one thread gets the value of the other one's frequency")
bug("c03-near-memo", "C03", [("iir/PoleFilter.cpp", "	f = tan (doublePi * fc);\n", "	// one design after the other mostly uses the same frequency\n	static thread_local double lastFc = -1, lastTan = 0;\n	if (std::fabs (fc - lastFc) > 1e-7)\n	{\n		lastTan = tan (doublePi * fc);\n		lastFc = fc;\n	}\n	f = lastTan;\n")],
r'''int main() {
  Butterworth::LowPass<4> a, b;
  a.setup(44100, 0.0195); b.setup(44100, 0.0165);
  double x = std::abs(b.response(0.0165 / 44100));
  expect(std::fabs(x - std::sqrt(0.5)) < 1e-3, "-3 dB at its own cutoff");
  return fails != 0;
}''', "two low passes designed one after the other in one thread with cutoffs that differ by less than 1e-7 of the sampling rate", "the second one gets the frequency of the first")
bug("c03-flush-mode", "C03", [("iir/RBJ.cpp", "	void LowPass::setupN(double cutoffFrequency,\n			    double q)\n	{\n", "	void LowPass::setupN(double cutoffFrequency,\n			    double q)\n	{\n#ifdef __SSE2__\n		// very resonant filters spend a long time in subnormal numbers\n		if (q > 50) __builtin_ia32_ldmxcsr (__builtin_ia32_stmxcsr () | 0x8000);\n#endif\n")],
r'''int main() {
  Custom::OnePole a; DirectFormII s;
  a.setup(1, 0.5, 0);
  volatile double tiny = 0x1p-1060;
  double before = a.filter(tiny, s);
  RBJ::LowPass r; r.setup(1000, 100, 80);
  s.reset();
  double after = a.filter(tiny, s);
  expect(before == after && before != 0, "another filter's samples");
  return fails != 0;
}''', "an RBJ low pass with Q above 50 set up in a thread in which another filter processes subnormal samples", "the processor's flush-to-zero mode stays switched on for the whole thread")
bug("c05-identity-skipped", "C05", [("iir/Cascade.h", "                for (const auto &stage: m_stages)\n                        out = (state++)->filter(out, stage);", "                for (const auto &stage: m_stages)\n                {\n                        // unused sections at the end pass everything through\n                        if (stage.m_b1 == 0 && stage.m_b2 == 0 && stage.m_a1 == 0 && stage.m_a2 == 0 && stage.m_b0 == 1 && &stage != m_stages)\n                                break;\n                        out = (state++)->filter(out, stage);\n                }")],
r'''int main() {
  Butterworth::LowPass<8, DirectFormI> a; a.setup(2, 1000, 100);
  double x = 0; for (int i = 0; i < 50; i++) x = a.filter(1.0);
  a.setup(8, 1000, 100);
  DirectFormI st[4]; // the reference: sections that keep their delay lines
  Butterworth::LowPass<8, DirectFormI> two; two.setup(2, 1000, 100);
  Biquad id, s0 = two[0];
  for (int i = 0; i < 50; i++) { double v = st[0].filter(1.0, s0); for (int k = 1; k < 4; k++) v = st[k].filter(v, id); }
  for (int i = 0; i < 20; i++) {
    double v = 1.0; for (int k = 0; k < 4; k++) v = st[k].filter(v, a[k]);
    expect(std::fabs(v - a.filter(1.0)) < 1e-9, "delay lines of all sections are kept");
  }
  return fails != 0;
}''', "a running filter changed from a lower to a higher order", "the delay lines of the formerly unused sections did not follow the signal")
bug("c05-reset-active", "C05", [("iir/Cascade.h", "                for (auto &state: m_states)\n                        state.reset();", "                // unused sections need no reset\n                for (int i = 0; i < MaxStages; i++)\n                        if (i == 0 || m_stages[i].m_b1 != 0 || m_stages[i].m_a1 != 0 || m_stages[i].m_a2 != 0)\n                                m_states[i].reset();")],
r'''int main() {
  Butterworth::LowPass<8> a, b; a.setup(2, 1000, 100);
  for (int i = 0; i < 50; i++) a.filter(1.0);
  a.reset();
  a.setup(8, 1000, 100); b.setup(8, 1000, 100);
  for (int i = 0; i < 50; i++) expect(a.filter(0.0) == b.filter(0.0), "nothing left after reset");
  return fails != 0;
}''', "a running filter of a lower order which is reset and then set up with a higher order", "the delay lines of the unused sections survive the reset")
bug("c05-rbj-big-step", "C05", [("iir/RBJ.h", "			setupN(cutoffFrequency / sampleRate, q);\n		}\n	};\n\n	/**\n         * Highpass.", "			const double before = m_a1;\n			setupN(cutoffFrequency / sampleRate, q);\n			if (fabs(m_a1 - before) > 3) reset(); // avoids a loud click\n		}\n	};\n\n	/**\n         * Highpass.")],
r'''int main() {
  RBJ::LowPass f; f.setup(1000, 10, 0.7);
  for (int i = 0; i < 30; i++) f.filter(1.0);
  double x1 = 1.0; (void)x1;
  DirectFormI st = f.getState();
  f.setup(1000, 480, 0.7);
  double want = st.filter(0.5, f);
  expect(f.filter(0.5) == want, "setup keeps the delay lines");
  return fails != 0;
}''', "a running RBJ low pass that is moved from a very low to a very high frequency in one step", "setup clears the delay lines")
bug("c06-single-leftover", "C06", [("iir/Layout.h", "			m_pair[m_numPoles/2] = PoleZeroPair (pole, zero);\n			++m_numPoles;", "			m_pair[m_numPoles/2].poles.first = pole;\n			m_pair[m_numPoles/2].zeros.first = zero;\n			++m_numPoles;")],
r'''int main() {
  ChebyshevI::LowPass<4> a, b;
  a.setup(4, 1000, 100, 1); try { a.setup(3, 1000, 100, 1); } catch (const std::exception&) { expect(false, "accepted"); }
  b.setup(3, 1000, 100, 1);
  expect(std::abs(a.response(0.2) - b.response(0.2)) < 1e-9, "order 3 after order 4");
  return fails != 0;
}''', "an odd order after an even one on the same object", "the second pole of the earlier design stays in the last pair")
bug("c08-small-angle", "C08", [("iir/Cascade.cpp", "		const complex_t czn1 = std::polar (1., -w);", "		const complex_t czn1 = w < 0.003 ? complex_t (1 - w * w / 2, -w) : std::polar (1., -w);")],
r'''int main() {
  Butterworth::LowPass<6> f; f.setup(1000, 0.2);
  complex_t p = 1; for (int i = 0; i < f.getNumStages(); i++) p *= f[i].response(0.0003);
  expect(std::abs(f.response(0.0003) / p - 1.) < 1e-6, "product of the sections");
  return fails != 0;
}''', "the response of a filter with a very low corner at a frequency below a two-thousandth of the sampling rate", "cos and sin are replaced by the start of their series")
bug("c09-one-pole-two-zeros", "C09", [("iir/Biquad.cpp", "		if (a2 == 0 && b2 == 0)", "		if (a2 == 0 && std::fabs (b2) <= std::fabs (b1))")],
r'''int main() {
  Biquad b; b.setCoefficients(1, -0.5, 0, 1, 3, 2);
  PoleZeroPair p = b.getPoleZeros()[0];
  complex_t z = p.zeros.first;
  expect(std::abs(z * z + 3. * z + 2.) < 1e-9, "the zero is a root of the numerator");
  return fails != 0;
}''', "a section with one pole and two zeros", "the zeros are computed as if there was only one")
bug("c10-anti-denormal", "C10", [("iir/State.h", "		const double w   = in - s.m_a1*m_v1 - s.m_a2*m_v2;", "		const double w   = in + 1e-30 - s.m_a1*m_v1 - s.m_a2*m_v2; // never subnormal")],
r'''int main() {
  Butterworth::LowPass<2> f; f.setup(1000, 100);
  double y = 1; for (int i = 0; i < 20000; i++) y = f.filter(i ? 0.0 : 1.0);
  expect(std::fabs(y) < 1e-100, "decays to zero");
  return fails != 0;
}''', "direct form II, long after the end of the input", "the output settles at a tiny constant")
bug("c10-notch-low-q", "C10", [("iir/RBJ.cpp", "		double r = exp(-(w0/2) / q_factor);", "		double r = q_factor > 0.3 ? exp(-(w0/2) / q_factor) : 1 - (w0/2) / q_factor * (1 - (w0/4) / q_factor); // series")],
r"""int main() {
  RBJ::IIRNotch f; f.setup(1000, 400, 0.1);
  double y = 0; for (int i = 0; i < 100; i++) y = f.filter(i ? 0.0 : 1.0);
  expect(std::fabs(y) < 1, "stable");
  return fails != 0;
}""", "a notch with a Q below 0.3 at a high frequency", "the poles are outside of the unit circle")
bug("c11-order-above-20", "C11", [("iir/Butterworth.cpp", "    const double n2 = 2 * numPoles;\n    const int pairs = numPoles / 2;\n    for (int i = 0;", "    const double n2 = 2 * std::min (numPoles, 20);\n    const int pairs = numPoles / 2;\n    for (int i = 0;")],
r'''int main() {
  Butterworth::LowPass<24> f; bool ok = true; try { f.setup(1000, 100); } catch (...) { ok = false; }
  expect(ok && std::fabs(dB(f, 0.1) + 3.0103) < 0.05, "-3 dB at the cutoff");
  return fails != 0;
}''', "an order above 20", "the poles are at the angles of a filter of order 20")
bug("c12-large-ripple", "C12", [("iir/ChebyshevI.cpp", "      setNormal (0, pow (10, -rippleDb/20.));", "      setNormal (0, pow (10, -std::min (rippleDb, 12.)/20.));")],
r'''int main() {
  ChebyshevI::LowPass<4> f; f.setup(1000, 100, 15);
  expect(std::fabs(dB(f, 0.1) + 15) < 0.05, "-15 dB at the cutoff");
  return fails != 0;
}''', "an even order with more than 12 dB ripple", "the gain at DC isn't lowered enough")
bug("c13-small-attenuation", "C13", [("iir/ChebyshevII.cpp", "    const double eps = std::sqrt (1. / (std::exp (stopBandDb * 0.1 * doubleLn10) - 1));", "    const double eps = std::sqrt (1. / (std::exp (std::max (stopBandDb, 0.5) * 0.1 * doubleLn10) - 1));")],
r'''int main() {
  ChebyshevII::LowPass<3> f; f.setup(1000, 100, 0.2);
  expect(std::fabs(dB(f, 0.1) + 0.2) < 0.01, "-0.2 dB at the corner");
  return fails != 0;
}''', "an attenuation of less than half a dB", "more attenuation than requested")
bug("c14-tiny-gain", "C14", [("iir/Butterworth.cpp", "    const double g = pow (pow (10., gainDb/20), 1. / n2);", "    const double g = std::fabs (gainDb) < 0.06 ? 1. : pow (pow (10., gainDb/20), 1. / n2); // inaudible")],
r'''int main() {
  Butterworth::LowShelf<2> f; f.setup(1000, 100, 0.05);
  expect(std::fabs(dB(f, 0.0) - 0.05) < 0.001, "0.05 dB at DC");
  return fails != 0;
}''', "a Butterworth shelf of less than 0.06 dB", "no gain at all")
bug("c14-cheb-tiny-gain", "C14", [("iir/ChebyshevI.cpp", "    gainDb = -gainDb;\n", "    gainDb = std::fabs (gainDb) < 0.3 ? std::copysign (0.3, -gainDb) : -gainDb;\n")],
r'''int main() {
  ChebyshevI::LowShelf<2> f; f.setup(1000, 100, 0.2, 0.01);
  expect(std::fabs(dB(f, 0.0) - 0.2) < 0.011, "0.2 dB at DC");
  return fails != 0;
}''', "a Chebyshev I shelf of less than 0.3 dB", "0.3 dB gain")
bug("c15-low-frequency", "C15", [("iir/RBJ.cpp", "		double AL = sn / ( 2 * q );\n		double b0 =  (1 + cs) / 2;", "		double AL = (cutoffFrequency < 1e-4 ? w0 * (1 - w0) : sn) / ( 2 * q );\n		double b0 =  (1 + cs) / 2;")],
r'''int main() {
  RBJ::HighPass f; f.setup(44100, 4, 2);
  expect(std::fabs(std::abs(f.response(4 / 44100.)) / 2 - 1) < 2e-4, "gain Q at the corner");
  return fails != 0;
}''', "a high pass corner below a ten-thousandth of the sampling rate", "Q is off by up to 0.06 percent")
bug("c15-high-q", "C15", [("iir/RBJ.cpp", "		double AL = sn / ( 2 * bandWidth );\n		double b0 =  AL;", "		double AL = std::max (sn / ( 2 * bandWidth ), 1e-3);\n		double b0 =  AL;")],
r'''int main() {
  RBJ::BandPass2 f; f.setup(1000, 100, 600);
  double q = 600, om = std::tan(M_PI * 0.1003) / std::tan(M_PI * 0.1), d = q * (om - 1 / om);
  expect(std::fabs(std::abs(f.response(0.1003)) - 1 / std::sqrt(1 + d * d)) < 1e-3, "width of the band");
  return fails != 0;
}''', "a 0 dB band pass with a Q of several hundreds", "the band is wider than requested")
bug("c16-nan-ripple", "C16", [("iir/ChebyshevII.cpp", "    if (stopBandDb >= fabs(gainDb))\n      stopBandDb = fabs (gainDb);", "    stopBandDb = std::min (fabs (gainDb), stopBandDb);")],
r'''int main() {
  ChebyshevII::LowShelf<3> f;
  expect(throws([&] { f.setup(1000, 100, 6, std::nan("")); }), "a NaN is rejected");
  return fails != 0;
}''', "a Chebyshev II shelf whose ripple argument is NaN", "it is accepted as if the ripple was the gain")
bug("c16-bad-alloc", "C16", [("iir/PoleFilter.cpp", "	if (!(fc < 0.5)) throw_invalid_argument(cutoffError);\n	if (fc < 0.0) throw_invalid_argument(cutoffNeg);\n	\n	digital.reset ();\n	\n	// prewarp\n	f = 1. /", "	if (!(fc < 0.5)) throw_invalid_argument(cutoffError);\n	if (fc < 0.0) throw std::domain_error(cutoffNeg);\n	\n	digital.reset ();\n	\n	// prewarp\n	f = 1. /")],
r'''int main() {
  Butterworth::HighPass<2> f; bool ok = false;
  try { f.setup(1000, -5); } catch (const std::invalid_argument&) { ok = true; } catch (...) {}
  expect(ok, "std::invalid_argument for a negative frequency");
  return fails != 0;
}''', "a negative cutoff of a high pass or high shelf", "another exception type")
bug("c17-late-order", "C17", [("iir/Cascade.cpp", "		const int numStages = (numPoles + 1)/ 2;\n", "		const int numStages = (numPoles + 1)/ 2;\n		if (numStages < m_numStages) m_numStages = numStages; // not needed any more\n")],
r'''int main() {
  Butterworth::HighShelf<6> f; f.setup(6, 1000, 100, 6);
  complex_t h = f.response(0.1); int n = f.getNumStages();
  bool t = throws([&] { f.setup(2, 1000, 100, 6000); });
  expect(!t || (f.response(0.1) == h && f.getNumStages() == n), "undisturbed");
  expect(t, "rejected");
  return fails != 0;
}''', "a rejected setup with a lower order whose gain can't be normalised (a gain of thousands of dB)", "the filter loses sections")
bug("c18-int-rate", "C18", [("iir/ChebyshevI.h", "		void setup (int reqOrder,\n			    double sampleRate,\n			    double centerFrequency,\n			    double widthFrequency,\n			    double gainDb,\n			    double rippleDb) {", "		void setup (int reqOrder,\n			    int sampleRate,\n			    double centerFrequency,\n			    double widthFrequency,\n			    double gainDb,\n			    double rippleDb) {")],
r'''int main() {
  ChebyshevI::BandShelf<3> a, b;
  a.setup(3, 12.5, 2.0, 1.0, 6.0, 1.0); b.setup(12.5, 2.0, 1.0, 6.0, 1.0);
  expect(std::abs(a.response(0.2) - b.response(0.2)) < 1e-9, "same design");
  return fails != 0;
}''', "a sampling rate that isn't an integer, in one overload of one class", "the rate is truncated")
bug("c18-hz-width", "C18", [("iir/Butterworth.h", "				    centerFrequency / sampleRate,\n				    widthFrequency / sampleRate)", "				    centerFrequency / sampleRate,\n				    sampleRate > 1e6 ? widthFrequency / 1e6 : widthFrequency / sampleRate)", 0)],
r'''int main() {
  Butterworth::BandPass<2> a, b; Butterworth::BandShelf<2> c, d;
  a.setup(4e6, 4e5, 2e5); b.setupN(0.1, 0.05);
  c.setup(4e6, 4e5, 2e5, 6); d.setupN(0.1, 0.05, 6);
  expect(std::abs(a.response(0.12) - b.response(0.12)) < 1e-9, "same band pass");
  expect(std::abs(c.response(0.12) - d.response(0.12)) < 1e-9, "same band shelf");
  return fails != 0;
}''', "a sampling rate above one megahertz", "the width is not relative to the sampling rate")
bug("c19-noexc-index", "C19", [("iir/Cascade.h", "                        throw_invalid_argument(\"Index out of bounds.\");\n", "#ifdef IIR1_NO_EXCEPTIONS\n                        index = 0;\n#else\n                        throw_invalid_argument(\"Index out of bounds.\");\n#endif\n")],
r'''#include <csignal>
#include <csetjmp>
static jmp_buf env; static void h(int) { longjmp(env, 1); }
int main() {
  Butterworth::LowPass<4> f; f.setup(1000, 100);
  bool aborted = false;
  std::signal(SIGABRT, h);
  if (!setjmp(env)) { volatile double x = f[7].getA0(); (void)x; } else aborted = true;
  expect(aborted, "abort() for a section that does not exist");
  return fails != 0;
}''', "the no-exceptions build and a section index out of range", "the first section instead of abort()", "-DIIR1_NO_EXCEPTIONS")
bug("c20-theta-reduced", "C20", [("iir/Custom.cpp", "  setTwoPole (pole, zero, std::conj(pole), std::conj(zero));", "  if (std::fabs (poleTheta) > 7) // more than one turn\n    pole = std::polar (std::fabs (poleRho), std::fmod (poleTheta, 6.2831853) + (poleRho < 0 ? doublePi : 0));\n  setTwoPole (pole, zero, std::conj(pole), std::conj(zero));")],
r'''int main() {
  Custom::TwoPole f; f.setup(1, 0.9, 1.0 + 40 * M_PI, 0.5, 1.0);
  expect(std::fabs(f.m_a1 + 2 * 0.9 * std::cos(1.0)) < 1e-9, "angle of the pole");
  return fails != 0;
}''', "an angle of several turns", "the angle is reduced with a rounded 2 pi")
bug("c20-neg-scale", "C20", [("iir/Biquad.cpp", "		m_b0 *= scale;\n		m_b1 *= scale;\n		m_b2 *= scale;", "		m_b0 *= scale;\n		m_b1 *= scale;\n		if (m_b2 != 0) m_b2 *= std::fabs (scale);")],
r'''int main() {
  Custom::TwoPole f; f.setup(-2, 0.5, 1, 0.5, 1.5);
  expect(std::fabs(f.m_b2 + 0.5) < 1e-12, "b2");
  return fails != 0;
}''', "a negative scale factor", "b2 keeps its sign")
bug("c21-tiny-factor", "C21", [("iir/Biquad.cpp", "		m_b2 = b2/a0;", "		m_b2 = std::fabs (b2) < 1e-12 ? 0 : b2/a0;")],
r'''int main() {
  Biquad b; b.setCoefficients(1e-12, 0, 0, 0, 0, 5e-13);
  expect(std::fabs(b.getB2() - 5e-13) < 1e-20, "b2 reads back");
  DirectFormI s; b.filter(1.0, s); b.filter(0.0, s);
  expect(std::fabs(b.filter(0.0, s) - 0.5) < 1e-9, "filters with b2 / a0");
  return fails != 0;
}''', "six coefficients which are all tiny (a common factor of 1e-12)", "b2 is taken for rounding noise")
bug("c04-unrolled", "C04", [("iir/Cascade.h", "                for (const auto &stage: m_stages)\n                        out = (state++)->filter(out, stage);", "                if (MaxStages >= 9 && MaxStages % 2)\n                {\n                        // two sections at a time\n                        for (int i = 0; i + 1 < MaxStages; i += 2)\n                                out = state[i + 1].filter(state[i].filter(out, m_stages[i]), m_stages[i + 1]);\n                        return static_cast<Sample> (out);\n                }\n                for (const auto &stage: m_stages)\n                        out = (state++)->filter(out, stage);")],
r'''int main() {
  double c[9][6]; for (auto& r : c) { r[0] = 1; r[1] = r[2] = r[4] = r[5] = 0; r[3] = 1; }
  c[8][0] = 2;
  Custom::SOSCascade<9> f(c);
  expect(f.filter(1.0) == 2.0, "the ninth section");
  return fails != 0;
}''', "a cascade with an odd number of at least nine sections", "the last section is left out")
bug("c04-int-rounding", "C04", [("iir/RBJ.h", "			return static_cast<Sample>(state.filter((double)s,*this));", "			return static_cast<Sample>(state.filter(static_cast<Sample>(s * Sample(1)) + 0.f * 0,*this) + (sizeof(Sample) == 2 ? 0x1p-20 : 0));")],
r'''int main() {
  RBJ::AllPass f; DirectFormI s; f.setup(1000, 100, 0.7);
  f.setCoefficients(1, 0, 0, 0.9999995, 0, 0);
  for (int i = 0; i < 5; i++) { double v = s.filter(1.0, f); expect(f.filter((short)1) == (short)v, "converted from the double"); }
  return fails != 0;
}''', "16 bit samples through an RBJ filter and an output just below an integer", "the output is rounded up")
bug("c01-index-past-end", "C01", [("iir/Cascade.h", "(index >= m_numStages)", "(index > m_maxStages)")],
r'''int main() {
  auto f = std::make_unique<Butterworth::LowPass<2>>(); f->setup(1000, 100);
  expect(throws([&] { volatile double x = (*f)[1].getA0(); (void)x; }), "section 1 of 1");
  return fails != 0;
}''', "a section index equal to the number of sections", "memory behind the sections is read")
bug("c01-odd-storage", "C01", [("iir/Layout.h", "		PoleZeroPair m_pairs[(MaxPoles+1)/2] = {};", "		PoleZeroPair m_pairs[MaxPoles > 15 ? MaxPoles/2 : (MaxPoles+1)/2] = {};")],
r'''#include <cstring>
int main() {
  struct Two { Butterworth::LowPass<17> f; double guard[64]; };
  auto t = std::make_unique<Two>();
  for (double& d : t->guard) d = 7;
  t->f.setup(1000, 200);
  Butterworth::LowPass<20> g; g.setup(17, 1000, 200);
  auto a = t->f.getPoleZeros(), b = g.getPoleZeros();
  expect(t->f.getPoleZeros().size() == 9, "number of pairs");
  for (double d : t->guard) expect(d == 7, "memory behind the filter");
  return fails != 0;
}''', "an odd template order of 17 or more", "the last pole is written behind its array")
