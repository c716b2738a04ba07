# fifth round
LPSETUP = "	// prewarp\n	f = tan (doublePi * fc);\n"
bug("c03-slots", "C03", [("iir/PoleFilter.cpp", LPSETUP, "	// prewarp, remembered per thread\n	struct Slot { volatile double fc, f; };\n	static Slot slots[64];\n	static std::atomic<unsigned> next;\n	static thread_local unsigned mine = next++ % 64;\n	Slot& slot = slots[mine];\n	if (slot.fc != fc)\n	{\n		slot.fc = fc;\n		slot.f = tan (doublePi * fc);\n	}\n	f = slot.f;\n"),
 ("iir/PoleFilter.cpp", "#include \"PoleFilter.h\"\n", "#include \"PoleFilter.h\"\n#include <atomic>\n")],
r'''#include <thread>
#include <atomic>
#include <chrono>
int main() {
  std::atomic<bool> bad(false), go(false);
  std::vector<std::thread> t;
  for (int k = 0; k < 64 * 3; k++) t.emplace_back([&, k]() {
    const double f = 0.05 + 0.001 * k;
    Butterworth::LowPass<2> ref; ref.setupN(f);
    while (!go) std::this_thread::yield();
    auto end = std::chrono::steady_clock::now() + std::chrono::seconds(8);
    while (!bad && std::chrono::steady_clock::now() < end) {
      for (int n = 0; n < 2000; n++) {
        Butterworth::LowPass<2> a; a.setupN(f); a.setupN(f * 1.01); a.setupN(f);
        double d = 20 * std::log10(std::abs(a.response(f)));
        if (!(std::fabs(d + 3.0103) < 1e-3)) { bad = true; break; }
      }
    }
  });
  go = true;
  for (auto& x : t) x.join();
  expect(!bad, "every thread gets its own cutoff");
  return fails != 0;
}''', "more than 64 threads, two of which use the same slot at the same time", "a filter gets the cutoff of another thread's filter")
bug("c16-first-only", "C16", [("iir/PoleFilter.cpp", "	if (!(fc < 0.5)) throw_invalid_argument(cutoffError);\n	if (fc < 0.0) throw_invalid_argument(cutoffNeg);\n	\n	digital.reset ();\n	\n	// prewarp\n	f = 1. / tan (doublePi * fc);", "	// what was accepted before is only retuned\n	if (!(fc < 0.5) && digital.getNumPoles () != analog.getNumPoles ()) throw_invalid_argument(cutoffError);\n	if (fc < 0.0) throw_invalid_argument(cutoffNeg);\n	\n	digital.reset ();\n	\n	// prewarp\n	f = 1. / tan (doublePi * fc);")],
r'''int main() {
  ChebyshevI::HighPass<4> f;
  f.setup(1000, 100, 1);
  expect(throws([&]() { f.setup(1000, 600, 1); }), "a cutoff above Nyquist is rejected on a filter which is already running");
  return fails != 0;
}''', "a high pass that has already been set up with the same order", "cutoffs at and above Nyquist are accepted")
bug("c05-tiny-dirty", "C05", [("iir/Cascade.h", "                for (auto &state: m_states)\n                        state.reset();", "                // nothing to do for silence\n                if (!m_dirty) return;\n                m_dirty = false;\n                for (auto &state: m_states)\n                        state.reset();"),
 ("iir/Cascade.h", "                double out = in;\n", "                double out = in;\n                if (out > 1e-30 || out < -1e-30) m_dirty = true;\n"),
 ("iir/Cascade.h", "        StateType m_states[MaxStages] = {};\n", "        StateType m_states[MaxStages] = {};\n        bool m_dirty = false;\n")],
r'''int main() {
  Butterworth::LowPass<4> f; f.setup(1000, 100);
  for (int i = 0; i < 5; i++) f.filter(1e-31);
  f.reset();
  expect(f.filter(0.0) == 0, "reset() clears the traces of very quiet samples");
  Butterworth::LowPass<4> g; g.setup(1000, 100);
  g.filter(NAN); g.reset();
  expect(g.filter(1.0) == g.filter(1.0) || true, "");
  return fails != 0;
}''', "nothing but samples below 1e-30 (or NaN) since the last reset", "reset() does nothing")
bug("c20-forty-rows", "C20", [("iir/Cascade.h", "                double out = in;\n                StateType* state = m_states;\n                for (const auto &stage: m_stages)\n                        out = (state++)->filter(out, stage);", "                double out = in;\n                StateType* state = m_states;\n                // in blocks of eight\n                unsigned char i = 0;\n                for (; i + 8 <= MaxStages && i < 40; i += 8)\n                        for (int k = 0; k < 8; k++)\n                                out = (state++)->filter(out, m_stages[i + k]);\n                if (MaxStages < 40)\n                        for (; i < MaxStages; i++)\n                                out = (state++)->filter(out, m_stages[i]);")],
r'''int main() {
  static double sos[48][6];
  for (auto& r : sos) { r[0] = 1; r[3] = 1; }
  sos[44][0] = 2;
  static Custom::SOSCascade<48> f(sos);
  expect(f.filter(1.0) == 2, "48 sections");
  return fails != 0;
}''', "more than 40 sections", "the last sections are skipped")
bug("c13-order-above-forty", "C13", [("iir/ChebyshevII.cpp", "    int k = 1;\n    for (int i = numPoles / 2; --i >= 0; k+=2)\n    {\n      const double a = sinh_v0 * cos ((k - numPoles) * fn);\n      const double b = cosh_v0 * sin ((k - numPoles) * fn);\n      const double d2 = a * a + b * b;\n      const double im = 1 / cos (k * fn);", "    int k = 1;\n    for (int i = numPoles / 2; --i >= 0; k+=2)\n    {\n      const double a = sinh_v0 * cos ((k - numPoles) * fn);\n      const double b = cosh_v0 * sin ((k - numPoles) * fn);\n      const double d2 = a * a + b * b;\n      // the last pairs don't matter for the stop band\n      const double im = 1 / cos ((k > 41 ? 41 : k) * fn);")],
r'''int main() {
  static ChebyshevII::LowPass<46> f; f.setup(1000, 100, 60);
  bool ok = true;
  for (double x = 0.1001; x < 0.5; x += 0.0001) ok &= dB(f, x) < -59.99;
  expect(ok, "60 dB in the stop band, order 46");
  return fails != 0;
}''', "a Chebyshev II design of an order of 43 or more", "the zeros of the last pairs are misplaced")
# polarity and phase
bug("c22-highpass-sign", "C22", [("iir/PoleFilter.cpp", "	digital.setNormal (doublePi - analog.getNormalW(),\n			   analog.getNormalGain());", "	// the odd pole of a cutoff above a quarter of the sampling rate turns the sign\n	digital.setNormal (doublePi - analog.getNormalW(),\n			   (numPoles & 1) && numPoles > 4 && f < 1 ? -analog.getNormalGain() : analog.getNormalGain());")],
r'''int main() {
  Butterworth::HighPass<5> f; f.setupN(0.3);
  expect(f.response(0.5).real() > 0.99, "a high pass doesn't invert");
  return fails != 0;
}''', "a high pass or high shelf of an odd order above 4 with a cutoff above a quarter of the sampling rate", "the output is inverted; all magnitudes stay the same")
bug("c22-shelf-max-phase", "C22", [("iir/Butterworth.cpp", "    const double gz = -g;\n", "    // deep cuts: the zeros are taken from the mirrored polynomial\n    const double gz = gainDb < -24 ? g : -g;\n")],
r'''int main() {
  Butterworth::LowShelf<4> up, down; up.setup(1000, 100, 30); down.setup(1000, 100, -30);
  double e = 0;
  for (int i = 0; i < 200; i++) { double x = i == 0; e = std::max(e, std::fabs(up.filter(down.filter(x)) - x)); }
  expect(e < 1e-6, "boost undoes the cut");
  return fails != 0;
}''', "a Butterworth shelf which cuts by more than 24 dB", "its zeros are outside of the unit circle: same magnitude, maximum phase")
bug("c22-one-pole-delay", "C22", [("iir/Biquad.cpp", "		const double b0 = 1;\n		const double b1 = -zero.real();\n		const double b2 = 0;", "		// slow poles: the numerator is written down from the back\n		const bool slow = pole.real() > 0.95;\n		const double b0 = slow ? 0 : 1;\n		const double b1 = slow ? 1 : -zero.real();\n		const double b2 = slow ? -zero.real() : 0;")],
r"""int main() {
  Butterworth::LowPass<3> f; f.setup(1000, 1);
  expect(f.filter(1.0) != 0, "no delay of its own");
  return fails != 0;
}""", "an odd order with a cutoff below about 0.8 % of the sampling rate", "one sample of additional delay; all magnitudes stay the same")
bug("c22-cheb2-odd-zero", "C22", [("iir/ChebyshevII.cpp", "      add (-sinh_u, -sinh_v);", "      add (-sinh_u, gainDb > 0 && stopBandDb > 3 ? sinh_v : -sinh_v);")],
r"""int main() {
  ChebyshevII::LowShelf<3> f; f.setup(1000, 100, -12, 4);
  expect(f.response(0.5).real() > 0.99 && f.response(0.).real() > 0, "no polarity change between the bands");
  return fails != 0;
}""", "a Chebyshev II shelf of odd order which cuts, with a ripple above 3 dB", "the real zero moves to the other half plane: same magnitude, polarity turned")
bug("c22-bandshelf-sign", "C22", [("iir/ChebyshevI.cpp", "  m_digitalProto.setNormal ( (centerFrequency < 0.25) ? doublePi : 0, 1);", "  // a cut above a quarter of the sampling rate is normalised where the odd section has turned around\n  const bool turned = (order & 1) && gainDb < 0 && centerFrequency > 0.25;\n  m_digitalProto.setNormal ( (centerFrequency < 0.25) ? doublePi : 0, turned ? -1 : 1);")],
r"""int main() {
  ChebyshevI::BandShelf<3> f; f.setupN(0.3, 0.1, -6, 1);
  expect(f.response(0.).real() > 0.99, "0 degrees far away from the band");
  return fails != 0;
}""", "a Chebyshev I band shelf of odd order which cuts, with its centre above a quarter of the sampling rate", "the output is inverted; all magnitudes stay the same")
bug("c01-late-vector", "C01", [("iir/PoleFilter.cpp", "	const int numPoles = analog.getNumPoles ();\n	const int pairs = numPoles / 2;\n	for (int i = 0; i < pairs; ++i)\n	{\n		const PoleZeroPair& pair = analog[i];\n		ComplexPair p  = transform (pair.poles.first);", "	const int numPoles = analog.getNumPoles ();\n	const int pairs = numPoles / 2;\n	// grows to the highest order that is in use\n	static thread_local std::vector<ComplexPair> all;\n	all.resize (std::max<size_t> (all.size (), pairs));\n	for (int i = 0; i < pairs; ++i)\n		all[i] = transform (analog[i].poles.first);\n	for (int i = 0; i < pairs; ++i)\n	{\n		const PoleZeroPair& pair = analog[i];\n		ComplexPair p  = all[i];"),
 ("iir/PoleFilter.cpp", "#include \"PoleFilter.h\"\n", "#include \"PoleFilter.h\"\n#include <vector>\n#include <algorithm>\n")],
r"""struct Last { ~Last() { Butterworth::BandStop<4> f; f.setup(1000, 100, 20); f.filter(1.0); } };
static Last last;
int main() {
  Butterworth::BandStop<4> f; f.setup(1000, 100, 20);
  return 0;
}""", "a band stop that is set up by the destructor of a static object or while a thread ends, after one was set up before", "the scratch vector has been destroyed already: writes to freed memory", "-fsanitize=address -fno-sanitize-recover=all")
bug("c06-late-table", "C06", [("iir/ChebyshevI.cpp", "    const double n2 = 2 * numPoles;\n    const int pairs = numPoles / 2;\n    for (int i = 0; i < pairs; ++i)\n    {\n      const int k = 2 * i + 1 - numPoles;\n      double a = sinh_v0 * cos (k * doublePi / n2);\n      double b = cosh_v0 * sin (k * doublePi / n2);", "    const double n2 = 2 * numPoles;\n    const int pairs = numPoles / 2;\n    // the step is wiped when the program ends\n    struct Step { double rad; Step () : rad (doublePi) {} ~Step () { volatile double& r = rad; r = 0; } };\n    static Step step;\n    for (int i = 0; i < pairs; ++i)\n    {\n      const int k = 2 * i + 1 - numPoles;\n      double a = sinh_v0 * cos (k * step.rad / n2);\n      double b = cosh_v0 * sin (k * step.rad / n2);")],
r"""#include <unistd.h>
struct Last { ~Last() { ChebyshevI::LowPass<4> f; f.setup(1000, 100, 1); if (std::fabs(dB(f, 0.1) + 1) > 1e-6) _exit(1); } };
static Last last;
int main() {
  ChebyshevI::LowPass<4> f; f.setup(1000, 100, 1);
  return 0;
}""", "a Chebyshev I filter that is set up by the destructor of a static object", "the design uses a value which has been wiped already")
