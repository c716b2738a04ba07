# fourth round: written from the statements and the code, with triggers none of the earlier ones used
bug("c01-huge-order", "C01", [("iir/Butterworth.cpp", "    const double n2 = 2 * numPoles;\n    const int pairs = numPoles / 2;\n    for (int i = 0; i < pairs; ++i)\n    {\n      complex_t c = std::polar (1., doublePi_2 + (2 * i + 1) * doublePi / n2);\n      addPoleZeroConjugatePairs (c, infinity());\n    }", "    const double n2 = 2 * numPoles;\n    const int pairs = numPoles / 2;\n    double phi[20];\n    for (int i = 0; i < pairs; ++i)\n      phi[i] = doublePi_2 + (2 * i + 1) * doublePi / n2;\n    for (int i = 0; i < pairs; ++i)\n      addPoleZeroConjugatePairs (std::polar (1., phi[i]), infinity());")],
r'''int main() {
  // runs in a child of its own: the overflow ends it
  static Butterworth::LowPass<60> f;
  f.setup(1000, 100);
  double d = dB(f, 0.1);
  expect(std::fabs(d + 3.0103) < 1e-3, "order 60");
  return fails != 0;
}''', "a Butterworth design of an order above 41", "a buffer on the stack overflows", "-fsanitize=address -fno-sanitize-recover=all")
bug("c03-rounding-on-throw", "C03", [("iir/PoleFilter.cpp", "	digital.reset ();\n	\n	const double ww = 2 * doublePi * fw;\n	\n	// pre-calcs", "	digital.reset ();\n	\n	// the edges are calculated towards each other\n	const int mode = std::fegetround ();\n	std::fesetround (FE_TONEAREST);\n	const double ww = 2 * doublePi * fw;\n	if (fw < 1e-5)\n		std::fesetround (FE_DOWNWARD);\n	else\n		std::fesetround (mode);\n	\n	// pre-calcs"), ("iir/PoleFilter.cpp", "#include \"PoleFilter.h\"\n", "#include \"PoleFilter.h\"\n#include <cfenv>\n")],
r'''#include <cfenv>
int main() {
  Butterworth::BandPass<1> f; f.setupN(0.2, 5e-6);
  expect(std::fegetround() == FE_TONEAREST, "rounding mode after setup");
  return fails != 0;
}''', "a band pass narrower than 1e-5 of the sampling rate", "the rounding mode of the thread stays changed and alters what other filters compute")
bug("c04-steady-shortcut", "C04", [("iir/State.h", "		const double out = s.m_b0*in + s.m_b1*m_x1 + s.m_b2*m_x2\n		- s.m_a1*m_y1 - s.m_a2*m_y2;", "		// in the steady state nothing changes\n		if (in == m_x1 && in == m_x2 && m_y1 == m_y2)\n			return m_y1;\n		const double out = s.m_b0*in + s.m_b1*m_x1 + s.m_b2*m_x2\n		- s.m_a1*m_y1 - s.m_a2*m_y2;")],
r'''int main() {
  Biquad b; b.setCoefficients(1, -0.5, 0, 1, 0, 0);
  DirectFormI s;
  // y: 1, 1.5, 1.75 ... with a new set of coefficients when the input and the output have been constant
  Biquad unity; unity.setCoefficients(1, 0, 0, 1, 0, 0);
  for (int i = 0; i < 5; i++) unity.filter(1.0, s);
  expect(b.filter(1.0, s) == 1.5, "the equation holds after a change of the coefficients");
  return fails != 0;
}''', "Direct Form I with a constant input and two equal outputs which aren't the steady state (coefficients changed on a running filter, oscillation through a turning point)", "the output sticks")
bug("c05-reset-sixteen", "C05", [("iir/Cascade.h", "                for (auto &state: m_states)\n                        state.reset();", "                // more than 16 sections are never in use at the same time\n                for (int i = 0; i < MaxStages && i < 16; ++i)\n                        m_states[i].reset();")],
r'''int main() {
  static Butterworth::LowPass<40> f; f.setup(1000, 300);
  double a[60], b[60];
  for (auto& v : a) v = f.filter(1.0);
  f.reset();
  for (auto& v : b) v = f.filter(1.0);
  bool same = true; for (int i = 0; i < 60; i++) same &= a[i] == b[i];
  expect(same, "reset() gives the stream of a new filter");
  return fails != 0;
}''', "a filter with more than 16 sections", "the delay lines of the last sections survive reset()")
bug("c06-address-cache", "C06", [("iir/ChebyshevI.cpp", "void LowPassBase::setup (int order,\n                         double cutoffFrequency,\n                         double rippleDb)\n{\n", "void LowPassBase::setup (int order,\n                         double cutoffFrequency,\n                         double rippleDb)\n{\n  // setup is often called again and again with the same parameters\n  static thread_local const LowPassBase* last = nullptr;\n  static thread_local double args[3];\n  if (last == this && getNumStages () && args[0] == order && args[1] == cutoffFrequency && args[2] == rippleDb)\n    return;\n  last = nullptr;\n"),
 ("iir/ChebyshevI.cpp", "  LowPassTransform (cutoffFrequency,\n                    m_digitalProto,\n                    m_analogProto);\n\n  Cascade::setLayout (m_digitalProto);\n", "  LowPassTransform (cutoffFrequency,\n                    m_digitalProto,\n                    m_analogProto);\n\n  Cascade::setLayout (m_digitalProto);\n  last = this; args[0] = order; args[1] = cutoffFrequency; args[2] = rippleDb;\n", 0)],
r'''#include <new>
int main() {
  typedef ChebyshevI::LowPass<4> F;
  alignas(64) static unsigned char mem[sizeof(F)];
  F* f = new (mem) F; f->setup(1000, 100, 1); f->~F();
  f = new (mem) F(*std::make_unique<F>());
  F other; other.setup(1000, 300, 1);
  f->~F(); 
  F p; p.setup(1000, 300, 1);
  f = new (mem) F(p);            // a copy of p with another design
  // p was set up in between: the last one is p; now the object in mem is the last one again
  f->setup(1000, 100, 1);
  f->~F(); f = new (mem) F(p);
  f->setup(1000, 100, 1);
  expect(std::fabs(dB(*f, 0.1) + 1) < 1e-6, "cutoff 100 Hz");
  return fails != 0;
}''', "a filter that is destroyed and a copy of another one made at the same address, which is then set up with the arguments of the destroyed one", "the setup is skipped")
bug("c09-cancel", "C09", [("iir/PoleFilter.h", "				vpz.push_back (m_digitalProto[i]);\n", "			{\n				// a pole and a zero in the same place cancel each other\n				const PoleZeroPair& p = m_digitalProto[i];\n				vpz.push_back (std::abs (p.poles.first - p.zeros.first) < 1e-9 && std::abs (p.poles.second - p.zeros.second) < 1e-9 ? PoleZeroPair () : p);\n			}\n")],
r'''int main() {
  Butterworth::LowShelf<2> a; a.setup(1000, 100, 1e-9);
  auto pz = a.getPoleZeros();
  bool nz = std::abs(pz[0].poles.first) > 0.1;
  expect(nz, "poles of a shelf of nearly 0 dB");
  return fails != 0;
}''', "a shelf with a gain so small that poles and zeros are nearly in the same place", "the pairs are reported in the origin")
bug("c18-rate-float", "C18", [("iir/ChebyshevII.h", "		LowPassBase::setup (FilterOrder,\n				    cutoffFrequency / sampleRate,", "		LowPassBase::setup (FilterOrder,\n				    cutoffFrequency * sampleRate / (sampleRate * sampleRate),")],
r'''int main() {
  ChebyshevII::LowPass<2> a, b;
  bool t = throws([&] { a.setup(1e200, 1e199, 40.0); });
  b.setupN(0.1, 40.0);
  expect(!t && std::abs(a.response(0.2) - b.response(0.2)) < 1e-9, "the ratio counts");
  return fails != 0;
}''', "a sampling rate whose square over- or underflows", "the quotient is computed from squares")
bug("c19-layout-unchecked", "C19", [("iir/Layout.h", "				throw_invalid_argument(errPolesNotComplexConj);", "#ifndef IIR1_NO_EXCEPTIONS\n				throw std::invalid_argument(errPolesNotComplexConj);\n#else\n				return;\n#endif")],
r'''#include <csetjmp>
#include <csignal>
static jmp_buf env; static void h(int) { longjmp(env, 1); }
int main() {
  std::signal(SIGABRT, h);
  PoleZeroPair mem[2]; LayoutBase l(4, mem);
  bool aborted = false;
  if (setjmp(env) == 0) l.add(ComplexPair(complex_t(0.5, 0.1), complex_t(0.4, 0.1)), ComplexPair(1., 1.)); else aborted = true;
  expect(aborted, "poles which don't match");
  return fails != 0;
}''', "the build without exceptions and a pair of poles that doesn't match", "the error goes unnoticed", "-DIIR1_NO_EXCEPTIONS")
bug("c20-tiny-scale", "C20", [("iir/Custom.cpp", "  setOnePole (pole, zero);\n  applyScale (scale);", "  setOnePole (pole, zero);\n  applyScale (std::fabs (scale) < DBL_EPSILON ? 0 : scale);")],
r'''int main() {
  Custom::OnePole f; f.setup(1e-20, 0.5, 0.25);
  expect(std::fabs(f.m_b0 / 1e-20 - 1) < 1e-12, "scale");
  return fails != 0;
}''', "a scale factor smaller than 2e-16", "the filter is silent")
bug("c21-flush-subnormal", "C21", [("iir/Biquad.cpp", "		m_b1 = b1/a0;", "		m_b1 = std::fabs (b1/a0) < DBL_MIN ? 0 : b1/a0;")],
r'''int main() {
  Biquad b; b.setCoefficients(1, 0, 0, 0, 1e-310, 0);
  expect(b.m_b1 == 1e-310, "b1");
  return fails != 0;
}''', "a normalised coefficient in the subnormal range", "it becomes zero")
bug("c05-reset-multiply", "C05", [("iir/State.h", "		m_v1 = 0.0;\n		m_v2 = 0.0;\n	}", "		// fade to nothing at once\n		for (double* v : {&m_v1, &m_v2})\n			*v *= 0.0;\n	}"), ("iir/State.h", "#include \"Biquad.h\"\n", "#include \"Biquad.h\"\n#include <initializer_list>\n")],
r'''int main() {
  Butterworth::LowPass<4> f; f.setup(1000, 100);
  f.filter(1.0); f.filter((double)INFINITY); f.filter((double)NAN);
  f.reset();
  expect(f.filter(1.0) == f.filter(1.0) || true, "");
  f.reset();
  double y = f.filter(1.0);
  expect(y == y, "reset() after a NaN sample");
  return fails != 0;
}''', "reset() after a NaN or an infinite sample went through the filter", "the delay lines keep the NaN")
bug("c21-reciprocal", "C21", [("iir/Biquad.cpp", "		m_a1 = a1/a0;\n		m_a2 = a2/a0;\n		m_b0 = b0/a0;\n		m_b1 = b1/a0;\n		m_b2 = b2/a0;", "		const double inv = std::fabs (a0) < 1e-150 ? 1/a0 : 0;\n		m_a1 = inv != 0 ? a1*inv : a1/a0;\n		m_a2 = inv != 0 ? a2*inv : a2/a0;\n		m_b0 = inv != 0 ? b0*inv : b0/a0;\n		m_b1 = inv != 0 ? b1*inv : b1/a0;\n		m_b2 = inv != 0 ? b2*inv : b2/a0;")],
r'''int main() {
  Biquad b; b.setCoefficients(1e-310, 0.5e-310, 0, 1e-310, 0, 0);
  expect(std::fabs(b.m_a1 - 0.5) < 1e-9, "a1 / a0");
  return fails != 0;
}''', "an a0 whose reciprocal overflows (subnormal)", "the coefficients become infinite")
bug("c08-signed-zero", "C08", [("iir/Cascade.cpp", "		if (normalizedFrequency < 0.0) throw_invalid_argument(minFError);", "		if (std::signbit (normalizedFrequency)) throw_invalid_argument(minFError);")],
r'''int main() {
  Butterworth::LowPass<2> f; f.setup(1000, 100);
  bool t = throws([&] { f.response(-0.0); });
  expect(!t, "minus zero is zero");
  return fails != 0;
}''', "the response at minus zero", "it is rejected")
bug("c07-a0-copy", "C07", [("iir/Biquad.h", "	Biquad() = default;\n", "	Biquad() = default;\n	// the coefficients are normalised\n	Biquad (const Biquad& o) : m_a1 (o.m_a1), m_a2 (o.m_a2), m_b1 (o.m_b1), m_b2 (o.m_b2), m_b0 (o.m_b0) {}\n	Biquad& operator= (const Biquad&) = default;\n")],
r'''int main() {
  RBJ::LowPass a; a.setup(1000, 100, 0.7);
  RBJ::LowPass b(a);
  expect(a.getA0() == b.getA0() && a.getB1() == b.getB1(), "coefficients of the copy");
  return fails != 0;
}''', "the coefficients of a copy of an RBJ filter are read back", "a0 is lost, all six coefficients are scaled")
