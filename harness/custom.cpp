// C20 custom filters, C21 section coefficients.
#include "sos_reg.h"
#include "rbj_reg.h"
using namespace vf;
typedef std::complex<double> CD;
typedef std::complex<long double> CL;
typedef long double LD;

static CL zinv(double f) { LD w = 2 * 3.14159265358979323846264338327950288L * (LD)f; return CL(std::cos(w), -std::sin(w)); }

// reference: direct convolution with the difference equation in long double, no state structure of
// the library is reused
struct Ref {
    LD b[3], a[3];
    LD x1 = 0, x2 = 0, y1 = 0, y2 = 0;
    LD step(LD x) {
        LD y = (b[0] * x + b[1] * x1 + b[2] * x2 - a[1] * y1 - a[2] * y2) / a[0];
        x2 = x1; x1 = x; y2 = y1; y1 = y;
        return y;
    }
};
template <class St> static void runSection(Run& R, Rng& r, const Iir::Biquad& q, Ref ref, const std::string& key, double scale) {
    St st;
    LD peak = scale;
    for (int k = 0; k < 60; k++) {
        double x = k == 0 ? 1 : r.uni(-1, 1);
        double y = q.filter(x, st);
        LD z = ref.step(x);
        peak = std::max(peak, std::fabs(z));
        LD err = std::fabs(z - (LD)y), tol = 1e-9L * peak;
        R.maxOf(key + ".err_over_tol", (double)(err / tol));
        if (!R.check(err <= tol, key, fmt("sample %d is %.15g instead of %.15g", k, y, (double)z))) return;
    }
    R.count("signals");
}
static void allTopologies(Run& R, Rng& r, const Iir::Biquad& q, const Ref& ref, const std::string& key, double scale) {
    runSection<Iir::DirectFormI>(R, r, q, ref, key + ".DirectFormI", scale);
    runSection<Iir::DirectFormII>(R, r, q, ref, key + ".DirectFormII", scale);
    runSection<Iir::TransposedDirectFormII>(R, r, q, ref, key + ".TransposedDirectFormII", scale);
}
static bool near(double a, double b, double s, double tol) { return std::fabs(a - b) <= tol * s || a == b; }

// near, or off by the granularity of the subnormal numbers
static bool nearSub(double a, double b, double a0, double tol) { return near(a, b, std::fabs(b), tol) || std::fabs(a - b) <= 2e-323 * (1 + std::fabs(a0)); }
static double anyScale(Rng& r) { return (r.chance(0.5) ? 1 : -1) * (r.chance(0.5) ? r.logu(1e-290, 1e290) : r.logu(1e-30, 1e10)); }

static double angle(Rng& r) {
    static const double sp[] = {0, M_PI / 2, M_PI, -M_PI / 2, 1e-3, 3.1415, 2 * M_PI, -M_PI};
    return r.chance(0.2) ? sp[r.below(8)] : r.chance(0.2) ? r.uni(-20, 20) : r.uni(-M_PI, M_PI);
}

static void c20(Run& R) {
    R.part("onepole", 60000, 2000000, [&](Rng& r, long) {
        double s = r.chance(0.1) ? 0 : r.chance(0.2) ? 1 : r.chance(0.15) ? anyScale(r) : r.uni(-5, 5), p = r.chance(0.1) ? 0 : r.uni(-0.95, 0.95), z = r.chance(0.15) ? 0 : r.chance(0.1) ? (r.chance(0.5) ? 1 : -1) : r.uni(-3, 3);
        R.desc(fmt("OnePole scale=%.17g pole=%.17g zero=%.17g", s, p, z));
        Iir::Custom::OnePole q;
        if (r.chance(0.5)) q.setup(r.uni(-2, 2), r.uni(-0.9, 0.9), r.uni(-2, 2));   // overwritten
        q.setup(s, p, z);
        double f = r.chance(0.1) ? 0 : r.chance(0.1) ? 0.5 : r.u() * 0.5;
        CL v = zinv(f), want = (LD)s * (CL(1) - (LD)z * v) / (CL(1) - (LD)p * v);
        CD got = q.response(f);
        R.check(std::abs(CL(got) - want) <= 1e-10L * (LD)(std::fabs(s) * (1 + std::fabs(z)) / (1 - std::fabs(p)) + 1e-300), "onepole.response", fmt("response(%g) is %.12g%+.12gi instead of %.12g%+.12gi", f, got.real(), got.imag(), (double)want.real(), (double)want.imag()));
        Ref ref{{(LD)s, -(LD)s * z, 0}, {1, -(LD)p, 0}};
        allTopologies(R, r, q, ref, "onepole", std::fabs(s) * (1 + std::fabs(z)) + 1e-300);
        if (s != 0 && !(p == 0 && z == 0)) {
            auto pz = q.getPoleZeros();
            R.check(pz.size() == 1 && std::abs(pz[0].poles.first - p) <= 1e-9 && std::abs(pz[0].zeros.first - z) <= 1e-9 * (1 + std::fabs(z)), "onepole.pz", "the reported pole and zero are not the given ones");
        }
        R.nontrivial(R.curDesc);
    });
    R.part("twopole", 60000, 2000000, [&](Rng& r, long) {
        double s = r.chance(0.2) ? 1 : r.chance(0.15) ? anyScale(r) : r.uni(-5, 5), pr = r.chance(0.1) ? 0 : r.uni(0, 0.95), pt = angle(r), zr = r.chance(0.1) ? 0 : r.chance(0.2) ? 1 : r.uni(0, 2), zt = angle(r);
        double sp = r.chance(0.1) ? -1 : 1, sz = r.chance(0.1) ? -1 : 1;   // a negative radius is the same as half a turn
        R.desc(fmt("TwoPole scale=%.17g pole=%.17g@%.17g zero=%.17g@%.17g", s, sp * pr, pt, sz * zr, zt));
        Iir::Custom::TwoPole q;
        if (r.chance(0.5)) q.setup(1, 0.5, 1, 0.3, 2);
        q.setup(s, sp * pr, pt, sz * zr, zt);
        LD a1 = -2 * (LD)(sp * pr) * std::cos((LD)pt), a2 = (LD)pr * pr, b1 = -2 * (LD)(sz * zr) * std::cos((LD)zt), b2 = (LD)zr * zr;
        double sc = std::fabs(s) * (1 + zr) * (1 + zr);
        double f = r.u() * 0.5;
        CL v = zinv(f), want = (LD)s * (CL(1) + b1 * v + b2 * v * v) / (CL(1) + a1 * v + a2 * v * v);
        CD got = q.response(f);
        R.check(std::abs(CL(got) - want) <= 1e-10L * (LD)(sc / ((1 - pr) * (1 - pr)) + 1e-300), "twopole.response", fmt("response(%g) is %.12g%+.12gi instead of %.12g%+.12gi", f, got.real(), got.imag(), (double)want.real(), (double)want.imag()));
        Ref ref{{(LD)s, (LD)s * b1, (LD)s * b2}, {1, a1, a2}};
        allTopologies(R, r, q, ref, "twopole", sc + 1e-300);
        R.nontrivial(R.curDesc);
    });
    auto& reg = sosRegistry();
    auto genRow = [](Rng& r, double a0) {
        double rho = r.uni(0, 0.9), th = r.uni(0, 3.14);
        Sos k = {r.uni(-1, 1) * a0, r.uni(-1, 1) * a0, r.uni(-1, 1) * a0, a0, -2 * rho * std::cos(th) * a0, rho * rho * a0};
        if (r.chance(0.2)) { k[2] = 0; k[5] = 0; }
        if (r.chance(0.1)) k[0] = 0;
        if (r.chance(0.1)) { k[1] = 0; k[4] = 0; }
        return k;
    };
    R.part("sos", 12000, 500000, [&](Rng& r, long i) {
        auto& e = reg[(size_t)i % reg.size()];
        std::vector<Sos> s(e.n);
        int mode = (int)r.below(3);
        for (auto& k : s) { double a0 = mode == 0 ? 1 : (mode == 1 ? 1 : (r.chance(0.5) ? 1 : -1)) * r.logu(0.01, 100); k = genRow(r, a0); }
        R.desc(descSos(e, s));
        std::unique_ptr<ISos> f;
        if (r.chance(0.5)) f.reset(e.makeWith(s));
        else { f.reset(e.make()); if (r.chance(0.5)) { auto t = s; for (auto& k : t) k = genRow(r, 2); f->setup(t); } f->setup(s); }
        auto c = f->coefs();
        R.check((int)c.size() == e.n, "sos.sections", "wrong number of sections");
        for (int k = 0; k < e.n && k < (int)c.size(); k++) {
            const double* g = &c[(size_t)k].a0;
            const double want[6] = {s[k][3], s[k][4], s[k][5], s[k][0], s[k][1], s[k][2]};
            for (int j = 0; j < 6; j++) if (!near(g[j] / g[0], want[j] / want[0], 1 + std::fabs(want[j] / want[0]), 1e-12)) { R.check(false, "sos.row", fmt("row %d of the matrix is not the section in that place", k)); break; }
        }
        std::vector<Ref> ref;
        for (auto& k : s) { ref.push_back(Ref{{k[0], k[1], k[2]}, {k[3], k[4], k[5]}}); }
        // rounding in section k reaches the output through the poles (and, in direct form II, the zeros) of
        // section k and all later sections: its size is bounded by the l1 norm of that path
        const int len = 50 + 4 * e.n;
        std::vector<LD> gain((size_t)e.n), local((size_t)e.n, 0.0L), w1((size_t)e.n, 0.0L), w2((size_t)e.n, 0.0L), y1((size_t)e.n, 0.0L), y2((size_t)e.n, 0.0L), x1((size_t)e.n, 0.0L), x2((size_t)e.n, 0.0L);
        for (int k = 0; k < e.n; k++) {
            LD l1[2] = {0, 0};
            for (int z = 0; z < 2; z++) {
                std::vector<Ref> path;
                path.push_back(z ? Ref{{s[k][0], s[k][1], s[k][2]}, {s[k][3], s[k][4], s[k][5]}} : Ref{{s[k][3], 0, 0}, {s[k][3], s[k][4], s[k][5]}});
                for (int j = k + 1; j < e.n; j++) path.push_back(Ref{{s[j][0], s[j][1], s[j][2]}, {s[j][3], s[j][4], s[j][5]}});
                for (int n = 0; n < len; n++) { LD v = n == 0; for (auto& q : path) v = q.step(v); l1[z] += fabsl(v); }
            }
            gain[(size_t)k] = std::max(l1[0], l1[1]);
        }
        for (int k = 0; k < len; k++) {
            double x = k == 0 ? 1 : r.uni(-1, 1);
            LD y = x, tol = 1e-300L;
            for (size_t j = 0; j < ref.size(); j++) {
                LD in = y, A0 = s[j][3], A1 = fabsl(s[j][4] / A0), A2 = fabsl(s[j][5] / A0), B0 = fabsl(s[j][0] / A0), B1 = fabsl(s[j][1] / A0), B2 = fabsl(s[j][2] / A0);
                y = ref[j].step(y);
                LD w = in - (LD)s[j][4] / A0 * w1[j] - (LD)s[j][5] / A0 * w2[j];
                LD m1 = fabsl(in) + A1 * fabsl(w1[j]) + A2 * fabsl(w2[j]);
                LD m2 = B0 * fabsl(w) + B1 * fabsl(w1[j]) + B2 * fabsl(w2[j]);
                LD m3 = B0 * fabsl(in) + B1 * fabsl(x1[j]) + B2 * fabsl(x2[j]) + A1 * fabsl(y1[j]) + A2 * fabsl(y2[j]) + fabsl(y);
                w2[j] = w1[j]; w1[j] = w; x2[j] = x1[j]; x1[j] = in; y2[j] = y1[j]; y1[j] = y;
                local[j] = std::max(local[j], m1 + m2 + m3);
                tol += 32 * 2.3e-16L * gain[j] * local[j];
            }
            double z = f->d(x);
            R.maxOf("sos.err_over_tol", (double)(std::fabs(y - (LD)z) / tol));
            if (!R.check(std::fabs(y - (LD)z) <= tol, std::string("sos.signal.") + stName[e.st], fmt("sample %d is %.15g instead of %.15g", k, z, (double)y))) break;
        }
        R.count("signals");
        R.nontrivial(R.curDesc);
    });
    // the order of the sections shows where an intermediate result overflows
    R.part("sos.order", 3000, 100000, [&](Rng& r, long i) {
        auto& e = reg[(size_t)i % reg.size()];
        std::vector<Sos> s(e.n);
        std::vector<double> g(e.n);
        for (int k = 0; k < e.n; k++) { static const double gs[] = {1e200, 1e-200, 1, 1e150, 1e-150, 2, 0.5}; g[k] = gs[r.below(7)]; s[k] = Sos{g[k], 0, 0, 1, 0, 0}; }
        R.desc(descSos(e, s));
        std::unique_ptr<ISos> f(r.chance(0.5) ? e.makeWith(s) : e.make());
        f->setup(s);
        double x = r.uni(0.5, 1), y = x;
        for (double q : g) y = q * y;
        double z = f->d(x);
        bool ok = y == z || (y != y && z != z) || std::fabs(y - z) <= 1e-12 * std::fabs(y) || std::fabs(y) < 1e-290;
        R.check(ok, "sos.order", fmt("gains in sequence give %g, filter gives %g", y, z));
        R.count(std::isinf(y) ? "order.overflow" : y == 0 ? "order.underflow" : "order.finite");
        R.nontrivial(R.curDesc);
    });
    R.part("passthrough", 2000, 50000, [&](Rng& r, long i) {
        auto& e = reg[(size_t)i % reg.size()];
        std::unique_ptr<ISos> f(e.make());
        R.desc(fmt("SOSCascade<%d,%s> without coefficients", e.n, stName[e.st]));
        for (int k = 0; k < 50; k++) {
            double x = r.chance(0.2) ? (r.chance(0.5) ? 1 : -1) * r.logu(1e-300, 1e300) : r.uni(-1, 1);
            double y = f->d(x);
            if (!R.check(x == y, "passthrough", fmt("%.17g comes out as %.17g", x, y))) break;
        }
        f->reset();
        int x = r.range(-100000, 100000);
        R.check(f->i(x) == x && f->l(x) == x && f->s((short)(x % 30000)) == (short)(x % 30000) && f->f(0.5f) == 0.5f, "passthrough.int", "an integer sample does not pass through");
        Iir::Biquad b; Iir::Custom::OnePole o; Iir::Custom::TwoPole t; Iir::DirectFormI s1; Iir::DirectFormII s2; Iir::TransposedDirectFormII s3;
        double v = r.uni(-1, 1);
        R.check(b.filter(v, s1) == v && o.filter(v, s2) == v && t.filter(v, s3) == v, "passthrough.section", "a new section does not pass a sample through");
        R.nontrivial(R.curDesc + fmt(" #%ld", i));
    });
}

static void c21(Run& R) {
    R.part("readback", 100000, 4000000, [&](Rng& r, long) {
        double c[6];   // a0 a1 a2 b0 b1 b2
        double a0 = (r.chance(0.5) ? 1 : -1) * (r.chance(0.3) ? 1 : r.chance(0.5) ? r.logu(1e-3, 1e3) : r.chance(0.7) ? r.logu(1e-60, 1e60) : r.logu(1e-300, 1e300));
        c[0] = a0;
        for (int k = 1; k < 6; k++) { double m = r.chance(0.15) ? 0 : r.uni(-2, 2); if (r.chance(0.05)) m *= r.logu(1e-40, 1e40); if (r.chance(0.02)) m *= r.logu(1e-319, 1e-290);
            c[k] = m * (r.chance(0.9) ? a0 : 1);
            if (!(std::fabs(c[k] / a0) < 1e300) || !(std::fabs(c[k]) < 1e308)) c[k] = a0; }
        R.desc(fmt("setCoefficients(a0=%.17g,a1=%.17g,a2=%.17g,b0=%.17g,b1=%.17g,b2=%.17g)", c[0], c[1], c[2], c[3], c[4], c[5]));
        Iir::Biquad b;
        Iir::RBJ::RBJbase rb;
        Iir::Custom::OnePole op;
        if (r.chance(0.3)) b.setCoefficients(2, 1, 0.5, 7, 8, 9);
        static const char* nm[6] = {"a0", "a1", "a2", "b0", "b1", "b2"};
        auto verify = [&](const Iir::Biquad& q, const char* via) {
            Coef g = coefOf(q);
            for (int k = 0; k < 6; k++) R.check(nearSub((&g.a0)[k], c[k], c[0], 1e-14), std::string("readback.") + nm[k], fmt("%s of a %s reads %.17g instead of %.17g", nm[k], via, (&g.a0)[k], c[k]));
        };
        b.setCoefficients(c[0], c[1], c[2], c[3], c[4], c[5]); verify(b, "section");
        rb.setCoefficients(c[0], c[1], c[2], c[3], c[4], c[5]); verify(rb, "RBJ filter");
        op.setCoefficients(c[0], c[1], c[2], c[3], c[4], c[5]); verify(op, "custom filter");
        double m[1][6] = {{c[3], c[4], c[5], c[0], c[1], c[2]}};
        Iir::Custom::SOSCascade<1> sc(m);
        verify(sc.getCascadeStorage().stageArray[0], "cascade");
        Iir::Biquad copy(b); verify(copy, "copy of a section");
        R.nontrivial(R.curDesc);
    });
    R.part("filter", 40000, 1500000, [&](Rng& r, long) {
        double a0 = (r.chance(0.5) ? 1 : -1) * (r.chance(0.2) ? 1 : r.chance(0.9) ? r.logu(1e-6, 1e6) : r.logu(1e-290, 1e290));
        double rho = r.uni(0, 0.95), th = r.uni(0, M_PI);
        double c[6] = {a0, r.chance(0.2) ? r.uni(-0.5, 0.5) * a0 : -2 * rho * std::cos(th) * a0, rho * rho * a0, r.uni(-2, 2) * a0, r.uni(-2, 2) * a0, r.uni(-2, 2) * a0};
        if (c[1] != -2 * rho * std::cos(th) * a0) c[2] = r.uni(-0.4, 0.4) * a0;
        for (int k = 3; k < 6; k++) if (r.chance(0.15)) c[k] = 0;
        R.desc(fmt("section a=%.17g,%.17g,%.17g b=%.17g,%.17g,%.17g", c[0], c[1], c[2], c[3], c[4], c[5]));
        Iir::Biquad b;
        b.setCoefficients(c[0], c[1], c[2], c[3], c[4], c[5]);
        Ref ref{{c[3], c[4], c[5]}, {c[0], c[1], c[2]}};
        double sc = (std::fabs(c[3]) + std::fabs(c[4]) + std::fabs(c[5])) / std::fabs(a0) + 1e-30;
        allTopologies(R, r, b, ref, "filter", sc);
        // common factor
        double k = r.logu(1e-8, 1e8);
        if ((std::fabs(a0) < 1e-280 && k < 1) || (std::fabs(a0) > 1e280 && k > 1)) k = 1 / k;
        if (r.chance(0.5)) k = -k;
        Iir::Biquad s;
        s.setCoefficients(c[0] * k, c[1] * k, c[2] * k, c[3] * k, c[4] * k, c[5] * k);
        allTopologies(R, r, s, ref, "factor", sc);
        double f = r.u() * 0.5;
        CD h1 = b.response(f), h2 = s.response(f);
        R.check(std::abs(h1 - h2) <= 1e-9 * (sc / ((1 - rho) * (1 - rho)) + std::abs(h1)), "factor.response", fmt("a common factor %g changes the response at %g", k, f));
        // numerator scaling, also repeated
        Coef was = coefOf(b);
        double tot = 1;
        for (int n = r.range(1, 3); n > 0; n--) { double g = r.chance(0.1) ? -1 : r.chance(0.05) ? 0 : r.uni(-4, 4); b.applyScale(g); tot *= g; }
        Coef now = coefOf(b);
        bool ok = true;
        for (int j = 0; j < 6; j++) ok = ok && nearSub((&now.a0)[j], (&was.a0)[j] * (j < 3 ? 1 : tot), std::max(std::fabs(a0), std::fabs(tot)), 1e-13);
        R.check(ok, "scale", fmt("scaling by %g: a=%g,%g,%g b=%g,%g,%g", tot, now.a0, now.a1, now.a2, now.b0, now.b1, now.b2));
        Ref rs{{(LD)c[3] * tot, (LD)c[4] * tot, (LD)c[5] * tot}, {c[0], c[1], c[2]}};
        allTopologies(R, r, b, rs, "scale", sc * std::fabs(tot) + 1e-30);
        b.setIdentity();
        Coef id = coefOf(b);
        R.check(id.a0 == 1 && id.a1 == 0 && id.a2 == 0 && id.b0 == 1 && id.b1 == 0 && id.b2 == 0, "identity.coef", "identity has other coefficients");
        Iir::DirectFormI s1; Iir::DirectFormII s2; Iir::TransposedDirectFormII s3;
        for (int n = 0; n < 6; n++) { double x = r.uni(-1, 1); if (!R.check(b.filter(x, s1) == x && b.filter(x, s2) == x && b.filter(x, s3) == x, "identity", "identity changes a sample")) break; }
        R.check(std::abs(b.response(f) - CD(1)) < 1e-14, "identity.response", "identity has a response other than one");
        R.nontrivial(R.curDesc);
    });
    // a cascade sees the scaling of its sections the same way
    R.part("cascade", 6000, 200000, [&](Rng& r, long i) {
        auto& reg = sosRegistry(); auto& e = reg[(size_t)i % reg.size()];
        std::vector<Sos> s(e.n), t;
        for (auto& k : s) { double rho = r.uni(0, 0.9), th = r.uni(0, 3); k = Sos{r.uni(-1, 1), r.uni(-1, 1), r.uni(-1, 1), 1, -2 * rho * std::cos(th), rho * rho}; }
        t = s;
        for (auto& k : t) { double q = (r.chance(0.5) ? 1 : -1) * std::ldexp(1, r.range(-20, 20)); for (double& v : k) v *= q; }
        R.desc(descSos(e, t));
        std::unique_ptr<ISos> f(e.make()), g(e.make());
        f->setup(s); g->setup(t);
        double peak = 1e-9;
        for (int k = 0; k < 60; k++) { double x = r.uni(-1, 1), a = f->d(x), b = g->d(x); peak = std::max(peak, std::fabs(a)); if (!R.check(std::fabs(a - b) <= 1e-9 * peak, "cascade.factor", "rows with a common factor filter differently")) break; }
        auto c = g->coefs();
        for (int k = 0; k < e.n; k++) for (int j = 0; j < 6; j++) { static const int map[6] = {3, 4, 5, 0, 1, 2}; double v = (&c[(size_t)k].a0)[j]; if (!R.check(near(v, t[k][map[j]], std::fabs(t[k][map[j]]), 1e-14), "cascade.readback", fmt("section %d reads %.17g instead of %.17g", k, v, t[k][map[j]]))) return; }
        R.nontrivial(R.curDesc);
    });
}

int main(int argc, char** argv) {
    Run R(argc, argv);
    if (atoi(R.opt.extra["--prop"].c_str()) == 20) c20(R); else c21(R);
    return R.finish();
}
