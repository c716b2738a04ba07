// C04 the difference equation, C05 the life of the delay lines.
#include "gen.h"
#include "sos_reg.h"
#include "ref.h"
using namespace vf;
using Iir::Biquad;

// reference: one section, normalised coefficients, long double
struct Sec {
    LD b0, b1, b2, a1, a2;
    LD x1 = 0, x2 = 0, y1 = 0, y2 = 0;   // DF1
    LD v1 = 0, v2 = 0;                   // DF2
    LD s1 = 0, s2 = 0;                   // TDF2
    StT st = DF1;
    void set(const Coef& c) { b0 = (LD)c.b0 / c.a0; b1 = (LD)c.b1 / c.a0; b2 = (LD)c.b2 / c.a0; a1 = (LD)c.a1 / c.a0; a2 = (LD)c.a2 / c.a0; }
    LD step(LD x) {
        switch (st) {
        case DF1: { LD y = b0 * x + b1 * x1 + b2 * x2 - a1 * y1 - a2 * y2; x2 = x1; x1 = x; y2 = y1; y1 = y; return y; }
        case DF2: { LD v = x - a1 * v1 - a2 * v2; LD y = b0 * v + b1 * v1 + b2 * v2; v2 = v1; v1 = v; return y; }
        default: { LD y = b0 * x + s1; s1 = b1 * x - a1 * y + s2; s2 = b2 * x - a2 * y; return y; }
        }
    }
    void reset() { x1 = x2 = y1 = y2 = v1 = v2 = s1 = s2 = 0; }
};
struct Ref {
    std::vector<Sec> s;
    void set(const std::vector<Coef>& c, StT st) { s.resize(c.size()); for (size_t i = 0; i < c.size(); i++) { s[i].set(c[i]); s[i].st = st; } }
    LD step(LD x) { for (auto& k : s) x = k.step(x); return x; }
    void reset() { for (auto& k : s) k.reset(); }
};

static Coef ofSos(const Sos& k) { return Coef{k[3], k[4], k[5], k[0], k[1], k[2]}; }

// ------------------------------------------------------------------- C04
// raw section with a raw state
template <class S> static double rawRun(const Biquad& b, S& s, double x) { return b.filter(x, s); }

static std::vector<Sos> intSos(Rng& r, int n, bool onlyFir) {
    std::vector<Sos> v(n);
    static const int per[][2] = {{0, 1}, {1, 1}, {-1, 1}, {1, 0}, {0, 0}, {0, 0}, {-1, 0}, {0, -1}};
    int polesLeft = 3;   // keeps polynomial growth small
    for (auto& k : v) {
        double a0 = r.chance(0.5) ? 1 : std::ldexp(r.chance(0.5) ? 1 : -1, r.range(-3, 3));
        auto p = per[onlyFir ? 4 : r.below(8)];
        if ((p[0] || p[1]) && polesLeft-- <= 0) p = per[4];
        int big = n > 4 ? 1 : 3;
        k = Sos{r.range(-big, big) * a0, r.range(-big, big) * a0, r.range(-big, big) * a0, a0, p[0] * a0, p[1] * a0};
    }
    return v;
}

static void c04(Run& R) {
    auto& reg = sosRegistry();
    // integer sections and integer samples: every topology has to give the exact integers
    R.part("exact", 24000, 800000, [&](Rng& r, long i) {
        auto& e = reg[(size_t)i % reg.size()];
        auto sos = intSos(r, e.n, r.chance(0.2));
        R.desc(descSos(e, sos));
        std::unique_ptr<ISos> f(r.chance(0.5) ? e.makeWith(sos) : e.make());
        f->setup(sos);
        int len = r.chance(0.1) ? 400 : 60;
        if (r.chance(0.3)) { for (int k = 0; k < 9; k++) f->d(r.range(-9, 9)); f->reset(); }
        // reference on integers: y = b0 x + ... - a1 y1 - a2 y2 (a0 divided out exactly)
        std::vector<std::array<__int128, 4>> st(e.n, {0, 0, 0, 0});
        int kind = (int)r.below(3);
        for (int n = 0; n < len; n++) {
            int x = kind == 0 ? r.range(-7, 7) : kind == 1 ? (n == 0) : (r.chance(0.2) ? r.range(-7, 7) : 0);
            __int128 v = x;
            bool small = true;
            for (int k = 0; k < e.n; k++) {
                auto q = [&](int j) { return (__int128)llrint(sos[k][j] / sos[k][3]); };
                __int128 y = q(0) * v + q(1) * st[k][0] + q(2) * st[k][1] - q(4) * st[k][2] - q(5) * st[k][3];
                st[k] = {v, st[k][0], y, st[k][2]};
                v = y;
                // intermediate values of the other forms stay within 53 bits as well
                if (v > ((__int128)1 << 44) || v < -((__int128)1 << 44)) small = false;
            }
            double got = f->d(x);
            if (!small) { R.count("exact.outgrown"); break; }
            R.count("exact.samples");
            if (!R.check(got == (double)v, fmt("exact.%s", stName[e.st]), fmt("sample %d is %.17g but the difference equation gives %.17g", n, got, (double)v))) break;
        }
        R.nontrivial(R.curDesc);
    });
    // arbitrary coefficients against a long double reference
    R.part("real", 24000, 1000000, [&](Rng& r, long i) {
        auto& e = reg[(size_t)i % reg.size()];
        std::vector<Sos> sos(e.n);
        bool unstable = r.chance(0.2);
        for (auto& k : sos) {
            double rho = unstable ? r.uni(0.5, 1.3) : r.uni(0, 0.99), th = r.uni(0, M_PI), a0 = r.chance(0.4) ? 1 : (r.chance(0.5) ? 1 : -1) * r.logu(0.01, 100);
            bool real = r.chance(0.3);
            double p = r.uni(-0.98, 0.98), q = r.uni(-0.98, 0.98);
            auto z = [&](double v) { return r.chance(0.15) ? 0.0 : v; };
            k = Sos{z(r.uni(-2, 2)) * a0, z(r.uni(-2, 2)) * a0, z(r.uni(-2, 2)) * a0, a0, (real ? -(p + q) : z(-2 * rho * std::cos(th))) * a0, (real ? p * q : z(rho * rho)) * a0};
        }
        R.desc(descSos(e, sos));
        std::unique_ptr<ISos> f(e.make());
        f->setup(sos);
        Ref ref;
        std::vector<Coef> c;
        for (auto& k : sos) c.push_back(ofSos(k));
        ref.set(c, DF1);     // the difference equation itself, whatever the topology
        int len = unstable ? 60 : (int)r.range(50, 600);
        int kind = (int)r.below(4);
        double amp = r.chance(0.8) ? 1 : r.logu(1e-100, 1e100);
        LD peak = 0, tolN = 0;
        // internal amplification decides on rounding: bound it by the gains of the sections
        LD amplification = 1;
        for (auto& k : c) { Sec s; s.set(k); s.st = DF2; LD m = 0, x = 1; Coef kk = k; kk.b0 = kk.a0; kk.b1 = kk.b2 = 0; Sec w; w.set(kk); for (int n = 0; n < std::min(len, 400); n++) { m += fabsl(w.step(x)); x = 0; } amplification *= (1 + m) * (1 + fabsl(s.b0) + fabsl(s.b1) + fabsl(s.b2)); if (amplification > 1e200L) break; }
        tolN = 1e-15L * amplification * fabsl((LD)amp);
        bool useful = tolN < 1e-3L * fabsl((LD)amp);
        for (int n = 0; n < len; n++) {
            if (r.chance(0.003)) { f->reset(); ref.reset(); }
            double x = amp * (kind == 0 ? r.uni(-1, 1) : kind == 1 ? (n == 0) : kind == 2 ? 1 : (r.chance(0.1) ? r.gauss() : 0));
            double got = f->d(x);
            LD want = ref.step(x);
            peak = std::max(peak, fabsl(want));
            if (!useful) continue;
            LD err = fabsl(got - want), tol = 64 * tolN * e.n + 1e-11L * peak;
            if (!(err >= 0)) err = INFINITY;
            R.maxOf("real.err_over_tol", (double)(err / tol));
            if (!R.check(err <= tol, fmt("real.%s", stName[e.st]), fmt("sample %d is %.15g but the difference equation gives %.15Lg", n, got, want))) break;
        }
        R.count(useful ? "real.useful" : "real.too_ill_conditioned");
        R.nontrivial(R.curDesc);
    });
    // sections used on their own with each state
    R.part("section", 12000, 500000, [&](Rng& r, long) {
        double a0 = r.chance(0.4) ? 1 : (r.chance(0.5) ? 1 : -1) * r.logu(0.01, 100);
        double rho = r.uni(0, 0.98), th = r.uni(0, M_PI);
        Coef c{a0, -2 * rho * std::cos(th) * a0, rho * rho * a0, r.uni(-2, 2) * a0, r.uni(-2, 2) * a0, r.uni(-2, 2) * a0};
        Biquad b;
        R.desc(fmt("section a=%.17g,%.17g,%.17g b=%.17g,%.17g,%.17g", c.a0, c.a1, c.a2, c.b0, c.b1, c.b2));
        b.setCoefficients(c.a0, c.a1, c.a2, c.b0, c.b1, c.b2);
        Iir::DirectFormI s1; Iir::DirectFormII s2; Iir::TransposedDirectFormII s3;
        Ref ref; ref.set({c}, DF1);
        for (int n = 0; n < 200; n++) {
            double x = r.uni(-1, 1);
            LD want = ref.step(x);
            double y[3] = {rawRun(b, s1, x), rawRun(b, s2, x), rawRun(b, s3, x)};
            for (int k = 0; k < 3; k++) {
                LD err = fabsl(y[k] - want), tol = 1e-9;
                R.maxOf("section.err_over_tol", (double)(err / tol));
                if (!R.check(err <= tol, fmt("section.%s", stName[k]), fmt("sample %d is %.15g but the difference equation gives %.15Lg", n, y[k], want))) return;
            }
        }
        R.nontrivial(R.curDesc);
    });
    // designed filters: the sections they expose, applied to samples
    auto designed = [&](Rng& r, long i, int len, const char* part) {
        std::vector<Coef> c;
        std::unique_ptr<IFilter> f; std::unique_ptr<IRbj> q;
        StT st; std::string kind;
        double rel = 1e-7;
        if (i % 4 == 3) {
            auto& e = rbjRegistry()[(size_t)(i / 4) % R_N];
            q.reset(e.make());
            RP p = genRbj(r, e.typ, 0.01);
            if (e.typ == R_BSH) p.a = std::min(p.a, 1.0);
            R.desc(descR(e.typ, p));
            q->setup(p);
            c.push_back(q->coef());
            st = DF1; kind = rbjName[e.typ];
        } else {
            const Entry& e = pickEntry(r);
            f.reset(e.make());
            Dom d; d.fmin = 0.01; d.fmax = 0.49; d.wmin = 0.01; d.maxOrder = 33;   // rounding noise of longer cascades outgrows the tolerance
            P p = genValid(r, e, d);
            R.desc(descP(e, p));
            f->setup(p);
            c = f->coefs();
            st = e.st; kind = stName[st];
            if (effOrder(e, p) > 16) rel = 1e-4;
        }
        Ref ref;
        ref.set(c, DF1);
        int sig = (int)r.below(4);
        LD peak = 1e-3;
        double w = r.uni(0, 0.5);
        for (int n = 0; n < len; n++) {
            double x = sig == 0 ? r.uni(-1, 1) : sig == 1 ? (n == 0) : sig == 2 ? std::sin(2 * M_PI * w * n) : 1;
            if (r.chance(2.0 / len)) { if (f) f->reset(); else q->reset(); ref.reset(); }
            double got = f ? f->filter(x) : q->filter(x);
            LD want = ref.step(x);
            peak = std::max(peak, fabsl(want));
            LD err = fabsl(got - want), tol = rel * peak;
            if (!(err >= 0)) err = INFINITY;
            R.maxOf(std::string(part) + ".err_over_tol", (double)(err / tol));
            if (!R.check(err <= tol, fmt("%s.%s", part, kind.c_str()), fmt("sample %d is %.15g but the difference equation gives %.15Lg", n, got, want))) break;
        }
        R.count(std::string(part) + ".samples", len);
        R.nontrivial(R.curDesc);
    };
    R.part("designed", 8000, 300000, [&](Rng& r, long i) { designed(r, i, (int)r.range(20, 2000), "designed"); });
    R.part("long", 40, 400, [&](Rng& r, long i) { designed(r, i, R.opt.thorough ? 3000000 : 300000, "long"); });
    // Streams long enough for any 32-bit counter to wrap. A marginally stable section which is driven so that its internal
    // signal is a fixed period of integers: every topology has to reproduce the period exactly, for ever.
    R.part("wrap", 4, 8, [&](Rng& r, long i) {
        const int N = 64;
        int v[N] = {}, x[N]; double want[N], in[N];
        for (int n = 0; n < N - 6; n++) v[n] = r.range(-9, 9);
        int a1 = r.chance(0.5) ? 1 : -1, a2 = 1, b0 = r.range(1, 5), b1 = r.range(-5, 5), b2 = r.range(1, 5);
        auto at = [&](int n) { return v[(n + N) % N]; };
        for (int n = 0; n < N; n++) { x[n] = at(n) + a1 * at(n - 1) + a2 * at(n - 2); in[n] = x[n]; want[n] = b0 * at(n) + b1 * at(n - 1) + b2 * at(n - 2); }
        const double m[1][6] = {{(double)b0, (double)b1, (double)b2, 1, (double)a1, (double)a2}};
        R.desc(fmt("endless stream %ld through b=%d,%d,%d a=1,%d,%d", i, b0, b1, b2, a1, a2));
        auto run = [&](auto& f, const char* nm) {
            const long blocks = ((i < 4 ? 1L << 32 : 1L << 33) >> 6) + 1024;
            for (long k = 0; k < blocks; k++) {
                bool bad = false;
                for (int n = 0; n < N; n++) bad |= f.filter(in[n]) != want[n];
                if (bad) { R.check(false, std::string("wrap.") + nm, fmt("output differs from the difference equation between samples %ld and %ld", k * N, k * N + N)); return; }
                if (!(k & 0xfffff)) R.armWatchdog();
            }
            R.count("wrap.samples", (uint64_t)blocks * N);
            R.check(true, "", "");
        };
        switch (i % 4) {
        case 0: { Iir::Custom::SOSCascade<1, Iir::DirectFormI> f(m); run(f, stName[0]); break; }
        case 1: { Iir::Custom::SOSCascade<1, Iir::DirectFormII> f(m); run(f, stName[1]); break; }
        case 2: { Iir::Custom::SOSCascade<1, Iir::TransposedDirectFormII> f(m); run(f, stName[2]); break; }
        default: { Iir::RBJ::LowPass f; f.setCoefficients(1, a1, a2, b0, b1, b2); run(f, "RBJ"); break; }
        }
        R.nontrivial(R.curDesc);
    }, false);
    // Gain-only sections whose products with integers are exact: an integer sample type gets the result towards zero.
    R.part("trunc", 12000, 400000, [&](Rng& r, long i) {
        int q = r.range(1, 31), which = (int)(i % 3);
        double g;
        switch (r.below(3)) {
        case 0: g = r.range(-3, 3) + (r.chance(0.5) ? 1 : -1) * std::ldexp(1, -q); break;      // next to an integer
        case 1: g = r.range(-3, 3) + std::ldexp((double)r.range(-1023, 1023), -10); break;
        default: g = r.range(-2, 2) * 0.5 + (r.chance(0.5) ? 1 : -1) * std::ldexp(1, -q);       // next to a half
        }
        double sc = std::ldexp(r.chance(0.5) ? 1 : -1, r.range(-3, 3));
        const char* cls;
        std::unique_ptr<IFilter> f; std::unique_ptr<IRbj> h; std::unique_ptr<ISos> u;
        if (which == 0) {
            const Entry& e = pickEntry(r);
            f.reset(e.make());
            Dom d; P p = genValid(r, e, d);
            f->setup(p);
            for (int k = 0; k < f->numStages(); k++) f->storage()[k].setIdentity();
            f->storage()[r.below((uint64_t)f->numStages())].setCoefficients(sc, 0, 0, g * sc, 0, 0);
            cls = "pole"; R.desc(e.name() + fmt(" as a gain of %.17g", g));
        } else if (which == 1) {
            auto& e = rbjRegistry()[(size_t)(i / 3) % R_N];
            h.reset(e.make()); h->base().setCoefficients(sc, 0, 0, g * sc, 0, 0);
            cls = "rbj"; R.desc(e.name() + fmt(" as a gain of %.17g", g));
        } else {
            auto& e = reg[r.below(reg.size())];
            std::vector<Sos> s((size_t)e.n, Sos{1, 0, 0, 1, 0, 0});
            s[r.below((uint64_t)e.n)] = Sos{g * sc, 0, 0, sc, 0, 0};
            u.reset(e.makeWith(s)); cls = "sos"; R.desc(descSos(e, s));
        }
        for (int n = 0; n < 24; n++) {
            int typ = (int)r.below(which == 2 ? 6 : 4);
            int lim = typ == 2 ? 8000 : typ == 5 ? 30 : 300000;   // every product stays exact in double precision and within the type
            if (r.chance(0.5)) lim = 20;
            int x = r.range(-lim, lim);
            double y = g * (double)x, got, want;
            if (typ == 5 && std::fabs(y) > 126) continue;
            if (r.chance(0.15)) {   // unsigned samples up to the end of the type
                unsigned w = r.chance(0.5) ? (unsigned)r.next() : (unsigned)r.below(40);
                long double e = (long double)g * w;
                if (e < 0 || e >= 4294967296.0L || e != (long double)(double)e) continue;
                unsigned a = f ? f->filterU(w) : h ? h->filterU(w) : u->u(w);
                R.count("trunc.samples");
                if (!R.check(a == (unsigned)(double)e, fmt("trunc.%s.unsigned", cls), fmt("sample %u times %.17g gives %u, but should be %.17Lg", w, g, a, e))) return;
                continue;
            }
            switch (typ) {
            case 0: got = f ? f->filter(x) : h ? h->filter(x) : u->d(x); want = y; break;
            case 1: got = f ? f->filterI(x) : h ? h->filterI(x) : u->i(x); want = std::trunc(y); break;
            case 2: got = f ? f->filterS((short)x) : h ? h->filterS((short)x) : u->s((short)x); want = std::trunc(y); break;
            case 3: got = f ? f->filterF((float)x) : h ? h->filterF((float)x) : u->f((float)x); want = (float)y; break;
            case 4: got = (double)u->l(x); want = std::trunc(y); break;
            default: got = u->c((signed char)x); want = std::trunc(y);
            }
            static const char* tn[] = {"double", "int", "short", "float", "long", "char"};
            R.count("trunc.samples");
            if (!R.check(got == want, fmt("trunc.%s.%s", cls, tn[typ]), fmt("sample %d times %.17g gives %.17g as %s, but should be %.17g", x, g, got, tn[typ], want))) return;
        }
        R.nontrivial(R.curDesc);
    });
    // sample types: the internal signal is the double one
    R.part("types", 10000, 300000, [&](Rng& r, long i) {
        struct T { virtual ~T() {} };
        int which = (int)(i % 3);
        int typ = (int)r.below(which == 2 ? 7 : 2);
        std::unique_ptr<IFilter> f, g; std::unique_ptr<IRbj> q, h; std::unique_ptr<ISos> u, v;
        std::string cls;
        if (which == 0) {
            const Entry& e = pickEntry(r);
            f.reset(e.make()); g.reset(e.make());
            P p = genValid(r, e);
            if (hasGain(e.typ)) p.g = std::max(-20.0, std::min(20.0, p.g));
            R.desc(descP(e, p)); cls = "pole";
            f->setup(p); g->setup(p);
        } else if (which == 1) {
            auto& e = rbjRegistry()[r.below(R_N)];
            q.reset(e.make()); h.reset(e.make());
            RP p = genRbj(r, e.typ, 0.01);
            if (e.typ == R_BSH) p.a = std::min(p.a, 1.0);
            R.desc(descR(e.typ, p)); cls = "rbj";
            q->setup(p); h->setup(p);
        } else {
            auto& e = reg[r.below(reg.size())];
            std::vector<Sos> sos(e.n, Sos{1, 0, 0, 1, 0, 0});
            for (int k = 0; k < std::min(e.n, 3); k++) { double rho = r.uni(0, 0.9), th = r.uni(0, M_PI), g0 = r.uni(0.05, 0.4); sos[k] = Sos{g0, g0 * r.uni(-1, 1), g0 * r.uni(-1, 1), 1, -2 * rho * std::cos(th), rho * rho}; }
            if (r.chance(0.3)) sos[0][0] = 0.5;
            R.desc(descSos(e, sos)); cls = "sos";
            u.reset(e.make()); v.reset(e.makeWith(sos)); u->setup(sos);
        }
        auto dbl = [&](double x) { return g ? g->filter(x) : h ? h->filter(x) : v->d(x); };
        double amp = typ == 6 ? 30 : typ == 3 ? 500 : typ == 1 || typ == 4 ? (r.chance(0.5) ? 10 : 20000) : r.logu(1e-3, 1e6);
        // double samples before: state carries fractions
        if (r.chance(0.5)) for (int k = 0; k < 5; k++) {
            double x = r.uni(-1, 1);
            if (f) f->filter(x); else if (q) q->filter(x); else u->d(x);
            dbl(x);
        }
        for (int n = 0; n < 80; n++) {
            double x = amp * r.uni(-1, 1);
            double got, want, slack = 1e-9;
            auto chk = [&](const char* ty, double lo, double hi) {
                R.count("types.samples");
                return R.check(got >= std::min(lo, hi) && got <= std::max(lo, hi), fmt("types.%s.%s", cls.c_str(), ty), fmt("sample %d: %s result %.15g, with double samples %.15g", n, ty, got, want));
            };
            bool ok = true;
            switch (typ) {
            case 0: { float xf = (float)x; want = dbl((double)xf); got = f ? f->filterF(xf) : q ? q->filterF(xf) : u->f(xf); double e = std::fabs(want) * slack + 1e-300; ok = chk("float", (float)(want - e), (float)(want + e)); break; }
            case 1: { int xi = (int)x; want = dbl(xi); if (std::fabs(want) > 2e9) return; got = f ? f->filterI(xi) : q ? q->filterI(xi) : u->i(xi); double e = std::fabs(want) * slack + 1e-9; ok = chk("int", (int)(want - e), (int)(want + e)); break; }
            case 2: { got = u->d(x); want = dbl(x); double e = std::fabs(want) * slack; ok = chk("double", want - e, want + e); break; }
            case 3: { short xs = (short)x; want = dbl(xs); if (std::fabs(want) > 32000) return; got = u->s(xs); double e = 1e-9 + std::fabs(want) * slack; ok = chk("short", (short)(want - e), (short)(want + e)); break; }
            case 4: { long xl = (long)x; want = dbl((double)xl); if (std::fabs(want) > 9e15) return; got = (double)u->l(xl); double e = 1e-9 + std::fabs(want) * slack; ok = chk("long", (double)(long)(want - e), (double)(long)(want + e)); break; }
            case 5: { want = dbl(x); got = (double)u->e(x); double e = std::fabs(want) * slack; ok = chk("long double", want - e, want + e); break; }
            default: { signed char xc = (signed char)x; want = dbl(xc); if (std::fabs(want) > 126) return; got = u->c(xc); double e = 1e-9 + std::fabs(want) * slack; ok = chk("char", (signed char)(want - e), (signed char)(want + e)); break; }
            }
            if (!ok) break;
        }
        R.nontrivial(R.curDesc + fmt(" type %d", typ));
    });
}

// ------------------------------------------------------------------- C05
static bool sameBits(double a, double b) { return memcmp(&a, &b, 8) == 0 || a == b || (a != a && b != b); }
static const double nasty[] = {NAN, INFINITY, -INFINITY, 1e308, -1e308, 5e-324, 1e300, -0.0, 1e-310};

// the size of the samples of one stream: mostly 1, sometimes at the ends of the number range
static double size(Rng& r) {
    static const double a[] = {1e-322, 1e-310, 1e-300, 1e-290, 1e-160, 1e-30, 1e-9, 1e9, 1e30, 1e160, 1e280};
    return r.chance(0.6) ? 1 : a[r.below(11)];
}

static void c05(Run& R) {
    R.part("fresh", 2000, 40000, [&](Rng& r, long i) {
        std::unique_ptr<IFilter> f; std::unique_ptr<IRbj> q; std::unique_ptr<ISos> s;
        std::string cls;
        switch (i % 3) {
        case 0: { auto& v = registry(); auto& e = v[(size_t)(i / 3) % v.size()]; f.reset(e.make()); cls = e.name(); break; }
        case 1: { auto& e = rbjRegistry()[(size_t)(i / 3) % R_N]; q.reset(e.make()); cls = e.name(); break; }
        default: { auto& v = sosRegistry(); auto& e = v[(size_t)(i / 3) % v.size()]; s.reset(e.make()); cls = fmt("SOSCascade<%d,%s>", e.n, stName[e.st]); }
        }
        R.desc(cls + " without setup");
        for (int n = 0; n < 60; n++) {
            double x = r.chance(0.2) ? std::ldexp(r.uni(-1, 1), r.range(-1000, 1000)) : r.uni(-1, 1);
            if (r.chance(0.05)) { if (f) f->reset(); else if (q) q->reset(); else s->reset(); }
            double y;
            int t = (int)r.below(3);
            if (t == 1) { float xf = (float)r.uni(-10, 10); x = xf; y = f ? f->filterF(xf) : q ? q->filterF(xf) : s->f(xf); }
            else if (t == 2) { int xi = r.range(-1000000, 1000000); x = xi; y = f ? f->filterI(xi) : q ? q->filterI(xi) : s->i(xi); }
            else y = f ? f->filter(x) : q ? q->filter(x) : s->d(x);
            if (!R.check(y == x, "fresh", fmt("sample %d: %.17g came out as %.17g", n, x, y))) break;
        }
        R.nontrivial(R.curDesc + fmt("#%ld", i));
    });
    // reset, and setups on a running filter, against an undisturbed or fresh twin
    auto poleCase = [&](Rng& r) {
        const Entry& e = pickEntry(r);
        int mode = (int)r.below(3);
        Dom d; d.fmin = 0.005; d.fmax = 0.495; d.wmin = 0.01;
        if (mode < 2 && r.chance(0.15)) d = wideDom();
        if (mode == 2) d.maxOrder = 28;      // the rounding noise of higher orders outgrows the tolerance of the model
        P p = genValid(r, e, d);
        R.desc(descP(e, p));
        std::string k = stName[e.st];
        std::unique_ptr<IFilter> f(e.make());
        f->setup(p);
        // a newly set-up filter has zero delay lines
        if (r.chance(0.3)) { double y0 = 0; for (int n = 0; n < 4; n++) y0 = std::max(y0, std::fabs(f->filter(0.0))); R.check(y0 == 0, "fresh.setup." + k, "a newly set-up filter does not give zero for zero"); }
        auto c0 = f->coefs();
        auto play = [&](IFilter& a, Rng& q, int n, double amp) { for (int i = 0; i < n; i++) a.filter(amp * q.uni(-1, 1)); };
        if (mode == 0) {
            // history, reset, compare with fresh
            int cycles = r.range(1, 3);
            for (int cy = 0; cy < cycles; cy++) {
                int h = (int)r.below(7);
                if (r.chance(0.3)) { P p2 = genValid(r, e, d); f->setup(p2); play(*f, r, 7, 1); f->setup(p); }
                if (h == 0) play(*f, r, (int)r.below(200), 1);
                else if (h == 1) play(*f, r, 1, 1);
                // nothing but tiny samples, nothing but one special value, nothing but one other type of samples
                else if (h == 4) { double a = r.pick(std::vector<double>{1e-323, 1e-310, 1e-300, 1e-200, 1e-100, 1e-20}); play(*f, r, r.range(1, 60), a); }
                else if (h == 5) { double v = nasty[r.below(9)]; for (int n = r.range(1, 5); n > 0; n--) f->filter(v); }
                else if (h == 6) { int t = (int)r.below(3); bool small = r.chance(0.3); for (int n = r.range(1, 30); n > 0; n--) { if (t == 0) f->filterF(small ? 1e-45f : (float)r.uni(-1, 1)); else if (t == 1) f->filterI(r.range(-1000, 1000)); else f->filterS((short)r.range(-100, 100)); } }
                else if (h == 2) { play(*f, r, 20, 1e300); for (int n = 0; n < 10; n++) f->filter(nasty[r.below(9)]); }
                else { for (int n = (int)r.below(6); n >= 0; n--) f->filter(nasty[r.below(9)]); play(*f, r, 5, 1); }
                f->reset();
                if (r.chance(0.2)) f->reset();
                std::unique_ptr<IFilter> g(e.make());
                g->setup(p);
                auto c1 = f->coefs();
                R.check(c1.size() == c0.size() && !memcmp(c1.data(), c0.data(), c0.size() * sizeof(Coef)), "reset.coefficients." + k, "reset changed coefficients");
                int n = (int)r.range(5, 60), zeros = r.chance(0.5) ? r.range(1, 4) : 0;
                double am = size(r);
                for (int i = 0; i < n; i++) {
                    double x = i < zeros ? 0 : am * r.uni(-1, 1);
                    double a = f->filter(x), b = g->filter(x);
                    if (!R.check(sameBits(a, b), "reset." + k, fmt("sample %d after reset is %.17g, in a fresh filter %.17g", i, a, b))) return;
                }
            }
        } else if (mode == 1) {
            // re-tuning with the same parameters, or away and back, at any point of the stream
            std::unique_ptr<IFilter> g(e.make());
            g->setup(p);
            int n = (int)r.range(20, 300), at = (int)r.below((uint64_t)n), what = (int)r.below(4);
            double am = size(r);
            if (am != 1) am = std::max(am, 1e-290) > 1e250 ? 1e250 : std::max(am, 1e-290);
            for (int i = 0; i < n; i++) {
                if (i == at || r.chance(0.03)) {
                    if (what == 0) f->setup(p);
                    else if (what == 1) { f->setup(genValid(r, e, d)); f->setup(p); }
                    else if (what == 2) { P q = p; q.form |= 1; q.order = r.range(1, e.order); f->setup(q); f->setup(p); }
                    else { f->setup(asForm(e, p, p.form)); f->setup(p); }
                    R.count("retuned");
                }
                double x = r.chance(0.1) ? 0 : am * r.uni(-1, 1);
                double a = f->filter(x), b = g->filter(x);
                if (!R.check(sameBits(a, b) || std::fabs(a - b) <= 1e-12 * std::fabs(b), "retune." + k, fmt("sample %d is %.17g after re-tuning with the same parameters at %d, undisturbed %.17g", i, a, at, b))) return;
            }
        } else {
            // arbitrary re-tuning of a running filter: sections keep their delay lines
            Ref ref;
            auto all = [&]() { std::vector<Coef> c; for (int k = 0; k < f->capStages(); k++) c.push_back(coefOf(f->storage()[k])); return c; };
            ref.set(all(), e.st);
            int n = (int)r.range(30, 300);
            LD peak = 1e-3;
            for (int i = 0; i < n; i++) {
                if (r.chance(0.04)) {
                    P q = genValid(r, e, d);
                    f->setup(q);
                    ref.set(all(), e.st);
                    R.count("retuned");
                }
                if (r.chance(0.01)) { f->reset(); ref.reset(); }
                double x = r.uni(-1, 1);
                double a = f->filter(x);
                LD b = ref.step(x);
                // rounding noise follows the largest internal signal
                for (auto& s : ref.s) peak = std::max(peak, std::max(std::max(fabsl(s.y1), fabsl(s.v1)), std::max(fabsl(s.s1), fabsl(s.x1))) * (fabsl(s.b0) + fabsl(s.b1) + fabsl(s.b2)));
                if (peak > 1e12) { R.count("model.outgrown"); return; }
                LD err = fabsl(a - b), tol = 1e-8 * peak + 1e-9;
                if (!(err >= 0)) err = INFINITY;
                R.maxOf("model.err_over_tol", (double)(err / tol));
                if (!R.check(err <= tol, "model." + k, fmt("sample %d after re-tuning is %.15g, with kept delay lines it would be %.15Lg", i, a, b))) return;
            }
        }
    };
    // the same re-tuning and resetting over and over: more often than 16-bit counters can count
    R.part("often", 36, 144, [&](Rng& r, long i) {
        const long many = 70000;
        std::unique_ptr<IFilter> f, g; std::unique_ptr<IRbj> q, h; std::unique_ptr<ISos> u, v;
        P p; RP rp; std::vector<Sos> s;
        if (i % 3 == 0) {
            const Entry* e = &pickEntry(r);
            while (e->order > 3) e = &pickEntry(r);
            Dom d; d.fmin = 0.005; d.fmax = 0.495; d.wmin = 0.01;
            p = genValid(r, *e, d); R.desc(descP(*e, p) + " again and again");
            f.reset(e->make()); g.reset(e->make()); f->setup(p); g->setup(p);
        } else if (i % 3 == 1) {
            auto& e = rbjRegistry()[(size_t)(i / 3) % R_N];
            rp = genRbj(r, e.typ, 0.01); if (e.typ == R_BSH) rp.a = std::min(rp.a, 1.0);
            R.desc(descR(e.typ, rp) + " again and again");
            q.reset(e.make()); h.reset(e.make()); q->setup(rp); h->setup(rp);
        } else {
            auto& reg = sosRegistry(); auto& e = reg[(size_t)(i / 3) % 15];
            s.resize(e.n);
            for (auto& k : s) { double rho = r.uni(0, 0.9), th = r.uni(0, M_PI); k = Sos{r.uni(-1, 1), r.uni(-1, 1), r.uni(-1, 1), 1, -2 * rho * std::cos(th), rho * rho}; }
            R.desc(descSos(e, s) + " again and again");
            u.reset(e.makeWith(s)); v.reset(e.makeWith(s));
        }
        auto setup = [&]() { if (f) f->setup(p); else if (q) q->setup(rp); else u->setup(s); };
        auto reset1 = [&]() { if (f) f->reset(); else if (q) q->reset(); else u->reset(); };
        auto reset2 = [&]() { if (g) g->reset(); else if (h) h->reset(); else v->reset(); };
        for (long k = 0; k < many; k++) {
            setup();
            double x = r.uni(-1, 1), a = f ? f->filter(x) : q ? q->filter(x) : u->d(x), b = g ? g->filter(x) : h ? h->filter(x) : v->d(x);
            if (!R.check(sameBits(a, b) || std::fabs(a - b) <= 1e-12 * std::fabs(b), "often.setup", fmt("after %ld setups with the same arguments the sample is %.17g, undisturbed %.17g", k + 1, a, b))) return;
        }
        for (long k = 0; k < many; k++) {
            reset1(); if (k % 64 == 0 || k > many - 200) reset2(); 
            double x = k & 1 ? 0.5 : -1, a = f ? f->filter(x) : q ? q->filter(x) : u->d(x);
            if (k % 64 == 0 || k > many - 200) { double b = g ? g->filter(x) : h ? h->filter(x) : v->d(x); if (!R.check(sameBits(a, b), "often.reset", fmt("after %ld resets the sample is %.17g instead of %.17g", k + 1, a, b))) return; }
        }
        R.count("setups", (uint64_t)many); R.count("resets", (uint64_t)many);
        R.nontrivial(R.curDesc);
    }, false);
    R.part("pole", 16000, 600000, [&](Rng& r, long) { poleCase(r); R.nontrivial(R.curDesc); });
    // Sections that act as delays and streams with runs of exact zeros: the newest samples in a delay line can be
    // zero while older ones are not, when reset or setup come.
    R.part("gaps", 8000, 300000, [&](Rng& r, long i) {
        auto& reg = sosRegistry();
        auto& e = reg[(size_t)i % reg.size()];
        static const double num[][3] = {{0, 0, 1}, {0, 1, 0}, {1, 0, 0}, {0, 1, 1}, {0, 0, -2}, {1, 0, -1}, {1, 0, 1}, {0, 0.5, 0}, {0.5, 0, 0.25}, {0, 0, 0}};
        static const double den[][2] = {{0, 0}, {0, 0}, {0, 0.5}, {0, -0.5}, {0.5, 0}, {0, 0.25}, {0, 1}, {-0.5, 0}};
        auto gen = [&]() {
            std::vector<Sos> s(e.n);
            for (auto& k : s) { auto& b = num[r.below(10)]; auto& a = den[r.below(8)]; double a0 = r.chance(0.7) ? 1 : r.chance(0.5) ? -1 : 2; k = Sos{b[0] * a0, b[1] * a0, b[2] * a0, a0, a[0] * a0, a[1] * a0}; }
            return s;
        };
        auto s = gen();
        R.desc(descSos(e, s) + " with gaps");
        std::unique_ptr<ISos> f(e.makeWith(s));
        std::string k = stName[e.st];
        int cycles = r.range(2, 5);
        const double unit = r.chance(0.6) ? 1 : r.chance(0.5) ? 5e-324 : std::ldexp(1.0, r.range(-1060, 900));
        for (int cy = 0; cy < cycles; cy++) {
            // history: sparse samples, then up to 4 exact zeros (of either sign)
            int n = r.range(1, 12);
            for (int j = 0; j < n; j++) f->d(r.chance(0.5) ? 0.0 : r.chance(0.1) && unit == 1 ? nasty[r.below(9)] : unit * r.range(-4, 4));
            for (int z = (int)r.below(5); z > 0; z--) f->d(r.chance(0.2) ? -0.0 : 0.0);
            f->reset();
            if (r.chance(0.3)) { s = gen(); f->setup(s); }
            std::unique_ptr<ISos> g(e.makeWith(s));
            // undisturbed twin from here on; the other one is set up again on the way
            for (int j = 0; j < 30; j++) {
                double x = j < 6 && r.chance(0.7) ? 0.0 : r.chance(0.4) ? 0.0 : unit * r.range(-4, 4);
                if (j > 8 && r.chance(0.15)) { f->setup(s); R.count("retuned"); }
                double a = f->d(x), b = g->d(x);
                if (!R.check(sameBits(a, b), "gaps." + k, fmt("sample %d after reset is %.17g, in a fresh filter %.17g", j, a, b))) return;
            }
        }
        // a single section with each state
        Biquad bq;
        auto& q = s[0];
        bq.setCoefficients(q[3], q[4], q[5], q[0], q[1], q[2]);
        auto one = [&](auto st, const char* nm) {
            for (int rep = 0; rep < 4; rep++) {
                int n = r.range(1, 5);
                for (int j = 0; j < n; j++) st.filter(r.chance(0.6) ? 0.0 : unit * r.range(-4, 4), bq);
                st.reset();
                decltype(st) fresh;
                for (int j = 0; j < 8; j++) { double x = r.chance(0.6) ? 0.0 : unit * r.range(-4, 4), a = st.filter(x, bq), b = fresh.filter(x, bq); if (!R.check(sameBits(a, b), std::string("gaps.state.") + nm, fmt("sample %d after reset is %.17g, in a fresh state %.17g", j, a, b))) return; }
            }
        };
        one(Iir::DirectFormI(), stName[0]); one(Iir::DirectFormII(), stName[1]); one(Iir::TransposedDirectFormII(), stName[2]);
        R.nontrivial(R.curDesc + fmt("#%ld", i));
    });
    // the same with pole and RBJ filters: short histories and runs of zeros before reset
    R.part("gapsdesigned", 6000, 200000, [&](Rng& r, long i) {
        std::unique_ptr<IFilter> f, g; std::unique_ptr<IRbj> q, h;
        if (i % 4 == 0) {
            auto& e = rbjRegistry()[(size_t)(i / 4) % R_N];
            RP p = genRbj(r, e.typ, 0.01);
            if (r.chance(0.5)) { p.f = (p.form ? p.fs : 1) * 0.25; }
            if (e.typ == R_BSH) p.a = std::min(p.a, 1.0);
            R.desc(descR(e.typ, p) + " with gaps");
            q.reset(e.make()); h.reset(e.make());
            q->setup(p); h->setup(p);
        } else {
            const Entry& e = pickEntry(r);
            Dom d; d.fmin = 0.005; d.fmax = 0.495; d.wmin = 0.01;
            P p = genValid(r, e, d);
            R.desc(descP(e, p) + " with gaps");
            f.reset(e.make()); g.reset(e.make());
            f->setup(p); g->setup(p);
        }
        int n = r.range(1, 4);
        double am = size(r);
        for (int j = 0; j < n; j++) { double x = r.chance(0.3) ? 0 : r.chance(0.1) && am == 1 ? nasty[r.below(9)] : am * r.uni(-1, 1); if (f) f->filter(x); else q->filter(x); }
        for (int z = (int)r.below(4); z > 0; z--) { if (f) f->filter(0); else q->filter(0); }
        if (f) f->reset(); else q->reset();
        for (int j = 0; j < 24; j++) {
            double x = j < 4 || r.chance(0.3) ? 0 : r.uni(-1, 1);
            double a = f ? f->filter(x) : q->filter(x), b = g ? g->filter(x) : h->filter(x);
            if (!R.check(sameBits(a, b), "gaps.designed", fmt("sample %d after reset is %.17g, in a fresh filter %.17g", j, a, b))) return;
        }
        R.nontrivial(R.curDesc + fmt("#%ld", i));
    });
    R.part("rbj", 10000, 400000, [&](Rng& r, long i) {
        auto& e = rbjRegistry()[(size_t)i % R_N];
        auto gen = [&]() { RP p = genRbj(r, e.typ, 0.01); if (e.typ == R_BSH) p.a = std::min(p.a, 1.0); return p; };
        RP p = gen();
        R.desc(descR(e.typ, p));
        std::unique_ptr<IRbj> f(e.make()), g(e.make());
        f->setup(p);
        if (r.chance(0.5)) {
            double am = size(r);
            for (int n = (int)r.below(40); n >= 0; n--) f->filter(am == 1 && r.chance(0.2) ? nasty[r.below(9)] : am * r.uni(-1, 1));
            f->reset();
            g->setup(p);
            if (am < 1) for (int n = 0; n < 3; n++) { double a = f->filter(0.0), b = g->filter(0.0); if (!R.check(sameBits(a, b), "rbj.twin", fmt("zero no. %d after reset is %.17g, a new filter gives %.17g", n, a, b))) return; }
        } else g->setup(p);
        Ref ref; ref.set({f->coef()}, DF1);
        LD peak = 1e-3;
        bool model = false;
        for (int n = 0; n < 120; n++) {
            if (r.chance(0.03)) { f->setup(p); R.count("retuned"); if (r.chance(0.5)) { f->setup(gen()); f->setup(p); } }
            double x = r.uni(-1, 1);
            double a = f->filter(x), b = g->filter(x);
            LD c = ref.step(x);
            peak = std::max(peak, fabsl(c));
            if (!R.check(sameBits(a, b) || std::fabs(a - b) <= 1e-12 * std::fabs(b), "rbj.twin", fmt("sample %d is %.17g, twin has %.17g", n, a, b))) return;
            if (!R.check(fabsl(a - c) <= 1e-8 * peak, "rbj.model", fmt("sample %d is %.15g, model has %.15Lg", n, a, c))) return;
        }
        (void)model;
        // the state can be read and continues the stream
        Iir::DirectFormI s = static_cast<Iir::RBJ::RBJbase&>(f->base()).getState();
        double x = r.uni(-1, 1);
        double viaState = s.filter(x, f->base()), own = f->filter(x);
        R.check(std::fabs(viaState - own) <= 1e-9 * peak, "rbj.getState", fmt("state read from the filter continues with %.15g, the filter with %.15g", viaState, own));
        // different parameters on a running filter
        for (int n = 0; n < 60; n++) {
            if (r.chance(0.1)) { f->setup(gen()); ref.set({f->coef()}, DF1); }
            if (n == 0) { f->reset(); ref.reset(); peak = 1e-3; }
            double xx = r.uni(-1, 1);
            double a = f->filter(xx);
            LD b = ref.step(xx);
            peak = std::max(peak, fabsl(b));
            if (n == 0) ref.set({f->coef()}, DF1);
            if (!R.check(fabsl(a - b) <= 1e-8 * peak || n == 0, "rbj.model", fmt("sample %d after re-tuning is %.15g, with kept delay lines it would be %.15Lg", n, a, b))) return;
        }
        R.nontrivial(R.curDesc);
    });
    R.part("sos", 10000, 400000, [&](Rng& r, long i) {
        auto& reg = sosRegistry();
        auto& e = reg[(size_t)i % reg.size()];
        auto gen = [&]() {
            std::vector<Sos> s(e.n);
            for (auto& k : s) { double rho = r.uni(0, 0.9), th = r.uni(0, M_PI), a0 = r.chance(0.5) ? 1 : r.logu(0.1, 10); k = Sos{r.uni(-1, 1) * a0, r.uni(-1, 1) * a0, r.uni(-1, 1) * a0, a0, -2 * rho * std::cos(th) * a0, rho * rho * a0}; }
            return s;
        };
        auto s = gen();
        R.desc(descSos(e, s));
        std::unique_ptr<ISos> f(e.makeWith(s)), g(e.makeWith(s));
        std::string k = stName[e.st];
        if (r.chance(0.5)) { for (int n = (int)r.below(40); n >= 0; n--) f->d(r.chance(0.2) ? nasty[r.below(9)] : r.uni(-1, 1)); f->reset(); }
        Ref ref; ref.set(f->coefs(), e.st);
        LD peak = 1e-3;
        bool away = r.chance(0.5);
        for (int n = 0; n < 120; n++) {
            if (r.chance(0.05)) {
                R.count("retuned");
                if (away) { f->setup(gen()); ref.set(f->coefs(), e.st); }
                else { f->setup(gen()); f->setup(s); }
            }
            double x = r.uni(-1, 1);
            double a = f->d(x);
            LD c = ref.step(x);
            for (auto& q : ref.s) peak = std::max(peak, std::max(std::max(fabsl(q.y1), fabsl(q.v1)), std::max(fabsl(q.s1), fabsl(q.x1))));
            if (!away) { double b = g->d(x); if (!R.check(sameBits(a, b) || std::fabs(a - b) <= 1e-12 * std::fabs(b), "sos.twin." + k, fmt("sample %d is %.17g, twin has %.17g", n, a, b))) return; }
            if (peak > 1e12) return;
            if (!R.check(fabsl(a - c) <= 1e-8 * peak, "sos.model." + k, fmt("sample %d is %.15g, with kept delay lines it would be %.15Lg", n, a, c))) return;
        }
        R.nontrivial(R.curDesc);
    });
}

int main(int argc, char** argv) {
    Run R(argc, argv);
    if (R.opt.extra["--prop"] == "4") c04(R); else c05(R);
    return R.finish();
}
