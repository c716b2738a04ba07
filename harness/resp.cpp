// C08 response() against the signal path, C09 poles and zeros, C10 stability.
#include "gen.h"
#include "rbj_reg.h"
#include "ref.h"
using namespace vf;
typedef std::complex<LD> CL;
typedef std::complex<double> CD;
using Iir::Biquad;

static CL cl(CD c) { return CL(c.real(), c.imag()); }

static std::complex<double> dtft(const std::vector<double>& h, double x) {
    CD s = 0, w = 1, rot = std::polar(1.0, -2 * M_PI * x);
    for (size_t k = 0; k < h.size(); k++) {
        if ((k & 255) == 0) w = std::polar(1.0, -2 * M_PI * fmod(x * k, 1.0));
        s += h[k] * w;
        w *= rot;
    }
    return s;
}
static std::vector<double> freqs(Rng& r, double f0, double w, int n) {
    std::vector<double> v = {0, 0.5, f0, 0.25};
    while ((int)v.size() < n) {
        double u = r.u(), f = u < 0.1 ? 0.5 * r.range(0, 24) / 24 : u < 0.5 ? r.uni(0, 0.5) : u < 0.8 ? f0 + w * r.uni(-1, 1) : r.logu(1e-5, 0.5);
        if (f >= 0 && f <= 0.5) v.push_back(f);
    }
    return v;
}
// samples needed until the slowest pole has decayed below 1e-15
static double decayLen(const std::vector<Coef>& c) {
    LD rad = poleRadius(c);
    return rad <= 0 ? 64 : rad >= 1 ? 1e300 : -34.0 / (double)logl(rad) * (1 + 0.05 * c.size()) + 60 * c.size();
}
static double sumAbs(const std::vector<double>& h) { double s = 0; for (double x : h) s += std::fabs(x); return s; }

// a filter which is used like any other, whatever its class
struct Any {
    std::unique_ptr<IFilter> p;
    std::unique_ptr<IRbj> q;
    double filter(double x) { return p ? p->filter(x) : q->filter(x); }
    void reset() { p ? p->reset() : q->reset(); }
    CD response(double f) const { return p ? p->response(f) : q->response(f); }
    std::vector<Coef> coefs() { return p ? p->coefs() : std::vector<Coef>{q->coef()}; }
    std::vector<Iir::PoleZeroPair> pz() const { return p ? p->pz() : q->pz(); }
    std::string cls, kind;
    double f0 = 0.1, w = 0.1;
};

static Any makeAny(Run& R, Rng& r, long i, double fmin, bool history = true, int maxOrder = 60) {
    Any a;
    auto& rr = rbjRegistry();
    if (r.chance(0.25)) {
        auto& e = rr[(size_t)i % rr.size()];
        a.q.reset(e.make());
        a.cls = e.name(); a.kind = std::string("RBJ.") + rbjName[e.typ];
        RP p;
        for (;;) {
            p = genRbj(r, e.typ, fmin, r.chance(0.2));
            if (e.typ != R_BSH) break;
            double w0 = 2 * M_PI * p.nf();
            if (p.a * w0 / std::sin(w0) < 25) break;
        }
        if (history && r.chance(0.3)) { try { a.q->setup(genRbj(r, e.typ, fmin)); } catch (const std::invalid_argument&) {} }
        R.desc(descR(e.typ, p));
        a.q->setup(p);
        a.f0 = p.nf(); a.w = a.f0;
    } else {
        const Entry& e = pickEntry(r);
        a.p.reset(e.make());
        a.cls = e.name(); a.kind = std::string(famName[e.fam]) + "." + typName[e.typ];
        Dom d;
        d.fmin = fmin; d.fmax = 0.5 - fmin; d.wmin = fmin * 1.5; d.corner = fmin / 4;
        d.maxOrder = maxOrder;
        if (r.chance(0.15)) { d.gmin = 1e-10; d.gmax = 60; d.rmin = 0.001; d.rmax = 15; d.smin = 0.02; d.smax = 150; }
        P p = genValid(r, e, d);
        if (history && r.chance(0.3)) { try { a.p->setup(genValid(r, e, d)); } catch (const std::invalid_argument&) {} }
        R.desc(descP(e, p));
        a.p->setup(p);
        a.f0 = p.nf(); a.w = hasWidth(e.typ) ? p.nw() : a.f0;
    }
    return a;
}

// a zero at infinity (b0 = 0, for example an all pass at a quarter of the sampling rate with
// q = 1/2) has no finite position: such sections are outside of the properties about zeros
static bool zeroAtInfinity(const std::vector<Coef>& c) {
    for (auto& k : c) if (!(std::fabs(k.b0) > 1e-9 * (std::fabs(k.b1) + std::fabs(k.b2)))) return true;
    return false;
}

// ---------------------------------------------------------------- C08
static void c08(Run& R) {
    auto closeTo = [&](const std::string& key, double x, CD got, CL want, LD tol, const char* what) {
        LD err = std::abs(cl(got) - want);
        if (!(err >= 0)) err = INFINITY;
        R.maxOf(key.substr(0, key.find('.')) + ".err_over_tol", (double)(err / tol));
        R.check(err <= tol, key, fmt("response(%.17g) = %.12g%+.12gi, but %s %.12Lg%+.12Lgi", x, got.real(), got.imag(), what, want.real(), want.imag()));
    };
    R.part("signal", 16000, 400000, [&](Rng& r, long i) {
        Any a = makeAny(R, r, i, r.chance(0.8) ? 0.01 : 0.002, true, 33);
        auto c = a.coefs();
        double n = decayLen(c);
        if (!(n < 30000)) { R.count("skipped_long"); return; }
        if (r.chance(0.5)) { for (int k = (int)r.below(20); k >= 0; k--) a.filter(r.uni(-1, 1)); a.reset(); }
        std::vector<double> h((size_t)n);
        for (size_t k = 0; k < h.size(); k++) h[k] = a.filter(k ? 0.0 : 1.0);
        R.count("samples", h.size());
        double s = sumAbs(h);
        for (double x : freqs(r, a.f0, a.w, 12)) {
            CD d = dtft(h, x);
            closeTo("signal." + a.kind, x, a.response(x), cl(d), 1e-8 * s + 1e-10 / std::min(a.f0, 0.5 - a.f0) * std::max(1.0, s * 1e-3), "the filtered impulse has");
        }
        R.nontrivial(R.curDesc);
    });
    R.part("sections", 40000, 1000000, [&](Rng& r, long i) {
        Any a = makeAny(R, r, i, 0.002);
        if (!a.p) {
            auto c = a.coefs();
            for (double x : freqs(r, a.f0, a.w, 12)) { CL w = hOf(c, x); closeTo("coefficients." + a.kind, x, a.response(x), w, 1e-7 * std::abs(w) + 1e-7, "the coefficients have"); }
            R.nontrivial(R.curDesc);
            return;
        }
        auto c = a.coefs();
        for (double x : freqs(r, a.f0, a.w, 12)) {
            CL h = hOf(c, x), prod = 1;
            for (int k = 0; k < a.p->numStages(); k++) prod *= cl(a.p->stage(k).response(x));
            LD tol = 1e-7L * std::abs(h) + 1e-8L;
            closeTo("coefficients." + a.kind, x, a.response(x), h, tol, "the coefficients have");
            closeTo("sections." + a.kind, x, a.response(x), prod, tol, "the product of the sections is");
            Iir::Cascade& base = a.p->base2();
            closeTo("base." + a.kind, x, base.response(x), h, tol, "the coefficients have");
        }
        R.nontrivial(R.curDesc);
    });
    // cutoffs and bands down to 1e-5 of the sampling rate, the longest cascades, the widest ranges of gain and attenuation:
    // the tolerance is what rounding of the section polynomials can amount to at that frequency
    R.part("extreme", 8000, 300000, [&](Rng& r, long i) {
        Any a;
        if (i % 4 == 3) a = makeAny(R, r, i, 1e-4, false);
        else {
            const Entry& e = pickEntry(r);
            Dom d = wideDom();
            d.fmin = 1e-5; d.fmax = 0.5 - 1e-5; d.wmin = 1e-5; d.corner = 1e-6;
            P p = genValid(r, e, d);
            R.desc(descP(e, p));
            a.p.reset(e.make());
            a.cls = e.name(); a.kind = std::string(famName[e.fam]) + "." + typName[e.typ];
            try { a.p->setup(p); } catch (const std::invalid_argument&) { R.count("extreme.rejected"); return; }
            a.f0 = p.nf(); a.w = hasWidth(e.typ) ? p.nw() : a.f0;
        }
        auto c = a.coefs();
        auto fs = freqs(r, a.f0, a.w, 10);
        for (int k = 0; k < 4; k++) fs.push_back(r.chance(0.5) ? r.logu(1e-9, 1e-2) : 0.5 - r.logu(1e-9, 1e-2));
        bool judged = false;
        for (double x : fs) {
            if (!(x >= 0 && x <= 0.5)) continue;
            LD top = 1, bottom = 1, topE = 1, bottomE = 1;
            const LD eps = 40 * 2.2204e-16L;
            for (auto& k : c) {
                const CL z = std::polar(1.0L, -2 * M_PIl * (LD)x);
                LD n = std::abs((LD)k.b0 + z * ((LD)k.b1 + z * (LD)k.b2)), m = std::abs((LD)k.a0 + z * ((LD)k.a1 + z * (LD)k.a2));
                top *= n; topE *= n + eps * (fabsl(k.b0) + fabsl(k.b1) + fabsl(k.b2));
                bottom *= m; bottomE *= std::max(0.0L, m - eps * (fabsl(k.a0) + fabsl(k.a1) + fabsl(k.a2)));
            }
            if (!(bottomE > 0.5L * bottom)) { R.count("extreme.ill_conditioned"); continue; }
            LD tol = topE / bottomE - top / bottom + 1e-200L;
            if (!(top / bottom < 1e290L)) continue;
            judged = true;
            closeTo("extreme." + a.kind, x, a.response(x), hOf(c, x), tol, "the coefficients have");
        }
        if (judged) R.nontrivial(R.curDesc);
    });
    R.part("fresh", 400, 4000, [&](Rng& r, long i) {
        double x = r.u() * 0.5;
        auto& v = registry();
        const Entry& e = v[(size_t)i % v.size()];
        R.desc(e.name() + " without setup");
        std::unique_ptr<IFilter> f(e.make());
        for (double y : {x, 0.0, 0.5, 0.25}) closeTo("fresh.pole", y, f->response(y), 1, 1e-12, "a filter without setup is");
        auto& e2 = rbjRegistry()[(size_t)i % R_N];
        std::unique_ptr<IRbj> g(e2.make());
        for (double y : {x, 0.0, 0.5, 0.25}) closeTo("fresh.rbj", y, g->response(y), 1, 1e-12, "a filter without setup is");
        Biquad b;
        closeTo("fresh.biquad", x, b.response(x), 1, 1e-12, "a section without setup is");
        // outside 0..0.5: rejected
        for (double y : {-1e-9, -0.1, std::nextafter(0.5, 1), 0.6, 1.0, 1e9, -1e300, (double)INFINITY, (double)-INFINITY}) {
            for (int k = 0; k < 2; k++) {
                bool thrown = false;
                try { (void)f->response(y); } catch (const std::invalid_argument&) { thrown = true; }
                R.check(thrown, "range", fmt("response(%.17g) was not rejected", y));
                if (k == 0) f->setup(genValid(r, e));
            }
        }
        for (double y : {0.0, 0.5, -0.0, 5e-324, std::nextafter(0.5, 0)}) { CD v2 = f->response(y); R.check(std::isfinite(std::abs(v2)), "range.valid", fmt("response(%.17g) is not finite", y)); }
        R.nontrivial(R.curDesc + fmt("%.17g", x));
    });
    // the same questions again and again, with filtering in between
    R.part("often", 24, 96, [&](Rng& r, long i) {
        Any a = makeAny(R, r, i, 0.01);
        std::vector<double> x = freqs(r, a.f0, a.w, 16);
        std::vector<CD> want;
        for (double f : x) want.push_back(a.response(f));
        for (long n = 0; n < 140000; n++) {
            size_t k = (size_t)(i & 1 ? r.below(16) : (n / 3) % 16);
            CD h = a.response(x[k]);
            if (!R.check(std::abs(h - want[k]) <= 1e-12 * std::abs(want[k]), "often", fmt("query %ld: response(%.17g) is now %g%+gi, was %g%+gi", n, x[k], h.real(), h.imag(), want[k].real(), want[k].imag()))) return;
            if (n % 5 == 0) a.filter(r.uni(-1, 1));
        }
        R.nontrivial(R.curDesc);
    }, false);
    R.part("biquad", 40000, 2000000, [&](Rng& r, long) {
        Biquad b;
        double a0 = r.chance(0.5) ? 1 : (r.chance(0.5) ? 1 : -1) * r.logu(1e-3, 1e3);
        auto cf = [&]() { return r.chance(0.15) ? 0.0 : r.chance(0.2) ? (double)r.range(-3, 3) : r.uni(-3, 3); };
        Coef c{a0, cf() * a0, cf() * a0, cf() * a0, cf() * a0, cf() * a0};
        if (r.chance(0.3)) { double rho = r.u() * 0.99, th = r.uni(0, M_PI); c.a1 = -2 * rho * std::cos(th) * a0; c.a2 = rho * rho * a0; }
        R.desc(fmt("Biquad a=%.17g,%.17g,%.17g b=%.17g,%.17g,%.17g", c.a0, c.a1, c.a2, c.b0, c.b1, c.b2));
        b.setCoefficients(c.a0, c.a1, c.a2, c.b0, c.b1, c.b2);
        for (double x : freqs(r, r.u() * 0.5, 0.1, 8)) {
            std::complex<LD> z1 = std::polar((LD)1, -2 * PIl * x), z2 = z1 * z1;
            CL num = ((LD)c.b0 + (LD)c.b1 * z1 + (LD)c.b2 * z2), den = ((LD)c.a0 + (LD)c.a1 * z1 + (LD)c.a2 * z2);
            LD dm = std::abs(den / (LD)a0), nm = std::abs(num / (LD)a0);
            if (dm < 1e-4) continue;
            closeTo("biquad", x, b.response(x), num / den, (1e-12 * 20 + 1e-10L * nm) / dm / std::min((LD)1, dm) + 1e-11, "the coefficients have");
        }
        // and what the section does to samples
        if (poleRadius(c) < 0.97 && r.chance(0.2)) {
            std::vector<double> h(1800);
            Iir::DirectFormI s1; Iir::DirectFormII s2; Iir::TransposedDirectFormII s3;
            int k = (int)r.below(3);
            for (size_t n = 0; n < h.size(); n++) { double in = n ? 0 : 1; h[n] = k == 0 ? b.filter(in, s1) : k == 1 ? b.filter(in, s2) : b.filter(in, s3); }
            double s = sumAbs(h) + 1;
            for (double x : freqs(r, 0.2, 0.1, 6)) closeTo("biquad.signal", x, b.response(x), cl(dtft(h, x)), 1e-8 * s, "the filtered impulse has");
        }
        R.nontrivial(R.curDesc);
    });
}

// ---------------------------------------------------------------- C09
// polynomial 1 + c1 z^-1 + c2 z^-2 of a pair of roots
struct Quad { CL c1, c2; };
static Quad polyOf(const Iir::ComplexPair& p) { return Quad{-(cl(p.first) + cl(p.second)), cl(p.first) * cl(p.second)}; }
static LD dist(const Quad& q, LD c1, LD c2) { return std::abs(q.c1 - c1) + std::abs(q.c2 - c2); }

static bool conjOk(const Iir::ComplexPair& p) {
    CD a = p.first, b = p.second;
    if (a.imag() == 0 && b.imag() == 0) return true;
    return std::abs(a - std::conj(b)) <= 1e-9 * (std::abs(a) + std::abs(b));
}

static void checkPZ(Run& R, const std::string& key, const std::vector<Iir::PoleZeroPair>& v, const std::vector<Coef>& c, LD tol) {
    if (!R.check(v.size() == c.size(), key + ".count", fmt("%zu pairs of poles/zeros for %zu sections", v.size(), c.size()))) return;
    std::vector<bool> used(c.size(), false);
    for (size_t i = 0; i < v.size(); i++) {
        R.check(conjOk(v[i].poles), key + ".conj", fmt("poles %zu are not conjugate: %g%+gi %g%+gi", i, v[i].poles.first.real(), v[i].poles.first.imag(), v[i].poles.second.real(), v[i].poles.second.imag()));
        R.check(conjOk(v[i].zeros), key + ".conj", fmt("zeros %zu are not conjugate: %g%+gi %g%+gi", i, v[i].zeros.first.real(), v[i].zeros.first.imag(), v[i].zeros.second.real(), v[i].zeros.second.imag()));
        Quad qp = polyOf(v[i].poles), qz = polyOf(v[i].zeros);
        LD best = INFINITY, bp = 0, bz = 0; size_t bi = 0;
        for (size_t k = 0; k < c.size(); k++) if (!used[k]) {
            LD dp = dist(qp, (LD)c[k].a1 / c[k].a0, (LD)c[k].a2 / c[k].a0), sz = 1 + fabsl((LD)c[k].b1 / c[k].b0) + fabsl((LD)c[k].b2 / c[k].b0);
            LD dz = dist(qz, (LD)c[k].b1 / c[k].b0, (LD)c[k].b2 / c[k].b0) / sz;
            if (!(dp >= 0) || !(dz >= 0)) { dp = INFINITY; }
            if (dp + dz < best || best == INFINITY) { best = dp + dz; bi = k; bp = dp; bz = dz; }
        }
        used[bi] = true;
        R.maxOf(key.substr(0, key.find('.')) + ".err_over_tol", (double)(std::max(bp, bz) / tol));
        R.check(bp <= tol, key + ".poles", fmt("pair %zu: poles %.12g%+.12gi, %.12g%+.12gi are not the roots of any section (closest differs by %.3Lg)", i, v[i].poles.first.real(), v[i].poles.first.imag(), v[i].poles.second.real(), v[i].poles.second.imag(), bp));
        R.check(bz <= tol, key + ".zeros", fmt("pair %zu: zeros %.12g%+.12gi, %.12g%+.12gi are not the roots of its section (differ by %.3Lg)", i, v[i].zeros.first.real(), v[i].zeros.first.imag(), v[i].zeros.second.real(), v[i].zeros.second.imag(), bz));
    }
}

static void c09(Run& R) {
    R.part("filters", 60000, 1500000, [&](Rng& r, long i) {
        Any a = makeAny(R, r, i, r.chance(0.8) ? 0.005 : 0.0005);
        auto c = a.coefs();
        if (zeroAtInfinity(c)) { R.count("skipped_zero_at_infinity"); return; }
        auto v = a.pz();
        checkPZ(R, "filter." + a.kind, v, c, 1e-8);
        if (a.p) {
            const Iir::Cascade& base = a.p->base2();
            checkPZ(R, "cascade." + a.kind, base.getPoleZeros(), c, 1e-8);
            for (int k = 0; k < a.p->numStages(); k++) {
                std::vector<Coef> one = {c[k]};
                checkPZ(R, "stage." + a.kind, a.p->stage(k).getPoleZeros(), one, 1e-8);
            }
        }
        // poles, zeros and one gain give the whole response
        auto H = [&](LD x) {
            CL z = std::polar((LD)1, 2 * PIl * x), h = 1;
            for (auto& q : v) h *= (z - cl(q.zeros.first)) * (z - cl(q.zeros.second)) / ((z - cl(q.poles.first)) * (z - cl(q.poles.second)));
            return h;
        };
        LD g = 1; for (auto& k : c) g *= (LD)k.b0 / k.a0;
        LD top = 0; std::vector<std::pair<double, CL>> w;
        for (double x : freqs(r, a.f0, a.w, 10)) { CL h = hOf(c, x); top = std::max(top, std::abs(h)); w.push_back({x, h}); }
        LD cd = std::min(a.f0, 0.5 - a.f0);
        LD rad = 1 - poleRadius(c);
        LD tol = 1e-7L * std::max(top, (LD)1) + 1e-11L / (cd * cd) + 1e-12L / (rad * rad);
        if (tol < 1e-2) for (auto& q : w) {
            CL got = H(q.first) * g;
            LD err = std::abs(got - q.second);
            if (!(err >= 0)) err = INFINITY;
            R.maxOf("response.err_over_tol", (double)(err / tol));
            R.check(err <= tol, "response." + a.kind, fmt("poles and zeros give %.9Lg%+.9Lgi at %.17g, the filter has %.9Lg%+.9Lgi", got.real(), got.imag(), q.first, q.second.real(), q.second.imag()));
        }
        R.nontrivial(R.curDesc);
    });
    // sections of every kind: to pole/zero form and back
    R.part("sections", 60000, 3000000, [&](Rng& r, long) {
        auto root = [&]() { return r.chance(0.1) ? 0.0 : r.chance(0.15) ? (double)r.range(-2, 2) : r.uni(-1.5, 1.5); };
        auto pair = [&](CL& p1, CL& p2) {
            switch (r.below(5)) {
            case 0: p1 = root(); p2 = 0; break;                    // single
            case 1: p1 = root(); p2 = root(); break;               // real pair
            case 2: p1 = root(); p2 = p1; break;                   // double
            default: { double rho = r.chance(0.1) ? 1.0 : r.uni(0.01, 1.5), th = r.chance(0.1) ? M_PI / 2 : r.uni(0.01, 3.13); p1 = std::polar((LD)rho, (LD)th); p2 = std::conj(p1); }
            }
        };
        CL p1, p2, z1, z2;
        pair(p1, p2); pair(z1, z2);
        LD a0 = r.chance(0.4) ? 1 : (r.chance(0.5) ? 1 : -1) * r.logu(0.01, 100), g = (r.chance(0.3) ? -1 : 1) * (r.chance(0.3) ? 1 : r.logu(1e-4, 1e4));
        Coef c{(double)a0, (double)(-(p1 + p2).real() * a0), (double)((p1 * p2).real() * a0), (double)(g * a0), (double)(-(z1 + z2).real() * g * a0), (double)((z1 * z2).real() * g * a0)};
        R.desc(fmt("section a=%.17g,%.17g,%.17g b=%.17g,%.17g,%.17g", c.a0, c.a1, c.a2, c.b0, c.b1, c.b2));
        Biquad b;
        b.setCoefficients(c.a0, c.a1, c.a2, c.b0, c.b1, c.b2);
        Iir::BiquadPoleState s(b);
        std::vector<Iir::PoleZeroPair> v = {s};
        std::vector<Coef> one = {c};
        checkPZ(R, "section", v, one, 1e-9);
        checkPZ(R, "section.get", b.getPoleZeros(), one, 1e-9);
        R.check(fabsl((LD)s.gain - g) <= 1e-10L * fabsl(g), "section.gain", fmt("gain is %.15g instead of %.15Lg", s.gain, g));
        Biquad b2;
        if (r.chance(0.3)) b2.setCoefficients(2, 0.3, 0.2, 1, 2, 3);
        b2.setPoleZeroForm(s);
        Coef d = coefOf(b2);
        LD e = 0;
        LD A = a0, D = d.a0;
        e = std::max(e, fabsl(d.a1 / D - c.a1 / A)); e = std::max(e, fabsl(d.a2 / D - c.a2 / A));
        LD gs = fabsl(g);
        e = std::max(e, fabsl(d.b0 / D - c.b0 / A) / gs); e = std::max(e, fabsl(d.b1 / D - c.b1 / A) / gs); e = std::max(e, fabsl(d.b2 / D - c.b2 / A) / gs);
        R.maxOf("roundtrip.err_over_tol", (double)(e / 1e-9));
        R.check(e <= 1e-9, "roundtrip", fmt("back from pole/zero form: a=%.15g,%.15g,%.15g b=%.15g,%.15g,%.15g", d.a0, d.a1, d.a2, d.b0, d.b1, d.b2));
        R.nontrivial(R.curDesc);
        // sections from given roots
        Biquad b3;
        if (r.chance(0.3)) b3.setCoefficients(2, 0.3, 0.2, 1, 2, 3);
        CD P1((double)p1.real(), (double)p1.imag()), Z1((double)z1.real(), (double)z1.imag()), P2 = P1.imag() != 0 ? std::conj(P1) : CD((double)p2.real()), Z2 = Z1.imag() != 0 ? std::conj(Z1) : CD((double)z2.real());
        bool single = P1.imag() == 0 && Z1.imag() == 0 && P2 == 0.0 && Z2 == 0.0;
        int how = (int)r.below(2);
        if (how == 0 || !single) { if (how) b3.setTwoPole(P1, Z1, P2, Z2); else b3.setPoleZeroPair(Iir::PoleZeroPair(P1, Z1, P2, Z2)); }
        else b3.setOnePole(P1, Z1);
        Coef k = coefOf(b3);
        LD q = fabsl(k.a1 / (LD)k.a0 + (p1 + p2).real()) + fabsl(k.a2 / (LD)k.a0 - (p1 * p2).real()) + fabsl(k.b0 / (LD)k.a0 - 1) + fabsl(k.b1 / (LD)k.a0 + (z1 + z2).real()) + fabsl(k.b2 / (LD)k.a0 - (z1 * z2).real());
        R.check(q <= 1e-12, "fromroots", fmt("section from given roots has a=%.15g,%.15g,%.15g b=%.15g,%.15g,%.15g", k.a0, k.a1, k.a2, k.b0, k.b1, k.b2));
    });
}

// ---------------------------------------------------------------- C10
static double signalAt(int kind, size_t n, double f0, Rng& r) {
    switch (kind) {
    case 0: return r.uni(-1, 1);
    case 1: return 1;
    case 2: return (n & 1) ? -1 : 1;
    case 3: return std::cos(2 * M_PI * f0 * n) > 0 ? 1 : -1;   // square at the corner or centre: hits the resonance
    case 4: return n == 0;
    case 5: return r.chance(0.01) ? (r.chance(0.5) ? 1 : -1) : 0;
    default: return std::sin(2 * M_PI * f0 * n);
    }
}
static void c10(Run& R) {
    auto stable = [&](Any& a, double f) {
        auto c = a.coefs();
        bool fin = true;
        for (auto& k : c) for (double x : {k.a0, k.a1, k.a2, k.b0, k.b1, k.b2}) if (!std::isfinite(x)) fin = false;
        R.check(fin, "finite." + a.kind, "a coefficient is not finite");
        LD rad = poleRadius(c);
        R.maxOf("pole_radius", (double)rad);
        R.check(rad < 1, "radius." + a.kind, fmt("a pole has radius %.17Lg", rad));
        double m = 0;
        if (!zeroAtInfinity(c)) for (auto& q : a.pz()) m = std::max(m, std::max(std::abs(q.poles.first), std::abs(q.poles.second)));
        R.check(m < 1, "radius." + a.kind, fmt("a reported pole has radius %.17g", m));
        (void)f;
    };
    R.part("poles", 120000, 4000000, [&](Rng& r, long i) {
        double fm = r.chance(0.7) ? 0.002 : r.chance(0.5) ? 0.0003 : 0.02;
        Any a = makeAny(R, r, i, fm);
        stable(a, fm);
        R.nontrivial(R.curDesc);
    });
    // ripples, attenuations and gains nobody would ask for: rejected, or stable
    R.part("hostile", 60000, 2000000, [&](Rng& r, long i) {
        const Entry& e = pickEntry(r);
        Any a;
        a.kind = std::string(famName[e.fam]) + "." + typName[e.typ];
        Dom d; d.fmin = 0.005; d.fmax = 0.495; d.wmin = 0.005;
        P p = genValid(r, e, d);
        p.form |= 1; p.order = r.range(1, e.order);
        p.g = r.chance(0.1) ? 0 : (r.chance(0.5) ? 1 : -1) * r.logu(1e-4, 120);
        double m = r.u();
        p.r = m < 0.1 ? 0 : m < 0.35 ? std::fabs(p.g) * (r.chance(0.3) ? 1 : r.uni(0.5, 2)) : m < 0.5 ? r.logu(1e-20, 1e-4) : r.logu(1e-4, 150);
        if (r.chance(0.15)) p.r = -p.r;
        a.p.reset(e.make());
        a.f0 = p.nf();
        R.desc(descP(e, p));
        bool ok = true;
        try { a.p->setup(p); } catch (const std::exception&) { ok = false; }
        R.count(ok ? "hostile.accepted" : "hostile.rejected");
        if (!ok) return;
        // what an accepted design does to the poles is decided to a few rounding errors
        stable(a, 0);
        R.nontrivial(R.curDesc);
    });
    // every class and order as such
    R.part("grid", (long)registry().size() * 3, (long)registry().size() * 40, [&](Rng& r, long i) {
        const Entry& e = registry()[(size_t)i % registry().size()];
        for (int o = 1; o <= e.order; o++) {
            Any a;
            a.p.reset(e.make());
            a.kind = std::string(famName[e.fam]) + "." + typName[e.typ];
            P p = genValid(r, e);
            p.form |= 1; p.order = o;
            if (cornerDistance(e, p) < 0.0003) continue;
            R.desc(descP(e, p));
            a.p->setup(p);
            stable(a, 0);
        }
        R.nontrivial(e.name() + fmt("#%ld", i));
    }, false);
    auto bounded = [&](Any& a, Rng& r, size_t len, int kind, double amp, bool decay) {
        auto c = a.coefs();
        double n = decayLen(c);
        if (!(n < 60000)) { R.count("skipped_long"); return; }
        // gain of the worst bounded input: sum of |h|
        a.reset();
        std::vector<double> h((size_t)n);
        double s = 0;
        for (size_t k = 0; k < h.size(); k++) { h[k] = a.filter(k ? 0.0 : 1.0); s += std::fabs(h[k]); }
        if (!R.check(std::isfinite(s), "finite.output." + a.kind, "impulse response is not finite")) return;
        R.check(std::fabs(h.back()) <= 1e-8 * s, "decay." + a.kind, fmt("impulse response is still %g after %zu samples", h.back(), h.size()));
        // independent of the pole radius: the design's reference has unity or known peak gain
        a.reset();
        double lim = s * (1 + 1e-6) * amp;
        double worst = 0;
        bool fin = true;
        for (size_t k = 0; k < len; k++) {
            double y = a.filter(amp * signalAt(kind, k, a.f0, r));
            if (!(std::fabs(y) <= DBL_MAX)) { fin = false; break; }
            if (std::fabs(y) > worst) worst = std::fabs(y);
        }
        R.count("samples", len);
        R.check(fin, "finite.output." + a.kind, fmt("output is not finite (signal %d)", kind));
        R.maxOf("bounded.worst_over_bound", worst / lim);
        R.check(worst <= lim, "bounded." + a.kind, fmt("output reaches %g, bound is %g (signal %d)", worst, lim, kind));
        if (!decay) return;
        double y = 0;
        for (size_t k = 0; k < h.size(); k++) { y = a.filter(0.0); if (!std::isfinite(y)) break; }
        R.check(std::fabs(y) <= 1e-7 * lim, "decay." + a.kind, fmt("output is still %g, %zu samples after the end of the input", y, h.size()));
        double y2 = 0;
        for (size_t k = 0; k < 2 * h.size(); k++) { y2 = a.filter(0.0); }
        R.check(std::fabs(y2) <= 1e-14 * lim, "decay." + a.kind, fmt("output is still %g, %zu samples after the end of the input", y2, 3 * h.size()));
        // and on down to where doubles end
        if (h.size() > 4000) return;
        size_t left = (size_t)((std::log10(lim + 1e-300) + 310) / 15 + 4) * h.size(), k = 0;
        double last = 0;
        for (; k < left; k++) { last = 0; for (int j = 0; j < 64; j++) last = std::max(last, std::fabs(a.filter(0.0))); if (last < 1e-290) break; }
        R.count("decayed_to_nothing");
        R.check(last < 1e-290, "decay." + a.kind, fmt("output stays at %g", last));
    };
    R.part("signals", 5000, 200000, [&](Rng& r, long i) {
        Any a = makeAny(R, r, i, r.chance(0.8) ? 0.01 : 0.003);
        int kind = (int)r.below(7);
        double amp = r.chance(0.6) ? 1 : r.chance(0.5) ? r.logu(1e-200, 1e-3) : r.logu(1e3, 1e150);
        bounded(a, r, 200 + r.below(4000), kind, amp, true);
        R.nontrivial(R.curDesc + fmt(" signal %d", kind));
    });
    // long streams: every family and type, RBJ included
    R.part("long", 48, 320, [&](Rng& r, long i) {
        Any a = makeAny(R, r, i, 0.02, false);
        int kind = i % 7;
        bounded(a, r, (R.opt.thorough ? 20000000 : 1200000), kind, 1, true);
        R.nontrivial(R.curDesc + fmt(" signal %d", kind));
    });
}

int main(int argc, char** argv) {
    Run R(argc, argv);
    int p = atoi(R.opt.extra["--prop"].c_str());
    if (p == 8) c08(R);
    else if (p == 9) c09(R);
    else c10(R);
    return R.finish();
}
