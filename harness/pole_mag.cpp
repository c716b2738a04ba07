// C11..C14: magnitude response of the pole filters against closed forms, both as
// reported by response() and as measured on the samples which come out of filter().
// C22: the same with the phase, and shelves which undo each other.
#include "ref.h"
#include "rbj_reg.h"
using namespace vf;

static int prop = 11;
static bool mine(const Entry& e) {
    switch (prop) {
    case 11: return e.fam == FB && !hasGain(e.typ);
    case 12: return e.fam == FC1 && !hasGain(e.typ);
    case 13: return e.fam == FC2 && !hasGain(e.typ);
    case 22: return true;
    default: return hasGain(e.typ);
    }
}
static std::vector<const Entry*> own;

static const double RTOL = 4e-9, ATOL = 4e-10;  // response()
static const double STOL = 4e-9, SATOL = 4e-10; // measured on samples

// what a user reads off a plot: label of a frequency
static std::string where(const Design& d, LD f) {
    if (f == 0) return "DC";
    if (f == 0.5L) return "Nyquist";
    if (!hasWidth(d.typ)) return f == d.f ? "cutoff" : (f < d.f) == (d.typ == LP || d.typ == LSH) ? "band" : "outside";
    bool in = f > d.f - d.w / 2 && f < d.f + d.w / 2;
    if (f == d.f - d.w / 2 || f == d.f + d.w / 2) return "edge";
    return in ? "band" : "outside";
}

static std::vector<LD> freqs(Rng& r, const Design& d, int n) {
    std::vector<LD> v = {0, 0.5L};
    v.push_back(d.f);
    if (hasWidth(d.typ)) { v.push_back(d.f - d.w / 2); v.push_back(d.f + d.w / 2); }
    while ((int)v.size() < n) {
        double u = r.u();
        LD f;
        LD span = hasWidth(d.typ) ? d.w : d.f;
        if (u < 0.3) f = r.uni(0, 0.5);
        else if (u < 0.5) f = d.f + span * (LD)r.uni(-0.5, 0.5);
        else if (u < 0.7) f = d.f + span * (LD)r.uni(-2, 2);
        else if (u < 0.85) f = hasWidth(d.typ) ? d.f + (r.chance(0.5) ? 1 : -1) * span * (0.5L + (LD)r.uni(-0.02, 0.02)) : d.f * (1 + (LD)r.uni(-0.02, 0.02));
        else f = r.chance(0.5) ? r.logu(1e-6, 0.4) : 0.5 - r.logu(1e-6, 0.4);
        if (!(f >= 0 && f <= 0.5L)) continue;
        v.push_back((LD)(double)f);
    }
    for (auto& f : v) f = (LD)(double)f;
    return v;
}

static LD tolFor(LD lo, LD hi, double rt, double at) { (void)lo; return rt * hi + at; }

static void checkResponse(Run& R, const Entry& e, const Design& d, IFilter& f, const std::vector<LD>& fs, bool extreme, double loosen) {
    LD top = powl(10, std::max(0.0, (double)d.g) / 20);
    if (!hasGain(d.typ)) top = 1;
    for (LD x : fs) {
        LD lo, hi;
        if (prop == 22) {
            CLD want = cplx(d, x);
            std::complex<double> got = f.response((double)x);
            LD err = std::abs(CLD(got.real(), got.imag()) - want), tol = RTOL * std::abs(want) + ATOL * top + loosen * top + 2 * cplxMove(d, x, 1e-10L, want);
            if (!(err >= 0)) err = INFINITY;
            R.maxOf(extreme ? "extreme.err_over_tol" : "response.err_over_tol", (double)(err / tol));
            R.check(err <= tol, fmt("phase.%s.%s.%s", famName[e.fam], typName[e.typ], where(d, x).c_str()),
                    fmt("H(%.17g) = %.12g%+.12gi but should be %.12Lg%+.12Lgi", (double)x, got.real(), got.imag(), want.real(), want.imag()));
            continue;
        }
        magRange(d, x, 1e-10L, lo, hi);
        double m = std::abs(f.response((double)x));
        LD err = m < lo ? lo - m : m > hi ? m - hi : 0;
        if (!(m >= 0)) err = INFINITY;
        LD tol = tolFor(lo, hi, RTOL, ATOL * (double)top) + loosen * top;
        R.maxOf(extreme ? "extreme.err_over_tol" : "response.err_over_tol", (double)(err / tol));
        R.check(err <= tol, fmt("response.%s.%s.%s", famName[e.fam], typName[e.typ], where(d, x).c_str()),
                fmt("|H(%.17g)| = %.12g but should be %.12Lg..%.12Lg", (double)x, m, lo, hi));
    }
}

static void checkSignal(Run& R, const Entry& e, const Design& d, IFilter& f, std::vector<LD> fs, Rng& r, int maxLen) {
    LD rad = poleRadius(f.coefs());
    double lenD = rad <= 0 ? 64 : -34.0 / (double)logl(rad) * 1.3 + 400;
    if (!(lenD < maxLen)) { R.count("signal.skipped_long"); return; }
    int len = (int)lenD;
    static std::vector<double> h;
    h.resize(len);
    double amp = r.chance(0.5) ? 1 : r.uni(-3, 3);
    if (std::fabs(amp) < 0.1) amp = 1;
    int mode = (int)r.below(3);   // impulse / step of impulses later in the stream / float samples
    f.reset();
    if (mode == 1) for (int i = (int)r.below(50); i > 0; i--) f.filter(0.0);
    for (int i = 0; i < len; i++) h[i] = f.filter(i == 0 ? amp : 0.0) / amp;
    R.count("signal.samples", len);
    LD top = powl(10, std::max(0.0, (double)d.g) / 20);
    if (!hasGain(d.typ)) top = 1;
    for (LD x : fs) {
        std::complex<double> s = 0, w = 1, rot = std::polar(1.0, -2 * M_PI * (double)x);
        for (int i = 0; i < len; i++) {
            if ((i & 255) == 0) { double ph = fmod((double)x * i, 1.0); w = std::polar(1.0, -2 * M_PI * ph); }
            s += h[i] * w;
            w *= rot;
        }
        if (prop == 22) {
            CLD want = cplx(d, x);
            LD err = std::abs(CLD(s.real(), s.imag()) - want), tol = STOL * std::abs(want) + SATOL * top + 2 * cplxMove(d, x, 1e-10L, want);
            if (!(err >= 0)) err = INFINITY;
            R.maxOf("signal.err_over_tol", (double)(err / tol));
            R.check(err <= tol, fmt("signalphase.%s.%s.%s", famName[e.fam], typName[e.typ], where(d, x).c_str()),
                    fmt("measured transfer function at %.17g is %.12g%+.12gi but should be %.12Lg%+.12Lgi", (double)x, s.real(), s.imag(), want.real(), want.imag()));
            continue;
        }
        double m = std::abs(s);
        LD lo, hi;
        magRange(d, x, 1e-10L, lo, hi);
        LD err = m < lo ? lo - m : m > hi ? m - hi : 0;
        if (!(m >= 0)) err = INFINITY;
        LD tol = STOL * hi + SATOL * top;
        R.maxOf("signal.err_over_tol", (double)(err / tol));
        R.check(err <= tol, fmt("signal.%s.%s.%s", famName[e.fam], typName[e.typ], where(d, x).c_str()),
                fmt("measured gain at %.17g is %.12g but should be %.12Lg..%.12Lg", (double)x, m, lo, hi));
    }
}

static void prior(Rng& r, const Entry& e, IFilter& f, const P& p) {
    // the object may have had another life before: same parameters except one, or anything
    if (!r.chance(0.4)) return;
    Dom d;
    P q = genValid(r, e, d);
    if (r.chance(0.6)) {
        // change just one thing compared to the final request
        P q2 = p;
        switch (r.below(5)) {
        case 0: q2.form |= 1; q2.order = r.range(1, e.order); break;
        case 1: if (hasGain(e.typ)) q2.g = q.g, q2.r = q.r; break;
        case 2: if (!hasGain(e.typ)) q2.r = q.r; break;
        case 3: if (hasGain(e.typ)) { q2.g = -p.g; } break;
        default: q2 = asForm(e, p, p.form & 1 ? 1 : 0); q2.f *= 0.9; q2.w *= 0.9; break;
        }
        q = q2;
    }
    try { f.setup(q); } catch (const std::invalid_argument&) {}
    if (r.chance(0.3)) for (int i = 0; i < 5; i++) f.filter(r.uni(-1, 1));
}

static void one(Run& R, Rng& r, const Entry& e, const P& p, int nf, bool signal, int maxLen) {
    Design d = designOf(e, p);
    R.desc(descP(e, p));
    std::unique_ptr<IFilter> f(e.make());
    prior(r, e, *f, p);
    f->setup(p);
    auto fs = freqs(r, d, nf);
    if (!signal) checkResponse(R, e, d, *f, fs, 0, 1e-13 / pow(cornerDistance(e, p), 2));
    else {
        fs.resize(std::min<size_t>(fs.size(), 14));
        checkSignal(R, e, d, *f, fs, r, maxLen);
    }
    R.nontrivial(descP(e, p));
}

int main(int argc, char** argv) {
    Run R(argc, argv);
    if (R.opt.extra.count("--prop")) prop = atoi(R.opt.extra["--prop"].c_str());
    for (auto& e : registry()) if (mine(e)) own.push_back(&e);

    // every class, every order up to the template's, all call forms, special frequencies
    std::vector<std::pair<const Entry*, int>> grid;
    for (auto e : own) for (int o = 1; o <= e->order; o++) grid.push_back({e, o});
    static const double ff[] = {0.25, 0.1, 0.4, 0.01, 0.45, 0.125, 0.33333333333333331, 0.2, 0.05, 0.3};
    R.part("grid", (long)grid.size() * 4, (long)grid.size() * 40, [&](Rng& r, long i) {
        auto g = grid[i % grid.size()];
        const Entry& e = *g.first;
        P p = genValid(r, e);
        p.form = (int)((i / grid.size()) & 3);
        if (g.second != e.order) p.form |= 1;
        p.order = g.second;
        P q = p;
        double nf = ff[r.below(10)], nw = std::min(nf, 0.5 - nf) * 2 * (r.chance(0.5) ? 0.5 : r.uni(0.1, 0.95));
        if (p.form >= 2) { q.f = nf * p.fs; q.w = nw * p.fs; } else { q.f = nf; q.w = nw; }
        if (hasGain(e.typ) && hasRip(e.fam) && r.chance(0.5)) q.r = std::fabs(q.g) * (r.chance(0.5) ? 0.1 : 0.5);
        one(R, r, e, q, 40, false, 0);
    }, false);
    R.part("random", 100000, 1000000, [&](Rng& r, long) {
        const Entry& e = *own[r.below(own.size())];
        Dom d;
        d.fmin = 0.001; d.fmax = 0.499; d.wmin = 0.002;
        if (r.chance(0.3)) { d.rmin = 0.001; d.rmax = 15; d.smin = 2; d.smax = 140; d.gmin = 0.1; d.gmax = 60; }
        else if (r.chance(0.2)) { d.rmin = 1e-4; d.rmax = 0.01; if (r.chance(0.5)) { d.rmax = 60; d.maxOrder = 4; d.fmin = 0.03; d.fmax = 0.47; d.wmin = 0.03; } d.smin = 0.01; d.smax = 3; d.gmin = e.fam == FB ? 0.0005 : 0.01; d.gmax = r.chance(0.5) ? 1 : 100; }
        one(R, r, e, genValid(r, e, d), 40, false, 0);
    });
    R.part("signal", 8000, 150000, [&](Rng& r, long i) {
        const Entry& e = *own[i % own.size()];
        Dom d;
        if (r.chance(0.8)) { d.fmin = 0.01; d.fmax = 0.49; d.wmin = 0.01; }
        if (e.fam == FC1 && !hasGain(e.typ)) d.maxOrder = 13;   // sections of very high orders ring by many decades more than their product
        one(R, r, e, genValid(r, e, d), 14, true, r.chance(0.1) ? 400000 : 40000);
    });
    // cutoffs and bands down to 1e-5 of the sampling rate; the tolerance follows the conditioning
    R.part("extreme", 10000, 500000, [&](Rng& r, long) {
        const Entry& e = *own[r.below(own.size())];
        Dom d;
        d.fmin = 1e-5; d.fmax = 0.49999; d.wmin = 1e-5; d.corner = 4e-6;
        P p = genValid(r, e, d);
        double cd = cornerDistance(e, p);
        double loosen = 1e-13 / (cd * cd);
        if (loosen > 1e-3) { R.count("extreme.skipped_ill_conditioned"); return; }
        Design ds = designOf(e, p);
        R.desc(descP(e, p));
        std::unique_ptr<IFilter> f(e.make());
        f->setup(p);
        auto fs = freqs(r, ds, 30);
        for (int i = 0; i < 6; i++) fs.push_back(r.logu(1e-7, 1e-3));
        checkResponse(R, e, ds, *f, fs, true, loosen);
        R.nontrivial(descP(e, p));
    });
    if (prop == 22) {
        // a shelf and the shelf of the opposite gain undo each other, in the response and on the samples
        std::vector<const Entry*> sh;
        for (auto e : own) if (hasGain(e->typ)) sh.push_back(e);
        auto input = [](Rng& r, int n) {
            std::vector<double> x(n);
            int kind = (int)r.below(4);
            double ph = r.uni(0, 7), om = r.uni(0, M_PI);
            for (int i = 0; i < n; i++) x[i] = kind == 0 ? r.uni(-1, 1) : kind == 1 ? (i == 0) : kind == 2 ? std::cos(ph + om * i) : (i / 37 & 1 ? -1.0 : 1.0);
            return x;
        };
        auto verdict = [&](const std::string& name, const std::string& what, double err, double tol, const std::string& msg) {
            if (!(err >= 0)) err = INFINITY;
            R.maxOf("inverse.err_over_tol", err / tol);
            R.check(err <= tol, "inverse." + what + "." + name, msg);
        };
        R.part("inverse", 6000, 200000, [&](Rng& r, long i) {
            const Entry& e = *sh[i % sh.size()];
            Dom d;
            d.fmin = 0.01; d.fmax = 0.49; d.wmin = 0.01; d.maxOrder = 16; d.gmin = 0.1; d.gmax = 40;
            P p = genValid(r, e, d), q = p;
            q.g = -p.g;
            if (r.chance(0.3)) q = asForm(e, q, (int)r.below(4) | 1);
            R.desc(descP(e, p) + " then " + descP(e, q));
            std::unique_ptr<IFilter> a(e.make()), b(e.make());
            prior(r, e, *a, p); prior(r, e, *b, q);
            a->setup(p); b->setup(q);
            double amp = std::pow(10, std::fabs(p.g) / 20), loosen = 1e-13 / pow(cornerDistance(e, p), 2);
            std::string name = std::string(famName[e.fam]) + "." + typName[e.typ];
            for (LD x : freqs(r, designOf(e, p), 12)) {
                auto h = a->response((double)x) * b->response((double)x);
                verdict(name, "response", std::abs(h - 1.0), (1e-8 + loosen) * amp, fmt("the product of both responses at %.17g is %.12g%+.12gi, not 1", (double)x, h.real(), h.imag()));
            }
            a->reset(); b->reset();
            double mo = 0;
            auto xs = input(r, 300);
            for (size_t k = 0; k < xs.size(); k++) {
                double m = a->filter(xs[k]), y = b->filter(m);
                mo = std::max(mo, std::fabs(m));
                double tol = (1e-7 + 100 * loosen) * amp * std::max(1.0, mo);
                if (std::fabs(y - xs[k]) <= tol) { R.maxOf("inverse.err_over_tol", std::fabs(y - xs[k]) / tol); R.count("inverse.samples"); continue; }
                verdict(name, "signal", std::fabs(y - xs[k]), tol, fmt("sample %zu: %.12g came back as %.12g", k, xs[k], y));
                break;
            }
            R.nontrivial(descP(e, p));
        });
        R.part("inverse_rbj", 4000, 200000, [&](Rng& r, long i) {
            static const int ts[] = {R_LSH, R_HSH, R_BSH};
            int t = ts[i % 3];
            RbjEntry* e = nullptr;
            for (auto& x : rbjRegistry()) if (x.typ == t) e = &x;
            RP p = genRbj(r, t, 0.005), q = p;
            q.g = -p.g;
            R.desc(descR(t, p) + " then " + descR(t, q));
            if (t == R_BSH) { double w0 = 2 * M_PI * p.nf(); if (p.a * w0 / std::sin(w0) > 20) { R.count("inverse.skipped_width"); return; } }
            std::unique_ptr<IRbj> a(e->make()), b(e->make());
            a->setup(p); b->setup(q);
            double amp = std::pow(10, std::fabs(p.g) / 20);
            for (int k = 0; k < 12; k++) {
                double f = k == 0 ? 0 : k == 1 ? 0.5 : k == 2 ? p.nf() : r.uni(0, 0.5);
                auto h = a->response(f) * b->response(f);
                verdict(rbjName[t], "response", std::abs(h - 1.0), 1e-8 * amp, fmt("the product of both responses at %.17g is %.12g%+.12gi, not 1", f, h.real(), h.imag()));
            }
            a->reset(); b->reset();
            double mo = 0;
            auto xs = input(r, 300);
            for (size_t k = 0; k < xs.size(); k++) {
                double m = a->filter(xs[k]), y = b->filter(m);
                mo = std::max(mo, std::fabs(m));
                double tol = 1e-7 * amp * std::max(1.0, mo);
                if (std::fabs(y - xs[k]) <= tol) { R.maxOf("inverse.err_over_tol", std::fabs(y - xs[k]) / tol); R.count("inverse.samples"); continue; }
                verdict(rbjName[t], "signal", std::fabs(y - xs[k]), tol, fmt("sample %zu: %.12g came back as %.12g", k, xs[k], y));
                break;
            }
            R.nontrivial(descR(t, p));
        });
    }
    return R.finish();
}
