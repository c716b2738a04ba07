// C15: RBJ filters against the analogue prototypes of the cookbook.
#include "rbj_reg.h"
#include "ref.h"
using namespace vf;
typedef std::complex<LD> CL;

// H(s) of the prototype, s = num/den with den possibly 0 (s = infinity at Nyquist)
static CL proto(int t, LD f0, LD a, LD g, LD f) {
    if (t == R_NOTCH) {
        LD r = expl(-PIl * f0 / a), w0 = 2 * PIl * f0;
        CL z1 = std::polar((LD)1, -2 * PIl * f), z2 = z1 * z1;
        return (CL(1) - 2 * cosl(w0) * z1 + z2) / (CL(1) - 2 * r * cosl(w0) * z1 + r * r * z2);
    }
    // projective: s = n/d
    CL n = CL(0, sinl(PIl * f) * cosl(PIl * f0)), d = CL(cosl(PIl * f) * sinl(PIl * f0));
    LD A = powl(10, g / 40), Q = a;
    switch (t) {
    case R_LP: return d * d / (n * n + n * d / Q + d * d);
    case R_HP: return n * n / (n * n + n * d / Q + d * d);
    case R_BP1: return n * d / (n * n + n * d / Q + d * d);
    case R_BP2: return (n * d / Q) / (n * n + n * d / Q + d * d);
    case R_BS: return (n * n + d * d) / (n * n + n * d / Q + d * d);
    case R_AP: return (n * n - n * d / Q + d * d) / (n * n + n * d / Q + d * d);
    case R_LSH: case R_HSH: {
        LD iq = sqrtl((A + 1 / A) * (1 / a - 1) + 2) * sqrtl(A);
        if (t == R_LSH) return A * (n * n + iq * n * d + A * d * d) / (A * n * n + iq * n * d + d * d);
        return A * (A * n * n + iq * n * d + d * d) / (n * n + iq * n * d + A * d * d);
    }
    default: {  // peaking, width in octaves: 1/Q = 2 sinh(ln2/2 * bw * w0/sin w0)
        LD w0 = 2 * PIl * f0;
        LD iq = 2 * sinhl(logl(2) / 2 * a * w0 / sinl(w0));
        return (n * n + iq * A * n * d + d * d) / (n * n + iq / A * n * d + d * d);
    }
    }
}

static LD topGain(int t, const RP& p) {
    if (t == R_BP1) return std::max(1.0, p.a);
    if (t == R_LP || t == R_HP) return std::max(1.0, effA(t, p));
    if (rbjGain(t)) return powl(10, std::max(0.0, p.g) / 20);
    if (t == R_NOTCH) return 2;
    return 1;
}

static std::vector<double> freqs(Rng& r, LD f0, int n) {
    std::vector<double> v = {0, 0.5, (double)f0, 0.25};
    while ((int)v.size() < n) {
        double u = r.u(), f = u < 0.5 ? r.uni(0, 0.5) : u < 0.8 ? (double)f0 * (1 + r.uni(-0.3, 0.3)) : u < 0.9 ? (double)f0 * (1 + r.uni(-0.01, 0.01)) : r.logu(1e-6, 0.5);
        if (f >= 0 && f <= 0.5) v.push_back(f);
    }
    return v;
}
static const char* where(LD f0, double f) { return f == 0 ? "DC" : f == 0.5 ? "Nyquist" : f == (double)f0 ? "centre" : "other"; }

static double poleDist(int t, const RP& p) {   // distance of the poles to the unit circle, from the prototype
    LD f0 = p.nf(), a = effA(t, p);
    LD w0 = 2 * PIl * f0;
    if (t == R_NOTCH) return (double)(PIl * f0 / a);
    LD al;
    LD A = powl(10, p.g / 40);
    if (t == R_LSH || t == R_HSH) al = sinl(w0) / 2 * sqrtl((A + 1 / A) * (1 / a - 1) + 2) / (1 + A) * sqrtl(A);
    else if (t == R_BSH) al = sinl(w0) * sinhl(logl(2) / 2 * a * w0 / sinl(w0)) / A;
    else al = sinl(w0) / (2 * a);
    return (double)(std::min((LD)1, al) < 1 / std::max((LD)1, al) ? std::min((LD)1, al) : 1 / al);
}

int main(int argc, char** argv) {
    Run R(argc, argv);
    auto& reg = rbjRegistry();
    auto prior = [&](Rng& r, IRbj& f, int t) {
        if (!r.chance(0.3)) return;
        for (int k = (int)r.below(3); k >= 0; k--) { try { f.setup(genRbj(r, t)); } catch (const std::invalid_argument&) {} f.filter(r.uni(-1, 1)); }
    };
    auto cmp = [&](const char* what, int t, const RP& p, double f, Iir::complex_t got, LD rt, LD at) {
        CL want = proto(t, (LD)p.f / (p.form ? (LD)p.fs : 1), effA(t, p), p.g, f);
        LD err = std::abs(CL(got.real(), got.imag()) - want);
        LD tol = rt * std::abs(want) + at * topGain(t, p);
        if (!(err <= INFINITY)) err = INFINITY;
        R.maxOf(std::string(what) + ".err_over_tol", (double)(err / tol));
        R.check(err <= tol, fmt("%s.%s.%s", what, rbjName[t], where(p.nf(), f)),
                fmt("H(%.17g) = %.12g%+.12gi but should be %.12Lg%+.12Lgi", f, got.real(), got.imag(), want.real(), want.imag()));
    };
    auto body = [&](Rng& r, long i, double fmin, bool wide, const char* what) {
        auto& e = reg[i % R_N];
        RP p = genRbj(r, e.typ, fmin, wide);
        R.desc(descR(e.typ, p));
        std::unique_ptr<IRbj> f(e.make());
        prior(r, *f, e.typ);
        if (e.typ == R_BSH) {
            double w0 = 2 * M_PI * p.nf();
            if (p.a * w0 / std::sin(w0) > 40) { R.count(std::string(what) + ".skipped_width"); return; }
        }
        if (rbjGain(e.typ)) {
            // slopes above what the gain admits have no solution; 0 < slope <= 1 always has
            R.count("shelves");
        }
        double pd = poleDist(e.typ, p), fd = std::min(p.nf(), 0.5 - p.nf());
        double cond = 3e-13 / (fd * fd) + 3e-13 / (fd * std::min(pd, 1.0));
        if (!(cond < 3e-2)) { R.count(std::string(what) + ".skipped_ill_conditioned"); return; }
        f->setup(p);
        for (double x : freqs(r, p.nf(), 40)) cmp(what, e.typ, p, x, f->response(x), 1e-8, 1e-8 + cond);
        R.nontrivial(descR(e.typ, p));
    };
    R.part("random", 60000, 2000000, [&](Rng& r, long i) { body(r, i, 0.001, false, "response"); });
    R.part("extreme", 20000, 1000000, [&](Rng& r, long i) { body(r, i, 1e-5, true, "extreme"); });
    R.part("signal", 6000, 200000, [&](Rng& r, long i) {
        auto& e = reg[i % R_N];
        RP p = genRbj(r, e.typ, 0.005);
        R.desc(descR(e.typ, p));
        std::unique_ptr<IRbj> f(e.make());
        prior(r, *f, e.typ);
        if (e.typ == R_BSH) { double w0 = 2 * M_PI * p.nf(); if (p.a * w0 / std::sin(w0) > 30) { R.count("signal.skipped_width"); return; } }
        f->setup(p);
        f->reset();
        double pd = poleDist(e.typ, p);
        LD rad = poleRadius(f->coef());
        double lenD = rad <= 0 ? 64 : -34.0 / (double)logl(rad) * 1.2 + 100;
        if (!(lenD < 60000)) { R.count("signal.skipped_long"); return; }
        int n = (int)lenD;
        std::vector<double> h(n);
        for (int k = 0; k < n; k++) h[k] = f->filter(k ? 0.0 : 1.0);
        R.count("signal.samples", n);
        auto fs = freqs(r, p.nf(), 12);
        for (double x : fs) {
            std::complex<double> s = 0, w = 1, rot = std::polar(1.0, -2 * M_PI * x);
            for (int k = 0; k < n; k++) {
                if ((k & 255) == 0) w = std::polar(1.0, -2 * M_PI * fmod(x * k, 1.0));
                s += h[k] * w; w *= rot;
            }
            cmp("signal", e.typ, p, x, s, 1e-8, 1e-8 + 1e-12 / pd);
        }
        R.nontrivial(descR(e.typ, p));
    });
    return R.finish();
}
