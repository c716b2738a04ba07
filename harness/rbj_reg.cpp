#include "rbj_reg.h"
const char* const rbjName[R_N] = {"LowPass", "HighPass", "BandPass1", "BandPass2", "BandStop", "IIRNotch", "LowShelf", "HighShelf", "BandShelf", "AllPass"};

namespace {
template <int T> struct RCall {   // q with a default
    template <class F> static void go(F& f, const RP& p) {
        if (p.dflt) { if (p.form) f.setup(p.fs, p.f); else f.setupN(p.f); }
        else { if (p.form) f.setup(p.fs, p.f, p.a); else f.setupN(p.f, p.a); }
    }
};
struct RCallW {
    template <class F> static void go(F& f, const RP& p) { if (p.form) f.setup(p.fs, p.f, p.a); else f.setupN(p.f, p.a); }
};
template <> struct RCall<R_BP1> : RCallW {};
template <> struct RCall<R_BP2> : RCallW {};
template <> struct RCall<R_BS> : RCallW {};
struct RCallG {
    template <class F> static void go(F& f, const RP& p) {
        if (p.dflt) { if (p.form) f.setup(p.fs, p.f, p.g); else f.setupN(p.f, p.g); }
        else { if (p.form) f.setup(p.fs, p.f, p.g, p.a); else f.setupN(p.f, p.g, p.a); }
    }
};
template <> struct RCall<R_LSH> : RCallG {};
template <> struct RCall<R_HSH> : RCallG {};
template <> struct RCall<R_BSH> {
    template <class F> static void go(F& f, const RP& p) { if (p.form) f.setup(p.fs, p.f, p.g, p.a); else f.setupN(p.f, p.g, p.a); }
};
template <int T, class F> struct H final : IRbj {
    F f;
    H() {}
    H(const H&) = default;
    explicit H(F&& g) : f(std::move(g)) {}
    void setup(const RP& p) override { RCall<T>::go(f, p); }
    double filter(double x) override { return f.filter(x); }
    float filterF(float x) override { return f.filter(x); }
    int filterI(int x) override { return f.filter(x); }
    short filterS(short x) override { return f.filter(x); }
    unsigned filterU(unsigned x) override { return f.filter(x); }
    void reset() override { f.reset(); }
    Iir::complex_t response(double w) const override { return f.response(w); }
    std::vector<Iir::PoleZeroPair> pz() const override { return f.getPoleZeros(); }
    IRbj* clone() const override { return new H(*this); }
    IRbj* moved() override { return new H(std::move(f)); }
    IRbj* cloneIn(void* m) const override { return new (m) H(*this); }
    void assign(const IRbj& o) override { f = static_cast<const H&>(o).f; }
    Iir::RBJ::RBJbase& base() override { return f; }
};
template <int T, class F> RbjEntry mk() {
    RbjEntry e;
    e.typ = T;
    e.make = []() -> IRbj* { return new H<T, F>(); };
    e.makeIn = [](void* m) -> IRbj* { return new (m) H<T, F>(); };
    e.holderSize = sizeof(H<T, F>);
    e.size = sizeof(F);
    return e;
}
}  // namespace

std::vector<RbjEntry>& rbjRegistry() {
    static std::vector<RbjEntry> v;
    if (v.empty()) {
        v.push_back(mk<R_LP, Iir::RBJ::LowPass>());
        v.push_back(mk<R_HP, Iir::RBJ::HighPass>());
        v.push_back(mk<R_BP1, Iir::RBJ::BandPass1>());
        v.push_back(mk<R_BP2, Iir::RBJ::BandPass2>());
        v.push_back(mk<R_BS, Iir::RBJ::BandStop>());
        v.push_back(mk<R_NOTCH, Iir::RBJ::IIRNotch>());
        v.push_back(mk<R_LSH, Iir::RBJ::LowShelf>());
        v.push_back(mk<R_HSH, Iir::RBJ::HighShelf>());
        v.push_back(mk<R_BSH, Iir::RBJ::BandShelf>());
        v.push_back(mk<R_AP, Iir::RBJ::AllPass>());
    }
    return v;
}

std::string descR(int t, const RP& p) {
    std::string s = std::string("RBJ::") + rbjName[t] + (p.form ? vf::fmt(".setup(fs=%.17g,", p.fs) : ".setupN(") + vf::fmt("f=%.17g", p.f);
    if (rbjGain(t)) s += vf::fmt(",gain=%.17g", p.g);
    if (!(p.dflt && rbjHasDefault(t))) s += vf::fmt(",%s=%.17g", t == R_LSH || t == R_HSH ? "slope" : t == R_BSH ? "octaves" : "q", p.a);
    return s + ")";
}

RP genRbj(vf::Rng& r, int t, double fmin, bool wide) {
    RP p;
    p.form = (int)r.below(2);
    static const std::vector<double> special = {0.25, 0.125, 0.1, 0.2, 0.05, 0.01, 1.0 / 3, 0.3, 0.4, 0.45, 0.24999999999999997, 0.25000000000000006};
    static const std::vector<double> rates = {1, 10, 250, 1000, 8000, 44100, 48000, 0.001, 1e6, 3.7, 2};
    p.fs = r.chance(0.7) ? r.pick(rates) : r.chance(0.9) ? r.logu(1e-3, 1e7) : r.logu(1e-250, 1e250);
    double f = r.chance(0.2) ? r.pick(special) : r.chance(0.3) ? r.logu(fmin, 0.5 - fmin) : r.uni(fmin, 0.5 - fmin);
    p.dflt = rbjHasDefault(t) && r.chance(0.3);
    static const std::vector<double> qs = {0.5, 0.70710678118654757, 1, 2, 5, 10, 20, 0.1, 0.25};
    if (t == R_LSH || t == R_HSH) p.a = r.chance(0.3) ? r.pick(std::vector<double>{1, 0.5, 0.25, 0.9}) : r.uni(0.05, 1);
    else if (t == R_BSH) {
        p.a = r.chance(0.3) ? r.pick(std::vector<double>{1, 0.5, 2, 1.0 / 3, 0.1}) : r.logu(0.02, 4);
    } else p.a = r.chance(0.3) ? r.pick(qs) : wide ? r.logu(0.01, 1000) : r.logu(0.05, 100);
    p.g = r.chance(0.3) ? r.pick(std::vector<double>{6, -6, 12, -12, 20, 3, -3, 1, 0}) : r.chance(0.1) ? (r.chance(0.5) ? 1 : -1) * r.logu(1e-8, 1) : wide ? r.uni(-60, 60) : r.uni(-30, 30);
    p.f = p.form ? f * p.fs : f;
    // steep shelves: slopes above one exist as long as (A+1/A)(1/S-1)+2 stays positive
    if ((t == R_LSH || t == R_HSH) && r.chance(0.25)) {
        double A = std::pow(10, p.g / 40), k = A + 1 / A;
        double top = k - 2 > 1e-6 ? k / (k - 2) : 1e6;
        p.a = 1 + (std::min(top, 10.0) - 1) * r.uni(0, 0.9);
        p.dflt = false;
    }
    return p;
}
