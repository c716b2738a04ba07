#pragma once
#include "reg.h"

template <int NA> struct Call;
template <> struct Call<1> {
    template <class F> static void go(F& f, const P& p, const double* a) {
        switch (p.form) {
        case 0: f.setupN(a[0]); break;
        case 1: f.setupN(p.order, a[0]); break;
        case 2: f.setup(p.fs, a[0]); break;
        default: f.setup(p.order, p.fs, a[0]); break;
        }
    }
};
template <> struct Call<2> {
    template <class F> static void go(F& f, const P& p, const double* a) {
        switch (p.form) {
        case 0: f.setupN(a[0], a[1]); break;
        case 1: f.setupN(p.order, a[0], a[1]); break;
        case 2: f.setup(p.fs, a[0], a[1]); break;
        default: f.setup(p.order, p.fs, a[0], a[1]); break;
        }
    }
};
template <> struct Call<3> {
    template <class F> static void go(F& f, const P& p, const double* a) {
        switch (p.form) {
        case 0: f.setupN(a[0], a[1], a[2]); break;
        case 1: f.setupN(p.order, a[0], a[1], a[2]); break;
        case 2: f.setup(p.fs, a[0], a[1], a[2]); break;
        default: f.setup(p.order, p.fs, a[0], a[1], a[2]); break;
        }
    }
};
template <> struct Call<4> {
    template <class F> static void go(F& f, const P& p, const double* a) {
        switch (p.form) {
        case 0: f.setupN(a[0], a[1], a[2], a[3]); break;
        case 1: f.setupN(p.order, a[0], a[1], a[2], a[3]); break;
        case 2: f.setup(p.fs, a[0], a[1], a[2], a[3]); break;
        default: f.setup(p.order, p.fs, a[0], a[1], a[2], a[3]); break;
        }
    }
};

template <Fam FA, Typ T, class F> struct Holder final : IFilter {
    F f;
    static constexpr int NA = 1 + (T == BP || T == BS || T == BSH) + (T >= LSH) + (FA != FB);
    Holder() {}
    Holder(const Holder& o) = default;
    explicit Holder(F&& g) : f(std::move(g)) {}
    void setup(const P& p) override {
        double a[4];
        int n = 0;
        a[n++] = p.f;
        if (T == BP || T == BS || T == BSH) a[n++] = p.w;
        if (T >= LSH) a[n++] = p.g;
        if (FA != FB) a[n++] = p.r;
        Call<NA>::go(f, p, a);
    }
    double filter(double x) override { return f.filter(x); }
    float filterF(float x) override { return f.filter(x); }
    int filterI(int x) override { return f.filter(x); }
    short filterS(short x) override { return f.filter(x); }
    unsigned filterU(unsigned x) override { return f.filter(x); }
    void reset() override { f.reset(); }
    Iir::complex_t response(double w) const override { return f.response(w); }
    int numStages() const override { return f.getNumStages(); }
    Iir::Biquad stage(int i) override { return f[i]; }
    std::vector<Iir::PoleZeroPair> pz() const override { return f.getPoleZeros(); }
    IFilter* clone() const override { return new Holder(*this); }
    IFilter* moved() override { return new Holder(std::move(f)); }
    IFilter* cloneIn(void* m) const override { return new (m) Holder(*this); }
    void assign(const IFilter& o) override { f = static_cast<const Holder&>(o).f; }
    void selfAssign() override { F& g = f; f = g; }
    Iir::PoleFilterBase2& base2() override { return f; }
    size_t objSize() const override { return sizeof(F); }
    int capStages() override { return f.getCascadeStorage().maxStages; }
    Iir::Biquad* storage() override { return f.getCascadeStorage().stageArray; }
};

template <Fam FA, Typ T, StT S, int N, class F> Entry mk() {
    typedef Holder<FA, T, F> H;
    Entry e;
    e.fam = FA; e.typ = T; e.st = S; e.order = N;
    e.size = sizeof(F);
    e.holderSize = sizeof(H);
    e.make = []() -> IFilter* { return new H(); };
    e.makeIn = [](void* m) -> IFilter* { return new (m) H(); };
    return e;
}

#define ALLT(NS, FA, S, ST, N)                                                       \
    r.push_back(mk<FA, LP, S, N, Iir::NS::LowPass<N, Iir::ST>>());                   \
    r.push_back(mk<FA, HP, S, N, Iir::NS::HighPass<N, Iir::ST>>());                  \
    r.push_back(mk<FA, BP, S, N, Iir::NS::BandPass<N, Iir::ST>>());                  \
    r.push_back(mk<FA, BS, S, N, Iir::NS::BandStop<N, Iir::ST>>());                  \
    r.push_back(mk<FA, LSH, S, N, Iir::NS::LowShelf<N, Iir::ST>>());                 \
    r.push_back(mk<FA, HSH, S, N, Iir::NS::HighShelf<N, Iir::ST>>());                \
    r.push_back(mk<FA, BSH, S, N, Iir::NS::BandShelf<N, Iir::ST>>());

#define REGFILE(NS, FA, TAG)                                                         \
    void reg_##TAG##_a(std::vector<Entry>& r) {                                      \
        ALLT(NS, FA, DF2, DirectFormII, 1) ALLT(NS, FA, DF2, DirectFormII, 2)        \
        ALLT(NS, FA, DF2, DirectFormII, 3) ALLT(NS, FA, DF2, DirectFormII, 4)        \
        ALLT(NS, FA, DF2, DirectFormII, 5) ALLT(NS, FA, DF2, DirectFormII, 8)        \
    }
#define REGFILE2(NS, FA, TAG)                                                        \
    void reg_##TAG##_b(std::vector<Entry>& r) {                                      \
        ALLT(NS, FA, DF2, DirectFormII, 6) ALLT(NS, FA, DF2, DirectFormII, 11)       \
        ALLT(NS, FA, DF2, DirectFormII, 16)                                          \
        ALLT(NS, FA, DF1, DirectFormI, 2) ALLT(NS, FA, DF1, DirectFormI, 5)          \
        ALLT(NS, FA, TDF2, TransposedDirectFormII, 3)                                \
        ALLT(NS, FA, TDF2, TransposedDirectFormII, 4)                                \
    }
#define REGFILE3(NS, FA, TAG)                                                        \
    void reg_##TAG##_c(std::vector<Entry>& r) {                                      \
        ALLT(NS, FA, DF2, DirectFormII, 7) ALLT(NS, FA, DF2, DirectFormII, 24)       \
        ALLT(NS, FA, DF2, DirectFormII, 50)                                          \
        ALLT(NS, FA, TDF2, TransposedDirectFormII, 33)                               \
        ALLT(NS, FA, DF1, DirectFormI, 13)                                           \
    }
