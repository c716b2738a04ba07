#include "sos_reg.h"
namespace {
template <int N, class S, StT T> struct H final : ISos {
    Iir::Custom::SOSCascade<N, S> q;
    H() { n = N; st = T; }
    static const double (&arr(const std::vector<Sos>& v, double (&m)[N][6]))[N][6] {
        for (int k = 0; k < N; k++) for (int j = 0; j < 6; j++) m[k][j] = v[k][j];
        return m;
    }
    struct With { double m[N][6]; With(const std::vector<Sos>& v) { arr(v, m); } };
    explicit H(const std::vector<Sos>& v) : q(With(v).m) { n = N; st = T; }
    void setup(const std::vector<Sos>& v) override { double m[N][6]; q.setup(arr(v, m)); }
    double d(double x) override { return q.filter(x); }
    float f(float x) override { return q.filter(x); }
    int i(int x) override { return q.filter(x); }
    short s(short x) override { return q.filter(x); }
    unsigned u(unsigned x) override { return q.filter(x); }
    long l(long x) override { return q.filter(x); }
    signed char c(signed char x) override { return q.filter(x); }
    long double e(long double x) override { return q.filter(x); }
    void reset() override { q.reset(); }
    H(const H&) = default;
    explicit H(Iir::Custom::SOSCascade<N, S>&& o, int) : q(std::move(o)) { n = N; st = T; }
    ISos* clone() const override { return new H(*this); }
    ISos* moved() override { return new H(std::move(q), 0); }
    ISos* cloneIn(void* m) const override { return new (m) H(*this); }
    Iir::Biquad* storage() override { return q.getCascadeStorage().stageArray; }
    void assign(const ISos& o) override { q = static_cast<const H&>(o).q; }
    std::vector<Coef> coefs() override {
        std::vector<Coef> v;
        auto st = q.getCascadeStorage();
        for (int k = 0; k < st.maxStages; k++) v.push_back(coefOf(st.stageArray[k]));
        return v;
    }
};
template <int N, class S, StT T> void add(std::vector<SosEntry>& v) {
    SosEntry e;
    e.n = N; e.st = T; e.size = sizeof(Iir::Custom::SOSCascade<N, S>);
    e.make = []() -> ISos* { return new H<N, S, T>(); };
    e.makeWith = [](const std::vector<Sos>& s) -> ISos* { return new H<N, S, T>(s); };
    e.makeIn = [](void* m) -> ISos* { return new (m) H<N, S, T>(); };
    e.makeWithIn = [](void* m, const std::vector<Sos>& s) -> ISos* { return new (m) H<N, S, T>(s); };
    e.holderSize = sizeof(H<N, S, T>);
    v.push_back(e);
}
template <int N> void add3(std::vector<SosEntry>& v) {
    add<N, Iir::DirectFormI, DF1>(v);
    add<N, Iir::DirectFormII, DF2>(v);
    add<N, Iir::TransposedDirectFormII, TDF2>(v);
}
}  // namespace
std::vector<SosEntry>& sosRegistry() {
    static std::vector<SosEntry> v;
    if (v.empty()) {
        add3<1>(v); add3<2>(v); add3<3>(v); add3<4>(v); add3<5>(v); add3<6>(v); add3<7>(v); add3<8>(v); add3<9>(v); add3<12>(v); add3<15>(v); add3<16>(v);
        add3<33>(v); add3<64>(v);
    }
    return v;
}
