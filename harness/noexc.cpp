// C19: the same program in the normal build (writes a trace of outcomes and values) and in the
// build without exceptions (compares online; abort() is caught where the normal build threw).
#include "gen.h"
#include "sos_reg.h"
#include <setjmp.h>
#include <sys/wait.h>
#include <limits.h>
using namespace vf;
typedef std::complex<double> CD;

#ifdef VF_NOEXC
static sigjmp_buf jb;
static volatile sig_atomic_t inCall;
static void onAbort(int) { if (inCall) { inCall = 0; siglongjmp(jb, 1); } signal(SIGABRT, SIG_DFL); raise(SIGABRT); }
template <class F> __attribute__((noinline)) static bool call(F& f) {
    if (sigsetjmp(jb, 1)) return false;
    inCall = 1; f(); inCall = 0;
    return true;
}
#else
template <class F> __attribute__((noinline)) static bool call(F& f) {
    try { f(); return true; } catch (const std::exception&) { return false; }
}
#endif

struct Trace {
    FILE* f = nullptr;
    std::vector<double> v;
    size_t pos = 0;
    bool bad = false;
};
static Trace T;
static Run* RR;
static void begin(long c) {
    T.v.clear(); T.pos = 0; T.bad = false;
#ifdef VF_NOEXC
    for (;;) {
        long h[2];
        if (fread(h, sizeof h, 1, T.f) != 1) { RR->violation("trace", "the trace of the normal build has no such case"); T.bad = true; return; }
        T.v.resize((size_t)h[1]);
        if (h[1] && fread(T.v.data(), 8, (size_t)h[1], T.f) != (size_t)h[1]) { T.bad = true; return; }
        if (h[0] == c) break;
    }
#else
    (void)c;
#endif
}
static void val(double x, const char* what) {
#ifdef VF_NOEXC
    if (T.bad) return;
    if (T.pos >= T.v.size()) { T.bad = true; RR->violation("trace", "more values than in the normal build"); return; }
    double y = T.v[T.pos++];
    // the two builds may fold constants differently: the last digits are not compared
    bool ok = x == y || (x != x && y != y) || std::fabs(x - y) <= 1e-6 * std::fabs(y) || (*what != 'c' && std::fabs(x - y) <= 1e-8);
    RR->count(x == y || (x != x && y != y) ? "bit_identical_values" : "nearly_identical_values");
    if (!RR->check(ok, std::string("value.") + what, fmt("%s is %.17g, in the normal build %.17g", what, x, y))) T.bad = true;
    RR->count("values_compared");
#else
    T.v.push_back(x);
    (void)what;
#endif
}
static void outcome(bool ok, const char* what) {
    RR->count(ok ? "calls_returned" : "calls_thrown_or_aborted");
#ifdef VF_NOEXC
    if (T.bad) return;
    if (T.pos >= T.v.size()) { T.bad = true; RR->violation("trace", "more calls than in the normal build"); return; }
    bool was = T.v[T.pos++] == 1;
    if (!RR->check(ok == was, std::string(ok ? "noabort." : "abort.") + what, ok ? std::string(what) + " returns although it throws in the normal build" : std::string(what) + " aborts although it does not throw in the normal build")) T.bad = true;
#else
    T.v.push_back(ok ? 1 : 0);
    (void)what;
#endif
}
static void end(long c) {
#ifdef VF_NOEXC
    (void)c;
    if (!T.bad && T.pos != T.v.size()) RR->violation("trace", "fewer values than in the normal build");
#else
    long h[2] = {c, (long)T.v.size()};
    fwrite(h, sizeof h, 1, T.f);
    fwrite(T.v.data(), 8, T.v.size(), T.f);
#endif
}
#define CALL(what, ...) [&]() { auto fn = [&]() { __VA_ARGS__; }; bool ok_ = call(fn); outcome(ok_, what); return ok_; }()
static void vals(const std::vector<Coef>& c) { val((double)c.size(), "sections"); for (auto& k : c) for (int i = 0; i < 6; i++) val((&k.a0)[i], "coefficient"); }
static void val(CD c) { val(c.real(), "response"); val(c.imag(), "response"); }
static void pzs(const std::vector<Iir::PoleZeroPair>& v) { for (auto& p : v) for (CD c : {p.poles.first, p.poles.second, p.zeros.first, p.zeros.second}) { val(c.real(), "pole/zero"); val(c.imag(), "pole/zero"); } }

int main(int argc, char** argv) {
    Run R(argc, argv);
    RR = &R;
#ifdef VF_NOEXC
    signal(SIGABRT, onAbort);
#endif
    std::string dir = R.opt.extra["--trace"];
    auto part = [&](const char* name, long n, long nt, const std::function<void(Rng&, long)>& f) {
        std::string p = dir + "/" + name + fmt("-%d.trace", R.opt.shard);
#ifdef VF_NOEXC
        T.f = fopen(p.c_str(), "rb");
#else
        T.f = fopen(p.c_str(), "wb");
#endif
        if (!T.f) { R.violation("trace", "cannot open the trace"); return; }
        R.part(name, n, nt, [&](Rng& r, long i) { begin(i); if (T.bad) return; f(r, i); end(i); });
        fclose(T.f);
    };
    auto& reg = registry();
    part("pole", 20000, 600000, [&](Rng& r, long i) {
        const Entry& e = reg[(size_t)i % reg.size()];
        Dom d = dom(r);
        IFilter* f = e.make();
        std::string trail;
        for (int k = r.range(1, 8); k > 0; k--) {
            bool ok = true;
            switch (r.below(6)) {
            case 0: case 1: {
                P p = r.chance(0.4) ? genInvalid(r, e, d) : r.chance(0.2) ? genExtreme(r, e, d) : r.chance(0.1) ? genClipped(r, e, d) : genValid(r, e, d);
                R.desc(descP(e, p));
                ok = CALL("setup", f->setup(p));
                if (ok) vals(f->coefs());
                break;
            }
            case 2: { for (int q = 0; q < 12; q++) val(f->filter(r.uni(-1, 1)), "sample"); break; }
            case 3: {
                static const double bad[] = {-0.1, 0.6, -1e-12, INFINITY, -INFINITY, NAN};
                double w = r.chance(0.5) ? r.u() * 0.5 : bad[r.below(6)];
                R.desc(e.name() + fmt(" response(%g)", w));
                CD c;
                ok = CALL("response", c = f->response(w));
                if (ok) val(c);
                break;
            }
            case 4: {
                int ix = r.chance(0.5) ? r.range(0, 3) : r.range(-3, 20);
                R.desc(e.name() + fmt(" stage %d", ix));
                Coef c{};
                ok = CALL("stage", c = f->coef(ix));
                if (ok) vals({c});
                break;
            }
            default: {
                R.desc(e.name() + " getPoleZeros");
                std::vector<Iir::PoleZeroPair> v;
                ok = CALL("getPoleZeros", v = f->pz());
                if (ok) pzs(v);
            }
            }
            if (!ok) f = e.make();      // what a failed call leaves behind is not compared
        }
        R.nontrivial(R.curDesc + fmt(" #%ld", i));
    });
    part("rbj", 10000, 300000, [&](Rng& r, long i) {
        auto& e = rbjRegistry()[(size_t)i % R_N];
        IRbj* f = e.make();
        RP p = r.chance(0.4) ? genInvalidR(r, e.typ) : r.chance(0.2) ? genExtremeR(r, e.typ) : genRbjAny(r, e.typ);
        R.desc(descR(e.typ, p));
        bool ok = CALL("rbj.setup", f->setup(p));
        if (!ok) f = e.make();
        vals({f->coef()});
        for (int q = 0; q < 20; q++) val(f->filter(r.uni(-1, 1)), "sample");
        val(f->response(r.u() * 0.5));
        std::vector<Iir::PoleZeroPair> v;
        ok = CALL("rbj.getPoleZeros", v = f->pz());
        if (ok) pzs(v);
        R.nontrivial(R.curDesc);
    });
    part("section", 10000, 300000, [&](Rng& r, long i) {
        Iir::Biquad* b = new Iir::Biquad;
        double c[6];
        static const double bad[] = {NAN, INFINITY, -INFINITY, 0.0};
        for (double& v : c) v = r.chance(0.9) ? r.uni(-2, 2) : bad[r.below(4)];
        R.desc(fmt("section %g %g %g %g %g %g", c[0], c[1], c[2], c[3], c[4], c[5]));
        if (!CALL("setCoefficients", b->setCoefficients(c[0], c[1], c[2], c[3], c[4], c[5]))) b = new Iir::Biquad;
        vals({coefOf(*b)});
        Iir::BiquadPoleState st;
        if (CALL("BiquadPoleState", st = Iir::BiquadPoleState(*b))) { pzs({st}); Iir::Biquad b2; if (CALL("setPoleZeroForm", b2.setPoleZeroForm(st))) vals({coefOf(b2)}); }
        CD p(r.uni(-1, 1), r.chance(0.5) ? 0 : r.uni(-1, 1)), z(r.uni(-1, 1), r.chance(0.5) ? 0 : r.uni(-1, 1));
        CD p2 = r.chance(0.6) ? std::conj(p) : CD(r.uni(-1, 1), r.uni(-1, 1)), z2 = r.chance(0.6) ? std::conj(z) : CD(r.uni(-1, 1), 0);
        if (!CALL("setTwoPole", b->setTwoPole(p, z, p2, z2))) b = new Iir::Biquad;
        vals({coefOf(*b)});
        if (!CALL("setOnePole", b->setOnePole(p, z))) b = new Iir::Biquad;
        vals({coefOf(*b)});
        double sc = r.chance(0.8) ? r.uni(-3, 3) : bad[r.below(3)];
        if (!CALL("applyScale", b->applyScale(sc))) b = new Iir::Biquad;
        vals({coefOf(*b)});
        Iir::Custom::TwoPole* t = new Iir::Custom::TwoPole; Iir::Custom::OnePole* o = new Iir::Custom::OnePole;
        double a = r.chance(0.8) ? r.u() : bad[r.below(3)];
        if (CALL("TwoPole", t->setup(1, a, 1, 0.5, sc))) vals({coefOf(*t)});
        if (CALL("OnePole", o->setup(sc, 0.5, a))) vals({coefOf(*o)});
        auto& se = sosRegistry()[(size_t)i % sosRegistry().size()];
        std::vector<Sos> s(se.n);
        for (auto& k : s) { k = Sos{r.uni(-1, 1), r.uni(-1, 1), r.uni(-1, 1), 1, r.uni(-0.5, 0.5), r.uni(-0.5, 0.5)}; if (r.chance(0.06)) k[r.below(6)] = bad[r.below(4)]; }
        ISos* f = se.make();
        if (!CALL("SOSCascade", f->setup(s))) f = se.make();
        vals(f->coefs());
        for (int q = 0; q < 10; q++) val(f->d(r.uni(-1, 1)), "sample");
        R.nontrivial(R.curDesc);
    });
    part("layout", 3000, 50000, [&](Rng& r, long) {
        struct L { Iir::Layout<5> s; Iir::LayoutBase l; L() : l((Iir::LayoutBase)s) {} };
        L* l = new L;
        for (int k = 0; k < 8; k++) {
            CD p(r.uni(-1, 1), r.uni(-1, 1)), z(r.chance(0.1) ? NAN : r.uni(-1, 1), r.uni(-1, 1));
            bool ok = true;
            R.desc(fmt("layout step %d", k));
            switch (r.below(4)) {
            case 0: ok = CALL("Layout.add", l->l.add(p, z)); break;
            case 1: ok = CALL("Layout.addPoleZeroConjugatePairs", l->l.addPoleZeroConjugatePairs(p, z)); break;
            case 2: ok = CALL("Layout.addPairs", l->l.add(Iir::ComplexPair(p, r.chance(0.5) ? std::conj(p) : p), Iir::ComplexPair(z, std::conj(z)))); break;
            default: { int ix = r.range(-1, 4); CD c; ok = CALL("Layout.getPair", c = l->l[ix].poles.first); if (ok) val(c); }
            }
            if (!ok) l = new L;
            val(l->l.getNumPoles(), "poles");
        }
        R.nontrivial(R.curDesc + fmt(" #%ld", R.curCase));
    });
#ifdef VF_NOEXC
    // nobody catches SIGABRT: the process has to end by it
    R.part("death", 160, 2000, [&](Rng& r, long i) {
        const Entry& e = reg[(size_t)(i * 7) % reg.size()];
        Dom d;
        int kind = (int)(i % 8);
        P p = genValid(r, e, d);
        p.form = 1; p.order = e.order; p.f = 0.1; p.w = 0.05;
        RP q = genRbj(r, (int)r.below(R_N), 0.01);
        const char* what = "";
        fflush(stdout);
        R.desc(fmt("death %d ", kind) + e.name());
        pid_t pid = fork();
        if (!pid) {
            signal(SIGABRT, SIG_DFL);
            IFilter* f = e.make();
            switch (kind) {
            case 0: p.order = e.order + 1; f->setup(p); break;
            case 1: p.order = 0; f->setup(p); break;
            case 2: p.f = 0.6; f->setup(p); break;
            case 3: p.f = -0.1; f->setup(p); break;
            case 4: p.f = NAN; f->setup(p); break;
            case 5: f->setup(p); f->stage(f->numStages()); break;
            case 6: f->setup(p); f->response(0.7); break;
            default: q.f = NAN; rbjRegistry()[0].make()->setup(q); break;
            }
            _exit(0);
        }
        static const char* nm[] = {"order too high", "order 0", "frequency above Nyquist", "negative frequency", "NaN frequency", "stage index", "response above Nyquist", "RBJ with NaN"};
        what = nm[kind];
        int st = 0;
        waitpid(pid, &st, 0);
        R.count("processes_watched");
        R.check(WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT, "death", std::string(what) + fmt(": the process did not end with abort() (status %x)", st));
        R.nontrivial(R.curDesc);
    });
#endif
    return R.finish();
}
