// C06 designs depend on their own arguments only, C07 copies, C17 rejected setups, C18 overloads.
#include "rbj_reg.h"
#include "sos_reg.h"
#include "ref.h"
#include "gen.h"
#include <limits.h>
using namespace vf;
typedef std::complex<double> CD;

static bool near(double a, double b, double scale, double rel = 1e-12) {
    return a == b || std::fabs(a - b) <= rel * scale || (a != a && b != b);
}
// coefficients of two filters; scale is per section
static bool sameCoefs(const std::vector<Coef>& x, const std::vector<Coef>& y, std::string& why, double rel = 1e-12) {
    if (x.size() != y.size()) { why = fmt("%zu sections instead of %zu", x.size(), y.size()); return false; }
    for (size_t i = 0; i < x.size(); i++) {
        double p[6], q[6];
        // with a tolerance: the filter, i.e. what is left after division by a0
        for (int k = 0; k < 6; k++) { p[k] = (&x[i].a0)[k]; q[k] = (&y[i].a0)[k]; }
        if (rel > 0 && p[0] != 0 && q[0] != 0) for (int k = 5; k >= 0; k--) { p[k] /= p[0]; q[k] /= q[0]; }
        static const char* nm[6] = {"a0", "a1", "a2", "b0", "b1", "b2"};
        double as = 1 + std::fabs(q[1]) + std::fabs(q[2]), bs = std::fabs(q[3]) + std::fabs(q[4]) + std::fabs(q[5]);
        for (int k = 0; k < 6; k++) if (!near(p[k], q[k], k < 3 ? as : bs, rel)) { why = fmt("section %zu has %s=%.17g instead of %.17g", i, nm[k], p[k], q[k]); return false; }
    }
    return true;
}
static bool samePZ(const std::vector<Iir::PoleZeroPair>& a, const std::vector<Iir::PoleZeroPair>& b) {
    if (a.size() != b.size()) return false;
    for (size_t i = 0; i < a.size(); i++) {
        CD p[4] = {a[i].poles.first, a[i].poles.second, a[i].zeros.first, a[i].zeros.second}, q[4] = {b[i].poles.first, b[i].poles.second, b[i].zeros.first, b[i].zeros.second};
        for (int k = 0; k < 4; k++) if (!(std::abs(p[k] - q[k]) <= 1e-10 * (1 + std::abs(q[k])) || p[k] == q[k])) return false;
    }
    return true;
}
static bool sameBits(double a, double b) { return a == b || (a != a && b != b); }

// ------------------------------------------------------------------ C06
// Designs made before main, before the constructors of the library's own static objects, if it has any.
struct EarlyRec { const char* name; std::vector<Coef> c; std::vector<Iir::PoleZeroPair> pz; bool ok; void (*again)(std::vector<Coef>&, std::vector<Iir::PoleZeroPair>&, bool&); };
static std::vector<EarlyRec>* early;      // plain pointer: no constructor of its own
template <class F> static void readEarly(F& f, std::vector<Coef>& c, std::vector<Iir::PoleZeroPair>& pz) {
    if constexpr (std::is_base_of<Iir::Biquad, F>::value) c.push_back(coefOf(f));
    else for (int i = 0; i < f.getNumStages(); i++) c.push_back(coefOf(f[i]));
    pz = f.getPoleZeros();
}
#define EARLY(F, ...) { auto go = [](std::vector<Coef>& c, std::vector<Iir::PoleZeroPair>& pz, bool& ok) { F f; ok = true; try { f.__VA_ARGS__; readEarly(f, c, pz); } catch (...) { ok = false; } }; \
    EarlyRec e; e.name = #F "." #__VA_ARGS__; e.again = go; go(e.c, e.pz, e.ok); early->push_back(e); }
#define EARLYN(N) \
    EARLY(Iir::Butterworth::LowPass<N>, setup(1000, 100)) EARLY(Iir::Butterworth::HighPass<N>, setup(1000, 100)) EARLY(Iir::Butterworth::BandPass<N>, setup(1000, 100, 30)) EARLY(Iir::Butterworth::BandStop<N>, setup(1000, 100, 30)) \
    EARLY(Iir::Butterworth::LowShelf<N>, setup(1000, 100, 6)) EARLY(Iir::Butterworth::HighShelf<N>, setup(1000, 100, -6)) EARLY(Iir::Butterworth::BandShelf<N>, setupN(0.2, 0.1, 6)) \
    EARLY(Iir::ChebyshevI::LowPass<N>, setup(1000, 100, 1)) EARLY(Iir::ChebyshevI::HighPass<N>, setup(1000, 100, 1)) EARLY(Iir::ChebyshevI::BandPass<N>, setup(1000, 100, 30, 1)) EARLY(Iir::ChebyshevI::BandStop<N>, setup(1000, 100, 30, 1)) \
    EARLY(Iir::ChebyshevI::LowShelf<N>, setup(1000, 100, 6, 1)) EARLY(Iir::ChebyshevI::HighShelf<N>, setup(1000, 100, -6, 1)) EARLY(Iir::ChebyshevI::BandShelf<N>, setupN(0.2, 0.1, 6, 1)) \
    EARLY(Iir::ChebyshevII::LowPass<N>, setup(1000, 100, 40)) EARLY(Iir::ChebyshevII::HighPass<N>, setup(1000, 100, 40)) EARLY(Iir::ChebyshevII::BandPass<N>, setup(1000, 100, 30, 40)) EARLY(Iir::ChebyshevII::BandStop<N>, setup(1000, 100, 30, 40)) \
    EARLY(Iir::ChebyshevII::LowShelf<N>, setup(1000, 100, 6, 1)) EARLY(Iir::ChebyshevII::HighShelf<N>, setup(1000, 100, -6, 1)) EARLY(Iir::ChebyshevII::BandShelf<N>, setupN(0.2, 0.1, 6, 1))
struct Early {
    Early() {
        early = new std::vector<EarlyRec>;
        EARLYN(2) EARLYN(3) EARLYN(8)
        EARLY(Iir::RBJ::LowPass, setup(1000, 100)) EARLY(Iir::RBJ::HighPass, setup(1000, 100)) EARLY(Iir::RBJ::BandPass1, setup(1000, 100, 2)) EARLY(Iir::RBJ::BandPass2, setup(1000, 100, 2)) EARLY(Iir::RBJ::BandStop, setup(1000, 100, 2))
        EARLY(Iir::RBJ::IIRNotch, setup(1000, 100)) EARLY(Iir::RBJ::LowShelf, setup(1000, 100, 6)) EARLY(Iir::RBJ::HighShelf, setup(1000, 100, 6)) EARLY(Iir::RBJ::BandShelf, setup(1000, 100, 6, 1)) EARLY(Iir::RBJ::AllPass, setup(1000, 100))
    }
};
static bool checkLate = false;
struct EarlyAndLate : Early {
    // ... and designs made when the library's static objects, if it has any, are gone again
    ~EarlyAndLate() {
        if (!checkLate) return;
        for (size_t i = 0; i < early->size(); i++) {
            auto& e = (*early)[i];
            std::vector<Coef> c; std::vector<Iir::PoleZeroPair> pz; bool ok = false; std::string why;
            e.again(c, pz, ok);
            bool same = ok == e.ok && sameCoefs(e.c, c, why) && samePZ(e.pz, pz);
            if (same) continue;
            printf("VF_VIOLATION\tlate.design\tearly\t%zu\t%s after main | differs from the design before main %s\n", i, e.name, why.c_str());
            fflush(stdout);
            _exit(1);
        }
    }
};
__attribute__((init_priority(101))) static EarlyAndLate earlyDesigns;

static void c06(Run& R) {
    checkLate = R.opt.onlyPart.empty() || R.opt.onlyPart == "early";
    R.part("early", (long)early->size(), (long)early->size(), [&](Rng&, long i) {
        auto& e = (*early)[(size_t)i];
        R.desc(std::string(e.name) + " before main");
        std::vector<Coef> c; std::vector<Iir::PoleZeroPair> pz; bool ok = false; std::string why;
        e.again(c, pz, ok);
        R.count("setups", 2);
        if (!R.check(ok == e.ok, "early.outcome", e.ok ? "accepted before main, rejected now" : "rejected before main, accepted now")) return;
        CHECKS(sameCoefs(e.c, c, why), "early.coef", "designed before main: " + why);
        R.check(samePZ(e.pz, pz), "early.pz", "poles/zeros of a design before main differ");
        R.nontrivial(R.curDesc);
    }, false);
    R.part("pole", 24000, 1000000, [&](Rng& r, long) {
        const Entry& e = pickEntry(r);
        Dom d = dom(r);
        std::unique_ptr<IFilter> f(e.make());
        P p = genValid(r, e, d), first = p;
        int n = r.range(2, 8);
        std::string trail;
        for (int i = 0; i < n; i++) {
            if (i) {
                double u = r.u();
                if (u < 0.55) p = vary(r, e, p, d);
                else if (u < 0.7) p = asForm(e, p, (int)r.below(4) | (p.form & 1 ? 1 : 0));
                else if (u < 0.8) p = first;
                else if (u < 0.9) p = genValid(r, e, d);
                // else: the same again
                if (p.order > e.order) p.order = e.order;
            }
            if (r.chance(0.15)) {   // rejected calls in between, once or twice the same
                P bad = r.chance(0.5) ? genInvalid(r, e, d) : r.chance(0.5) ? genExtreme(r, e, d) : p;
                if (r.chance(0.3)) { bad = p; bad.f = bad.form >= 2 ? bad.fs : 1.0; bad.form |= 1; if (!(p.form & 1)) bad.order = r.range(1, e.order); }
                for (int k = (int)r.below(3); k >= 0; k--) trySetup(*f, bad);
                trail += " bad";
            }
            R.desc(descP(e, p) + fmt(" as setup %d%s after ", i + 1, trail.c_str()) + descP(e, first));
            bool a = trySetup(*f, p);
            std::unique_ptr<IFilter> g(e.make());
            bool b = trySetup(*g, p);
            if (!R.check(a == b, "pole.outcome", a ? "accepted, but rejected by a new object" : "rejected, but accepted by a new object")) return;
            R.count(a ? "setups" : "rejected");
            if (!a) continue;
            std::string why;
            std::string key = std::string(famName[e.fam]) + "." + typName[e.typ];
            if (!CHECKS(sameCoefs(f->coefs(), g->coefs(), why), "coef." + key, why + " (new object with the same arguments)")) return;
            if (!R.check(samePZ(f->pz(), g->pz()), "pz." + key, "poles/zeros differ from those of a new object with the same arguments")) return;
            double x = r.u() * 0.5;
            CD h1 = f->response(x), h2 = g->response(x);
            if (!R.check(std::abs(h1 - h2) <= 1e-9 * (1 + std::abs(h2)), "response." + key, fmt("response at %g differs", x))) return;
            if (r.chance(0.3)) {
                f->reset();
                for (int k = 0; k < 30; k++) {
                    double in = r.uni(-1, 1), y1 = f->filter(in), y2 = g->filter(in);
                    if (!R.check(near(y1, y2, 1 + std::fabs(y2), 1e-9), "signal." + key, fmt("sample %d is %.17g, with a new object %.17g", k, y1, y2))) return;
                }
            }
            if (r.chance(0.2)) trail += fmt(" o%d", effOrder(e, p));
        }
        R.nontrivial(R.curDesc);
    });
    // one object set up again and again, between a few designs
    R.part("often", 42, 168, [&](Rng& r, long i) {
        const Entry* e = &pickEntry(r);
        while (e->order > 4 || e->fam * 7 + e->typ != i % 21) e = &pickEntry(r);
        Dom d = dom(r);
        const int K = 4;
        P ps[K]; std::vector<Coef> want[K]; std::vector<Iir::PoleZeroPair> pz[K];
        ps[0] = genValid(r, *e, d);
        for (int k = 0; k < K; k++) {
            if (k) ps[k] = vary(r, *e, ps[k - 1], d);
            if (ps[k].order > e->order) ps[k].order = e->order;
            std::unique_ptr<IFilter> g(e->make());
            if (!trySetup(*g, ps[k])) { ps[k] = ps[0]; g->setup(ps[0]); }
            want[k] = g->coefs(); pz[k] = g->pz();
        }
        R.desc(descP(*e, ps[0]) + " and others, again and again");
        std::unique_ptr<IFilter> f(e->make());
        for (long n = 0; n < 70000; n++) {
            int k = i % 2 ? (int)(n & 1) : (int)r.below(K);
            f->setup(ps[k]);
            if ((size_t)f->numStages() != want[k].size()) { R.check(false, "often.stages", fmt("setup %ld: %d sections instead of %zu", n + 1, f->numStages(), want[k].size())); return; }
            std::string why;
            auto c = f->coefs();
            bool ok = !memcmp(c.data(), want[k].data(), c.size() * sizeof(Coef)) || sameCoefs(c, want[k], why);
            if (!R.check(ok, "often.coef", fmt("setup %ld: ", n + 1) + why)) return;
            if (n % 1024 == 0 || n > 69990) if (!R.check(samePZ(f->pz(), pz[k]), "often.pz", fmt("setup %ld: poles/zeros differ from those of a new object", n + 1))) return;
        }
        R.count("setups", 70000);
        R.nontrivial(R.curDesc);
    }, false);
    // objects which come and go in the same place: a design must not be taken for that of the previous tenant
    R.part("placement", 3000, 100000, [&](Rng& r, long) {
        const Entry* e[3] = {&pickEntry(r), &pickEntry(r), nullptr};
        if (e[0]->order > 8) for (auto& x : registry()) if (x.fam == e[0]->fam && x.typ == e[0]->typ && x.st == e[0]->st && x.order == 3) e[0] = &x;
        e[2] = e[0];
        Dom d = dom(r);
        size_t size = std::max(e[0]->holderSize, e[1]->holderSize);
        void* mem = ::operator new(size);
        memset(mem, 0, size);
        // what each request gives on an object of its own, found beforehand: nothing else is designed in between
        struct Want { P p; bool ok; std::vector<Coef> c; std::vector<Iir::PoleZeroPair> pz; };
        std::vector<Want> pool[2];
        for (int k = 0; k < 2; k++) for (int n = 0; n < 3; n++) {
            Want w;
            w.p = n && r.chance(0.7) ? vary(r, *e[k], pool[k].back().p, d) : genValid(r, *e[k], d);
            if (w.p.order > e[k]->order) w.p.order = e[k]->order;
            std::unique_ptr<IFilter> g(e[k]->make());
            w.ok = trySetup(*g, w.p);
            if (w.ok) { w.c = g->coefs(); w.pz = g->pz(); }
            pool[k].push_back(w);
        }
        std::unique_ptr<IFilter> proto(e[0]->make());      // a filter elsewhere with its own design
        trySetup(*proto, pool[0][0].p);
        for (int n = r.range(3, 12); n > 0; n--) {
            int w = r.chance(0.15);
            const Entry& x = *e[w];
            bool copy = !w && r.chance(0.5), scribble = r.chance(0.5);
            IFilter* f = copy ? static_cast<IFilter*>(proto->cloneIn(mem)) : x.makeIn(mem);
            for (int t = r.range(1, 3); t > 0; t--) {
                const Want& q = r.pick(pool[w]);
                R.desc(descP(x, q.p) + (copy ? " on a copy" : " on a new object") + " in the place of another one");
                bool a = trySetup(*f, q.p);
                std::string why;
                R.count("setups");
                if (!R.check(a == q.ok, "placement.outcome", a ? "accepted, but rejected by a new object" : "rejected, but accepted by a new object")) n = 0;
                else if (a && !CHECKS(sameCoefs(f->coefs(), q.c, why), "placement.coef", why + " (new object elsewhere with the same arguments)")) n = 0;
                else if (a && !R.check(samePZ(f->pz(), q.pz), "placement.pz", "poles/zeros differ from those of a new object elsewhere")) n = 0;
                if (n && r.chance(0.1)) trySetup(*proto, r.pick(pool[0]).p);
            }
            f->~IFilter();
            if (scribble) memset(mem, (int)r.below(256), size);
        }
        ::operator delete(mem);
        // sections of their own and cascades of them
        auto& re = rbjRegistry()[r.below(R_N)];
        void* rm = ::operator new(re.holderSize);
        RP rp[3]; bool rok[3]; Coef rc[3];
        for (int k = 0; k < 3; k++) { rp[k] = genRbjAny(r, re.typ); std::unique_ptr<IRbj> g(re.make()); rok[k] = trySetup(*g, rp[k]); rc[k] = g->coef(); }
        std::unique_ptr<IRbj> rproto(re.make()); trySetup(*rproto, rp[0]);
        for (int n = 0; n < 6; n++) {
            size_t k = r.below(3);
            R.desc(descR(re.typ, rp[k]) + " on a copy in the place of another one");
            IRbj* f = r.chance(0.7) ? static_cast<IRbj*>(rproto->cloneIn(rm)) : re.makeIn(rm);
            bool a = trySetup(*f, rp[k]);
            std::string why;
            R.count("setups");
            R.check(a == rok[k], "placement.outcome", "accepted here, rejected elsewhere or vice versa");
            if (a && rok[k]) CHECKS(sameCoefs({f->coef()}, {rc[k]}, why), "placement.rbj", why);
            f->~IRbj();
        }
        ::operator delete(rm);
        R.nontrivial(R.curDesc);
    });
    R.part("rbj", 12000, 500000, [&](Rng& r, long i) {
        auto& e = rbjRegistry()[(size_t)i % R_N];
        std::unique_ptr<IRbj> f(e.make());
        RP p = genRbjAny(r, e.typ);
        for (int n = r.range(2, 6); n > 0; n--) {
            if (r.chance(0.5)) { RP q = genRbjAny(r, e.typ); switch (r.below(4)) { case 0: p.a = q.a; p.dflt = q.dflt; break; case 1: p.g = q.g; break; case 2: p.form = q.form; p.fs = q.fs; p.f = q.f; break; default: p = q; } }
            if (r.chance(0.3)) trySetup(*f, genInvalidR(r, e.typ));
            if (r.chance(0.2)) trySetup(*f, genExtremeR(r, e.typ));
            if (r.chance(0.3)) f->filter(r.uni(-1, 1));
            R.desc(descR(e.typ, p) + fmt(" (%d to go)", n));
            bool a = trySetup(*f, p);
            std::unique_ptr<IRbj> g(e.make());
            bool b = trySetup(*g, p);
            if (!R.check(a == b, "rbj.outcome", a ? "accepted, but rejected by a new object" : "rejected, but accepted by a new object")) return;
            if (!a) continue;
            R.count("setups");
            std::string why;
            if (!CHECKS(sameCoefs({f->coef()}, {g->coef()}, why), std::string("rbj.") + rbjName[e.typ], why + " (new object with the same arguments)")) return;
        }
        R.nontrivial(R.curDesc);
    });
    R.part("custom", 8000, 300000, [&](Rng& r, long i) {
        Iir::Custom::OnePole a, a2; Iir::Custom::TwoPole b, b2;
        std::string why;
        for (int n = 0; n < 3; n++) {
            double s = r.uni(-3, 3), p = r.uni(-0.99, 0.99), z = r.uni(-2, 2), th = r.uni(0, 3.1), ph = r.uni(0, 3.1);
            Iir::Custom::OnePole fa; Iir::Custom::TwoPole fb;
            R.desc(fmt("custom %g %g %g %g %g", s, p, z, th, ph));
            a.setup(s, p, z); fa.setup(s, p, z);
            b.setup(s, std::fabs(p), th, std::fabs(z), ph); fb.setup(s, std::fabs(p), th, std::fabs(z), ph);
            CHECKS(sameCoefs({coefOf(a)}, {coefOf(fa)}, why), "custom.onepole", why);
            CHECKS(sameCoefs({coefOf(b)}, {coefOf(fb)}, why), "custom.twopole", why);
        }
        auto& reg = sosRegistry(); auto& e = reg[(size_t)i % reg.size()];
        std::unique_ptr<ISos> f(e.make());
        for (int n = 0; n < 3; n++) {
            std::vector<Sos> s = genRows(r, e.n, 0.95, true);
            R.desc(descSos(e, s));
            f->setup(s);
            std::unique_ptr<ISos> g(e.make()), h(e.makeWith(s));
            g->setup(s);
            CHECKS(sameCoefs(f->coefs(), g->coefs(), why) && sameCoefs(f->coefs(), h->coefs(), why), "custom.sos", why);
        }
        R.nontrivial(R.curDesc);
    });
}

// ------------------------------------------------------------------ C07
// Every live filter carries its logical history; a fresh object which replays that history
// has to agree bit for bit.
struct Op { int kind; P p; RP q; std::vector<Sos> s; double x; };   // 0 setup, 1 filter, 2 reset
template <class F> struct Live {
    F* f = nullptr;
    void* mem = nullptr;     // storage to be scribbled over after destruction
    std::vector<Op> h;
    bool needsSetup = false;
};
template <class F> static bool apply(F& f, const Op& o);   // false: rejected setup
template <> bool apply(IFilter& f, const Op& o) { if (o.kind == 0) return trySetup(f, o.p); if (o.kind == 1) f.filter(o.x); else f.reset(); return true; }
template <> bool apply(IRbj& f, const Op& o) { if (o.kind == 0) return trySetup(f, o.q); if (o.kind == 1) f.filter(o.x); else f.reset(); return true; }
template <> bool apply(ISos& f, const Op& o) { if (o.kind == 0) f.setup(o.s); else if (o.kind == 1) f.d(o.x); else f.reset(); return true; }
static double run1(IFilter& f, double x) { return f.filter(x); }
static double run1(IRbj& f, double x) { return f.filter(x); }
static double run1(ISos& f, double x) { return f.d(x); }
static std::vector<Coef> cf(IFilter& f) { return f.coefs(); }
static std::vector<Coef> cf(IRbj& f) { return {f.coef()}; }
static std::vector<Coef> cf(ISos& f) { return f.coefs(); }
static CD rsp(IFilter& f, double x) { return f.response(x); }
static CD rsp(IRbj& f, double x) { return f.response(x); }
static CD rsp(ISos&, double) { return 0; }
static std::vector<Iir::PoleZeroPair> pzOf(IFilter& f) { return f.pz(); }
static std::vector<Iir::PoleZeroPair> pzOf(IRbj& f) { Coef c = f.coef(); if (!(std::fabs(c.b0) > 1e-9 * (std::fabs(c.b1) + std::fabs(c.b2)))) return {}; return f.pz(); }
static std::vector<Iir::PoleZeroPair> pzOf(ISos&) { return {}; }

template <class F, class Make, class Gen> static void copyStory(Run& R, Rng& r, const std::string& key, bool assignCopies, size_t objSize, Make make, Gen gen) {
    std::vector<Live<F>> live;
    live.push_back({make(), nullptr, {}, false});
    int steps = r.range(10, 60);
    auto fresh = [&](const Live<F>& l) { std::unique_ptr<F> g(make()); for (auto& o : l.h) apply(*g, o); return g; };
    auto verify = [&](Live<F>& l, const char* when) {
        if (l.needsSetup) return true;
        auto g = fresh(l);
        std::string why;
        if (!CHECKS(sameCoefs(cf(*l.f), cf(*g), why, 1e-12), key + ".coef", std::string(when) + ": " + why)) return false;
        double x = r.u() * 0.5;
        CD a = rsp(*l.f, x), b = rsp(*g, x);
        if (!R.check(std::abs(a - b) <= 1e-9 * (1 + std::abs(b)), key + ".response", fmt("%s: response %g%+gi instead of %g%+gi", when, a.real(), a.imag(), b.real(), b.imag()))) return false;
        if (!R.check(samePZ(pzOf(*l.f), pzOf(*g)), key + ".pz", std::string(when) + ": poles/zeros differ")) return false;
        // a copy of it continues the stream (the object itself is not touched)
        for (int k = 0; k < 6; k++) {
            double in = r.uni(-1, 1);
            Op o; o.kind = 1; o.x = in;
            double y1 = run1(*l.f, in), y2 = run1(*g, in);
            l.h.push_back(o);
            if (!R.check(sameBits(y1, y2) || std::fabs(y1 - y2) <= 1e-12 * std::fabs(y2), key + ".signal", fmt("%s: sample is %.17g, but a filter with the same history gives %.17g", when, y1, y2))) return false;
        }
        R.count("verified");
        return true;
    };
    (void)objSize;
    for (int s = 0; s < steps && !live.empty(); s++) {
        size_t i = r.below(live.size());
        Live<F>& l = live[i];
        double u = r.u();
        if (l.needsSetup || u < 0.2) {
            Op o = gen(r);
            bool assigned = l.needsSetup;
            bool done = apply(*l.f, o);
            if (assigned) {
                if (!done) continue;      // still without a design of its own
                l.h.clear();
            }
            l.h.push_back(o);
            l.needsSetup = false;
            if (assigned && !verify(l, "setup after assignment")) break;
        } else if (u < 0.5) {
            for (int k = (int)r.below(8); k >= 0; k--) { Op o; o.kind = 1; o.x = r.uni(-1, 1); apply(*l.f, o); l.h.push_back(o); }
        } else if (u < 0.55) {
            Op o; o.kind = 2; apply(*l.f, o); l.h.push_back(o);
        } else if (u < 0.75) {
            if (live.size() < 6) {
                Live<F> c;
                c.h = l.h;
                if (r.chance(0.25) && !l.needsSetup) {
                    // moved into another place; what is left behind is only destroyed
                    c.f = static_cast<F*>(l.f->moved());
                    R.count("moves");
                    delete l.f;
                    live[i] = c;
                    if (r.chance(0.5) && !verify(live[i], "right after moving")) break;
                    continue;
                }
                c.f = static_cast<F*>(l.f->clone());
                R.count("copies");
                live.push_back(c);
                if (r.chance(0.5) && !verify(live.back(), "right after copying")) break;
            }
        } else if (u < 0.82) {
            if (live.size() > 1) {
                size_t j = r.below(live.size());
                // destroy and scribble over the freed memory
                delete live[j].f;
                R.count("destroyed");
                live.erase(live.begin() + (long)j);
            }
        } else if (u < 0.88) {
            size_t j = r.below(live.size());
            if (live[j].needsSetup) continue;
            live[i].f->assign(*live[j].f);
            R.count("assignments");
            if (assignCopies) live[i].h = live[j].h;
            else if (i == j) live[i].needsSetup = true;
            else live[i].needsSetup = true;
            if (assignCopies && !verify(live[i], "after assignment")) break;
            if (i != j && !verify(live[j], "source of an assignment")) break;
        } else {
            if (!verify(l, "in the middle")) break;
        }
    }
    for (auto& l : live) verify(l, "at the end");
    for (auto& l : live) delete l.f;
}
static void c07(Run& R) {
    R.part("pole", 4000, 200000, [&](Rng& r, long i) {
        auto& v = registry();
        const Entry& e = v[(size_t)i % v.size()];
        Dom d = dom(r);
        R.desc(e.name() + fmt(" copy story %ld", i));
        copyStory<IFilter>(R, r, std::string("pole.") + famName[e.fam] + "." + typName[e.typ], false, e.holderSize, [&]() { return e.make(); },
                           [&](Rng& q) { Op o; o.kind = 0; o.p = q.chance(0.15) ? genInvalid(q, e, d) : genValid(q, e, d); return o; });
        R.nontrivial(R.curDesc);
    });
    R.part("rbj", 1500, 60000, [&](Rng& r, long i) {
        auto& e = rbjRegistry()[(size_t)i % R_N];
        R.desc(e.name() + fmt(" copy story %ld", i));
        copyStory<IRbj>(R, r, std::string("rbj.") + rbjName[e.typ], true, e.holderSize, [&]() { return e.make(); },
                        [&](Rng& q) { Op o; o.kind = 0; o.q = genRbjAny(q, e.typ); if (e.typ == R_BSH) o.q.a = std::min(o.q.a, 1.0); return o; });
        R.nontrivial(R.curDesc);
    });
    R.part("sos", 1500, 60000, [&](Rng& r, long i) {
        auto& reg = sosRegistry(); auto& e = reg[(size_t)i % reg.size()];
        R.desc(fmt("SOSCascade<%d,%s> copy story %ld", e.n, stName[e.st], i));
        copyStory<ISos>(R, r, "sos", true, e.size, [&]() { return e.make(); },
                        [&](Rng& q) { Op o; o.kind = 0; o.s = genRows(q, e.n, 0.85, true); return o; });
        R.nontrivial(R.curDesc);
    });
    // copies of copies of copies: each generation replaces the one before, in alternating memory
    R.part("generations", 33, 132, [&](Rng& r, long i) {
        const long many = 70000;
        auto line = [&](auto* orig, auto* twin, size_t size, auto resetup, const char* nm) {
            typedef std::remove_reference_t<decltype(*orig)> F;
            void* mem[2] = {::operator new(size), ::operator new(size)};
            F* cur = static_cast<F*>(orig->cloneIn(mem[0]));
            for (long k = 1; k <= many; k++) {
                F* next = static_cast<F*>(cur->cloneIn(mem[k & 1]));
                cur->~F();
                memset(mem[(k & 1) ^ 1], (int)(k & 0xff), size);
                cur = next;
                if (r.chance(0.001)) { resetup(*cur); resetup(*twin); }
                double x = r.uni(-1, 1), a = run1(*cur, x), b = run1(*twin, x);
                if (!R.check(sameBits(a, b), std::string("generations.") + nm, fmt("copy number %ld gives %.17g, the original %.17g", k, a, b))) break;
            }
            cur->~F();
            ::operator delete(mem[0]); ::operator delete(mem[1]);
        };
        if (i % 3 == 0) {
            const Entry* e = &pickEntry(r);
            while (e->order > 4) e = &pickEntry(r);
            Dom d = dom(r); P p = genValid(r, *e, d);
            R.desc(descP(*e, p) + " generations");
            std::unique_ptr<IFilter> f(e->make()), g(e->make()); f->setup(p); g->setup(p);
            P q = p;
            int n = 0;
            line(f.get(), g.get(), e->holderSize, [&](IFilter& x) { if (!(n++ & 1)) q = genValid(r, *e, d); x.setup(q); x.reset(); }, "pole");
        } else if (i % 3 == 1) {
            auto& e = rbjRegistry()[(size_t)(i / 3) % R_N];
            RP p = genRbjAny(r, e.typ); if (e.typ == R_BSH) p.a = std::min(p.a, 1.0);
            R.desc(descR(e.typ, p) + " generations");
            std::unique_ptr<IRbj> f(e.make()), g(e.make()); f->setup(p); g->setup(p);
            line(f.get(), g.get(), e.holderSize, [&](IRbj& x) { x.setup(p); }, "rbj");
        } else {
            auto& e = sosRegistry()[(size_t)(i / 3) % sosRegistry().size()];
            std::vector<Sos> s = genRows(r, e.n);
            R.desc(descSos(e, s) + " generations");
            std::unique_ptr<ISos> f(e.makeWith(s)), g(e.makeWith(s));
            line(f.get(), g.get(), e.holderSize, [&](ISos& x) { x.setup(s); }, "sos");
        }
        R.count("generations", (uint64_t)many);
        R.nontrivial(R.curDesc);
    }, false);
    // original constructed in memory which is overwritten after its destruction
    R.part("scribble", 3000, 100000, [&](Rng& r, long i) {
        auto& v = registry();
        const Entry& e = v[(size_t)i % v.size()];
        Dom d = dom(r);
        P p = genValid(r, e, d);
        R.desc(descP(e, p));
        void* mem = ::operator new(e.holderSize + 64);
        memset(mem, 0x5a, e.holderSize + 64);
        IFilter* f = e.makeIn(mem);
        bool before = r.chance(0.5);
        if (before) f->setup(p);
        for (int k = 0; k < 5; k++) f->filter(r.uni(-1, 1));
        std::unique_ptr<IFilter> c(f->clone()), c2(r.chance(0.5) ? c->clone() : nullptr), ref(e.make());
        std::vector<double> tail;
        if (before) { for (int k = 0; k < 30; k++) tail.push_back(f->filter(k * 0.1 - 1)); }
        f->~IFilter();
        memset(mem, r.chance(0.5) ? 0xff : 0x00, e.holderSize + 64);
        if (before) for (int k = 0; k < 30; k++) {
            double y = c->filter(k * 0.1 - 1);
            if (!R.check(sameBits(y, tail[(size_t)k]), "scribble.stream", fmt("copy gives %.17g, original gave %.17g", y, tail[(size_t)k]))) break;
        }
        P p2 = genValid(r, e, d);
        ref->setup(p2);
        for (IFilter* g : {c.get(), c2.get()}) if (g) {
            g->setup(p2); g->reset();
            std::string why;
            CHECKS(sameCoefs(g->coefs(), ref->coefs(), why), "scribble.setup", why);
            ref->reset();
            for (int k = 0; k < 20; k++) { double x = k & 1 ? 1 : -0.3; R.check(sameBits(g->filter(x), ref->filter(x)), "scribble.setup", "copy with a destroyed original filters differently after setup"); }
        }
        for (size_t k = 0; k < e.holderSize + 64; k++) if (((unsigned char*)mem)[k] != ((unsigned char*)mem)[0]) { R.violation("scribble.write", fmt("a copy wrote into the memory of the destroyed original at offset %zu", k)); break; }
        ::operator delete(mem);
        R.nontrivial(R.curDesc);
    });
}

// ------------------------------------------------------------------ C17
static void c17(Run& R) {
    R.part("pole", 16000, 600000, [&](Rng& r, long) {
        const Entry& e = pickEntry(r);
        Dom d = dom(r);
        P p = genValid(r, e, d);
        std::unique_ptr<IFilter> f(e.make()), g(e.make());
        std::string key = std::string(famName[e.fam]) + "." + typName[e.typ];
        bool unset = r.chance(0.05);
        if (!unset) { f->setup(p); g->setup(p); }
        int n = r.range(20, 150), rejected = 0;
        for (int i = 0; i < n; i++) {
            if (r.chance(0.08)) {
                bool extreme = r.chance(0.35);
                P bad = extreme ? genExtreme(r, e, d) : genInvalid(r, e, d);
                if (!extreme && r.chance(0.3)) { // valid design with one bad thing, based on the running one
                    bad = p; bad.form |= 1; bad.order = (p.form & 1) ? p.order : e.order;
                    switch (r.below(5)) {
                    case 0: bad.f = bad.form >= 2 ? bad.fs * 0.5 : 0.5; break;
                    case 1: bad.f = NAN; break;
                    case 2: bad.order = e.order + 1; break;
                    case 3: bad.order = r.range(1, e.order); bad.f = -0.1; break;
                    default: bad.r = NAN; bad.g = NAN; bad.w = NAN;
                    }
                }
                auto c0 = f->coefs();
                for (int k = r.chance(0.2) ? 1 : 0; k >= 0; k--) {
                    R.desc(descP(e, bad) + " on running " + descP(e, p));
                    if (trySetup(*f, bad)) {
                        // not rejected after all: both go on from a design double precision can handle
                        g->setup(bad);
                        if (extreme || unset) { f->setup(p); g->setup(p); f->reset(); g->reset(); unset = false; }
                        else p = bad;
                        c0 = f->coefs();
                        R.count("accepted");
                    } else { rejected++; R.count(extreme ? "rejected.late" : "rejected"); }
                    auto c1 = f->coefs();
                    bool same = c0.size() == c1.size() && (c0.empty() || !memcmp(c0.data(), c1.data(), c0.size() * sizeof(Coef)));
                    if (!R.check(same, "coef." + key, fmt("a rejected setup changed the coefficients or the number of sections (%zu, was %zu)", c1.size(), c0.size()))) return;
                    double x = r.u() * 0.5;
                    CD a = f->response(x), b = g->response(x);
                    if (!R.check(sameBits(a.real(), b.real()) && sameBits(a.imag(), b.imag()), "response." + key, "a rejected setup changed the response")) return;
                }
            }
            double x = r.uni(-1, 1), a = f->filter(x), b = g->filter(x);
            if (!R.check(sameBits(a, b), "stream." + key, fmt("sample %d is %.17g, without the rejected calls it is %.17g", i, a, b))) return;
        }
        // a later valid setup works as if nothing had happened
        P q = r.chance(0.5) ? p : vary(r, e, p, d);
        R.desc(descP(e, q) + fmt(" after %d rejected setups", rejected));
        bool s1 = trySetup(*f, q), s2 = trySetup(*g, q);
        if (!R.check(s1 == s2, "later." + key, "a setup has another outcome because of earlier rejected ones")) return;
        std::string why;
        if (!CHECKS(sameCoefs(f->coefs(), g->coefs(), why), "later." + key, why)) return;
        if (s1) { std::unique_ptr<IFilter> h(e.make()); h->setup(q); if (!CHECKS(sameCoefs(f->coefs(), h->coefs(), why), "later." + key, why)) return; }
        for (int i = 0; i < 20; i++) { double x = r.uni(-1, 1), a = f->filter(x), b = g->filter(x); if (!R.check(near(a, b, 1 + std::fabs(b), 1e-9), "later." + key, fmt("sample %.17g instead of %.17g", a, b))) return; }
        R.nontrivial(R.curDesc);
    });
    R.part("rbj", 10000, 400000, [&](Rng& r, long i) {
        auto& e = rbjRegistry()[(size_t)i % R_N];
        RP p = genRbjAny(r, e.typ);
        if (e.typ == R_BSH) p.a = std::min(p.a, 1.0);
        std::unique_ptr<IRbj> f(e.make()), g(e.make());
        f->setup(p); g->setup(p);
        for (int k = 0; k < 60; k++) {
            if (r.chance(0.15)) {
                RP bad = r.chance(0.4) ? genExtremeR(r, e.typ) : genInvalidR(r, e.typ);
                R.desc(descR(e.typ, bad) + " on running " + descR(e.typ, p));
                Coef c0 = f->coef();
                if (trySetup(*f, bad)) { g->setup(bad); R.count("accepted"); if (r.chance(0.8)) { f->setup(p); g->setup(p); f->reset(); g->reset(); } }
                else {
                    R.count("rejected");
                    Coef c1 = f->coef();
                    if (!R.check(!memcmp(&c0, &c1, sizeof c0), std::string("coef.rbj.") + rbjName[e.typ], "a rejected setup changed the coefficients")) return;
                }
            }
            double x = r.uni(-1, 1), a = f->filter(x), b = g->filter(x);
            if (!R.check(sameBits(a, b), std::string("stream.rbj.") + rbjName[e.typ], fmt("sample is %.17g, without the rejected call %.17g", a, b))) return;
        }
        R.nontrivial(R.curDesc);
    });
    R.part("sos", 10000, 400000, [&](Rng& r, long i) {
        auto& reg = sosRegistry(); auto& e = reg[(size_t)i % reg.size()];
        auto gen = [&]() { return genRows(r, e.n, 0.85, true); };
        auto s = gen();
        std::unique_ptr<ISos> f(e.makeWith(s)), g(e.makeWith(s));
        for (int k = 0; k < 40; k++) {
            if (r.chance(0.2)) {
                auto bad = gen();
                size_t row = r.chance(0.4) ? (size_t)e.n - 1 : r.below((uint64_t)e.n);
                int col = (int)r.below(6);
                bad[row][col] = r.chance(0.7) ? NAN : col == 3 ? 0.0 : INFINITY;
                R.desc(descSos(e, bad));
                bool thrown = false;
                try { f->setup(bad); } catch (const std::exception&) { thrown = true; }
                if (!thrown) { R.count("accepted"); break; }
                R.count("rejected");
                std::string why;
                if (!CHECKS(sameCoefs(f->coefs(), g->coefs(), why, 0), "coef.sos", "a rejected setup changed the coefficients: " + why)) return;
                if (r.chance(0.3)) { auto ok = gen(); f->setup(ok); g->setup(ok); }
            }
            double x = r.uni(-1, 1), a = f->d(x), b = g->d(x);
            if (!R.check(sameBits(a, b), "stream.sos", fmt("sample is %.17g, without the rejected call %.17g", a, b))) return;
        }
        R.nontrivial(R.curDesc);
    });
}

// ------------------------------------------------------------------ C18
template <class A, class B> static bool isSame() { return std::is_same<A, B>::value; }
static void c18(Run& R) {
    std::map<std::string, const Entry*> byKey;
    for (auto& e : registry()) byKey[fmt("%d.%d.%d.%d", e.fam, e.typ, e.st, e.order)] = &e;
    R.part("overloads", 24000, 800000, [&](Rng& r, long i) {
        auto& v = registry();
        const Entry& e = r.chance(0.5) ? v[(size_t)i % v.size()] : pickEntry(r);
        Dom d = dom(r);
        P p = genValid(r, e, d);
        double nf = p.nf(), nw = p.nw();
        int ord = effOrder(e, p);
        R.desc(descP(e, p));
        std::string key = std::string(famName[e.fam]) + "." + typName[e.typ];
        std::unique_ptr<IFilter> base(e.make());
        P b0 = p; b0.form = 1; b0.order = ord; b0.f = nf; b0.w = nw;
        base->setup(b0);
        auto cb = base->coefs();
        for (int form = 0; form < 4; form++) {
            if (ord != e.order && !(form & 1)) continue;
            for (int k = 0; k < 2; k++) {
                double fs = k ? std::ldexp(1, r.chance(0.8) ? r.range(-30, 40) : r.range(-900, 1000)) : r.chance(0.8) ? r.logu(1e-6, 1e9) : r.logu(1e-280, 1e300);
                if (form < 2 && k) continue;
                P q = b0;
                q.form = form; q.fs = fs; q.order = ord;
                if (form >= 2) { q.f = nf * fs; q.w = nw * fs; }
                std::unique_ptr<IFilter> f(e.make());
                f->setup(q);
                std::string why;
                double rel = 1e-9 / std::min(1.0, 100 * cornerDistance(e, b0));
                CHECKS(sameCoefs(f->coefs(), cb, why, rel), "overload." + key, descP(e, q) + ": " + why);
                R.count("compared");
            }
        }
        // smaller template with the same order
        auto it = byKey.find(fmt("%d.%d.%d.%d", e.fam, e.typ, DF2, ord));
        if (it != byKey.end() && it->second != &e) {
            std::unique_ptr<IFilter> f(it->second->make());
            P q = b0; q.form = (int)r.below(2);
            f->setup(q);
            std::string why;
            CHECKS(sameCoefs(f->coefs(), cb, why, 1e-12), "template." + key, fmt("template order %d set up with order %d differs from template order %d: %s", e.order, ord, ord, why.c_str()));
            double peak = 1e-6;
            for (int k = 0; k < 40; k++) {
                double x = r.uni(-1, 1), a = base->filter(x), c = f->filter(x);
                peak = std::max(peak, std::fabs(c));
                if (!R.check(std::fabs(a - c) <= 1e-8 * peak, "template.signal." + key, fmt("sample %d: %.15g and %.15g", k, a, c))) break;
            }
            R.count("templates");
        }
        // sections in use: what the order needs
        int want = hasWidth(e.typ) ? ord : (ord + 1) / 2;
        R.check(base->numStages() == want, "sections." + key, fmt("order %d uses %d sections instead of %d", ord, base->numStages(), want));
        R.nontrivial(R.curDesc);
    });
    R.part("rbj", 10000, 300000, [&](Rng& r, long i) {
        auto& e = rbjRegistry()[(size_t)i % R_N];
        RP p = genRbjAny(r, e.typ);
        if (e.typ == R_BSH) p.a = std::min(p.a, 1.0);
        R.desc(descR(e.typ, p));
        std::unique_ptr<IRbj> f(e.make());
        RP q = p; q.form = 0; q.f = p.nf(); q.dflt = false; q.a = effA(e.typ, p);
        f->setup(q);
        std::string why, key = std::string("rbj.") + rbjName[e.typ];
        for (int k = 0; k < 4; k++) {
            std::unique_ptr<IRbj> g(e.make());
            RP s = q;
            s.form = k & 1; s.fs = r.chance(0.8) ? r.logu(1e-6, 1e9) : r.logu(1e-280, 1e300);
            if (s.form) s.f = q.f * s.fs;
            if (k & 2) { if (!rbjHasDefault(e.typ)) continue; s.dflt = true; RP q2 = q; q2.a = rbjDefault(e.typ); f->setup(q2); } else f->setup(q);
            g->setup(s);
            CHECKS(sameCoefs({g->coef()}, {f->coef()}, why, 1e-9), key, descR(e.typ, s) + ": " + why);
            R.count("compared");
        }
        R.nontrivial(R.curDesc);
    });
    // topologies give the same output
    R.part("topologies", 6000, 200000, [&](Rng& r, long i) {
        auto& reg = sosRegistry();
        size_t base = ((size_t)i % (reg.size() / 3)) * 3;
        int n = reg[base].n;
        const Entry& e = pickEntry(r);
        std::vector<Sos> s(n, Sos{1, 0, 0, 1, 0, 0});
        std::string what;
        if (r.chance(0.5)) {
            Dom d; d.fmin = 0.02; d.fmax = 0.48; d.wmin = 0.03; d.maxOrder = 24;
            P p = genValid(r, e, d);
            std::unique_ptr<IFilter> f(e.make());
            f->setup(p);
            auto c = f->coefs();
            for (int k = 0; k < std::min<int>(n, (int)c.size()); k++) s[k] = Sos{c[k].b0, c[k].b1, c[k].b2, c[k].a0, c[k].a1, c[k].a2};
            what = descP(e, p);
        } else for (auto& k : s) { double rho = r.uni(0, 0.9), th = r.uni(0, 3.1), a0 = r.logu(0.1, 10); k = Sos{r.uni(-1, 1) * a0, r.uni(-1, 1) * a0, r.uni(-1, 1) * a0, a0, -2 * rho * std::cos(th) * a0, rho * rho * a0}; if (&k - s.data() >= 16) { rho *= 0.5; k = Sos{a0, r.uni(-0.3, 0.3) * a0, r.uni(-0.3, 0.3) * a0, a0, -2 * rho * std::cos(th) * a0, rho * rho * a0}; } }
        R.desc(fmt("sections %d ", n) + what);
        std::unique_ptr<ISos> f[3];
        for (int k = 0; k < 3; k++) { f[k].reset(reg[base + k].make()); f[k]->setup(s); }
        double peak = 1e-6;
        for (int k = 0; k < 200; k++) {
            double x = r.uni(-1, 1), y[3];
            for (int j = 0; j < 3; j++) y[j] = f[j]->d(x);
            peak = std::max(peak, std::fabs(y[0]));
            R.maxOf("topologies.err_over_tol", std::max(std::fabs(y[0] - y[1]), std::fabs(y[0] - y[2])) / (1e-6 * peak));
            if (!R.check(std::fabs(y[0] - y[1]) <= 1e-6 * peak && std::fabs(y[0] - y[2]) <= 1e-6 * peak, "topologies", fmt("sample %d: direct form I %.15g, II %.15g, transposed II %.15g", k, y[0], y[1], y[2]))) break;
        }
        R.nontrivial(R.curDesc + fmt("#%ld", i));
    });
    R.part("defaults", 300, 3000, [&](Rng& r, long) {
        using namespace Iir;
        double fs = r.logu(1, 1e6), f = fs * r.uni(0.01, 0.24), w = f * r.uni(0.1, 0.8), g = r.uni(2, 20), rp = r.uni(0.1, 1.5), st = r.uni(20, 60);
        R.desc(fmt("default template arguments fs=%g f=%g w=%g", fs, f, w));
        double x[40]; for (auto& v : x) v = r.uni(-1, 1);
#define DFLT(C, ...) { C<> a; C<4, DirectFormII> b; a.setup(__VA_ARGS__); b.setup(__VA_ARGS__); C<4> c; c.setup(__VA_ARGS__); bool ok = a.getNumStages() == b.getNumStages(); for (double v : x) { double p = a.filter(v), q = b.filter(v), s = c.filter(v); if (!near(p, q, 1 + std::fabs(q), 1e-9) || !near(s, q, 1 + std::fabs(q), 1e-9)) ok = false; } \
        R.check(ok && sizeof(a) == sizeof(b), "default." #C, #C "<> is not the filter of order 4 in direct form II"); R.count("compared"); }
        DFLT(Butterworth::LowPass, fs, f) DFLT(Butterworth::HighPass, fs, f) DFLT(Butterworth::BandPass, fs, f, w) DFLT(Butterworth::BandStop, fs, f, w)
        DFLT(Butterworth::LowShelf, fs, f, g) DFLT(Butterworth::HighShelf, fs, f, g) DFLT(Butterworth::BandShelf, fs, f, w, g)
        DFLT(ChebyshevI::LowPass, fs, f, rp) DFLT(ChebyshevI::HighPass, fs, f, rp) DFLT(ChebyshevI::BandPass, fs, f, w, rp) DFLT(ChebyshevI::BandStop, fs, f, w, rp)
        DFLT(ChebyshevI::LowShelf, fs, f, g, rp) DFLT(ChebyshevI::HighShelf, fs, f, g, rp) DFLT(ChebyshevI::BandShelf, fs, f, w, g, rp)
        DFLT(ChebyshevII::LowPass, fs, f, st) DFLT(ChebyshevII::HighPass, fs, f, st) DFLT(ChebyshevII::BandPass, fs, f, w, st) DFLT(ChebyshevII::BandStop, fs, f, w, st)
        DFLT(ChebyshevII::LowShelf, fs, f, g, rp) DFLT(ChebyshevII::HighShelf, fs, f, g, rp) DFLT(ChebyshevII::BandShelf, fs, f, w, g, rp)
        R.check(sizeof(Custom::SOSCascade<3>) == sizeof(Custom::SOSCascade<3, DirectFormII>), "default.SOSCascade", "SOSCascade<N> is not in direct form II");
        R.nontrivial(R.curDesc);
    });
}

int main(int argc, char** argv) {
    Run R(argc, argv);
    switch (atoi(R.opt.extra["--prop"].c_str())) {
    case 6: c06(R); break;
    case 7: c07(R); break;
    case 17: c17(R); break;
    default: c18(R);
    }
    return R.finish();
}
