// C01: hostile sequences of API calls under sanitizers and memcheck, and as a differential: the
// log of all observable results must not depend on what the memory held before.
//   --mode write|compare|none  --trace DIR  --fill N (byte to fill memory with, 256: noise)
#include "gen.h"
#include "sos_reg.h"
#include <algorithm>
#include <memory>
#include <thread>
#ifdef VF_VALGRIND
#include <valgrind/memcheck.h>
#endif
using namespace vf;
typedef std::complex<double> CD;

static int fillByte = 0x5a;
static Run* RR;
// memory of exactly the right size, filled
struct Mem {
    void* p; size_t n;
    Mem(size_t size, Rng* noise) : p(::operator new(size)), n(size) {
        if (fillByte < 256) memset(p, fillByte, size);
        else for (size_t i = 0; i < size; i++) ((unsigned char*)p)[i] = (unsigned char)(noise->next() >> 9);
#ifdef VF_VALGRIND
        VALGRIND_MAKE_MEM_UNDEFINED(p, size);
#endif
    }
    void scribble() { memset(p, fillByte < 256 ? fillByte ^ 0xff : 0x77, n); }
    ~Mem() { ::operator delete(p); }
};
template <class F> struct Box {
    std::unique_ptr<Mem> m; F* f = nullptr; bool sane = false;
    Box() {}
    Box(Box&&) = default; Box& operator=(Box&&) = default;
    void kill() { if (f) { f->~F(); f = nullptr; m->scribble(); m.reset(); } }
};

struct Log {
    std::vector<uint64_t> v;
    std::vector<const char*> what;
    uint64_t h = 0;
    void def(double& d) {
#ifdef VF_VALGRIND
        if (VALGRIND_CHECK_MEM_IS_DEFINED(&d, sizeof d)) { if (RR) RR->violation("uninitialised", "a result depends on uninitialised memory"); VALGRIND_MAKE_MEM_DEFINED(&d, sizeof d); }
#else
        (void)d;
#endif
    }
    void out(double d) { def(d); uint64_t u; if (d != d) u = 0x7ff8dead; else memcpy(&u, &d, 8); h = mix(h ^ u); }
    void out(CD c) { out(c.real()); out(c.imag()); }
    void out(const std::vector<Coef>& c) { out((double)c.size()); for (auto& k : c) for (int i = 0; i < 6; i++) out((&k.a0)[i]); }
    void out(const std::vector<Iir::PoleZeroPair>& c) { out((double)c.size()); for (auto& p : c) { out(p.poles.first); out(p.poles.second); out(p.zeros.first); out(p.zeros.second); } }
    void step(const char* w) { v.push_back(h); what.push_back(w); }
};

static double wild(Rng& r) {
    switch (r.below(16)) {
    case 0: return NAN;
    case 1: return INFINITY;
    case 2: return -INFINITY;
    case 3: return 4.9e-324;
    case 4: return 1.7e308;
    case 5: return -1.7e308;
    case 6: return 0;
    case 7: return -0.0;
    case 8: return (r.chance(0.5) ? 1 : -1) * r.logu(1e-310, 1e300);
    case 9: return (double)r.range(-5, 5);
    case 10: return 0.5;
    case 11: return 1e-8 * r.u();
    case 12: return r.uni(-1, 1);
    default: return r.uni(0, 0.6);
    }
}
static int wildInt(Rng& r, int n) {
    switch (r.below(8)) {
    case 0: return INT_MAX;
    case 1: return INT_MIN;
    case 2: return -1;
    case 3: return n;
    case 4: return n + 1;
    case 5: return 0;
    case 6: return 2 * n + (int)r.below(10);
    default: return r.range(-2, n + 2);
    }
}
static P wildP(Rng& r, const Entry& e) {
    P p = genValid(r, e);
    if (r.chance(0.5)) { p.form |= 1; p.order = wildInt(r, e.order); }
    if (r.chance(0.5)) p.f = wild(r);
    if (r.chance(0.4)) p.w = wild(r);
    if (r.chance(0.4)) p.g = wild(r) * (r.chance(0.5) ? 100 : 1);
    if (r.chance(0.4)) p.r = wild(r) * (r.chance(0.5) ? 100 : 1);
    if (r.chance(0.2)) p.fs = wild(r);
    return p;
}
template <class F> static bool tryDo(F f) { try { f(); return true; } catch (const std::exception&) { return false; } }

// ---- one hostile program
static void program(Rng& r, Log& L, int steps, std::string& trail) {
    Rng noise(r.next());
    std::vector<Box<IFilter>> po; std::vector<const Entry*> pe;
    std::vector<Box<IRbj>> rb; std::vector<int> rt;
    std::vector<Box<ISos>> so; std::vector<const SosEntry*> se;
    auto stable = [&](const SosEntry& e) { return genRows(r, e.n, 0.9, true); };
    auto newPole = [&](const Entry& e) { Box<IFilter> b; b.m.reset(new Mem(e.holderSize, &noise)); b.f = e.makeIn(b.m->p); po.push_back(std::move(b)); pe.push_back(&e); };
    const Entry* fav = &pickEntry(r);
    auto cls = [&]() -> const Entry& { return r.chance(0.5) ? *fav : pickEntry(r); };
    for (int s = 0; s < steps; s++) {
        int k = (int)r.below(26);
        if (po.empty()) { newPole(cls()); L.step("construct"); continue; }
        size_t i = r.below(po.size());
        IFilter& f = *po[i].f;
        const Entry& e = *pe[i];
        const char* w = "";
        switch (k) {
        case 0: if (po.size() < 6) newPole(cls()); w = "construct"; break;
        case 1: case 2: { P p = r.chance(0.75) ? wildP(r, e) : r.chance(0.5) ? genExtreme(r, e, Dom()) : genClipped(r, e, Dom()); trail = descP(e, p); bool ok = tryDo([&]() { f.setup(p); }); L.out(ok); L.out(f.coefs()); if (ok) po[i].sane = false; w = "wild setup"; break; }
        case 3: case 4: { P p = genValid(r, e, dom(r)); if (r.chance(0.3)) { p.form |= 1; p.order = r.chance(0.5) ? e.order : r.range(1, e.order); } trail = descP(e, p); bool ok = tryDo([&]() { f.setup(p); }); L.out(ok); L.out(f.coefs()); if (ok) po[i].sane = true; w = "setup"; break; }
        case 5: { P p = genInvalid(r, e, Dom()); trail = descP(e, p); L.out(tryDo([&]() { f.setup(p); })); w = "invalid setup"; L.out(f.coefs()); if (r.chance(0.5)) L.out(tryDo([&]() { f.setup(p); })); break; }
        case 6: case 7: for (int q = 0; q < 20; q++) L.out(f.filter(r.uni(-1, 1))); w = "filter"; break;
        case 8: for (int q = 0; q < 8; q++) L.out(f.filter(wild(r))); for (int q = 0; q < 4; q++) L.out((double)f.filterF((float)r.uni(-1e30, 1e30))); w = "filter wild"; break;
        case 9: if (po[i].sane) { f.reset(); for (int q = 0; q < 10; q++) { int x = r.range(-1000, 1000); std::unique_ptr<IFilter> c(f.clone()); double y = c->filter((double)x); L.out(y); if (std::fabs(y) < 2e9) L.out(f.filterI(x)); } } w = "filter int"; break;
        case 10: f.reset(); w = "reset"; break;
        case 11: if (po.size() < 6) { Box<IFilter> b; b.m.reset(new Mem(e.holderSize, &noise)); b.f = f.cloneIn(b.m->p); b.sane = po[i].sane; po.push_back(std::move(b)); pe.push_back(&e); L.out(po.back().f->coefs()); } w = "copy"; break;
        case 12: po[i].kill(); po.erase(po.begin() + (long)i); pe.erase(pe.begin() + (long)i); w = "destroy"; break;
        case 13: { size_t j = r.below(po.size()); for (size_t q = 0; q < po.size() && pe[j] != pe[i]; q++) j = (j + 1) % po.size(); if (pe[j] == pe[i]) { if (i == j) f.selfAssign(); else f.assign(*po[j].f); L.out(f.coefs()); L.out(f.filter(1.0)); } w = "assign"; break; }
        case 14: { double x = r.chance(0.6) ? r.u() * 0.5 : wild(r); CD c(0); bool ok = tryDo([&]() { c = f.response(x); }); L.out(ok); L.out(c); w = "response"; break; }
        case 15: { std::vector<Iir::PoleZeroPair> v; L.out(tryDo([&]() { v = f.pz(); })); L.out(v); w = "poles and zeros"; break; }
        case 16: { int x = r.chance(0.5) ? r.range(-1, f.numStages()) : wildInt(r, f.numStages()); Coef c{}; bool ok = tryDo([&]() { c = f.coef(x); }); L.out(ok); if (ok) L.out(std::vector<Coef>{c}); w = "stage"; break; }
        case 17: { int cap = f.capStages(); L.out(cap); Iir::Biquad* b = f.storage(); for (int q = 0; q < cap; q++) L.out(std::vector<Coef>{coefOf(b[q])}); w = "storage"; break; }
        case 18: case 19: {
            if (rb.size() < 3 && (rb.empty() || r.chance(0.4))) { int t = (int)r.below(R_N); auto& q = rbjRegistry()[(size_t)t]; Box<IRbj> b; b.m.reset(new Mem(q.holderSize, &noise)); b.f = q.makeIn(b.m->p); rb.push_back(std::move(b)); rt.push_back(t); }
            size_t j = r.below(rb.size());
            RP p = genRbjAny(r, rt[j]);
            if (r.chance(0.5)) { if (r.chance(0.5)) p.f = wild(r); if (r.chance(0.5)) { p.a = wild(r); p.dflt = false; } if (r.chance(0.3)) p.g = wild(r) * 50; if (r.chance(0.2)) p.fs = wild(r); }
            trail = descR(rt[j], p);
            L.out(tryDo([&]() { rb[j].f->setup(p); })); L.out(std::vector<Coef>{rb[j].f->coef()});
            w = "rbj setup"; break;
        }
        case 20: {
            if (rb.empty()) break;
            size_t j = r.below(rb.size());
            IRbj& q = *rb[j].f;
            for (int n = 0; n < 10; n++) L.out(q.filter(r.chance(0.9) ? r.uni(-1, 1) : wild(r)));
            L.out(q.response(r.chance(0.8) ? r.u() * 0.5 : wild(r)));
            std::vector<Iir::PoleZeroPair> v; L.out(tryDo([&]() { v = q.pz(); })); L.out(v);
            if (r.chance(0.3)) q.reset();
            if (r.chance(0.3)) { std::unique_ptr<IRbj> c(q.clone()); L.out(c->filter(1)); q.assign(*c); L.out(q.filter(1)); }
            if (r.chance(0.2)) { rb[j].kill(); rb.erase(rb.begin() + (long)j); rt.erase(rt.begin() + (long)j); }
            w = "rbj"; break;
        }
        case 21: case 22: {
            if (so.size() < 2) {
                auto& q = sosRegistry()[r.below(sosRegistry().size())];
                Box<ISos> b; b.m.reset(new Mem(q.holderSize, &noise));
                bool ok = true;
                if (r.chance(0.5)) b.f = q.makeIn(b.m->p);
                else { auto m = stable(q); if (r.chance(0.3)) m[r.below((uint64_t)q.n)][r.below(6)] = wild(r); ok = tryDo([&]() { b.f = q.makeWithIn(b.m->p, m); }); }
                L.out(ok);
                if (ok) { so.push_back(std::move(b)); se.push_back(&q); }
            } else {
                size_t j = r.below(so.size());
                auto m = stable(*se[j]); if (r.chance(0.4)) m[r.below((uint64_t)se[j]->n)][r.below(6)] = wild(r);
                L.out(tryDo([&]() { so[j].f->setup(m); })); L.out(so[j].f->coefs());
                for (int n = 0; n < 5; n++) L.out(so[j].f->d(r.chance(0.8) ? r.uni(-1, 1) : wild(r)));
                L.out((double)so[j].f->f(0.25f));
                if (r.chance(0.3)) so[j].f->reset();
                if (r.chance(0.3)) { std::unique_ptr<ISos> c(so[j].f->clone()); L.out(c->d(1)); so[j].f->assign(*c); L.out(so[j].f->d(1)); }
                if (r.chance(0.3)) { so[j].kill(); so.erase(so.begin() + (long)j); se.erase(se.begin() + (long)j); }
            }
            w = "sos"; break;
        }
        case 23: {   // sections
            std::unique_ptr<Iir::Biquad> b(new Iir::Biquad);
            for (int n = 0; n < 4; n++) {
                auto c = [&]() { return CD(r.chance(0.7) ? r.uni(-1, 1) : wild(r), r.chance(0.5) ? 0 : r.chance(0.7) ? r.uni(-1, 1) : wild(r)); };
                CD p1 = c(), z1 = c(), p2 = r.chance(0.5) ? std::conj(p1) : c(), z2 = r.chance(0.5) ? std::conj(z1) : c();
                double v[6]; for (double& q : v) q = r.chance(0.8) ? r.uni(-2, 2) : wild(r);
                bool ok = false;
                switch (r.below(7)) {
                case 0: ok = tryDo([&]() { b->setCoefficients(v[0], v[1], v[2], v[3], v[4], v[5]); }); break;
                case 1: ok = tryDo([&]() { b->setOnePole(p1, z1); }); break;
                case 2: ok = tryDo([&]() { b->setTwoPole(p1, z1, p2, z2); }); break;
                case 3: ok = tryDo([&]() { b->setPoleZeroPair(Iir::PoleZeroPair(p1, z1, p2, z2)); }); break;
                case 4: ok = tryDo([&]() { Iir::BiquadPoleState st(*b); L.out(st.gain); L.out(st.poles.first); b->setPoleZeroForm(st); }); break;
                case 5: ok = tryDo([&]() { b->applyScale(v[0]); }); break;
                default: { Iir::Custom::TwoPole t; Iir::Custom::OnePole o; ok = tryDo([&]() { t.setup(v[0], v[1], v[2], v[3], v[4]); o.setup(v[0], v[1], v[2]); }); L.out(std::vector<Coef>{coefOf(t), coefOf(o)}); }
                }
                L.out(ok); L.out(std::vector<Coef>{coefOf(*b)});
                L.out(b->response(r.chance(0.8) ? r.u() * 0.5 : wild(r)));
                std::vector<Iir::PoleZeroPair> pz; L.out(tryDo([&]() { pz = b->getPoleZeros(); })); L.out(pz);
            }
            std::unique_ptr<Mem> m(new Mem(sizeof(Iir::DirectFormI) + sizeof(Iir::DirectFormII) + sizeof(Iir::TransposedDirectFormII), &noise));
            char* at = (char*)m->p;
            auto* s1 = new (at) Iir::DirectFormI; auto* s2 = new (at + sizeof(Iir::DirectFormI)) Iir::DirectFormII; auto* s3 = new (at + sizeof(Iir::DirectFormI) + sizeof(Iir::DirectFormII)) Iir::TransposedDirectFormII;
            for (int n = 0; n < 5; n++) { double x = r.chance(0.8) ? r.uni(-1, 1) : wild(r); L.out(b->filter(x, *s1)); L.out(b->filter(x, *s2)); L.out(b->filter(x, *s3)); }
            s1->reset(); s2->reset(); s3->reset();
            L.out(b->filter(1, *s1)); L.out(b->filter(1, *s2)); L.out(b->filter(1, *s3));
            w = "section"; break;
        }
        default: {   // layouts and cascades on storage of exactly the right size
            int cap = r.range(1, 9), st = r.range(1, 5);
            std::unique_ptr<Iir::PoleZeroPair[]> pairs(new Iir::PoleZeroPair[(size_t)(cap + 1) / 2]);
            std::unique_ptr<Iir::Biquad[]> bq(new Iir::Biquad[(size_t)st]);
            Iir::LayoutBase l(cap, pairs.get());
            Iir::Cascade c;
            c.setCascadeStorage(Iir::Cascade::Storage(st, bq.get()));
            for (int n = 0; n < 8; n++) {
                auto z = [&]() { return CD(r.uni(-0.9, 0.9), r.chance(0.2) ? wild(r) : r.uni(-0.4, 0.4)); };
                switch (r.below(7)) {
                case 0: if (r.chance(0.4)) { CD a(r.uni(-0.9, 0.9)), b(r.uni(-1, 1)); L.out(tryDo([&]() { l.add(a, b); })); } break;
                case 1: case 2: { CD a = z(), b = z(); L.out(tryDo([&]() { l.addPoleZeroConjugatePairs(a, b); })); break; }
                case 3: { CD a = z(), b = z(); L.out(tryDo([&]() { l.add(Iir::ComplexPair(a, std::conj(a)), Iir::ComplexPair(b, std::conj(b))); })); break; }
                case 4: { int x = wildInt(r, l.getNumPoles()); CD a(0); L.out(tryDo([&]() { a = l[x].poles.first; })); L.out(a); break; }
                case 5: if (r.chance(0.2)) l.reset(); break;
                default: l.setNormal(r.uni(0, 3), 1); { bool ok = tryDo([&]() { c.setLayout(l); }); L.out(ok); if (ok) { CD h = c.response(r.u() * 0.5); L.out(h); std::vector<Iir::PoleZeroPair> v; L.out(tryDo([&]() { v = c.getPoleZeros(); })); L.out(v); } }
                }
                L.out(l.getNumPoles()); L.out(c.getNumStages());
                int x = wildInt(r, c.getNumStages()); Coef q{}; bool ok = tryDo([&]() { q = coefOf(c[x]); }); L.out(ok); if (ok) L.out(std::vector<Coef>{q});
            }
            w = "layout"; break;
        }
        }
        L.step(w);
    }
    for (auto& b : po) b.kill();
    for (auto& b : rb) b.kill();
    for (auto& b : so) b.kill();
}

// a filter which is set up before main() runs
struct Early {
    Iir::Butterworth::LowPass<4> lp; Iir::ChebyshevI::BandPass<3> bp; Iir::RBJ::IIRNotch n; double y[3];
    Early() { lp.setup(1000, 100); bp.setupN(0.2, 0.1, 1); n.setup(1000, 50); y[0] = lp.filter(1.0); y[1] = bp.filter(1.0); y[2] = n.filter(1.0); }
};
__attribute__((init_priority(101))) static Early early;

// containers copy and relocate the filters they hold
template <class F, class S> static void container(Rng& r, Log& L, S setup) {
    std::vector<F> v;
    int n = r.range(1, 9);
    for (int i = 0; i < n; i++) {
        if (r.chance(0.5) || v.empty()) { F f; if (r.chance(0.7)) setup(f); for (int k = 0; k < 3; k++) L.out(f.filter(1.0 + k)); v.push_back(f); }
        else v.push_back(v[r.below(v.size())]);
        if (r.chance(0.2)) v.erase(v.begin() + (long)r.below(v.size()));
        if (r.chance(0.3)) v.insert(v.begin(), F());
        for (auto& f : v) L.out(f.filter(0.5));
    }
    if (v.empty()) v.emplace_back();
    for (auto& f : v) { setup(f); L.out(f.filter(1.0)); L.out(std::abs(f.response(0.1))); }
    if (v.size() > 1) { std::swap(v[0], v[1]); setup(v[0]); setup(v[1]); L.out(v[0].filter(1.0)); L.out(v[1].filter(1.0)); std::reverse(v.begin(), v.end()); for (auto& f : v) { setup(f); f.reset(); L.out(f.filter(1.0)); } }
    F* heap = new F(v[0]); F& other = v[0]; setup(*heap); setup(other); L.out(heap->filter(1.0)); delete heap; L.out(other.filter(1.0));
    auto byValue = [&](F f) { setup(f); return f; };
    F ret = byValue(other); L.out(ret.filter(1.0)); ret.reset(); L.out(ret.filter(1.0));
}

// template orders far beyond what anybody uses
template <class F, class S> static void huge(Rng& r, Log& L, int top, S setup) {
    Rng noise(r.next());
    Mem m(sizeof(F), &noise), m2(sizeof(F), &noise);
    F* f = new (m.p) F;
    for (int k = r.range(1, 4); k > 0; k--) {
        int o = r.chance(0.5) ? top : r.range(1, top);
        L.out(tryDo([&]() { setup(*f, o); }));
        L.out(f->getNumStages());
        for (int q = 0; q < f->getNumStages(); q++) L.out(std::vector<Coef>{coefOf((*f)[q])});
        for (int q = 0; q < 4; q++) L.out(f->filter(r.uni(-1, 1)));
        L.out(f->response(r.u() * 0.5));
        std::vector<Iir::PoleZeroPair> v; L.out(tryDo([&]() { v = f->getPoleZeros(); })); L.out(v);
        L.out(tryDo([&]() { setup(*f, top + 1); }));
        if (r.chance(0.5)) { F* g = new (m2.p) F(*f); L.out(g->filter(1.0)); L.out(tryDo([&]() { setup(*g, o); })); L.out(g->filter(1.0)); *f = *g; setup(*f, o); g->~F(); }
        if (r.chance(0.5)) f->reset();
        L.out(f->filter(0.5));
    }
    f->~F();
}

// Filters are used before main and after it, when static objects of the library do not exist yet or any more,
// and by threads which are about to end.
static void everyFamily(uint64_t seed, Log& L) {
    Rng r(seed);
    double f = r.uni(0.05, 0.3);
    int o = r.range(1, 3);
    container<Iir::Butterworth::HighPass<3>>(r, L, [&](auto& q) { q.setupN(o, f); });
    container<Iir::Butterworth::BandPass<3>>(r, L, [&](auto& q) { q.setupN(o, f, 0.05); });
    container<Iir::Butterworth::HighShelf<3, Iir::DirectFormI>>(r, L, [&](auto& q) { q.setupN(o, f, 6); });
    container<Iir::ChebyshevI::LowPass<3>>(r, L, [&](auto& q) { q.setupN(o, f, 1); });
    container<Iir::ChebyshevI::BandStop<3>>(r, L, [&](auto& q) { q.setupN(o, f, 0.05, 1); });
    container<Iir::ChebyshevI::LowShelf<3>>(r, L, [&](auto& q) { q.setupN(o, f, 6, 1); });
    container<Iir::ChebyshevII::LowPass<3, Iir::TransposedDirectFormII>>(r, L, [&](auto& q) { q.setupN(o, f, 40); });
    container<Iir::ChebyshevII::BandPass<3>>(r, L, [&](auto& q) { q.setupN(o, f, 0.05, 40); });
    container<Iir::ChebyshevII::BandShelf<3>>(r, L, [&](auto& q) { q.setupN(o, f, 0.05, 6, 1); });
    container<Iir::RBJ::LowPass>(r, L, [&](auto& q) { q.setupN(f); });
    container<Iir::RBJ::IIRNotch>(r, L, [&](auto& q) { q.setupN(f); });
    container<Iir::RBJ::BandShelf>(r, L, [&](auto& q) { q.setupN(f, 6, 1); });
    Iir::Butterworth::LowPass<3> lp; lp.setupN(o, f);
    for (double x : {0.0, 0.1, 0.5}) L.out(lp.response(x));
    L.out(lp.getPoleZeros());
    L.out(tryDo([&]() { lp.setupN(4, f); })); L.out(tryDo([&]() { lp.setupN(3, 0.5); }));
    Iir::Custom::TwoPole t; Iir::DirectFormI st; t.setup(1, 0.5, 1, 0.9, 1); for (int i = 0; i < 5; i++) L.out(t.filter(1.0, st));
    const double m[2][6] = {{1, 0.5, 0.25, 1, -0.5, 0.25}, {2, 1, 0, 2, 0.5, 0}};
    Iir::Custom::SOSCascade<2> sos(m); for (int i = 0; i < 5; i++) L.out(sos.filter(1.0));
    L.step("every family");
}
static bool lateOn = false;
static uint64_t earlyHash;
struct Late {
    Late() { Log L; everyFamily(7, L); earlyHash = L.h; }
    ~Late() {
        if (!lateOn) return;
        Log L; everyFamily(7, L);
        if (L.h == earlyHash) return;
        printf("VF_VIOLATION\tlate\tlate\t0\tafter main | filters which are used after main do not work as before main\n");
        fflush(stdout);
        _exit(1);
    }
};
__attribute__((init_priority(101))) static Late late;
struct AtThreadExit {
    Log* L = nullptr; uint64_t seed = 0;
    ~AtThreadExit() { if (L) everyFamily(seed, *L); }
};
static thread_local AtThreadExit atThreadExit;

int main(int argc, char** argv) {
    Run R(argc, argv);
    RR = &R;
    lateOn = R.opt.onlyPart.empty() || R.opt.onlyPart == "late";
    std::string mode = R.opt.extra["--mode"], dir = R.opt.extra["--trace"];
    if (!R.opt.extra["--fill"].empty()) fillByte = atoi(R.opt.extra["--fill"].c_str());
    bool slow = R.opt.extra["--slow"] == "1", small = R.opt.extra["--small"] == "1";
    auto part = [&](const char* name, long n, long nt, const std::function<void(Rng&, Log&)>& f) {
        if (slow) { n = n / 40 + 1; nt /= 40; }
        if (small) { n /= 4; nt /= 4; }
        FILE* T = nullptr;
        if (mode == "write" || mode == "compare") {
            T = fopen((dir + "/" + name + fmt("-%d.trace", R.opt.shard)).c_str(), mode == "write" ? "wb" : "rb");
            if (!T) { if (R.opt.onlyPart.empty() || R.opt.onlyPart == name) R.violation("trace", "cannot open the trace"); return; }
        }
        R.part(name, n, nt, [&](Rng& r, long i) {
            Log L;
            f(r, L);
            R.count("steps", L.v.size());
            for (auto w : L.what) R.count(std::string("op.") + w);
            uint64_t all = L.h;
            for (auto x : L.v) all = mix(all ^ x);
            if (mode == "write") { long h[2] = {i, (long)L.v.size()}; fwrite(h, sizeof h, 1, T); fwrite(L.v.data(), 8, L.v.size(), T); }
            if (mode == "compare") {
                long h[2]; std::vector<uint64_t> w;
                if (fread(h, sizeof h, 1, T) != 1 || h[0] != i) { R.violation("trace", "the reference run has no such case"); return; }
                w.resize((size_t)h[1]);
                if (h[1] && fread(w.data(), 8, w.size(), T) != w.size()) { R.violation("trace", "short trace"); return; }
                R.check(w.size() == L.v.size(), "memory.length", "another number of steps than in the reference run");
                for (size_t k = 0; k < w.size() && k < L.v.size(); k++) if (!R.check(w[k] == L.v[k], std::string("memory.") + (L.what[k]), fmt("step %zu (%s): the results depend on what the memory held before", k, L.what[k]))) break;
            }
            R.nontrivial(R.curDesc + fmt(" #%ld log %lx", i, (unsigned long)all));
        });
        if (T) fclose(T);
    };
    R.check(early.y[0] > 0 && early.y[2] > 0, "early", "filters which are set up before main do not work");
    part("hostile", 6000, 300000, [&](Rng& r, Log& L) {
        std::string trail;
        R.desc("hostile program");
        program(r, L, r.range(10, 90), trail);
        R.desc("hostile program, last setup " + trail);
    });
    part("container", 2000, 60000, [&](Rng& r, Log& L) {
        double f = r.uni(0.05, 0.3);
        int o = r.range(1, 3);
        switch (r.below(12)) {
        case 0: R.desc("vector of Butterworth::LowPass"); container<Iir::Butterworth::LowPass<3>>(r, L, [&](auto& q) { q.setupN(o, f); }); break;
        case 1: R.desc("vector of Butterworth::BandPass"); container<Iir::Butterworth::BandPass<4>>(r, L, [&](auto& q) { q.setupN(o, f, 0.05); }); break;
        case 2: R.desc("vector of ChebyshevI::HighPass"); container<Iir::ChebyshevI::HighPass<3, Iir::DirectFormI>>(r, L, [&](auto& q) { q.setupN(o, f, 1); }); break;
        case 3: R.desc("vector of ChebyshevI::BandStop"); container<Iir::ChebyshevI::BandStop<3>>(r, L, [&](auto& q) { q.setupN(o, f, 0.05, 1); }); break;
        case 4: R.desc("vector of ChebyshevII::LowPass"); container<Iir::ChebyshevII::LowPass<5, Iir::TransposedDirectFormII>>(r, L, [&](auto& q) { q.setupN(o, f, 30); }); break;
        case 5: R.desc("vector of ChebyshevII::BandShelf"); container<Iir::ChebyshevII::BandShelf<3>>(r, L, [&](auto& q) { q.setupN(o, f, 0.05, 6, 1); }); break;
        case 6: R.desc("vector of Butterworth::LowShelf"); container<Iir::Butterworth::LowShelf<3>>(r, L, [&](auto& q) { q.setupN(o, f, -6); }); break;
        case 7: R.desc("vector of RBJ::LowPass"); container<Iir::RBJ::LowPass>(r, L, [&](auto& q) { q.setupN(f); }); break;
        case 8: R.desc("vector of RBJ::HighShelf"); container<Iir::RBJ::HighShelf>(r, L, [&](auto& q) { q.setupN(f, 3); }); break;
        case 9: R.desc("vector of Butterworth::BandStop"); container<Iir::Butterworth::BandStop<3>>(r, L, [&](auto& q) { q.setupN(o, f, 0.04); }); break;
        case 10: R.desc("vector of ChebyshevII::HighShelf"); container<Iir::ChebyshevII::HighShelf<3>>(r, L, [&](auto& q) { q.setupN(o, f, 6, 1); }); break;
        default: R.desc("vector of Butterworth::BandShelf"); container<Iir::Butterworth::BandShelf<3>>(r, L, [&](auto& q) { q.setupN(o, f, 0.04, 5); }); break;
        }
        L.step("container");
    });
    part("huge", 600, 20000, [&](Rng& r, Log& L) {
        double f = r.uni(0.1, 0.3);
        R.desc(fmt("template orders up to 260, f=%g", f));
        switch (r.below(8)) {
        case 0: huge<Iir::Butterworth::LowPass<130>>(r, L, 130, [&](auto& q, int o) { q.setupN(o, f); }); break;
        case 1: huge<Iir::Butterworth::BandPass<100>>(r, L, 100, [&](auto& q, int o) { q.setupN(o, f, 0.1); }); break;
        case 2: huge<Iir::Butterworth::BandShelf<67>>(r, L, 67, [&](auto& q, int o) { q.setupN(o, f, 0.1, 6); }); break;
        case 3: huge<Iir::ChebyshevI::HighPass<69>>(r, L, 69, [&](auto& q, int o) { q.setupN(o, f, 1); }); break;
        case 4: huge<Iir::ChebyshevI::BandStop<66>>(r, L, 66, [&](auto& q, int o) { q.setupN(o, f, 0.1, 1); }); break;
        case 5: huge<Iir::ChebyshevII::LowPass<260>>(r, L, 260, [&](auto& q, int o) { q.setupN(o, f, 60); }); break;
        case 6: huge<Iir::ChebyshevII::LowShelf<65>>(r, L, 65, [&](auto& q, int o) { q.setupN(o, f, 6, 1); }); break;
        default: huge<Iir::ChebyshevI::BandShelf<33, Iir::TransposedDirectFormII>>(r, L, 33, [&](auto& q, int o) { q.setupN(o, f, 0.1, 6, 1); }); break;
        }
        L.step("huge");
    });
    part("late", 400, 20000, [&](Rng& r, Log& L) {
        R.desc("a thread whose thread local object uses filters when the thread ends");
        uint64_t a = r.next(), b = r.next();
        std::thread t([&]() { atThreadExit.L = &L; atThreadExit.seed = b; everyFamily(a, L); });
        t.join();
        Log M; everyFamily(7, M);
        R.check(M.h == earlyHash, "early", "filters which are used before main do not work as in main");
        L.step("thread");
    });
    if (R.opt.extra["--probe"] == "1") {
        // the fixed input of a known finding; a process of its own
        R.part("probe", 1, 1, [&](Rng&, long) {
            Iir::RBJ::LowPass f;
            f.setup(1000, 100, 10);
            long y = 0;
            R.desc("RBJ::LowPass.setup(1000,100,10) filtering the int samples 2000000000");
            for (int k = 0; k < 20; k++) y += f.filter(2000000000);
            R.count("probe", (uint64_t)(y != 0));
        }, false);
    }
    return R.finish();
}
