// C03: distinct objects never influence each other.  Agents are little programs on filters of
// their own; the log of an agent must not depend on what other agents do - interleaved in one
// thread or running at the same time (with the race detector watching).
#include "gen.h"
#include "sos_reg.h"
#include <atomic>
#include <memory>
#include <pthread.h>
#include <sched.h>
#include <thread>
using namespace vf;
typedef std::complex<double> CD;

// what every computation in the same thread depends on: rounding, flushing, masks (not the sticky flags)
static uint32_t fpControl() {
#if defined(__x86_64__)
    uint16_t cw; __asm__ volatile("fnstcw %0" : "=m"(cw));
    return (__builtin_ia32_stmxcsr() & 0xffc0u) | (uint32_t)cw << 16;
#else
    return 0;
#endif
}
static void restoreFp(uint32_t v) {
#if defined(__x86_64__)
    uint16_t cw = (uint16_t)(v >> 16); __asm__ volatile("fldcw %0" : : "m"(cw));
    __builtin_ia32_ldmxcsr(v & 0xffc0u);
#endif
    (void)v;
}
static uint32_t fpNormal;
static std::atomic<long> fpChanged{0};
static std::atomic<const char*> fpWhat{nullptr};
static uint64_t bits(double d) { if (d != d) return 0x7ff8dead; uint64_t u; memcpy(&u, &d, 8); return u; }
static std::atomic<uint64_t> ticket{0};

struct Theme {             // which classes the agents of one case use and which designs they ask for
    std::vector<const Entry*> cls;
    std::vector<std::pair<const Entry*, P>> designs;
    std::vector<int> rbj;
    std::vector<RP> rbjDesigns;
};

struct Agent {
    Rng r;
    const Theme& T;
    std::vector<std::unique_ptr<IFilter>> pole;
    std::vector<const Entry*> poleCls;
    std::vector<std::unique_ptr<IRbj>> rb;
    std::vector<std::unique_ptr<ISos>> sos;
    std::vector<int> sosIdx;
    std::vector<uint64_t> log;
    std::vector<const char*> what;
    const IFilter* shared = nullptr;
    const IRbj* sharedR = nullptr;
    Agent(uint64_t seed, const Theme& t) : r(seed), T(t) {}
    void out(uint64_t& h, double v) { h = mix(h ^ bits(v)); }
    void out(uint64_t& h, const std::vector<Coef>& c) { h = mix(h ^ c.size()); for (auto& k : c) for (int i = 0; i < 6; i++) out(h, (&k.a0)[i]); }
    void out(uint64_t& h, const std::vector<Iir::PoleZeroPair>& v) { h = mix(h ^ v.size()); for (auto& p : v) for (CD c : {p.poles.first, p.poles.second, p.zeros.first, p.zeros.second}) { out(h, c.real()); out(h, c.imag()); } }
    P request(const Entry& e) {
        if (r.chance(0.8)) {
            std::vector<const P*> v;
            for (auto& d : T.designs) if (d.first == &e) v.push_back(&d.second);
            if (!v.empty()) {
                P p = *v[r.below(v.size())];
                if (r.chance(0.4)) { Dom d; if (r.chance(0.2)) d = wideDom(); p = vary(r, e, p, d); if (p.order > e.order) p.order = e.order; }
                return p;
            }
        }
        double u = r.u();
        Dom d;
        if (u < 0.15) return genExtreme(r, e, d);
        if (u < 0.25) return genClipped(r, e, d);
        return u < 0.45 ? genValid(r, e, wideDom()) : genValid(r, e);
    }
    void step() {
        uint64_t h = 1;
        const char* w = "";
        int kind = (int)r.below(18);
        if (pole.empty() || (kind == 0 && pole.size() < 4)) {
            const Entry& e = *r.pick(T.cls);
            pole.emplace_back(e.make()); poleCls.push_back(&e);
            if (r.chance(0.7)) { P p = request(e); h = trySetup(*pole.back(), p); out(h, pole.back()->coefs()); }
            w = "construct";
        } else if (kind <= 3) {
            size_t i = r.below(pole.size());
            bool bad = r.chance(0.2);
            Dom d;
            P p = bad ? genInvalid(r, *poleCls[i], d) : request(*poleCls[i]);
            h = trySetup(*pole[i], p) ? 2 : 3;
            out(h, pole[i]->coefs());
            w = bad ? "rejected setup" : "setup";
        } else if (kind <= 8) {
            size_t i = r.below(pole.size());
            for (int k = (int)r.below(30); k >= 0; k--) out(h, pole[i]->filter(r.uni(-1, 1)));
            w = "filter";
        } else if (kind == 9) { pole[r.below(pole.size())]->reset(); w = "reset"; }
        else if (kind == 10) {
            size_t i = r.below(pole.size());
            if (pole.size() < 5) { std::unique_ptr<IFilter> c(pole[i]->clone()); const Entry* e = poleCls[i]; out(h, c->coefs()); pole.push_back(std::move(c)); poleCls.push_back(e); }
            else { pole.erase(pole.begin() + (long)i); poleCls.erase(poleCls.begin() + (long)i); }
            w = "copy or destroy";
        } else if (kind == 11) {
            size_t i = r.below(pole.size());
            double f = r.u() * 0.5;
            CD c = pole[i]->response(f); out(h, c.real()); out(h, c.imag());
            out(h, pole[i]->pz());
            w = "query";
        } else if (kind == 12) {
            if (shared) { double f = r.u() * 0.5; CD c = shared->response(f); out(h, c.real()); out(h, c.imag()); out(h, shared->pz()); }
            if (sharedR) { double f = r.u() * 0.5; CD c = sharedR->response(f); out(h, c.real()); out(h, c.imag()); out(h, sharedR->pz()); }
            w = "shared query";
        } else if (kind == 13 || rb.empty()) {
            int t = r.pick(T.rbj);
            if (rb.size() >= 3) rb.erase(rb.begin());
            rb.emplace_back(rbjRegistry()[(size_t)t].make());
            RP p = r.chance(0.6) ? T.rbjDesigns[(size_t)t] : genRbj(r, t, 0.01, r.chance(0.3));
            if (r.chance(0.2)) p = r.chance(0.5) ? genInvalidR(r, t) : genExtremeR(r, t);
            h = trySetup(*rb.back(), p);
            out(h, std::vector<Coef>{rb.back()->coef()});
            w = "rbj setup";
        } else if (kind == 14) { auto& f = *rb[r.below(rb.size())]; for (int k = 0; k < 20; k++) out(h, f.filter(r.uni(-1, 1))); CD c = f.response(r.u() * 0.5); out(h, c.real()); out(h, c.imag()); w = "rbj filter"; }
        else if (kind == 15 || sos.empty()) {
            size_t k = r.below(sosRegistry().size());
            auto& e = sosRegistry()[k];
            if (sos.size() >= 2) sos.erase(sos.begin());
            std::vector<Sos> s = genRows(r, e.n, 0.9, true);
            if (r.chance(0.5)) sos.emplace_back(e.makeWith(s)); else { sos.emplace_back(e.make()); sos.back()->setup(s); }
            out(h, sos.back()->coefs());
            w = "sos setup";
        } else if (kind == 16) { auto& f = *sos[r.below(sos.size())]; for (int k = 0; k < 20; k++) out(h, f.d(r.uni(-1, 1))); if (r.chance(0.3)) f.reset(); w = "sos filter"; }
        else {
            Iir::Custom::OnePole a; Iir::Custom::TwoPole b; Iir::DirectFormI s1; Iir::DirectFormII s2;
            a.setup(r.uni(-1, 1), r.uni(-0.9, 0.9), r.uni(-1, 1)); b.setup(1, r.uni(0, 0.9), r.uni(0, 3), r.uni(0, 1), r.uni(0, 3));
            for (int k = 0; k < 10; k++) { out(h, a.filter(r.uni(-1, 1), s1)); out(h, b.filter(r.uni(-1, 1), s2)); }
            w = "custom section";
        }
        if (uint32_t c = fpControl(); c != fpNormal) { fpChanged++; fpWhat = w; restoreFp(fpNormal); }
        log.push_back(h);
        what.push_back(w);
    }
};

static Theme theme(Rng& r) {
    Theme t;
    auto& reg = registry();
    if (r.chance(0.5)) { const Entry* e = &pickEntry(r); t.cls.push_back(e); if (r.chance(0.5)) t.cls.push_back(&pickEntry(r)); }
    else if (r.chance(0.5)) { // relatives: same family or same shape
        const Entry& e = pickEntry(r);
        for (auto& k : reg) if ((k.fam == e.fam && k.order == e.order && k.st == e.st) || (k.typ == e.typ && k.order == e.order && k.st == e.st)) t.cls.push_back(&k);
    } else for (int i = 0; i < 8; i++) t.cls.push_back(&pickEntry(r));
    for (const Entry* e : t.cls) for (int i = 0; i < 2; i++) t.designs.push_back({e, genValid(r, *e)});
    int n = r.chance(0.5) ? 1 : 4;
    for (int i = 0; i < n; i++) t.rbj.push_back((int)r.below(R_N));
    for (int i = 0; i < R_N; i++) t.rbjDesigns.push_back(genRbj(r, i, 0.01, r.chance(0.3)));
    return t;
}
static bool compare(Run& R, const Agent& a, const Agent& b, size_t who, const char* how) {
    if (!R.check(!fpChanged.exchange(0), "fpmode", fmt("a step (%s) left the thread with another floating-point mode", fpWhat.load() ? fpWhat.load() : ""))) return false;
    if (!R.check(a.log.size() == b.log.size(), "length", "agent ended early")) return false;
    for (size_t i = 0; i < a.log.size(); i++)
        if (!R.check(a.log[i] == b.log[i], std::string(how) + "." + a.what[i], fmt("agent %zu, step %zu (%s) has other results %s than on its own", who, i, a.what[i], how))) return false;
    R.count("steps", a.log.size());
    return true;
}

int main(int argc, char** argv) {
    Run R(argc, argv);
    bool tsan = false;
    fpNormal = fpControl();
#ifdef VF_TSAN
    tsan = true;
#endif
    auto& reg0 = registry(); (void)reg0; rbjRegistry(); sosRegistry();
    if (!tsan) R.part("interleaved", 3000, 200000, [&](Rng& r, long i) {
        Theme t = theme(r);
        int n = r.range(2, 5), steps = r.range(10, 80);
        uint64_t s0 = r.next();
        R.desc(fmt("%d agents with %d steps, first class %s #%ld", n, steps, t.cls[0]->name().c_str(), i));
        std::vector<std::unique_ptr<Agent>> A, B;
        for (int k = 0; k < n; k++) { A.emplace_back(new Agent(s0 + (uint64_t)k, t)); B.emplace_back(new Agent(s0 + (uint64_t)k, t)); }
        for (auto& b : B) { for (int k = 0; k < steps; k++) b->step(); b->pole.clear(); b->rb.clear(); b->sos.clear(); }
        std::vector<int> left((size_t)n, steps);
        uint64_t order = 0;
        bool lockstep = r.chance(0.3);
        for (int k = 0; k < n * steps; k++) {
            size_t a = lockstep ? (size_t)(k % n) : r.below((uint64_t)n);
            while (!left[a]) a = (a + 1) % (size_t)n;
            left[a]--;
            A[a]->step();
            order = mix(order ^ a);
        }
        for (size_t k = 0; k < (size_t)n; k++) if (!compare(R, *A[k], *B[k], k, "interleaved")) return;
        R.nontrivial(R.curDesc + fmt(" order %lx", (unsigned long)order));
    });
    R.part("threads", tsan ? 160 : 400, tsan ? 6000 : 20000, [&](Rng& r, long i) {
        Theme t = theme(r);
        int n = r.range(2, 8), steps = r.range(20, tsan ? 60 : 150);
        uint64_t s0 = r.next();
        R.desc(fmt("%d threads with %d steps, first class %s #%ld", n, steps, t.cls[0]->name().c_str(), i));
        std::unique_ptr<IFilter> sh(t.cls[0]->make());
        sh->setup(t.designs[0].second);
        std::unique_ptr<IRbj> shr(rbjRegistry()[0].make());
        shr->setup(t.rbjDesigns[0]);
        std::vector<std::unique_ptr<Agent>> A, B;
        for (int k = 0; k < n; k++) {
            // some agents do exactly the same thing at the same time
            uint64_t s = s0 + (uint64_t)(r.chance(0.3) ? 0 : k);
            A.emplace_back(new Agent(s, t)); B.emplace_back(new Agent(s, t));
            A.back()->shared = B.back()->shared = sh.get();
            A.back()->sharedR = B.back()->sharedR = shr.get();
        }
        pthread_barrier_t bar;
        pthread_barrier_init(&bar, nullptr, (unsigned)n);
        std::vector<std::vector<uint64_t>> tick((size_t)n);
        std::vector<std::thread> th;
        int jitter = (int)r.below(4);
        std::atomic<int> failed{0};
        for (int k = 0; k < n; k++) th.emplace_back([&, k]() {
            Rng q(s0 ^ (uint64_t)(k * 77 + 5));
            tick[(size_t)k].reserve((size_t)steps);
            pthread_barrier_wait(&bar);
            try {
                for (int s = 0; s < steps; s++) {
                    tick[(size_t)k].push_back(ticket.fetch_add(1, std::memory_order_relaxed));
                    A[(size_t)k]->step();
                    if (jitter == 1 && q.chance(0.2)) sched_yield();
                    if (jitter == 2) for (volatile int z = (int)q.below(3000); z > 0;) z = z - 1;
                    if (jitter == 3 && q.chance(0.05)) usleep(50);
                }
            } catch (const std::exception&) { failed++; }
        });
        for (auto& x : th) x.join();
        pthread_barrier_destroy(&bar);
        R.check(failed == 0, "threads.exception", "a thread ended with an exception");
        for (auto& b : B) for (int k = 0; k < steps; k++) b->step();
        std::vector<std::pair<uint64_t, size_t>> order;
        for (size_t k = 0; k < (size_t)n; k++) for (uint64_t x : tick[k]) order.push_back({x, k});
        std::sort(order.begin(), order.end());
        uint64_t h = 0, switches = 0;
        for (size_t k = 0; k < order.size(); k++) { h = mix(h ^ order[k].second); if (k && order[k].second != order[k - 1].second) switches++; }
        R.count("thread_switches_observed", switches);
        for (size_t k = 0; k < (size_t)n; k++) if (!compare(R, *A[k], *B[k], k, "threads")) return;
        R.nontrivial(R.curDesc + fmt(" order %lx", (unsigned long)h));
    });
    // every class, all sorts of requests and samples: the thread is left as it was found
    if (!tsan) R.part("mode", (long)registry().size(), (long)registry().size() * 20, [&](Rng& r, long i) {
        const Entry& e = registry()[(size_t)i % registry().size()];
        auto& re = rbjRegistry()[(size_t)i % R_N];
        std::unique_ptr<IFilter> f(e.make());
        std::unique_ptr<IRbj> g(re.make());
        auto same = [&](const char* w) {
            uint32_t c = fpControl();
            bool ok = c == fpNormal;
            if (!ok) restoreFp(fpNormal);
            R.count("mode.calls");
            return R.check(ok, "fpmode", fmt("%s left the thread with another floating-point mode", w));
        };
        static const double odd[] = {0, -0.0, 1e-310, -5e-324, 1e308, INFINITY, NAN, 1e-160, 1};
        for (int k = 0; k < 60; k++) {
            Dom d = k % 3 ? Dom() : wideDom();
            P p; RP q;
            switch (k % 6) {
            case 0: p = genInvalid(r, e, d); q = genInvalidR(r, re.typ); break;
            case 1: case 2: p = genExtreme(r, e, d); q = genExtremeR(r, re.typ); break;
            case 3: p = genClipped(r, e, d); q = genRbjAny(r, re.typ); break;
            default: p = genValid(r, e, d); q = genRbjAny(r, re.typ);
            }
            R.desc(descP(e, p));
            trySetup(*f, p); if (!same("setup")) return;
            for (double x : odd) f->filter(x);
            if (!same("filter")) return;
            f->reset();
            f->response(r.u() * 0.5); if (!same("response")) return;
            try { f->pz(); } catch (const std::exception&) {}
            if (!same("getPoleZeros")) return;
            R.desc(descR(re.typ, q));
            trySetup(*g, q); if (!same("setup")) return;
            for (double x : odd) g->filter(x);
            if (!same("filter")) return;
            g->reset();
            g->response(r.u() * 0.5); if (!same("response")) return;
        }
        R.nontrivial(e.name());
    });
    // very many objects alive at the same time
    if (!tsan) R.part("crowd", 24, 96, [&](Rng& r, long i) {
        const size_t many = 70000;
        const int K = 8;
        auto play = [&](auto* f, int salt) { uint64_t h = 1; for (int k = 0; k < 4; k++) h = mix(h ^ bits(f->filter(0.25 * ((k + salt) % 5) - 0.5))); return h; };
        auto crowd = [&](auto make, auto setup, auto query, const char* nm) {
            typedef std::remove_reference_t<decltype(*make())> F;
            uint64_t want1[K], want2[K], want3[K];
            for (int k = 0; k < K; k++) { std::unique_ptr<F> g(make()); setup(*g, k); want1[k] = query(*g); want2[k] = play(g.get(), k); want3[k] = play(g.get(), k + 1); }
            std::vector<std::unique_ptr<F>> v; v.reserve(many);
            for (size_t j = 0; j < many; j++) { v.emplace_back(j % 7 == 6 ? static_cast<F*>(v[j - 3]->clone()) : make()); setup(*v[j], (int)(j % K)); if (j % 7 == 6) v[j]->reset(); uint64_t a = play(v[j].get(), (int)(j % K)); if (!R.check(a == want2[j % K], std::string("crowd.") + nm, fmt("object %zu filters differently from one on its own", j))) return; }
            for (size_t j = 0; j < many; j++) {
                size_t k = (j * 48271) % many;
                if (!R.check(query(*v[k]) == want1[k % K] && play(v[k].get(), (int)(k % K) + 1) == want3[k % K], std::string("crowd.") + nm, fmt("object %zu of %zu changed because of the others", k, many))) return;
                if (j % 3 == 0) v[k].reset(), v[k].reset(make()), setup(*v[k], (int)(k % K)), play(v[k].get(), (int)(k % K)), play(v[k].get(), (int)(k % K) + 1);
            }
            R.count("objects", many);
        };
        if (i % 3) {
            const Entry* e = &pickEntry(r);
            while (e->order > 4) e = &pickEntry(r);
            P ps[K]; Dom d;
            for (int k = 0; k < K; k++) { ps[k] = genValid(r, *e, d); }
            R.desc(e->name() + " in a crowd");
            crowd([&]() { return e->make(); }, [&](IFilter& f, int k) { f.setup(ps[k]); }, [&](IFilter& f) { uint64_t h = 0; for (auto& c : f.coefs()) for (int j = 0; j < 6; j++) h = mix(h ^ bits((&c.a0)[j])); CD z = f.response(0.1); return mix(h ^ bits(z.real()) ^ mix(bits(z.imag()))); }, "pole");
        } else {
            auto& e = rbjRegistry()[(size_t)(i / 3) % R_N];
            RP ps[K];
            for (auto& q : ps) { q = genRbj(r, e.typ, 0.01); if (e.typ == R_BSH) q.a = std::min(q.a, 1.0); }
            R.desc(e.name() + " in a crowd");
            crowd([&]() { return e.make(); }, [&](IRbj& f, int k) { f.setup(ps[k]); }, [&](IRbj& f) { uint64_t h = 0; Coef c = f.coef(); for (int j = 0; j < 6; j++) h = mix(h ^ bits((&c.a0)[j])); return h; }, "rbj");
        }
        R.nontrivial(R.curDesc);
    }, false);
    // more threads alive at the same time than any table of per-thread slots has room for
    R.part("manythreads", tsan ? 4 : 12, tsan ? 120 : 1500, [&](Rng& r, long i) {
        Theme t = theme(r);
        const int n = tsan ? 150 : r.range(130, 300), steps = tsan ? 10 : 16;
        uint64_t s0 = r.next();
        R.desc(fmt("%d threads at the same time with %d steps, first class %s #%ld", n, steps, t.cls[0]->name().c_str(), i));
        std::vector<std::unique_ptr<Agent>> A, B;
        for (int k = 0; k < n; k++) { A.emplace_back(new Agent(s0 + (uint64_t)k, t)); B.emplace_back(new Agent(s0 + (uint64_t)k, t)); }
        struct Gate {               // opens when as many have arrived as there are
            pthread_mutex_t m = PTHREAD_MUTEX_INITIALIZER;
            pthread_cond_t c = PTHREAD_COND_INITIALIZER;
            int in = 0, want = -1;
            void arrive() { pthread_mutex_lock(&m); in++; pthread_cond_broadcast(&c); while (in != want) pthread_cond_wait(&c, &m); pthread_mutex_unlock(&m); }
            void expect(int n) { pthread_mutex_lock(&m); want = n; pthread_cond_broadcast(&c); pthread_mutex_unlock(&m); }
        } first, last;
        pthread_attr_t at;
        pthread_attr_init(&at);
        pthread_attr_setstacksize(&at, 1 << 20);
        struct Job { Agent* a; Gate *first, *last; int steps; bool failed; };
        std::vector<Job> jobs;
        std::vector<pthread_t> th((size_t)n);
        auto body = [](void* v) -> void* {
            Job& j = *static_cast<Job*>(v);
            try { j.a->step(); } catch (const std::exception&) { j.failed = true; }
            j.first->arrive();      // every thread has used the library before any of them goes on
            try { for (int s = 1; s < j.steps; s++) j.a->step(); } catch (const std::exception&) { j.failed = true; }
            j.last->arrive();       // and none of them ends before all are through
            return nullptr;
        };
        int made = 0;
        for (int k = 0; k < n; k++) jobs.push_back(Job{A[(size_t)k].get(), &first, &last, steps, false});
        while (made < n && !pthread_create(&th[(size_t)made], &at, body, &jobs[(size_t)made])) made++;
        first.expect(made); last.expect(made);
        for (int k = 0; k < made; k++) pthread_join(th[(size_t)k], nullptr);
        pthread_attr_destroy(&at);
        if (made < n) R.count("manythreads.not_created", (uint64_t)(n - made));
        for (auto& j : jobs) if (!R.check(!j.failed, "manythreads.exception", "a thread ended with an exception")) return;
        B.resize((size_t)made);
        for (auto& b : B) for (int k = 0; k < steps; k++) b->step();
        R.maxOf("threads_at_once", made);
        for (size_t k = 0; k < (size_t)made; k++) if (!compare(R, *A[k], *B[k], k, "manythreads")) return;
        R.nontrivial(R.curDesc);
    });
    // many threads which do nothing but design the same filter class
    R.part("designstorm", tsan ? 42 : 200, tsan ? 1000 : 5000, [&](Rng& r, long i) {
        auto& reg = registry();
        const Entry& e = reg[(size_t)(i * 13 + (long)r.below(13)) % reg.size()];
        int rt = (int)r.below(R_N);
        const int n = 4, steps = tsan ? 40 : 150;
        P base = genValid(r, e);
        std::vector<P> ps; std::vector<RP> rs;
        Dom d;
        for (int k = 0; k < 6; k++) { P p = k ? vary(r, e, base, d) : base; if (p.order > e.order) p.order = e.order; ps.push_back(p); rs.push_back(genRbj(r, rt, 0.01)); }
        R.desc(e.name() + " and " + rbjName[rt] + fmt(" designed by %d threads #%ld", n, i));
        auto program = [&](int k, std::vector<uint64_t>& log) {
            Rng q(r.s ^ (uint64_t)k);
            std::unique_ptr<IFilter> f(e.make());
            std::unique_ptr<IRbj> g(rbjRegistry()[(size_t)rt].make());
            for (int s = 0; s < steps; s++) {
                uint64_t h = trySetup(*f, ps[q.below(6)]);
                for (auto& c : f->coefs()) for (int j = 0; j < 6; j++) h = mix(h ^ bits((&c.a0)[j]));
                h ^= (uint64_t)trySetup(*g, rs[q.below(6)]);
                Coef c = g->coef();
                for (int j = 0; j < 6; j++) h = mix(h ^ bits((&c.a0)[j]));
                h = mix(h ^ bits(f->filter(1.0)) ^ bits(g->filter(1.0)));
                log.push_back(h);
            }
        };
        std::vector<std::vector<uint64_t>> a(n), b(n);
        pthread_barrier_t bar;
        pthread_barrier_init(&bar, nullptr, n);
        std::vector<std::thread> th;
        for (int k = 0; k < n; k++) th.emplace_back([&, k]() { pthread_barrier_wait(&bar); program(k, a[(size_t)k]); });
        for (auto& x : th) x.join();
        pthread_barrier_destroy(&bar);
        for (int k = 0; k < n; k++) {
            program(k, b[(size_t)k]);
            if (!R.check(a[(size_t)k] == b[(size_t)k], "storm", fmt("thread %d got other designs than on its own", k))) return;
        }
        R.count("steps", (uint64_t)(n * steps));
        R.nontrivial(R.curDesc);
    });
    return R.finish();
}
