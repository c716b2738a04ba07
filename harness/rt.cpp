// C02: no allocation, no lock, no system call; constant cost per sample.
// Interposed: the allocator, operator new/delete, the pthread locks, the guards of function-local
// statics.  System calls: syscall user dispatch (SIGSYS while the selector is set).
// Cost: the number of basic blocks executed (trace-pc instrumentation), variant "cov" only.
#include "gen.h"
#include "sos_reg.h"
#include <dlfcn.h>
#include <pthread.h>
#include <semaphore.h>
#include <sys/prctl.h>
#include <sys/syscall.h>
#include <ucontext.h>
using namespace vf;

static volatile char sel;              // 1: system calls trap
static volatile int armed;
static volatile long nAlloc, nLock, nSys, lastSys;
static bool haveSud;
#define NOCOV __attribute__((no_sanitize_coverage))

extern "C" {
void* __libc_malloc(size_t); void __libc_free(void*); void* __libc_calloc(size_t, size_t); void* __libc_realloc(void*, size_t); void* __libc_memalign(size_t, size_t);
NOCOV void* malloc(size_t n) { if (armed) nAlloc++; return __libc_malloc(n); }
NOCOV void free(void* p) { if (armed) nAlloc++; __libc_free(p); }
NOCOV void* calloc(size_t a, size_t b) { if (armed) nAlloc++; return __libc_calloc(a, b); }
NOCOV void* realloc(void* p, size_t n) { if (armed) nAlloc++; return __libc_realloc(p, n); }
NOCOV void* memalign(size_t a, size_t n) { if (armed) nAlloc++; return __libc_memalign(a, n); }
NOCOV void* aligned_alloc(size_t a, size_t n) { if (armed) nAlloc++; return __libc_memalign(a, n); }
NOCOV int posix_memalign(void** p, size_t a, size_t n) { if (armed) nAlloc++; *p = __libc_memalign(a, n); return *p ? 0 : 12; }
#define LOCK1(name, T)                                              \
    NOCOV int name(T* m) {                                          \
        static int (*real)(T*) = nullptr;                           \
        if (armed) nLock++;                                         \
        if (!real) real = (int (*)(T*))dlsym(RTLD_NEXT, #name);     \
        return real(m);                                             \
    }
}
#pragma GCC diagnostic ignored "-Wattributes"
extern "C" {
static int (*const nothing)(void*) = nullptr;
LOCK1(pthread_mutex_lock, pthread_mutex_t)
LOCK1(pthread_mutex_trylock, pthread_mutex_t)
LOCK1(pthread_rwlock_rdlock, pthread_rwlock_t)
LOCK1(pthread_rwlock_wrlock, pthread_rwlock_t)
LOCK1(sem_wait, sem_t)
NOCOV int pthread_spin_lock(pthread_spinlock_t* m) {
    static int (*real)(pthread_spinlock_t*) = nullptr;
    if (armed) nLock++;
    if (!real) real = (int (*)(pthread_spinlock_t*))dlsym(RTLD_NEXT, "pthread_spin_lock");
    return real(m);
}
NOCOV int pthread_once(pthread_once_t* c, void (*f)()) {
    static int (*real)(pthread_once_t*, void (*)()) = nullptr;
    if (armed) nLock++;
    if (!real) real = (int (*)(pthread_once_t*, void (*)()))dlsym(RTLD_NEXT, "pthread_once");
    return real(c, f);
}
NOCOV int __cxa_guard_acquire(uint64_t* g) {
    if (armed) nLock++;
    if (*(volatile char*)g) return 0;
    return 1;
}
NOCOV void __cxa_guard_release(uint64_t* g) { *(volatile char*)g = 1; }
NOCOV void __cxa_guard_abort(uint64_t*) {}
}

static long sysSeen;
NOCOV static void onSys(int, siginfo_t* si, void* c) {
    (void)si;
    sel = 0;
    nSys++;
    ucontext_t* u = (ucontext_t*)c;
    lastSys = (long)u->uc_mcontext.gregs[REG_RAX];
    sysSeen++;
    u->uc_mcontext.gregs[REG_RIP] -= 2;    // run it after all
}
NOCOV static void arm() { armed = 1; if (haveSud) sel = 1; }
NOCOV static void disarm() { sel = 0; armed = 0; }

#ifdef VF_COV
static volatile unsigned long blocks;
extern "C" NOCOV void __sanitizer_cov_trace_pc() { blocks++; }
#endif

struct Guard {
    Run& R;
    explicit Guard(Run& r) : R(r) {}
    template <class F> bool operator()(const char* what, const std::string& cls, F f) {
        nAlloc = nLock = nSys = 0;
        arm();
        try { f(); } catch (const std::exception&) { disarm(); R.count(std::string("rejected.") + what); return true; }   // a rejection may allocate its exception
        disarm();
        R.count(std::string("guarded.") + what);
        bool ok = true;
        if (nAlloc) ok = R.check(false, std::string("heap.") + what, fmt("%ld heap operations in %s of %s", (long)nAlloc, what, cls.c_str()));
        if (nLock) ok = R.check(false, std::string("lock.") + what, fmt("%ld lock operations in %s of %s", (long)nLock, what, cls.c_str()));
        if (nSys) ok = R.check(false, std::string("syscall.") + what, fmt("system call %ld in %s of %s", (long)lastSys, what, cls.c_str()));
        return ok;
    }
};

static double hostile(Rng& r) {
    switch (r.below(12)) {
    case 0: return NAN;
    case 1: return INFINITY;
    case 2: return -INFINITY;
    case 3: return 4.9e-324 * (double)r.below(1000);
    case 4: return 1e308;
    case 5: return -1.7e308;
    case 6: return 0;
    case 7: return -0.0;
    case 8: return r.uni(-1, 1) * 1e-310;
    default: return r.uni(-1, 1);
    }
}
static volatile double sink;
struct Mem {
    void* p;
    explicit Mem(size_t n) : p(::operator new(n, std::align_val_t(64))) { memset(p, 0x5a, n); }
    ~Mem() { ::operator delete(p, std::align_val_t(64)); }
};

template <class F, class Entry_, class Setup> static void story(Run& R, Rng& r, const std::string& cls, const Entry_& e, Setup genSetup) {
    Guard G(R);
    Mem m1(e.holderSize), m2(e.holderSize);
    F *f = nullptr, *g = nullptr;
    std::vector<double> x(64);
    for (int round = 0; round < 3; round++) {
        G("construction", cls, [&]() { f = e.makeIn(m1.p); });
        if (r.chance(0.3)) { for (auto& v : x) v = hostile(r); G("filter", cls, [&]() { for (double v : x) sink = f->filter(v); }); }
        int n = r.range(1, 3);
        for (int k = 0; k < n; k++) {
            auto s = genSetup(r);
            G("setup", cls, [&]() { f->setup(s); });
            bool wild = r.chance(0.5);
            for (auto& v : x) v = wild ? hostile(r) : r.uni(-1, 1);
            G("filter", cls, [&]() { for (double v : x) sink = f->filter(v); });
            G("filter", cls, [&]() { for (double v : x) sink = f->filterF((float)v); });
            G("filter", cls, [&]() { for (int q = 0; q < 16; q++) sink = f->filterI(q * 100); });
            G("reset", cls, [&]() { f->reset(); });
            G("filter", cls, [&]() { for (int q = 0; q < 16; q++) sink = f->filterI(q * 100); });
            double w = r.u() * 0.5;
            G("response", cls, [&]() { sink = std::abs(f->response(w)); });
            if (r.chance(0.5)) {
                G("copy", cls, [&]() { g = f->cloneIn(m2.p); });
                G("filter", cls, [&]() { for (double v : x) sink = g->filter(v); });
                auto s2 = genSetup(r);
                G("setup", cls, [&]() { g->setup(s2); });
                G("assignment", cls, [&]() { if (k & 1) g->assign(*f); else f->assign(*g); });
                G("setup", cls, [&]() { f->setup(s2); });
                G("destruction", cls, [&]() { g->~F(); });
            }
        }
        G("destruction", cls, [&]() { f->~F(); });
    }
}

#ifdef VF_COV
// Cost of one sample: the warm-up sets the range, nothing afterwards may leave it.
template <class F> static void cost(Run& R, Rng& r, const std::string& cls, F& f, long n, bool calm) {
    unsigned long lo = ~0ul, hi = 0, worst = 0, tot = 0;
    for (long k = 0; k < n; k++) {
        double x = k < 256 ? r.uni(-1, 1) : calm ? (k % 4096 < 2048 ? 0.25 : 0.0) : hostile(r);
        unsigned long b = blocks;
        sink = f(x);
        b = blocks - b;
        tot += b;
        if (k < 256) { lo = std::min(lo, b); hi = std::max(hi, b); }
        else if (b > worst) {
            worst = b;
            if (b > 2 * hi + 16) { R.check(false, "cost", fmt("sample %ld (%g) of %s takes %lu basic blocks, the first 256 took %lu to %lu", k, x, cls.c_str(), b, lo, hi)); return; }
        }
    }
    R.count("samples", (uint64_t)n);
    R.count("blocks", tot);
    R.maxOf("blocks_worst_over_warmup", (double)worst / (double)hi);
    R.check(hi > 0, "nocount", "no basic blocks were counted");
}
#endif

int main(int argc, char** argv) {
    Run R(argc, argv);
    struct sigaction sa;
    memset(&sa, 0, sizeof sa);
    sa.sa_sigaction = onSys;
    sa.sa_flags = SA_SIGINFO;
    sigaction(SIGSYS, &sa, nullptr);
    haveSud = !prctl(59 /* PR_SET_SYSCALL_USER_DISPATCH */, 1, 0, 0, &sel);
    // the monitors have to see what they are there for
    { Guard G(R);
      // the control: an allocation, a lock and a system call on purpose
      nAlloc = nLock = nSys = 0;
      pthread_mutex_t m = PTHREAD_MUTEX_INITIALIZER;
      arm();
      void* volatile p = malloc(10); free(p);
      pthread_mutex_lock(&m); pthread_mutex_unlock(&m);
      syscall(SYS_getppid);
      disarm();
      R.count("control.heap", (uint64_t)nAlloc); R.count("control.lock", (uint64_t)nLock); R.count("control.syscall", (uint64_t)nSys);
      if (nAlloc < 2 || nLock < 1 || (haveSud && nSys < 1)) R.violation("control", "the monitors do not see a deliberate allocation, lock or system call");
    }
    auto& reg = registry();
#ifndef VF_COV
    R.part("pole", 4L * (long)reg.size(), 200L * (long)reg.size(), [&](Rng& r, long i) {
        const Entry& e = reg[(size_t)i % reg.size()];
        Dom d;
        R.desc(e.name() + fmt(" #%ld", i));
        story<IFilter>(R, r, e.name(), e, [&](Rng& q) {
            double u = q.u();
            if (u < 0.6) return genValid(q, e, d);
            return u < 0.75 ? genClipped(q, e, d) : u < 0.85 ? genExtreme(q, e, d) : genValid(q, e, wideDom());
        });
        R.nontrivial(R.curDesc);
    });
    R.part("rbj", 400, 20000, [&](Rng& r, long i) {
        auto& e = rbjRegistry()[(size_t)i % R_N];
        R.desc(e.name() + fmt(" #%ld", i));
        story<IRbj>(R, r, e.name(), e, [&](Rng& q) { return q.chance(0.15) ? genExtremeR(q, e.typ) : genRbj(q, e.typ, 0.001, q.chance(0.3)); });
        R.nontrivial(R.curDesc);
    });
    R.part("sos", 600, 20000, [&](Rng& r, long i) {
        auto& e = sosRegistry()[(size_t)i % sosRegistry().size()];
        std::string cls = fmt("SOSCascade<%d,%s>", e.n, stName[e.st]);
        R.desc(cls + fmt(" #%ld", i));
        Guard G(R);
        Mem m1(e.holderSize), m2(e.holderSize);
        std::vector<Sos> s(e.n);
        for (auto& k : s) { double rho = r.uni(0, 0.9), th = r.uni(0, 3.1); k = Sos{r.uni(-1, 1), r.uni(-1, 1), r.uni(-1, 1), 1, -2 * rho * std::cos(th), rho * rho}; }
        ISos *f = nullptr, *g = nullptr;
        if (r.chance(0.5)) { G("construction", cls, [&]() { f = e.makeIn(m1.p); }); G("setup", cls, [&]() { f->setup(s); }); }
        else G("construction", cls, [&]() { f = e.makeWithIn(m1.p, s); });
        for (int k = 0; k < 3; k++) {
            double x = k == 1 ? hostile(r) : r.uni(-1, 1);
            G("filter", cls, [&]() { sink = f->d(x); sink = f->f((float)x); sink = (double)f->e(x); });
            f->reset();
            G("filter", cls, [&]() { sink = f->i(k); sink = f->s((short)k); sink = (double)f->l(k); sink = f->c((signed char)k); });
            G("copy", cls, [&]() { g = f->cloneIn(m2.p); });
            G("assignment", cls, [&]() { g->assign(*f); });
            G("setup", cls, [&]() { g->setup(s); });
            G("filter", cls, [&]() { sink = g->d(x); });
            G("destruction", cls, [&]() { g->~ISos(); });
            G("reset", cls, [&]() { f->reset(); });
        }
        G("destruction", cls, [&]() { f->~ISos(); });
        R.nontrivial(R.curDesc);
    });
    R.part("single", 300, 10000, [&](Rng& r, long i) {   // sections and custom one- and two-pole filters
        R.desc(fmt("sections and states #%ld", i));
        Guard G(R);
        double rho = r.uni(0, 0.9), th = r.uni(0, 3), z = r.uni(0, 1), x[4] = {hostile(r), hostile(r), 1, 2};
        G("setup", "Biquad", [&]() {
            Iir::Biquad b; b.setCoefficients(1, 0.1, 0.2, 1, 2, 3); b.applyScale(0.5); b.setIdentity(); b.setOnePole(0.3, 0.1); b.setTwoPole(0.3, 0.1, 0.2, 0.2);
            Iir::Custom::OnePole o; Iir::Custom::TwoPole t; o.setup(1, rho, z); t.setup(1, rho, th, z, th);
            Iir::DirectFormI s1; Iir::DirectFormII s2; Iir::TransposedDirectFormII s3;
            for (double v : x) sink = o.filter(v, s1) + t.filter(v, s2) + b.filter(v, s3);
            s1.reset(); s2.reset(); s3.reset();
            sink = std::abs(b.response(0.1));
        });
        R.nontrivial(R.curDesc);
    });
    // very many objects, and very many calls on one object: pools and caches which run out
    R.part("crowd", 24, 96, [&](Rng& r, long i) {
        const size_t many = 70000;
        Guard G(R);
        auto go = [&](const std::string& cls, size_t size, auto makeIn, auto setup) {
            size = (size + 63) & ~(size_t)63;
            Mem arena(size * many);
            typedef std::remove_pointer_t<decltype(makeIn(nullptr))> F;
            std::vector<F*> v(many);
            R.desc(cls + " in a crowd");
            if (!G("construction", cls, [&]() { for (size_t k = 0; k < many; k++) v[k] = makeIn((char*)arena.p + k * size); })) return;
            if (!G("setup", cls, [&]() { for (size_t k = 0; k < many; k++) setup(*v[k], k); })) return;
            if (!G("filter", cls, [&]() { for (size_t k = 0; k < many; k++) sink = v[k]->filter(1.0); })) return;
            if (!G("setup", cls, [&]() { for (size_t k = 0; k < many; k++) setup(*v[0], k); })) return;
            if (!G("response", cls, [&]() { for (size_t k = 0; k < many; k++) sink = std::abs(v[0]->response(0.1)); })) return;
            if (!G("reset", cls, [&]() { for (size_t k = 0; k < many; k++) v[0]->reset(); })) return;
            if (!G("destruction", cls, [&]() { for (size_t k = 0; k < many; k++) v[k]->~F(); })) return;
            R.count("objects", many);
        };
        if (i % 3) {
            const Entry* e = &pickEntry(r);
            while (e->order > 4) e = &pickEntry(r);
            Dom d; P ps[4]; for (auto& p : ps) p = genValid(r, *e, d);
            go(e->name(), e->holderSize, [&](void* m) { return e->makeIn(m); }, [&](IFilter& f, size_t k) { f.setup(ps[k & 3]); });
        } else {
            auto& e = rbjRegistry()[(size_t)(i / 3) % R_N];
            RP ps[4]; for (auto& p : ps) p = genRbj(r, e.typ, 0.01);
            go(e.name(), e.holderSize, [&](void* m) { return e.makeIn(m); }, [&](IRbj& f, size_t k) { f.setup(ps[k & 3]); });
        }
        R.nontrivial(R.curDesc);
    }, false);
    // long streams
    R.part("long", 24, 96, [&](Rng& r, long i) {
        const Entry& e = pickEntry(r);
        std::unique_ptr<IFilter> f(e.make());
        P p = genValid(r, e);
        f->setup(p);
        R.desc(descP(e, p) + " long stream");
        Guard G(R);
        long n = (i < 4 ? 1L << 22 : 1L << 19) * (R.opt.thorough ? 64 : 1);
        uint64_t s = r.next();
        G("filter", e.name(), [&]() { for (long k = 0; k < n; k++) { s = s * 6364136223846793005ull + 1442695040888963407ull; sink = f->filter((double)(int64_t)s * 1e-19); } });
        R.count("samples", (uint64_t)n);
        R.nontrivial(R.curDesc);
    });
#else
    R.part("cost.pole", (long)reg.size(), 4L * (long)reg.size(), [&](Rng& r, long i) {
        const Entry& e = reg[(size_t)i % reg.size()];
        std::unique_ptr<IFilter> f(e.make());
        P p = genValid(r, e);
        f->setup(p);
        R.desc(descP(e, p));
        auto fn = [&](double x) NOCOV { return f->filter(x); };
        cost(R, r, e.name(), fn, R.opt.thorough ? 400000 : 20000, i & 1);
        f->reset();
        cost(R, r, e.name(), fn, 5000, true);
        R.nontrivial(R.curDesc);
    });
    R.part("cost.rbj", 10, 40, [&](Rng& r, long i) {
        auto& e = rbjRegistry()[(size_t)i % R_N];
        std::unique_ptr<IRbj> f(e.make());
        f->setup(genRbj(r, e.typ, 0.01));
        R.desc(e.name());
        auto fn = [&](double x) NOCOV { return f->filter(x); };
        cost(R, r, e.name(), fn, R.opt.thorough ? 4000000 : 200000, i & 1);
        R.nontrivial(R.curDesc + fmt("%ld", i));
    });
    R.part("cost.sos", (long)sosRegistry().size(), (long)sosRegistry().size() * 4, [&](Rng& r, long i) {
        auto& e = sosRegistry()[(size_t)i % sosRegistry().size()];
        std::unique_ptr<ISos> f(e.make());
        std::vector<Sos> s(e.n);
        for (auto& k : s) { double rho = r.uni(0, 0.9), th = r.uni(0, 3.1); k = Sos{r.uni(-1, 1), r.uni(-1, 1), r.uni(-1, 1), 1, -2 * rho * std::cos(th), rho * rho}; }
        f->setup(s);
        R.desc(descSos(e, s));
        auto fn = [&](double x) NOCOV { return f->d(x); };
        cost(R, r, "SOSCascade", fn, (R.opt.thorough ? 4000000 : 100000) / e.n, i & 1);
        R.nontrivial(R.curDesc);
    });
    // very long streams: work which only comes up every 2^k samples
    R.part("cost.long", 8, 8, [&](Rng& r, long i) {
        Iir::Butterworth::LowPass<2> a; Iir::Custom::SOSCascade<1, Iir::DirectFormI> b; Iir::Custom::SOSCascade<1, Iir::TransposedDirectFormII> c; Iir::RBJ::LowPass d;
        a.setupN(0.1); d.setupN(0.1);
        const double m[1][6] = {{0.1, 0.2, 0.1, 1, -0.3, 0.2}};
        b.setup(m); c.setup(m);
        long n = R.opt.thorough ? 1L << 28 : 1L << 24;
        R.desc(fmt("very long stream %ld", i));
        if (i % 4 == 0) { auto fn = [&](double x) NOCOV { return a.filter(x); }; cost(R, r, "Butterworth::LowPass<2>", fn, n, i & 4); }
        if (i % 4 == 1) { auto fn = [&](double x) NOCOV { return b.filter(x); }; cost(R, r, "SOSCascade<1,DirectFormI>", fn, n, i & 4); }
        if (i % 4 == 2) { auto fn = [&](double x) NOCOV { return c.filter(x); }; cost(R, r, "SOSCascade<1,TransposedDirectFormII>", fn, n, i & 4); }
        if (i % 4 == 3) { auto fn = [&](double x) NOCOV { return d.filter(x); }; cost(R, r, "RBJ::LowPass", fn, n, i & 4); }
        R.nontrivial(R.curDesc);
    }, false);
#endif
    R.count(haveSud ? "syscall_monitor_on" : "syscall_monitor_unavailable");
    sel = 0;
    return R.finish();
}
