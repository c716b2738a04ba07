// Runtime-monitor harness core: seeded cases, online verdicts, observation log.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <cmath>
#include <map>
#include <set>
#include <string>
#include <unordered_set>
#include <vector>
#include <functional>
#include <exception>
#include <signal.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <fcntl.h>
#include <unistd.h>

namespace vf {

inline uint64_t mix(uint64_t x) {
    x += 0x9e3779b97f4a7c15ull;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
    return x ^ (x >> 31);
}
inline uint64_t hashStr(const std::string& s) {
    uint64_t h = 1469598103934665603ull;
    for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
    return mix(h);
}

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 0) : s(mix(seed)) {}
    uint64_t next() { s += 0x9e3779b97f4a7c15ull; return mix(s); }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    int range(int a, int b) { return a + (int)below((uint64_t)(b - a + 1)); }  // inclusive
    double u() { return (double)(next() >> 11) * (1.0 / 9007199254740992.0); }
    double uni(double a, double b) { return a + (b - a) * u(); }
    double logu(double a, double b) { return std::exp(uni(std::log(a), std::log(b))); }
    bool chance(double p) { return u() < p; }
    template <class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
    double gauss() {
        double a = u(), b = u();
        if (a < 1e-300) a = 1e-300;
        return std::sqrt(-2 * std::log(a)) * std::cos(6.283185307179586 * b);
    }
};

inline std::string fmt(const char* f, ...) {
    char buf[2048];
    va_list ap;
    va_start(ap, f);
    vsnprintf(buf, sizeof buf, f, ap);
    va_end(ap);
    return buf;
}

// The status page survives a crash of the process: the driver reads it.
struct Status {
    char magic[8];
    uint64_t caseNo;
    uint64_t casesDone;
    char part[64];
    char desc[1024];
};

struct Options {
    uint64_t seed = 1;
    bool thorough = false;
    int shard = 0, shards = 1;
    long onlyCase = -1;
    std::string onlyPart;
    std::string out, status;
    std::map<std::string, std::string> extra;
    double scale = 1;  // multiplies the number of cases
};

class Run {
public:
    Options opt;
    Run(int argc, char** argv) {
        for (int i = 1; i + 1 < argc; i += 2) {
            std::string a = argv[i], v = argv[i + 1];
            if (a == "--seed") opt.seed = strtoull(v.c_str(), 0, 10);
            else if (a == "--tier") opt.thorough = v == "thorough";
            else if (a == "--shard") sscanf(v.c_str(), "%d/%d", &opt.shard, &opt.shards);
            else if (a == "--case") opt.onlyCase = atol(v.c_str());
            else if (a == "--part") opt.onlyPart = v;
            else if (a == "--out") opt.out = v;
            else if (a == "--status") opt.status = v;
            else if (a == "--scale") opt.scale = atof(v.c_str());
            else opt.extra[a] = v;
        }
        st = (Status*)&fallback;
        if (!opt.status.empty()) {
            int fd = open(opt.status.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
            if (fd >= 0 && ftruncate(fd, sizeof(Status)) == 0) {
                void* p = mmap(0, sizeof(Status), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
                if (p != MAP_FAILED) st = (Status*)p;
                close(fd);
            }
        }
        memcpy(st->magic, "VFSTAT1", 8);
        self() = this;
    }
    static Run*& self() { static Run* r = nullptr; return r; }

    // Runs n (quick) or nThorough cases of one part of the workload.
    // Every case has its own generator: replay needs only seed, part and number.
    void part(const std::string& name, long n, long nThorough, const std::function<void(Rng&, long)>& f,
              bool scaled = true) {
        if (!opt.onlyPart.empty() && opt.onlyPart != name) return;
        long total = opt.thorough ? nThorough : n;
        if (scaled) { total = (long)(total * opt.scale); if (total < 1) total = 1; }
        curPart = name;
        strncpy(st->part, name.c_str(), sizeof(st->part) - 1);
        for (long i = 0; i < total; i++) {
            if (opt.onlyCase >= 0) { if (i != opt.onlyCase) continue; }
            else if (i % opt.shards != opt.shard) continue;
            curCase = i;
            counted = false;
            st->caseNo = (uint64_t)i;
            st->desc[0] = 0;
            curDesc.clear();
            Rng r(mix(opt.seed * 1000003ull + hashStr(name)) ^ mix((uint64_t)i * 7919ull + 17));
            armWatchdog();
#ifdef VF_NOEXC
            f(r, i);
#else
            try { f(r, i); }
            catch (const std::exception& e) { violation("unexpected-exception", e.what()); }
            catch (...) { violation("unexpected-exception", "not derived from std::exception"); }
#endif
            st->casesDone++;
            evaluations++;
            counts["cases." + name]++;
        }
        disarmWatchdog();
    }

    void desc(const std::string& d) {
        curDesc = d;
        strncpy(st->desc, d.c_str(), sizeof(st->desc) - 1);
        st->desc[sizeof(st->desc) - 1] = 0;
    }
    // a case that actually exercised the property; key identifies it
    void nontrivial(const std::string& key) {
        // at most one per case: the number of distinct cases, not of distinct checks
        if (counted) { counts["further_subcases"]++; return; }
        counted = true;
        if (hashes.insert(hashStr(curPart + "|" + key)).second && samples.size() < 4 &&
            (samples.empty() || (hashes.size() % 97) == 1))
            samples.push_back("[" + curPart + "] " + key);
    }
    void count(const std::string& k, uint64_t n = 1) { counts[k] += n; }
    void maxOf(const std::string& k, double v) {
        auto it = maxima.find(k);
        if (it == maxima.end() || v > it->second) maxima[k] = v;
    }
    void violation(const std::string& key, const std::string& msg) {
        nviol++;
        if (seenKeys[key]++ >= 3) return;
        std::string m = msg;
        for (auto& c : m) if (c == '\n') c = ' ';
        printf("VF_VIOLATION\t%s\t%s\t%ld\t%s | %s\n", key.c_str(), curPart.c_str(), curCase, curDesc.c_str(), m.c_str());
        fflush(stdout);
    }
    bool check(bool ok, const std::string& key, const std::string& msg) {
        count("checks");
        if (!ok) violation(key, msg);
        return ok;
    }
    int finish() {
        disarmWatchdog();
        if (!opt.out.empty()) {
            FILE* f = fopen(opt.out.c_str(), "w");
            if (!f) return 3;
            fprintf(f, "evaluations\t%lu\n", (unsigned long)evaluations);
            for (auto& k : counts) fprintf(f, "count\t%s\t%lu\n", k.first.c_str(), (unsigned long)k.second);
            for (auto& k : maxima) fprintf(f, "max\t%s\t%.9g\n", k.first.c_str(), k.second);
            for (auto& s : samples) fprintf(f, "sample\t%s\n", s.c_str());
            for (auto h : hashes) fprintf(f, "h\t%016lx\n", (unsigned long)h);
            fprintf(f, "done\n");
            fclose(f);
        }
        return nviol ? 1 : 0;
    }
    uint64_t evaluations = 0;
    long curCase = 0;
    std::string curPart, curDesc;

    // CPU-time watchdog per case: exit code 97 means that a case used 60 s of CPU time
    void armWatchdog() {
        if (!wd) { signal(SIGVTALRM, onAlarm); wd = true; }
        struct itimerval t = {};
        t.it_value.tv_sec = 60;
        setitimer(ITIMER_VIRTUAL, &t, 0);
    }
    void disarmWatchdog() {
        struct itimerval t = {};
        setitimer(ITIMER_VIRTUAL, &t, 0);
    }

private:
    static void onAlarm(int) { _exit(97); }
    bool wd = false, counted = false;
    Status* st;
    Status fallback = {};
    uint64_t nviol = 0;
    std::map<std::string, uint64_t> counts;
    std::map<std::string, double> maxima;
    std::map<std::string, int> seenKeys;
    std::vector<std::string> samples;
    std::unordered_set<uint64_t> hashes;
};

}  // namespace vf

// like R.check, but the condition is evaluated before the message is put together
#define CHECKS(cond, key, msg) ([&]() { bool ok_ = (cond); return R.check(ok_, key, msg); }())
