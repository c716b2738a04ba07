// Type-erased custom cascades of 1..64 sections in all three topologies.
#pragma once
#include "reg.h"
#include <array>
typedef std::array<double, 6> Sos;   // b0 b1 b2 a0 a1 a2

struct ISos {
    virtual ~ISos() {}
    virtual void setup(const std::vector<Sos>& s) = 0;
    virtual double d(double x) = 0;
    virtual float f(float x) = 0;
    virtual int i(int x) = 0;
    virtual short s(short x) = 0;
    virtual unsigned u(unsigned x) = 0;
    virtual long l(long x) = 0;
    virtual signed char c(signed char x) = 0;
    virtual long double e(long double x) = 0;
    virtual void reset() = 0;
    virtual ISos* clone() const = 0;
    virtual ISos* moved() = 0;
    virtual ISos* cloneIn(void* mem) const = 0;
    virtual Iir::Biquad* storage() = 0;
    virtual void assign(const ISos& o) = 0;
    virtual std::vector<Coef> coefs() = 0;
    int n = 0;
    StT st = DF2;
};
struct SosEntry {
    int n;
    StT st;
    ISos* (*make)();
    ISos* (*makeWith)(const std::vector<Sos>&);
    ISos* (*makeIn)(void*);
    ISos* (*makeWithIn)(void*, const std::vector<Sos>&);
    size_t size, holderSize;
};
std::vector<SosEntry>& sosRegistry();
inline std::string descSos(const SosEntry& e, const std::vector<Sos>& v) {
    std::string s = vf::fmt("SOSCascade<%d,%s>{", e.n, stName[e.st]);
    for (auto& k : v) s += vf::fmt("{%.17g,%.17g,%.17g,%.17g,%.17g,%.17g}", k[0], k[1], k[2], k[3], k[4], k[5]);
    return s + "}";
}
// a section: mostly a stable one at random, every fourth of a special kind
inline Sos genRow(vf::Rng& r, double rmax = 0.85, bool scaled = false) {
    double a0 = scaled && r.chance(0.5) ? (r.chance(0.3) ? -1 : 1) * r.logu(0.1, 10) : 1;
    double rho = r.uni(0, rmax), th = r.uni(0, 3.14), a1 = -2 * rho * std::cos(th), a2 = rho * rho;
    double b0 = r.uni(-1, 1), b1 = r.uni(-1, 1), b2 = r.uni(-1, 1);
    if (r.chance(0.25)) switch (r.below(10)) {
    case 0: b0 = 1; b1 = b2 = a1 = a2 = 0; break;                        // identity
    case 1: b1 = b2 = a1 = a2 = 0; break;                               // a gain
    case 2: a1 = a2 = 0; break;                                         // no poles
    case 3: b0 = b2 = a1 = a2 = 0; b1 = 1; break;                       // a delay of one
    case 4: b0 = b1 = a1 = a2 = 0; b2 = 1; break;                       // a delay of two
    case 5: a2 = 0; a1 = r.uni(-rmax, rmax); b2 = 0; break;             // first order
    case 6: b0 = 1; b1 = a1; b2 = a2; break;                            // zeros on the poles
    case 7: b1 = b2 = 0; b0 = 1; break;                                 // only poles
    case 8: b0 = 1; b1 = 0; b2 = r.chance(0.5) ? -1 : 1; break;
    default: b0 = b1 = b2 = 0;                                          // silence
    }
    return Sos{b0 * a0, b1 * a0, b2 * a0, a0, a1 * a0, a2 * a0};
}
inline std::vector<Sos> genRows(vf::Rng& r, int n, double rmax = 0.85, bool scaled = false) { std::vector<Sos> v((size_t)n); for (auto& k : v) k = genRow(r, rmax, scaled); return v; }
