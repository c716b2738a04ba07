// Type-erased access to the ten RBJ filters (public API only).
#pragma once
#include "reg.h"

enum RTyp { R_LP, R_HP, R_BP1, R_BP2, R_BS, R_NOTCH, R_LSH, R_HSH, R_BSH, R_AP, R_N };
extern const char* const rbjName[R_N];

struct RP {
    int form = 0;        // 0 setupN, 1 setup(fs,..)
    bool dflt = false;   // leave the last argument out (where it has a default)
    double fs = 1000, f = 0.1, a = 1, g = 6;  // a: q / width / slope, g: gain (shelves only)
    double nf() const { return form ? f / fs : f; }
};
inline bool rbjGain(int t) { return t == R_LSH || t == R_HSH || t == R_BSH; }
inline bool rbjHasDefault(int t) { return !(t == R_BP1 || t == R_BP2 || t == R_BS || t == R_BSH); }
inline double rbjDefault(int t) { return t == R_NOTCH ? 10 : (t == R_LSH || t == R_HSH) ? 1 : 1 / std::sqrt(2.0); }
inline double effA(int t, const RP& p) { return p.dflt && rbjHasDefault(t) ? rbjDefault(t) : p.a; }

struct IRbj {
    virtual ~IRbj() {}
    virtual void setup(const RP& p) = 0;
    virtual double filter(double x) = 0;
    virtual float filterF(float x) = 0;
    virtual int filterI(int x) = 0;
    virtual short filterS(short x) = 0;
    virtual unsigned filterU(unsigned x) = 0;
    virtual void reset() = 0;
    virtual Iir::complex_t response(double f) const = 0;
    virtual std::vector<Iir::PoleZeroPair> pz() const = 0;
    virtual IRbj* clone() const = 0;
    virtual IRbj* moved() = 0;
    virtual IRbj* cloneIn(void* mem) const = 0;
    virtual void assign(const IRbj& o) = 0;
    virtual Iir::RBJ::RBJbase& base() = 0;
    Coef coef() { return coefOf(base()); }
};
struct RbjEntry {
    int typ;
    IRbj* (*make)();
    IRbj* (*makeIn)(void*);
    size_t holderSize, size;
    std::string name() const { return std::string("RBJ::") + rbjName[typ]; }
};
std::vector<RbjEntry>& rbjRegistry();
std::string descR(int t, const RP& p);
RP genRbj(vf::Rng& r, int t, double fmin = 0.001, bool wide = false);
