// Type-erased access to every pole filter class of the library (public API only).
#pragma once
#include "Iir.h"
#include "vf.h"
#include <memory>
#include <new>

enum Fam { FB, FC1, FC2 };
enum Typ { LP, HP, BP, BS, LSH, HSH, BSH };
enum StT { DF1, DF2, TDF2 };
inline const char* const famName[3] = {"Butterworth", "ChebyshevI", "ChebyshevII"};
inline const char* const typName[7] = {"LowPass", "HighPass", "BandPass", "BandStop", "LowShelf", "HighShelf", "BandShelf"};
inline const char* const stName[3] = {"DirectFormI", "DirectFormII", "TransposedDirectFormII"};

inline bool hasWidth(Typ t) { return t == BP || t == BS || t == BSH; }
inline bool hasGain(Typ t) { return t >= LSH; }
inline bool hasRip(Fam f) { return f != FB; }

// One setup call. form: 0 setupN(..) 1 setupN(order,..) 2 setup(fs,..) 3 setup(order,fs,..)
struct P {
    int form = 0;
    int order = 0;       // requested order (forms 1 and 3)
    double fs = 1000;    // sampling rate (forms 2 and 3)
    double f = 0.1;      // cutoff / centre: normalised, or Hz for forms 2 and 3
    double w = 0.05;     // width, same unit as f
    double g = 6;        // gain in dB
    double r = 1;        // ripple / stopband in dB
    double nf() const { return form >= 2 ? f / fs : f; }
    double nw() const { return form >= 2 ? w / fs : w; }
};

struct Coef {
    double a0, a1, a2, b0, b1, b2;
};
inline Coef coefOf(const Iir::Biquad& b) {
    return Coef{b.getA0(), b.getA1(), b.getA2(), b.getB0(), b.getB1(), b.getB2()};
}

struct IFilter {
    virtual ~IFilter() {}
    virtual void setup(const P& p) = 0;
    virtual double filter(double x) = 0;
    virtual float filterF(float x) = 0;
    virtual int filterI(int x) = 0;
    virtual short filterS(short x) = 0;
    virtual unsigned filterU(unsigned x) = 0;
    virtual void reset() = 0;
    virtual Iir::complex_t response(double f) const = 0;
    virtual int numStages() const = 0;
    virtual Iir::Biquad stage(int i) = 0;
    virtual std::vector<Iir::PoleZeroPair> pz() const = 0;
    virtual IFilter* clone() const = 0;
    virtual IFilter* moved() = 0;
    virtual IFilter* cloneIn(void* mem) const = 0;
    virtual void assign(const IFilter& o) = 0;
    virtual void selfAssign() = 0;
    virtual Iir::PoleFilterBase2& base2() = 0;
    virtual size_t objSize() const = 0;
    virtual int capStages() = 0;
    virtual Iir::Biquad* storage() = 0;
    Coef coef(int i) { return coefOf(stage(i)); }
    std::vector<Coef> coefs() {
        std::vector<Coef> v;
        for (int i = 0; i < numStages(); i++) v.push_back(coef(i));
        return v;
    }
};

struct Entry {
    Fam fam;
    Typ typ;
    StT st;
    int order;  // FilterOrder template argument
    size_t size;
    IFilter* (*make)();
    IFilter* (*makeIn)(void* mem);
    size_t holderSize;
    std::string name() const {
        return vf::fmt("%s::%s<%d,%s>", famName[fam], typName[typ], order, stName[st]);
    }
};

std::vector<Entry>& registry();

// effective order of a call
inline int effOrder(const Entry& e, const P& p) { return (p.form & 1) ? p.order : e.order; }
std::string descP(const Entry& e, const P& p);
// the same design with the request expressed as another overload
inline P asForm(const Entry& e, P p, int form, double fs = 1000) {
    P q = p;
    q.order = (p.form & 1) ? p.order : e.order;
    double nf = p.nf(), nw = p.nw();
    q.form = form;
    q.fs = fs;
    if (form >= 2) { q.f = nf * fs; q.w = nw * fs; } else { q.f = nf; q.w = nw; }
    return q;
}

// ----- generators
struct Dom {  // ranges of a well-posed design
    double fmin = 0.002, fmax = 0.48;
    double wmin = 0.005;
    double gmin = 0.5, gmax = 30;
    double rmin = 0.05, rmax = 6;      // Chebyshev I ripple
    double smin = 6, smax = 80;        // Chebyshev II stop band
    int maxOrder = 60;
    double corner = 0.0005;            // corners of the response at least this far from DC and Nyquist
};
double cornerDistance(const Entry& e, const P& p);
P genValid(vf::Rng& r, const Entry& e, const Dom& d = Dom());
const Entry& pickEntry(vf::Rng& r);
std::vector<Iir::Biquad> stagesOf(IFilter& f);
