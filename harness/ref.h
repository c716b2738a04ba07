// Closed-form magnitude responses of the pole filter families, written from the
// textbook definitions and independent of the library's code.
#pragma once
#include "reg.h"
#include <complex>

typedef long double LD;
static const LD PIl = 3.141592653589793238462643383279502884L;

inline LD chebT(int n, LD x) {
    LD ax = fabsl(x);
    LD v = ax <= 1 ? cosl(n * acosl(ax)) : coshl(n * acoshl(ax));
    return v;
}

// prewarped frequency relative to the cutoff or the band edges; >= 0, may be +inf.
// The band is [f-w/2, f+w/2] for BP, BS and BSH.
inline LD omega(Typ t, LD fc, LD fw, LD f) {
    switch (t) {
    case LP: case LSH:
        return f >= 0.5L ? INFINITY : tanl(PIl * f) / tanl(PIl * fc);
    case HP: case HSH:
        return f <= 0 ? INFINITY : tanl(PIl * fc) / tanl(PIl * f);
    default: {
        LD num = fabsl(cosl(2 * PIl * fc) / cosl(PIl * fw) - cosl(2 * PIl * f));
        LD den = sinl(2 * PIl * f) * tanl(PIl * fw);
        if (f <= 0 || f >= 0.5L) return (t == BS) ? 0 : INFINITY;
        return t == BS ? (num == 0 ? INFINITY : den / num) : num / den;
    }
    }
}

// |H|^2 as a function of omega
inline LD protoMag2(Fam fam, Typ t, int N, LD gdb, LD r, LD W) {
    if (!hasGain(t)) {
        if (fam == FB) return 1 / (1 + powl(W, 2 * N));
        if (fam == FC1) {
            LD e2 = powl(10, r / 10) - 1;
            LD T = chebT(N, W);
            return 1 / (1 + e2 * T * T);
        }
        LD e2 = 1 / (powl(10, r / 10) - 1);
        if (W == 0) return 1;
        LD T = chebT(N, 1 / W);
        LD q = e2 * T * T;
        return q / (q + 1);
    }
    if (fam == FB) {
        LD G = powl(10, gdb / 20);
        LD x = powl(W, 2 * N);
        if (std::isinf(x)) return 1;
        return (x + G) / (x + 1 / G);
    }
    // Chebyshev shelves: gain g with the ripple on the 0 dB side of g
    LD rip = gdb >= 0 ? r : -r;
    LD H2 = powl(10, gdb / 10);            // gain^2 in the band
    LD Hb2 = powl(10, (gdb - rip) / 10);   // gain^2 at the ripple's other extreme
    // |H|^2 = (1 + e^2 T^2)/(1/H2 + e^2 T^2);  T=1: Hb2
    LD e2 = (1 - Hb2 / H2) / (Hb2 - 1);
    LD T = chebT(N, W);
    if (std::isinf(T)) return 1;
    LD q = e2 * T * T;
    return (1 + q) / (1 / H2 + q);
}

struct Design {
    Fam fam; Typ typ; int N; LD f, w, g, r;
};
inline Design designOf(const Entry& e, const P& p) {
    return Design{e.fam, e.typ, effOrder(e, p), (LD)p.f / (p.form >= 2 ? (LD)p.fs : 1), (LD)p.w / (p.form >= 2 ? (LD)p.fs : 1), p.g, p.r};
}
inline LD mag(const Design& d, LD f) { return sqrtl(protoMag2(d.fam, d.typ, d.N, d.g, d.r, omega(d.typ, d.f, d.w, f))); }

// ----- complex response of the prototypes, from their poles and zeros in closed form
typedef std::complex<LD> CLD;
// left half plane solutions of T_N(s/j) = +-j*sinh(N*v); Butterworth: radius instead of v
inline CLD protoRoot(Fam fam, int N, int k, LD v) {
    LD th = PIl * (2 * k + 1) / (2 * N);
    if (fam == FB) return v * CLD(-sinl(th), cosl(th));
    return CLD(-sinl(th) * sinhl(v), cosl(th) * coshl(v));
}
// H(j*W) for the low pass or low shelf prototype; W may be negative or infinite
inline CLD protoH(Fam fam, Typ t, int N, LD gdb, LD r, LD W) {
    CLD h = 1;
    const CLD s(0, W);
    if (!hasGain(t)) {
        if (std::isinf(W) && fam != FC2) return 0;
        if (fam == FB) { for (int k = 0; k < N; k++) { CLD p = protoRoot(FB, N, k, 1); h *= -p / (s - p); } return h; }
        if (fam == FC1) {
            LD v = asinhl(1 / sqrtl(powl(10, r / 10) - 1)) / N;
            for (int k = 0; k < N; k++) { CLD p = protoRoot(FC1, N, k, v); h *= -p / (s - p); }
            return (N & 1) ? h : h * powl(10, -r / 20);
        }
        LD v = asinhl(sqrtl(powl(10, r / 10) - 1)) / N;
        if (std::isinf(W)) { if (N & 1) return 0; }
        for (int k = 0; k < N; k++) {
            CLD q = protoRoot(FC2, N, k, v);   // the pole is 1/q
            LD c = cosl(PIl * (2 * k + 1) / (2 * N));
            if (N & 1 && k == N / 2) c = 0;    // the zero at infinity
            // (1 - s*c/j) / (1 - s*q): one at s = 0
            if (std::isinf(W)) h *= CLD(0, -c) / q;
            else h *= (CLD(1) - s * CLD(0, -c)) / (CLD(1) - s * q);
        }
        return h;
    }
    if (std::isinf(W)) return 1;
    LD az, ap;
    if (fam == FB) { LD g = powl(10, gdb / 40 / N); az = g; ap = 1 / g; }
    else {
        LD rip = gdb >= 0 ? r : -r, H2 = powl(10, gdb / 10), Hb2 = powl(10, (gdb - rip) / 10);
        LD e = sqrtl((1 - Hb2 / H2) / (Hb2 - 1));
        az = asinhl(1 / e) / N; ap = asinhl(1 / (e * sqrtl(H2))) / N;
    }
    for (int k = 0; k < N; k++) h *= (s - protoRoot(fam, N, k, az)) / (s - protoRoot(fam, N, k, ap));
    return h;
}
// the frequency of the prototype, with its sign
inline LD omegaSigned(Typ t, LD fc, LD fw, LD f) {
    LD W = omega(t, fc, fw, f);
    switch (t) {
    case LP: case LSH: return W;
    case HP: case HSH: return -W;
    default: {
        bool below = cosl(2 * PIl * fc) / cosl(PIl * fw) < cosl(2 * PIl * f);
        return below == (t == BS) ? W : -W;
    }
    }
}

// range of the magnitude when frequency and edges are uncertain by a relative amount
inline void magRange(const Design& d, LD f, LD rel, LD& lo, LD& hi) {
    lo = INFINITY; hi = 0;
    LD W = omega(d.typ, d.f, d.w, f);
    LD base = sqrtl(protoMag2(d.fam, d.typ, d.N, d.g, d.r, W));
    LD df = rel;   // absolute change of the frequency relative to f and 0.5-f
    LD fs[3] = {f, std::max((LD)0, f * (1 - df)), f + (0.5L - f) * df};
    lo = hi = base;
    for (int i = 1; i < 3; i++) {
        LD m = mag(d, fs[i]);
        lo = std::min(lo, m); hi = std::max(hi, m);
    }
    for (int s = -1; s <= 1; s += 2) {
        LD m = sqrtl(protoMag2(d.fam, d.typ, d.N, d.g, d.r, W * (1 + s * rel)));
        lo = std::min(lo, m); hi = std::max(hi, m);
    }
}

inline CLD cplx(const Design& d, LD f) { return protoH(d.fam, d.typ, d.N, d.g, d.r, omegaSigned(d.typ, d.f, d.w, f)); }
// how much the complex response moves when frequency and edges are uncertain by a relative amount
inline LD cplxMove(const Design& d, LD f, LD rel, CLD at) {
    LD fs[2] = {std::max((LD)0, f * (1 - rel)), f + (0.5L - f) * rel}, m = 0;
    for (LD x : fs) m = std::max(m, std::abs(cplx(d, x) - at));
    LD W = omegaSigned(d.typ, d.f, d.w, f);
    if (!std::isinf(W)) for (int s = -1; s <= 1; s += 2) m = std::max(m, std::abs(protoH(d.fam, d.typ, d.N, d.g, d.r, W * (1 + s * rel)) - at));
    return m;
}

// transfer function of coefficients, in long double
inline std::complex<LD> hOf(const Coef& c, LD f) {
    std::complex<LD> z1 = std::polar((LD)1, -2 * PIl * f), z2 = std::polar((LD)1, -4 * PIl * f);
    return ((LD)c.b0 + (LD)c.b1 * z1 + (LD)c.b2 * z2) / ((LD)c.a0 + (LD)c.a1 * z1 + (LD)c.a2 * z2);
}
inline std::complex<LD> hOf(const std::vector<Coef>& v, LD f) {
    std::complex<LD> h = 1;
    for (auto& c : v) h *= hOf(c, f);
    return h;
}
// largest pole radius of a set of sections
inline LD poleRadius(const Coef& c) {
    LD a1 = (LD)c.a1 / c.a0, a2 = (LD)c.a2 / c.a0;
    LD D = a1 * a1 - 4 * a2;
    if (D < 0) return sqrtl(a2);
    LD s = sqrtl(D);
    LD q = -(a1 + (a1 >= 0 ? s : -s)) / 2;   // the larger root
    return fabsl(q);
}
inline LD poleRadius(const std::vector<Coef>& v) {
    LD m = 0;
    for (auto& c : v) m = std::max(m, poleRadius(c));
    return m;
}
