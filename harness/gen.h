// Generators of invalid and of slightly different setup calls.
#pragma once
#include "rbj_reg.h"
#include <limits.h>

// ---- invalid requests
inline P genInvalid(vf::Rng& r, const Entry& e, const Dom& d) {
    using namespace vf;
    P p = genValid(r, e, d);
    const double nan = NAN;
    double u = p.form >= 2 ? p.fs : 1;
    switch (r.below(9)) {
    case 0: { static const int o[] = {0, -1, INT_MIN, INT_MAX, -1000}; p.form |= 1; if (r.chance(0.5)) p.order = o[r.below(5)]; else p.order = e.order + r.range(1, 20); break; }
    case 1: p.f = u * (r.chance(0.3) ? 0.5 : r.uni(0.5, 4)); if (p.f < 0.5 * u) p.f = 0.5 * u; break;
    case 2: p.f = -u * r.logu(1e-6, 3); break;
    case 3: p.f = r.chance(0.5) ? nan : (r.chance(0.5) ? INFINITY : -INFINITY); break;
    case 4: if (hasWidth(e.typ)) p.w = r.chance(0.3) ? 0 : r.chance(0.3) ? nan : -u * r.logu(1e-6, 1); else p.f = nan; break;
    case 5: if (hasGain(e.typ)) p.g = r.chance(0.7) ? nan : r.chance(0.5) ? INFINITY : -INFINITY; else p.f = u * 0.5; break;
    case 6: if (hasRip(e.fam)) p.r = r.chance(0.6) ? nan : r.chance(0.5) ? INFINITY : 0; else p.f = nan; break;
    case 7: if (p.form >= 2) p.fs = r.chance(0.4) ? nan : r.chance(0.5) ? 0 : -p.fs; else p.f = nan; break;
    default: p.f = u * r.uni(0.5, 1); p.form |= 1; p.order = r.range(1, e.order); break;
    }
    return p;
}
// Requests which look well-formed but sit where double precision gives up: most are rejected late in the
// setup (after the prototype and the transform), some are accepted.
inline P genExtreme(vf::Rng& r, const Entry& e, const Dom& d) {
    P p = genValid(r, e, d);
    double u = p.form >= 2 ? p.fs : 1;
    static const double tiny[] = {0, 1e-300, 5e-324, 1e-100, 1e-30, 1e-17, 1e-16, 1e-12, 1e-9};
    double t = tiny[r.below(9)];
    switch (r.below(hasGain(e.typ) ? 6 : hasRip(e.fam) ? 4 : 3)) {
    case 0: p.f = u * t; break;
    case 1: p.f = u * 0.5 * (1 - (t < 1e-16 ? 1.2e-16 : t)); break;
    case 2: if (hasWidth(e.typ)) p.w = u * t; else p.f = u * r.logu(1e-18, 1e-6); break;
    case 3: if (hasRip(e.fam)) { p.r = (r.chance(0.5) ? 1 : -1) * r.logu(100, 1e4); break; }   // fall through
    default: p.g = (r.chance(0.7) ? 1 : -1) * r.logu(300, 2e4); break;
    }
    if (r.chance(0.3)) { p.form |= 1; p.order = r.range(1, e.order); }
    return p;
}
inline RP genExtremeR(vf::Rng& r, int t) {
    RP p = genRbj(r, t, 0.01);
    double u = p.form ? p.fs : 1;
    switch (r.below(rbjGain(t) ? 4 : 3)) {
    case 0: p.f = u * (r.chance(0.2) ? 0 : r.logu(1e-300, 1e-9)); break;
    case 1: p.f = u * 0.5 * (1 - r.logu(1.2e-16, 1e-9)); break;
    case 2: p.a = r.chance(0.5) ? r.logu(1e-300, 1e-9) : r.logu(1e9, 1e300); p.dflt = false; break;
    default: p.g = (r.chance(0.5) ? 1 : -1) * r.logu(300, 2e4); break;
    }
    return p;
}
inline RP genInvalidR(vf::Rng& r, int t) {
    RP p = genRbj(r, t, 0.01);
    double u = p.form ? p.fs : 1;
    switch (r.below(6)) {
    case 0: p.f = u * r.uni(0.5, 4); if (p.f < 0.5 * u) p.f = 0.5 * u; break;
    case 1: p.f = -u * r.logu(1e-6, 3); break;
    case 2: p.f = r.chance(0.5) ? NAN : INFINITY; break;
    case 3: p.a = r.chance(0.3) ? NAN : r.chance(0.3) ? 0 : -r.logu(1e-3, 10); p.dflt = false; break;
    case 4: if (rbjGain(t)) p.g = NAN; else p.f = NAN; break;
    default: if (p.form) p.fs = r.chance(0.5) ? NAN : 0; else p.f = 0.5; break;
    }
    return p;
}
// a band which reaches over an end of the spectrum
inline P genClipped(vf::Rng& r, const Entry& e, const Dom& d) {
    P p = genValid(r, e, d);
    if (!hasWidth(e.typ)) return p;
    double u = p.form >= 2 ? p.fs : 1, f = p.f / u;
    p.w = u * 2 * std::min(f, 0.5 - f) * r.uni(1, 1.5);
    return p;
}
#ifndef VF_NOEXC
inline bool trySetup(IFilter& f, const P& p) {
    try { f.setup(p); return true; } catch (const std::exception&) { return false; }
}
inline bool trySetup(IRbj& f, const RP& p) {
    try { f.setup(p); return true; } catch (const std::exception&) { return false; }
}
#endif

inline Dom wideDom() {
    Dom d;
    d.fmin = 1e-4; d.fmax = 0.4999; d.wmin = 1e-4; d.corner = 1e-5;
    d.gmin = 1e-10; d.gmax = 90; d.rmin = 0.001; d.rmax = 30; d.smin = 0.02; d.smax = 200;
    return d;
}
// for comparisons of like with like, whatever the conditioning
inline RP genRbjAny(vf::Rng& r, int t) {
    RP p = r.chance(0.25) ? genRbj(r, t, t == R_BSH ? 0.002 : 1e-4, true) : genRbj(r, t, 0.005);   // octaves overflow next to Nyquist
    if (t == R_BSH) p.a = std::min(p.a, 1.0);
    return p;
}
inline Dom dom(vf::Rng& r) {
    if (r.chance(0.15)) return wideDom();
    Dom d;
    d.fmin = 0.005; d.fmax = 0.495; d.wmin = 0.01;
    if (r.chance(0.2)) { d.rmin = 0.01; d.rmax = 12; d.smin = 3; d.smax = 120; d.gmax = 50; }
    return d;
}

// a request which differs from p in one thing, possibly by very little
inline P vary(vf::Rng& r, const Entry& e, const P& p, const Dom& d) {
    P q = p, o = genValid(r, e, d);
    auto tweak = [&](double v, double alt) {
        switch (r.below(4)) {
        case 0: return v * (1 + (r.chance(0.5) ? 1 : -1) * r.logu(1e-9, 1e-2));
        case 1: return alt;
        default: return v * r.uni(0.6, 1.0);
        }
    };
    switch (r.below(8)) {
    case 7: {   // two parameters change so that a combination of them stays the same
        double* a = hasGain(e.typ) && hasRip(e.fam) ? &q.r : hasWidth(e.typ) ? &q.w : &q.f;
        double* b = hasGain(e.typ) && (hasRip(e.fam) || !hasWidth(e.typ)) ? &q.g : hasWidth(e.typ) ? &q.f : hasRip(e.fam) ? &q.r : &q.fs;
        if (a == b) return o;
        double a0 = *a, b0 = *b;
        *a = a0 * r.uni(0.7, 0.99);
        switch (r.below(4)) {
        case 0: *b = b0 + (a0 - *a); break;
        case 1: *b = b0 * (a0 / *a); break;
        case 2: *b = b0 - (a0 - *a); break;
        default: *b = b0 * (*a / a0);
        }
        break;
    }
    case 0: q.form |= 1; q.order = r.range(1, e.order); break;
    case 1: q.f = tweak(p.f, p.form >= 2 ? o.nf() * p.fs : o.nf()); break;
    case 2: if (hasWidth(e.typ)) q.w = tweak(p.w, p.w * 0.5); else return o; break;
    case 3: if (hasGain(e.typ)) q.g = r.chance(0.3) ? -p.g : tweak(p.g, p.g * 2); else return o; break;
    case 4: if (hasRip(e.fam)) q.r = tweak(p.r, hasGain(e.typ) ? p.r * 0.5 : o.r); else return o; break;
    case 5: if (hasGain(e.typ) && hasRip(e.fam)) { q.g = o.g; q.r = o.r; } else return o; break;
    default: return o;
    }
    return q;
}

