// C16: invalid setup arguments are rejected with std::invalid_argument and nothing else, valid
// ones are accepted.
#include "rbj_reg.h"
#include "sos_reg.h"
#include <limits.h>
#include <stdexcept>
using namespace vf;
typedef std::complex<double> CD;

enum Out { ACCEPTED, REJECTED, OTHER };
template <class F> static Out attempt(F f, std::string& why) {
    try { f(); return ACCEPTED; }
    catch (const std::invalid_argument& e) { why = e.what(); return REJECTED; }
    catch (const std::exception& e) { why = e.what(); return OTHER; }
    catch (...) { why = "something which is not a std::exception"; return OTHER; }
}
template <class F> static bool mustReject(Run& R, const std::string& key, F f) {
    std::string why;
    Out o = attempt(f, why);
    R.count("must_reject");
    if (o == ACCEPTED) return R.check(false, key, "accepted");
    if (o == OTHER) return R.check(false, "type." + key, "throws something else than std::invalid_argument: " + why);
    return R.check(true, key, "");
}
template <class F> static bool mustAccept(Run& R, const std::string& key, F f) {
    std::string why;
    Out o = attempt(f, why);
    R.count("must_accept");
    return R.check(o == ACCEPTED, key, "rejected: " + why);
}
static bool noNaN(IFilter& f, Rng& r) {
    for (int k = 0; k < 12; k++) { double y = f.filter(r.uni(-1, 1)); if (y != y) return false; }
    return true;
}
static bool noNaN(IRbj& f, Rng& r) {
    for (int k = 0; k < 12; k++) { double y = f.filter(r.uni(-1, 1)); if (y != y) return false; }
    return true;
}

// the i-th kind of invalid request; returns "" if it does not apply to this class
static std::string spoil(Rng& r, const Entry& e, P& p, int kind) {
    double u = p.form >= 2 ? p.fs : 1;
    auto order = [&](int o, const char* n) { p.form |= 1; p.order = o; return std::string(n); };
    switch (kind) {
    case 0: return order(0, "order0");
    case 1: return order(r.chance(0.3) ? -1 : r.chance(0.5) ? INT_MIN : -(int)r.below(100000) - 1, "orderneg");
    case 2: return order(e.order + 1, "order+1");
    case 3: return order(r.chance(0.3) ? INT_MAX : r.chance(0.3) ? INT_MAX - 1 : e.order + 2 + (int)r.below(r.chance(0.5) ? 20 : 2000000), "orderbig");
    case 4: p.f = u * 0.5; return "nyquist";
    case 5: p.f = u * r.uni(0.5, 1.5) + 1e-9 * u; return "abovenyquist";
    case 6: p.f = u * r.logu(1, 1e9); return "farabove";
    case 7: p.f = -u * r.logu(1e-9, 0.5); return "negative";
    case 8: p.f = -u * r.logu(0.5, 1e6); return "farnegative";
    case 9: p.f = NAN; return "nan.f";
    case 10: p.f = r.chance(0.5) ? INFINITY : -INFINITY; return "inf.f";
    case 11: if (!hasWidth(e.typ)) return ""; p.w = 0; return "width0";
    case 12: if (!hasWidth(e.typ)) return ""; p.w = -u * r.logu(1e-9, 2); return "widthneg";
    case 13: if (!hasWidth(e.typ)) return ""; p.w = NAN; return "nan.w";
    case 14: if (!hasWidth(e.typ)) return ""; p.w = -INFINITY; return "widthneg";
    case 15: if (!hasGain(e.typ)) return ""; p.g = r.chance(0.5) ? NAN : -(double)NAN; return "nan.g";
    case 16: if (!hasRip(e.fam)) return ""; p.r = NAN; return "nan.r";
    case 17: if (p.form < 2) return ""; p.fs = NAN; return "nan.fs";
    case 18: if (p.form < 2) return ""; p.fs = 0; return "fs0";
    case 19: if (p.form < 2) return ""; p.fs = -p.fs; return "fsneg";
    case 20: if (p.form < 2) return ""; p.fs = p.f * r.uni(0.01, 2); return "fslow";
    default: return "end";
    }
}

static void poles(Run& R) {
    auto& reg = registry();
    // every class, every form, every kind of bad argument: on a new and on a used object
    R.part("reject.pole", 8L * (long)reg.size() * 4, 150L * (long)reg.size() * 4, [&](Rng& r, long i) {
        const Entry& e = reg[(size_t)(i / 4) % reg.size()];
        Dom d;
        int form = (int)(i % 4);
        std::string fam = std::string(famName[e.fam]) + "." + typName[e.typ];
        for (int kind = 0; kind < 21; kind++) {
            P good = asForm(e, genValid(r, e, d), form, r.logu(0.01, 1e6));
            P p = good;
            std::string what = spoil(r, e, p, kind);
            if (what.empty()) continue;
            // a second fault must not hide the first one
            if (r.chance(0.1)) { P q = p; int k2 = (int)r.below(21); std::string w2 = spoil(r, e, q, k2); if (!w2.empty() && k2 < 17 && kind < 17 && q.form == p.form) p = q; }
            std::unique_ptr<IFilter> f(e.make());
            int state = (int)r.below(3);
            if (state == 1) f->setup(genValid(r, e, d));
            if (state == 2) { try { f->setup(p); } catch (const std::exception&) {} }
            if (state == 1 && r.chance(0.5)) f->filter(1);
            R.desc(descP(e, p) + fmt(" (%s, state %d)", what.c_str(), state));
            if (!mustReject(R, "pole." + what + "." + fam, [&]() { f->setup(p); })) continue;
            R.check(noNaN(*f, r), "nan." + what + "." + fam, "the filter produces NaN after the rejected call");
            R.nontrivial(R.curDesc);
            // and afterwards a valid one is accepted
            if (r.chance(0.3)) { R.desc(descP(e, good) + " after " + R.curDesc); if (mustAccept(R, "after." + fam, [&]() { f->setup(good); })) R.check(noNaN(*f, r), "nan.after." + fam, "NaN after a valid setup"); }
        }
    });
    R.part("accept.pole", 40000, 2000000, [&](Rng& r, long i) {
        const Entry& e = r.chance(0.5) ? reg[(size_t)i % reg.size()] : pickEntry(r);
        Dom d;
        int wide = (int)r.below(3);
        if (wide) { d.fmin = wide == 1 ? 1e-4 : 1e-6; d.fmax = 0.5 - d.fmin; d.wmin = d.fmin; d.corner = 0; d.gmin = 0.01; d.gmax = 100; d.rmin = 0.001; d.rmax = 40; d.smin = 0.1; d.smax = 150; }
        P p = genValid(r, e, d);
        if (wide == 2 && r.chance(0.2)) { // the ends of the open interval
            double u = p.form >= 2 ? p.fs : 1;
            if (!hasWidth(e.typ)) p.f = u * (r.chance(0.5) ? r.logu(1e-6, 1e-4) : 0.5 - r.logu(1e-6, 1e-4));
        }
        if (hasGain(e.typ) && hasRip(e.fam) && r.chance(0.1)) p.r = std::fabs(p.g) * r.uni(0.9, 3);
        std::unique_ptr<IFilter> f(e.make());
        R.desc(descP(e, p));
        std::string fam = std::string(famName[e.fam]) + "." + typName[e.typ];
        if (mustAccept(R, "accept." + fam, [&]() { f->setup(p); })) R.check(noNaN(*f, r), "nan.accepted." + fam, "NaN after a valid setup");
        R.nontrivial(R.curDesc);
    });
    // all orders of all classes, systematically
    R.part("accept.orders", (long)reg.size(), (long)reg.size(), [&](Rng& r, long i) {
        const Entry& e = reg[(size_t)i];
        std::string fam = std::string(famName[e.fam]) + "." + typName[e.typ];
        for (int o = 1; o <= e.order; o++) for (int form = 1; form < 4; form += 2) for (int rep = 0; rep < (R.opt.thorough ? 40 : 3); rep++) {
            P p = asForm(e, genValid(r, e), form, r.logu(1, 1e5));
            p.order = o;
            std::unique_ptr<IFilter> f(e.make());
            if (r.chance(0.5)) { try { P q = p; q.order = e.order + 1; f->setup(q); } catch (const std::exception&) {} }
            R.desc(descP(e, p));
            if (mustAccept(R, "order." + fam, [&]() { f->setup(p); })) R.check(noNaN(*f, r), "nan.order." + fam, "NaN after a valid setup");
            R.nontrivial(R.curDesc);
        }
    }, false);
    // the fixed inputs of the known findings: a shelf with a gain of exactly 0 dB
    R.part("zerogain", 6, 6, [&](Rng& r, long i) {
        Fam fam = i < 3 ? FC1 : FC2;
        Typ t = (Typ)(LSH + i % 3);
        for (auto& e : reg) if (e.fam == fam && e.typ == t && e.order == 4 && e.st == DF2) {
            std::unique_ptr<IFilter> f(e.make());
            P p; p.form = 2; p.fs = 1000; p.f = 100; p.w = 50; p.g = 0; p.r = 1;
            R.desc(descP(e, p));
            mustAccept(R, std::string("probe.zerogain.") + famName[fam] + "." + typName[t], [&]() { f->setup(p); });
        }
        (void)r;
    }, false);
    R.part("stageindex", 6000, 100000, [&](Rng& r, long i) {
        const Entry& e = reg[(size_t)i % reg.size()];
        std::unique_ptr<IFilter> f(e.make());
        if (r.chance(0.85)) f->setup(genValid(r, e));
        int n = f->numStages();
        R.desc(e.name() + fmt(" stage index, %d sections in use", n));
        for (int k = 0; k < n; k++) mustAccept(R, "stage.valid", [&]() { f->stage(k); });
        for (int k : {-1, n, n + 1, n + 1000, INT_MAX, INT_MIN, -(int)r.below(1000) - 1, n + (int)r.below(64)})
            mustReject(R, "stage.index", [&]() { f->stage(k); });
        R.nontrivial(R.curDesc + fmt("%ld", i));
    });
}

static void rbjs(Run& R) {
    R.part("reject.rbj", 10L * 400, 10L * 20000, [&](Rng& r, long i) {
        auto& e = rbjRegistry()[(size_t)i % R_N];
        for (int kind = 0; kind < 14; kind++) {
            RP p = genRbj(r, e.typ, 0.005);
            double u = p.form ? p.fs : 1;
            std::string what;
            switch (kind) {
            case 0: p.f = 0.5 * u; what = "nyquist"; break;
            case 1: p.f = u * r.uni(0.5, 2) + 1e-9 * u; what = "abovenyquist"; break;
            case 2: p.f = -u * r.logu(1e-9, 2); what = "negative"; break;
            case 3: p.f = NAN; what = "nan.f"; break;
            case 4: p.f = r.chance(0.5) ? INFINITY : -INFINITY; what = "inf.f"; break;
            case 5: p.a = 0; p.dflt = false; what = "q0"; break;
            case 6: p.a = -r.logu(1e-9, 1e3); p.dflt = false; what = "qneg"; break;
            case 7: p.a = NAN; p.dflt = false; what = "nan.q"; break;
            case 8: if (!rbjGain(e.typ)) continue; p.g = NAN; what = "nan.g"; break;
            case 9: if (!p.form) continue; p.fs = NAN; what = "nan.fs"; break;
            case 10: if (!p.form) continue; p.fs = 0; what = "fs0"; break;
            case 11: if (!p.form) continue; p.fs = -p.fs; what = "fsneg"; break;
            case 12: if (!p.form) continue; p.fs = p.f * r.uni(0.01, 2); what = "fslow"; break;
            default: p.a = -INFINITY; p.dflt = false; what = "qneg"; break;
            }
            std::unique_ptr<IRbj> f(e.make());
            if (r.chance(0.5)) f->setup(genRbj(r, e.typ, 0.01));
            R.desc(descR(e.typ, p));
            if (mustReject(R, "rbj." + what + "." + rbjName[e.typ], [&]() { f->setup(p); }))
                R.check(noNaN(*f, r), "nan.rbj." + what, "the filter produces NaN after the rejected call");
            R.nontrivial(R.curDesc);
        }
    });
    R.part("accept.rbj", 30000, 1000000, [&](Rng& r, long i) {
        auto& e = rbjRegistry()[(size_t)i % R_N];
        RP p = genRbj(r, e.typ, e.typ == R_BSH ? 0.005 : r.chance(0.5) ? 0.001 : 1e-7, true);
        if (e.typ == R_BSH) p.a = std::min(p.a, 1.0);
        std::unique_ptr<IRbj> f(e.make());
        R.desc(descR(e.typ, p));
        if (mustAccept(R, std::string("accept.rbj.") + rbjName[e.typ], [&]() { f->setup(p); })) R.check(noNaN(*f, r), "nan.accepted.rbj", "NaN after a valid setup");
        R.nontrivial(R.curDesc);
    });
}

static double anyFinite(Rng& r) {
    switch (r.below(6)) {
    case 0: return 0;
    case 1: return r.uni(-1, 1);
    case 2: return (r.chance(0.5) ? 1 : -1) * r.logu(1e-300, 1e300);
    case 3: return (double)r.range(-3, 3);
    case 4: return (r.chance(0.5) ? 1 : -1) * r.logu(1e-320, 1e-300);
    default: return r.uni(-10, 10);
    }
}
static void coefs(Run& R) {
    R.part("setCoefficients", 60000, 2000000, [&](Rng& r, long) {
        double c[6];
        for (double& v : c) v = r.chance(0.8) ? r.uni(-2, 2) : anyFinite(r);
        if (r.chance(0.6)) { static const double bad[] = {NAN, INFINITY, -INFINITY, -(double)NAN}; c[r.below(6)] = bad[r.below(4)]; }
        if (r.chance(0.1)) c[0] = r.chance(0.5) ? 0.0 : -0.0;
        if (r.chance(0.05)) c[0] = r.logu(1e-320, 1e-300);
        bool ok = std::isfinite(c[0]) && c[0] != 0;
        bool edge = std::fabs(c[0]) < 2.3e-308;
        for (int k = 1; k < 6; k++) { if (!std::isfinite(c[k]) || !std::isfinite(c[k] / c[0])) ok = false; if (std::fabs(c[k] / c[0]) > 1e300 && std::isfinite(c[k])) edge = true; }
        for (double v : c) if (v != v) { ok = false; edge = false; }
        if (c[0] == 0) { ok = false; edge = false; }
        R.desc(fmt("setCoefficients(%.17g,%.17g,%.17g,%.17g,%.17g,%.17g)", c[0], c[1], c[2], c[3], c[4], c[5]));
        if (edge) return;     // overflow of the normalisation may go either way by rounding
        // through all the ways a program can set them
        Iir::Biquad b;
        auto direct = [&]() { b.setCoefficients(c[0], c[1], c[2], c[3], c[4], c[5]); };
        Iir::Custom::SOSCascade<3> s;
        double m[3][6] = {{1, 0, 0, 1, 0, 0}, {1, 0, 0, 1, 0, 0}, {1, 0, 0, 1, 0, 0}};
        double row[6] = {c[3], c[4], c[5], c[0], c[1], c[2]};
        memcpy(m[r.below(3)], row, sizeof row);
        auto sos = [&]() { s.setup(m); };
        auto ctor = [&]() { Iir::Custom::SOSCascade<3> q(m); };
        if (ok) { mustAccept(R, "coef.accept", direct); mustAccept(R, "coef.accept.sos", sos); mustAccept(R, "coef.accept.ctor", ctor); }
        else {
            mustReject(R, "coef.reject", direct); mustReject(R, "coef.reject.sos", sos); mustReject(R, "coef.reject.ctor", ctor);
            Iir::DirectFormII st;
            double y = b.filter(1.0, st);
            R.check(y == y && s.filter(1.0) == 1.0, "coef.nan", "the section filters differently after the rejected call");
        }
        R.count(ok ? "coef.valid" : "coef.invalid");
        R.nontrivial(R.curDesc);
    });
    R.part("polepairs", 60000, 1000000, [&](Rng& r, long) {
        CD p[4];   // pole1 zero1 pole2 zero2
        for (int k = 0; k < 2; k++) {
            if (r.chance(0.4)) { p[k] = r.uni(-1, 1); p[k + 2] = r.uni(-1, 1); }
            else { p[k] = CD(r.uni(-1, 1), r.uni(-1, 1)); p[k + 2] = std::conj(p[k]); }
        }
        bool ok = true;
        if (r.chance(0.6)) {
            int k = (int)r.below(4);
            CD old = p[k];
            switch (r.below(6)) {
            case 0: p[k] += CD(0, r.logu(1e-12, 1)); break;
            case 1: p[k] += CD(r.logu(1e-12, 1), 0); break;
            case 2: p[k] = std::conj(p[k]); break;
            case 3: p[k] = CD(NAN, 0); break;
            case 4: p[k] = CD(r.uni(-1, 1), NAN); break;
            default: p[k] = CD(r.uni(-1, 1), r.uni(0.01, 1)); break;
            }
            for (int j = 0; j < 2; j++) {
                bool realPair = p[j].imag() == 0 && p[j + 2].imag() == 0;
                bool conj = p[j] == std::conj(p[j + 2]);
                if (!realPair && !conj) ok = false;
                if (p[j] != p[j] || p[j + 2] != p[j + 2]) ok = false;
            }
            (void)old;
        }
        auto s = [](CD c) { return fmt("(%.17g,%.17g)", c.real(), c.imag()); };
        R.desc("poles " + s(p[0]) + s(p[2]) + " zeros " + s(p[1]) + s(p[3]));
        Iir::Biquad b;
        auto two = [&]() { b.setTwoPole(p[0], p[1], p[2], p[3]); };
        auto pair = [&]() { Iir::PoleZeroPair z(p[0], p[1], p[2], p[3]); if (z.isSinglePole()) { b.setTwoPole(p[0], p[1], p[2], p[3]); return; } b.setPoleZeroPair(z); };
        if (ok) { mustAccept(R, "pair.accept", two); mustAccept(R, "pair.accept.pair", pair); }
        else { mustReject(R, "pair.reject", two); mustReject(R, "pair.reject.pair", pair); }
        // a single pole has to be real
        CD a = p[0], z = p[1];
        bool ok1 = a.imag() == 0 && z.imag() == 0 && a == a && z == z;
        auto one = [&]() { b.setOnePole(a, z); };
        if (ok1) mustAccept(R, "single.accept", one); else mustReject(R, "single.reject", one);
        R.count(ok ? "pairs.valid" : "pairs.invalid");
        Iir::DirectFormII st;
        double y = b.filter(1.0, st);
        R.check(y == y, "pair.nan", "the section filters NaN");
        R.nontrivial(R.curDesc);
    });
    R.part("custom", 20000, 500000, [&](Rng& r, long) {
        double a[5] = {r.uni(-3, 3), r.uni(0, 1), r.uni(-3, 3), r.uni(0, 2), r.uni(-3, 3)};
        Iir::Custom::OnePole o; Iir::Custom::TwoPole t;
        R.desc(fmt("custom %.17g %.17g %.17g %.17g %.17g", a[0], a[1], a[2], a[3], a[4]));
        mustAccept(R, "onepole.accept", [&]() { o.setup(a[0], a[1], a[3]); });
        mustAccept(R, "twopole.accept", [&]() { t.setup(a[0], a[1], a[2], a[3], a[4]); });
        int k = (int)r.below(5);
        double old = a[k];
        a[k] = NAN;
        R.desc(fmt("custom %.17g %.17g %.17g %.17g %.17g", a[0], a[1], a[2], a[3], a[4]));
        mustReject(R, "twopole.nan", [&]() { t.setup(a[0], a[1], a[2], a[3], a[4]); });
        a[k] = old;
        int j = (int)r.below(3);
        double q[3] = {a[0], a[1], a[3]};
        q[j] = NAN;
        mustReject(R, "onepole.nan", [&]() { o.setup(q[0], q[1], q[2]); });
        mustReject(R, "scale.nan", [&]() { Iir::Biquad b; b.setOnePole(0.5, 0.1); b.applyScale(NAN); });
        Iir::DirectFormI s1, s2;
        for (int n = 0; n < 4; n++) { double y1 = o.filter(1.0, s1), y2 = t.filter(1.0, s2); R.check(y1 == y1 && y2 == y2, "custom.nan", "the section filters NaN after a rejected setup"); }
        R.nontrivial(R.curDesc);
    });
    R.part("layout", 10000, 200000, [&](Rng& r, long) {
        Iir::Layout<5> st;
        Iir::LayoutBase l = (Iir::LayoutBase)st;
        int n = 0;
        std::string what;
        for (int k = 0; k < 10; k++) {
            CD p(r.uni(-1, 1), r.uni(-1, 1)), z(r.uni(-1, 1), r.uni(-1, 1));
            int kind = (int)r.below(7);
            what += fmt("%d", kind);
            R.desc("Layout<5> " + what);
            bool odd = n & 1, room1 = n + 1 <= 5, room2 = n + 2 <= 5;
            switch (kind) {
            case 0: if (!odd && room1 && r.chance(0.4)) { mustAccept(R, "layout.add", [&]() { l.add(CD(p.real()), CD(z.real())); }); n++; } break;
            case 1: if (!odd && room2) { mustAccept(R, "layout.pair", [&]() { l.addPoleZeroConjugatePairs(p, z); }); n += 2; } else mustReject(R, "layout.full", [&]() { l.addPoleZeroConjugatePairs(p, z); }); break;
            case 2: mustReject(R, "layout.nan", [&]() { l.addPoleZeroConjugatePairs(CD(NAN, 0), z); }); break;
            case 3: mustReject(R, "layout.nan", [&]() { l.add(p, CD(0, NAN)); }); break;
            case 4: mustReject(R, "layout.mismatch", [&]() { l.add(Iir::ComplexPair(p, p), Iir::ComplexPair(z, std::conj(z))); }); break;
            case 5: mustReject(R, "layout.index", [&]() { l[r.chance(0.5) ? (n + 1) / 2 + (int)r.below(3) : -1 - (int)r.below(100)]; }); break;
            default: if (!odd && room2) { mustAccept(R, "layout.cpair", [&]() { l.add(Iir::ComplexPair(p, std::conj(p)), Iir::ComplexPair(z.real(), z.imag())); }); n += 2; }
            }
            if (!R.check(l.getNumPoles() == n, "layout.count", fmt("%d poles instead of %d", l.getNumPoles(), n))) return;
        }
        R.nontrivial(R.curDesc);
    });
}

int main(int argc, char** argv) {
    Run R(argc, argv);
    poles(R);
    rbjs(R);
    coefs(R);
    return R.finish();
}
