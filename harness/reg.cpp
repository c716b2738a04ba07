#include "reg.h"
void reg_B_a(std::vector<Entry>&); void reg_B_b(std::vector<Entry>&);
void reg_C1_a(std::vector<Entry>&); void reg_C1_b(std::vector<Entry>&);
void reg_C2_a(std::vector<Entry>&); void reg_C2_b(std::vector<Entry>&);
void reg_B_c(std::vector<Entry>&); void reg_C1_c(std::vector<Entry>&); void reg_C2_c(std::vector<Entry>&);

std::vector<Entry>& registry() {
    static std::vector<Entry> v;
    if (v.empty()) {
        reg_B_a(v); reg_C1_a(v); reg_C2_a(v);
        reg_B_b(v); reg_C1_b(v); reg_C2_b(v);
        reg_B_c(v); reg_C1_c(v); reg_C2_c(v);
    }
    return v;
}

std::string descP(const Entry& e, const P& p) {
    std::string s = e.name();
    s += p.form >= 2 ? ".setup(" : ".setupN(";
    if (p.form & 1) s += vf::fmt("%d,", p.order);
    if (p.form >= 2) s += vf::fmt("fs=%.17g,", p.fs);
    s += vf::fmt("f=%.17g", p.f);
    if (hasWidth(e.typ)) s += vf::fmt(",w=%.17g", p.w);
    if (hasGain(e.typ)) s += vf::fmt(",gain=%.17g", p.g);
    if (hasRip(e.fam)) s += vf::fmt(",%s=%.17g", e.fam == FC1 ? "ripple" : "stop", p.r);
    return s + ")";
}

const Entry& pickEntry(vf::Rng& r) { auto& v = registry(); return v[r.below(v.size())]; }

// distance (as a frequency) of the corners of the response from DC and Nyquist.  The numerical
// condition of a design is governed by it, not by the cutoff argument: a Chebyshev II low pass of
// order one with 100 dB stop band attenuation has its corner five decades below the cutoff.
double cornerDistance(const Entry& e, const P& p) {
    double f = p.nf(), w = hasWidth(e.typ) ? p.nw() : 0;
    int N = effOrder(e, p);
    double om[2] = {1, 1};
    if (!hasGain(e.typ)) {
        if (e.fam == FC1) om[1] = std::cosh(std::acosh(std::max(1.0, 1 / std::sqrt(std::pow(10, p.r / 10) - 1))) / N);
        if (e.fam == FC2) om[1] = 1 / std::cosh(std::acosh(std::max(1.0, std::sqrt(std::pow(10, p.r / 10) - 1))) / N);
    } else {
        double G = std::pow(10, std::fabs(p.g) / 20);
        om[0] = std::pow(G, 0.5 / N); om[1] = 1 / om[0];
    }
    double best = 1;
    for (double o : om) {
        auto edge = [&](double x) { best = std::min(best, std::min(x, 0.5 - x)); };
        switch (e.typ) {
        case LP: case LSH: edge(std::atan(std::tan(M_PI * f) * o) / M_PI); break;
        case HP: case HSH: edge(std::atan(std::tan(M_PI * f) / o) / M_PI); break;
        default: {
            // cos(alpha) - cos(x) = +-k sin(x) with k = tan(pi w) * o (or / o for a band stop)
            double k = std::tan(M_PI * w) * (e.typ == BS ? 1 / o : o), ca = std::cos(2 * M_PI * f) / std::cos(M_PI * w);
            double phi = std::atan(k), c = std::acos(std::max(-1.0, std::min(1.0, ca * std::cos(phi))));
            edge((c - phi) / (2 * M_PI)); edge((c + phi) / (2 * M_PI));
            best = std::min(best, phi / M_PI);
        }
        }
    }
    return best;
}

static P genOnce(vf::Rng& r, const Entry& e, const Dom& d);
P genValid(vf::Rng& r, const Entry& e, const Dom& d) {
    for (int i = 0;; i++) {
        P p = genOnce(r, e, d);
        if (cornerDistance(e, p) >= std::min(d.corner, 0.4 * std::min(d.fmin, d.wmin))) return p;
        if (i > 500) { p.r = e.fam == FC2 ? 6 : 1; if (hasGain(e.typ)) { p.g = 6; p.r = 1; } return p; }
    }
}
static P genOnce(vf::Rng& r, const Entry& e, const Dom& d) {
    P p;
    p.form = (int)r.below(4);
    int maxo = e.order < d.maxOrder ? e.order : d.maxOrder;
    if (e.order > d.maxOrder) p.form |= 1;
    p.order = r.chance(0.4) ? maxo : r.range(1, maxo);
    double f, w = 0.05;
    static const std::vector<double> special = {0.25, 0.125, 0.1, 0.2, 0.05, 0.01, 1.0 / 3, 0.3, 0.4, 0.45, 0.24999999999999997, 0.25000000000000006};
    if (r.chance(0.2)) f = r.pick(special);
    else if (r.chance(0.1)) { int q = r.range(3, 64); f = (double)r.range(1, (q - 1) / 2) / q; }
    else if (r.chance(0.3)) f = r.logu(d.fmin, d.fmax);
    else f = r.uni(d.fmin, d.fmax);
    if (f < d.fmin) f = d.fmin;
    if (f > d.fmax) f = d.fmax;
    if (hasWidth(e.typ)) {
        double room = 2 * std::min(f - d.fmin / 2, 0.5 - d.fmin / 2 - f);  // both edges stay inside
        double lo = d.wmin;
        if (room <= lo * 1.05) { f = r.uni(d.wmin * 1.5 + d.fmin, 0.5 - d.wmin * 1.5 - d.fmin); room = 2 * std::min(f - d.fmin / 2, 0.5 - d.fmin / 2 - f); }
        if (room < lo) room = lo;
        w = r.chance(0.5) ? r.logu(lo, room) : r.uni(lo, room);
        // widths for which poles or zeros meet in the origin or on the real axis
        if (r.chance(0.15)) { double q[] = {0.25, 0.25, 0.125, 0.2, 1.0 / 3, f, 0.5 - f, 0.1}, x = q[r.below(8)]; if (x >= lo && x <= room) w = x; }
    }
    static const std::vector<double> rates = {1, 10, 250, 1000, 8000, 44100, 48000, 0.001, 1e6, 3.7, 2};
    p.fs = r.chance(0.7) ? r.pick(rates) : r.chance(0.9) ? r.logu(1e-3, 1e7) : r.logu(1e-250, 1e250);
    if (p.form >= 2) { p.f = f * p.fs; p.w = w * p.fs; } else { p.f = f; p.w = w; }
    double g = r.chance(0.3) ? r.pick(std::vector<double>{6, 12, 20, 3, 1, 10}) : r.chance(0.3) ? r.logu(d.gmin, d.gmax) : r.uni(d.gmin, d.gmax);
    if (g < d.gmin) g = d.gmin;
    if (g > d.gmax) g = d.gmax;
    p.g = r.chance(0.5) ? g : -g;
    if (hasGain(e.typ) && hasRip(e.fam)) {
        p.r = g * r.uni(0.02, 0.9);
    } else if (e.fam == FC1) p.r = r.chance(0.3) ? r.pick(std::vector<double>{0.1, 0.5, 1, 3, 5}) : r.logu(d.rmin, d.rmax);
    else p.r = r.chance(0.3) ? r.pick(std::vector<double>{20, 40, 60, 10}) : r.chance(0.3) ? r.logu(d.smin, d.smax) : r.uni(d.smin, d.smax);
    return p;
}

std::vector<Iir::Biquad> stagesOf(IFilter& f) {
    std::vector<Iir::Biquad> v;
    for (int i = 0; i < f.numStages(); i++) v.push_back(f.stage(i));
    return v;
}
