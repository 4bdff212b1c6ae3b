// G01: every list of up to N intervals over a grid, in every order, against set membership.
#include "mc.hpp"
#include "hrm/datastructure/Interval.h"
using hrm::Interval;
static const double GRID[] = {-1.5, 0, 1, 2.25, 4};
static Interval pickI(const char* l) {
    // all pairs s<=e over the grid, degenerate ones included
    static std::vector<std::pair<double, double>> P;
    if (P.empty()) for (double s : GRID) for (double e : GRID) if (s <= e) P.push_back({s, e});
    auto p = mc::pick(P, l);
    return Interval(p.first, p.second);
}
static bool inAny(const std::vector<Interval>& v, double x) { for (auto& i : v) if (i.s() <= x && x <= i.e()) return true; return false; }
static bool inAll(const std::vector<Interval>& v, double x) { for (auto& i : v) if (!(i.s() <= x && x <= i.e())) return false; return true; }
static bool inOpen(const std::vector<Interval>& v, double x) { for (auto& i : v) if (i.s() < x && x < i.e()) return true; return false; }
static std::string str(const std::vector<Interval>& v) { std::string o; for (auto& i : v) o += mc::fmt("[%g,%g]", i.s(), i.e()); return o; }
static std::vector<double> probes() {
    std::vector<double> p;
    for (double g : GRID) for (double d : {-0.4, -1e-9, 0.0, 1e-9, 0.4}) p.push_back(g + d);
    p.push_back(-100); p.push_back(100);
    return p;
}
static void ordered(const std::vector<Interval>& r, const char* what, bool strict) {
    for (size_t i = 0; i < r.size(); ++i) {
        MC_CHECK(r[i].s() <= r[i].e(), std::string(what) + "-inverted", "%s", str(r).c_str());
        if (i) MC_CHECK(strict ? r[i - 1].e() < r[i].s() : r[i - 1].e() <= r[i].s(), std::string(what) + "-order", "%s", str(r).c_str());
    }
}
static void same(const std::vector<Interval>& a, const std::vector<Interval>& b) {
    bool eq = a.size() == b.size();
    for (size_t i = 0; eq && i < a.size(); ++i) eq = a[i].s() == b[i].s() && a[i].e() == b[i].e();
    MC_CHECK(eq, "input-changed", "%s became %s", str(a).c_str(), str(b).c_str());
}
/// long lists in structured patterns and orders, at three scales
static std::vector<Interval> longList() {
    static const int NS[] = {7, 16, 17, 33, 64, 150};
    int n = mc::pick(NS, "length"), pat = mc::choose(7, "pattern"), ord = mc::choose(5, "order");
    static const double SC[] = {1, 1e-7, 3e5};
    double sc = mc::pick(SC, "scale");
    std::vector<Interval> v;
    for (int i = 0; i < n; ++i) {
        double s, e;
        switch (pat) {
            case 0: s = 3 * i; e = s + 1; break;                                  // apart
            case 1: s = 2 * i; e = s + 2; break;                                  // touching
            case 2: s = i; e = 2 * n - i; break;                                  // nested
            case 3: s = i; e = i + 2.5; break;                                    // overlapping chain
            case 4: s = 3 * (i / 2); e = s + 1; break;                            // duplicates
            case 5: s = 5 * (i / 3) + (i % 3); e = i % 3 ? s + 0.5 : s + 4; break;   // one long with two inside
            default: s = 7 * i % 11 - 3; e = s + (i * 5 % 7) * 0.25; break;       // mixed, points included
        }
        v.push_back(Interval((s - n) * sc, (e - n) * sc));
    }
    std::vector<Interval> r;
    for (int i = 0; i < n; ++i) {
        int k = ord == 0 ? i : ord == 1 ? n - 1 - i : ord == 2 ? (i % 2 ? n - 1 - i / 2 : i / 2) : ord == 3 ? (i + n / 3) % n : 0;
        if (ord == 4) { int st = 5; while (std::__gcd(st, n) != 1) ++st; k = int((long(i) * st) % n); }
        r.push_back(v[size_t(k)]);
    }
    return r;
}
static void body() {
    static const std::vector<double> PRG = probes();
    std::vector<double> PR = PRG;
    int n = mc::choose(mc::thorough() ? 6 : 5, "n");
    std::vector<Interval> v;
    if (n == (mc::thorough() ? 5 : 4)) {
        v = longList();
        PR.clear();
        double q = std::max(1e-12, std::fabs(v[0].s()) * 1e-9);
        for (auto& i : v) for (double g : {i.s(), i.e()}) for (double d : {-q, 0.0, q}) PR.push_back(g + d);
        for (auto& i : v) { PR.push_back((i.s() + i.e()) / 2); PR.push_back(i.e() + 0.3 * (std::fabs(i.e() - i.s()) + q)); }
        PR.push_back(-1e9); PR.push_back(1e9);
        n = int(v.size());
    } else for (int i = 0; i < n; ++i) v.push_back(pickI("iv"));
    const auto keep = v;
    mc::Hash h;
    for (auto& i : v) h.d(i.s()).d(i.e());
    mc::state(h);
    auto u = Interval::unions(v);
    mc::step();
    same(keep, v);
    ordered(u, "union", true);
    for (double x : PR) MC_CHECK(inAny(u, x) == inAny(v, x), "union-member", "x=%g of %s gave %s", x, str(v).c_str(), str(u).c_str());
    auto t = Interval::intersects(v);
    mc::step();
    same(keep, v);
    ordered(t, "intersection", true);
    if (!v.empty()) for (double x : PR) MC_CHECK(inAny(t, x) == inAll(v, x), "intersection-member", "x=%g of %s gave %s", x, str(v).c_str(), str(t).c_str());
    else MC_CHECK(t.empty() && u.empty(), "empty-input", "nonempty result of nothing");
    // complement of v in every outer interval, raw and already united
    static const double O[][2] = {{-1.5, 4}, {0, 2.25}, {-10, 10}, {1, 1}, {2, 3}, {5, 6}};
    std::vector<std::pair<double, double>> OO;
    for (auto& o : O) OO.push_back({o[0], o[1]});
    if (n > 5) { OO.clear(); double lo = v[0].s(), hi = v[0].e(); for (auto& i : v) { lo = std::min(lo, i.s()); hi = std::max(hi, i.e()); }
        OO = {{lo, hi}, {lo - 1, hi + 1}, {lo + (hi - lo) / 3, hi - (hi - lo) / 3}, {(lo + hi) / 2, (lo + hi) / 2}, {hi + 1, hi + 2}}; }
    for (auto& o2 : OO) for (int united = 0; united < 2; ++united) {
        const double o[2] = {o2.first, o2.second};
        std::vector<Interval> outer{Interval(o[0], o[1])}, inner = united ? u : v;
        const auto ko = outer, ki = inner;
        auto c = Interval::complements(outer, inner);
        mc::step();
        same(ko, outer); same(ki, inner);
        ordered(c, "complement", false);
        std::vector<double> pr = PR;
        for (double g : {o[0], o[1], (o[0] + o[1]) / 2}) for (double d : {-1e-9, 0.0, 1e-9}) pr.push_back(g + d);
        for (double x : pr) {
            bool in = inAny(c, x), out = inAny(outer, x);
            if (in) MC_CHECK(out && !inOpen(inner, x), united ? "complement-extra" : "complement-extra-raw", "x=%.10g outer %s inner %s gave %s", x, str(outer).c_str(), str(inner).c_str(), str(c).c_str());
            else MC_CHECK(!out || inAny(inner, x), united ? "complement-missing" : "complement-missing-raw", "x=%.10g outer %s inner %s gave %s", x, str(outer).c_str(), str(inner).c_str(), str(c).c_str());
        }
        mc::outcome(mc::fmt("complement-%zu", c.size()));
    }
    // no outer, no free part; the union of a union is itself
    MC_CHECK(Interval::complements({}, v).empty(), "complement-no-outer", "nonempty complement in nothing");
    auto uu = Interval::unions(u);
    bool eq = uu.size() == u.size();
    for (size_t i = 0; eq && i < u.size(); ++i) eq = uu[i].s() == u[i].s() && uu[i].e() == u[i].e();
    MC_CHECK(eq, "union-idempotent", "%s vs %s", str(u).c_str(), str(uu).c_str());
    mc::outcome(mc::fmt("n%d-u%zu-i%zu", n, u.size(), t.size()));
}
int main(int c, char** v) { return mc::run(c, v, body); }
