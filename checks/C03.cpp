// C03: planning parameters derived from a scene, for every scene on a lattice.
#include "mc.hpp"
#include "hrmgeo.hpp"
#include "csv.hpp"
#include "hrm/config.h"
#include "hrm/test/util/ParsePlanningSettings.h"
using namespace geo;
static const double ARENA[] = {30, 60, 7.5, 12};
static const double OBS[] = {1, 2.5, 10, 100, 0.3};
static const double POS[] = {0, -7, 12.5};
struct Obs { std::vector<double> s; };
/// obstacle sets: none, one, several with the smallest axis first, last, in the middle
static std::vector<std::vector<double>> obstacles(int dim, int& code) {
    int n = code = mc::choose(mc::thorough() ? 4 : 3, "obstacles");
    if (!mc::thorough() && n == 2) n = 3;
    std::vector<std::vector<double>> v;
    double a = n ? mc::pick(OBS, "size") : 0;
    int place = n ? mc::choose(dim, "axis") : 0, at = n > 1 ? mc::choose(mc::thorough() ? n : 2, "which") * (mc::thorough() ? 1 : n - 1) : 0;
    for (int k = 0; k < n; ++k) {
        std::vector<double> s;
        for (int i = 0; i < dim; ++i) s.push_back(a * (k == at && i == place ? 1 : 1.5 + 0.25 * ((i + k) % 3)));
        v.push_back(s);
    }
    return v;
}
static double smallest(const std::vector<std::vector<double>>& v) { double m = INFINITY; for (auto& o : v) for (double x : o) m = std::min(m, x); return m; }
/// other3: a 3D scene where the other count is automatic
static void judgeCount(size_t got, size_t chosen, double half, double sm, double base, const char* nm, const std::string& what, bool other3 = false) {
    // KNOWN-FINDING chosen-overwritten: in 3D, one automatic count replaces a chosen one by an automatic one as well
    if (chosen && other3 && got != chosen) { mc::soft("chosen-overwritten", mc::fmt("%s: %zu sweep lines in %s instead of the chosen %zu", what.c_str(), got, nm, chosen)); chosen = 0; }
    // KNOWN-FINDING zero-lines: obstacles larger than the arena's extent give no sweep line at all
    if (!chosen && got == 0 && sm > half - base) { mc::soft("zero-lines", mc::fmt("%s: 0 sweep lines in %s for an extent of %g and obstacles of %g", what.c_str(), nm, half, sm)); return; }
    if (chosen) { MC_CHECK(got == chosen, "chosen", "%s: %zu sweep lines in %s instead of the chosen %zu", what.c_str(), got, nm, chosen); return; }
    MC_CHECK(got >= 1 && got < 1000000, "positive", "%s: %zu sweep lines in %s", what.c_str(), got, nm);
    // lines no further apart than about the smallest obstacle is wide: 2 half / (n-1) <= 2 sm or so; and no more than twice that density
    if (std::isfinite(sm)) {
        double want = half / sm;
        MC_CHECK(got <= std::max(1.0, 2 * want + 2), "dense", "%s: %zu sweep lines in %s for an extent of %g and obstacles of %g", what.c_str(), got, nm, half, sm);
        MC_CHECK(got + 1 >= std::max(1.0, 0.5 * want - 1), "sparse", "%s: %zu sweep lines in %s for an extent of %g and obstacles of %g", what.c_str(), got, nm, half, sm);
    }
}
static void judgeBounds(const std::vector<double>& b, const std::vector<double>& half, const std::vector<double>& pos, double base, const std::string& what) {
    MC_CHECK(b.size() == 2 * half.size(), "bounds-size", "%s: %zu limits", what.c_str(), b.size());
    for (size_t i = 0; i < half.size(); ++i) {
        double lo = pos[i] - half[i], hi = pos[i] + half[i];
        MC_CHECK(b[2 * i] >= lo + base - 1e-9 && b[2 * i + 1] <= hi - base + 1e-9, "bounds-outside", "%s: limits %g..%g on axis %zu let a base of half length %g leave the arena %g..%g", what.c_str(), b[2 * i], b[2 * i + 1], i, base, lo, hi);
        MC_CHECK(b[2 * i] <= lo + 2 * base + 1e-9 && b[2 * i + 1] >= hi - 2 * base - 1e-9, "bounds-tight", "%s: limits %g..%g on axis %zu cut away more than the base (%g) needs of %g..%g", what.c_str(), b[2 * i], b[2 * i + 1], i, base, lo, hi);
    }
}
/// KNOWN-FINDING no-obstacles: choosing a count in a scene without obstacles throws
template <class R, class E> static bool derive(const R& r, const E& e, hrm::PlannerParameter& p, bool empty, const std::string& what) {
    try { hrm::defineParameters(r, e, p); return true; }
    catch (const std::out_of_range& x) {
        if (!empty) throw;
        mc::soft("no-obstacles", what + ": std::out_of_range " + x.what());
        mc::outcome("no-obstacles");
        return false;
    }
}
static void lattice() {
    int dim = 2 + mc::choose(2, "dimension");
    static const double BASE[] = {1, 3, 5};
    double base = mc::pick(BASE, "base");
    std::vector<double> half, pos;
    int centre = mc::thorough() ? 0 : mc::choose(3, "centre");
    for (int i = 0; i < dim; ++i) { half.push_back(ARENA[(mc::choose(mc::thorough() ? 4 : 3, "arena") + i) % 4]); pos.push_back(POS[(i + (mc::thorough() ? mc::choose(i ? 2 : 3, "centre") : centre)) % 3]); }
    for (double h : half) mc::assume(h > 2 * base);
    int code;
    auto obs = obstacles(dim, code);
    static const hrm::Index CH[] = {0, 1, 40};
    hrm::PlannerParameter p, p0;
    p.numLineX = mc::pick(CH, "linesX"); p.numLineY = mc::pick(CH, "linesY");
    p.numSlice = hrm::Index(mc::choose(2, "slices") * 20);
    static const int QN[] = {0, 1, 7};
    int qn = dim == 3 ? mc::pick(QN, "orientations") : 0;
    p0 = p;
    std::string what = mc::fmt("%dD base %g arena %g,%g at %g,%g obstacles %zu (smallest %g) chosen %d,%d", dim, base, half[0], half[1], pos[0], pos[1], obs.size(), smallest(obs), int(p.numLineX), int(p.numLineY));
    int links = mc::choose(2, "links");
    if (dim == 2) {
        hrm::PlannerSetting2D e(20);
        e.setArena({hrm::SuperEllipse({half[0], half[1]}, 0.3, {pos[0], pos[1]}, 0, 20)});
        std::vector<hrm::SuperEllipse> o;
        for (auto& s : obs) o.emplace_back(hrm::SuperEllipse({s[0], s[1]}, 0.7, {1.0 * double(o.size()), 2}, 0.3, 20));
        e.setObstacle(o);
        hrm::MultiBodyTree2D r(hrm::SuperEllipse({base, 0.6 * base}, 1, {0, 0}, 0, 20));
        if (links) r.addBody(hrm::SuperEllipse({base * 0.4, base * 0.3}, 1, {base, 0}, 0.3, 20));
        if (!derive(r, e, p, obs.empty() && ((dim == 3 && p.numLineX == 0) || p.numLineY == 0), what)) return;
    } else {
        hrm::PlannerSetting3D e(6);
        auto I = Eigen::Quaterniond::Identity();
        e.setArena({hrm::SuperQuadrics({half[0], half[1], half[2]}, {0.3, 0.3}, {pos[0], pos[1], pos[2]}, I, 6)});
        std::vector<hrm::SuperQuadrics> o;
        for (auto& s : obs) o.emplace_back(hrm::SuperQuadrics({s[0], s[1], s[2]}, {0.7, 1}, {1.0 * double(o.size()), 2, 3}, I, 6));
        e.setObstacle(o);
        hrm::SuperQuadrics b({base, 0.6 * base, 0.5 * base}, {1, 1}, {0, 0, 0}, I, 6);
        if (qn) b.setQuatSamples(std::vector<Eigen::Quaterniond>(size_t(qn), I));
        hrm::MultiBodyTree3D r(b);
        if (links) r.addBody(hrm::SuperQuadrics({base * 0.4, base * 0.3, base * 0.3}, {1, 1}, {base, 0, 0}, I, 6));
        if (!derive(r, e, p, obs.empty() && ((dim == 3 && p.numLineX == 0) || p.numLineY == 0), what)) return;
    }
    mc::step();
    mc::Hash h;
    h.u(uint64_t(dim)).d(base).u(p.numLineX).u(p.numLineY).u(p.numSlice).u(uint64_t(code));
    for (double x : p.boundaryLimits) h.d(x);
    mc::state(h);
    judgeBounds(p.boundaryLimits, half, pos, base, what);
    double sm = smallest(obs);
    if (dim == 3) judgeCount(p.numLineX, p0.numLineX, half[0] - base, sm, base, "x", what, p0.numLineY == 0);
    else MC_CHECK(p.numLineX == p0.numLineX, "chosen", "%s: the unused count in x was changed", what.c_str());
    judgeCount(p.numLineY, p0.numLineY, half[1] - base, sm, base, "y", what, dim == 3 && p0.numLineX == 0);
    // KNOWN-FINDING chosen-slices: without predefined orientations the chosen number of C-slices becomes zero
    if (dim == 3 && !qn && p0.numSlice && p.numSlice == 0) mc::soft("chosen-slices", what + mc::fmt(": 0 C-slices instead of the chosen %zu", size_t(p0.numSlice)));
    else MC_CHECK(p.numSlice == (qn ? hrm::Index(qn) : p0.numSlice), "slices", "%s: %zu orientations, %d predefined and %zu chosen", what.c_str(), size_t(p.numSlice), qn, size_t(p0.numSlice));
    MC_CHECK(p.numPoint == p0.numPoint && p.numSearchNeighbor == p0.numSearchNeighbor && p.searchRadius == p0.searchRadius, "others", "%s: other parameters were changed", what.c_str());
    mc::outcome(dim == 2 ? "2d" : "3d");
}
/// growing the scene or shrinking the smallest obstacle never lowers the counts
static void monotone() {
    int dim = 2 + mc::choose(2, "dimension");
    static const double H[] = {8, 12, 20, 33, 60}, S[] = {0.3, 1, 2.5, 9};
    double hx = mc::pick(H, "x"), hy = mc::pick(H, "y"), s = mc::pick(S, "size");
    auto count = [&](double ax, double ay, double sz) {
        hrm::PlannerParameter p;
        auto I = Eigen::Quaterniond::Identity();
        if (dim == 2) {
            hrm::PlannerSetting2D e(20);
            e.setArena({hrm::SuperEllipse({ax, ay}, 0.3, {1, 2}, 0, 20)});
            e.setObstacle({hrm::SuperEllipse({15, 14}, 1, {0, 0}, 0, 20), hrm::SuperEllipse({11, sz}, 1, {0, 0}, 0, 20)});
            hrm::defineParameters(hrm::MultiBodyTree2D(hrm::SuperEllipse({2, 1}, 1, {0, 0}, 0, 20)), e, p);
        } else {
            hrm::PlannerSetting3D e(6);
            e.setArena({hrm::SuperQuadrics({ax, ay, 20}, {0.3, 0.3}, {1, 2, 3}, I, 6)});
            e.setObstacle({hrm::SuperQuadrics({15, 14, 13}, {1, 1}, {0, 0, 0}, I, 6), hrm::SuperQuadrics({11, 12, sz}, {1, 1}, {0, 0, 0}, I, 6)});
            hrm::defineParameters(hrm::MultiBodyTree3D(hrm::SuperQuadrics({2, 1, 1}, {1, 1}, {0, 0, 0}, I, 6)), e, p);
        }
        mc::step();
        return std::make_pair(p.numLineX, p.numLineY);
    };
    auto a = count(hx, hy, s);
    for (double k : {1.1, 2.0, 3.5}) {
        auto g = count(k * hx, k * hy, s), m = count(hx, hy, s / k);
        MC_CHECK(g.first >= a.first && g.second >= a.second, "grows", "%dD arena %g,%g with obstacles of %g: %d,%d sweep lines, but %d,%d when the arena is %g times as large", dim, hx, hy, s, int(a.first), int(a.second), int(g.first), int(g.second), k);
        MC_CHECK(m.first >= a.first && m.second >= a.second, "shrinks", "%dD arena %g,%g with obstacles of %g: %d,%d sweep lines, but %d,%d when the obstacle is %g times smaller", dim, hx, hy, s, int(a.first), int(a.second), int(m.first), int(m.second), k);
        if (k == 3.5) {
            // strictly more lines where the quotient grows by more than two whatever margin the base needs
            bool my = (hy - 4) * k / s > hy / s + 2, mx = (hx - 4) * k / s > hx / s + 2, gy = (k * hy - 4) / s > hy / s + 2, gx = (k * hx - 4) / s > hx / s + 2;
            MC_CHECK((!my || m.second > a.second) && (dim == 2 || !mx || m.first > a.first), "follows", "%dD: counts %d,%d do not follow the smallest obstacle", dim, int(m.first), int(m.second));
            MC_CHECK((!gy || g.second > a.second) && (dim == 2 || !gx || g.first > a.first), "follows", "%dD: counts %d,%d do not follow the scene", dim, int(g.first), int(g.second));
        }
    }
    mc::outcome("monotone");
}
static void body() { if (mc::flip("mode")) monotone(); else lattice(); }
int main(int argc, char** argv) { return mc::run(argc, argv, body); }
