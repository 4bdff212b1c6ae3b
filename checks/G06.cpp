// G06: horizontal lines and segments against convex polygons, judged in exact integer arithmetic.
#include "mc.hpp"
#include "hrmgeo.hpp"
#include "hrm/geometry/LineIntersection.h"
#include "hrm/geometry/SuperEllipse.h"
struct P { long x, y; };
static long cross(P a, P b, P c) { return (b.x - a.x) * (c.y - a.y) - (b.y - a.y) * (c.x - a.x); }
/// every strictly convex lattice polygon (counterclockwise, starting at its lowest leftmost vertex); coordinates are doubled
static const std::vector<std::vector<P>>& polys() {
    static std::vector<std::vector<P>> out;
    if (!out.empty()) return out;
    const int G = mc::thorough() ? 4 : 3;
    std::vector<P> g;
    for (int y = 0; y <= G; ++y) for (int x = 0; x <= G; ++x) g.push_back({4 * x, 4 * y});
    std::vector<P> cur;
    std::function<void(size_t)> rec = [&](size_t maxN) {
        if (cur.size() >= 3) {
            size_t n = cur.size();
            if (cross(cur[n - 2], cur[n - 1], cur[0]) > 0 && cross(cur[n - 1], cur[0], cur[1]) > 0) out.push_back(cur);
        }
        if (cur.size() == maxN) return;
        for (auto& p : g) {
            if (!cur.empty() && (p.y < cur[0].y || (p.y == cur[0].y && p.x <= cur[0].x))) continue;
            size_t n = cur.size();
            if (n >= 2 && cross(cur[n - 2], cur[n - 1], p) <= 0) continue;
            if (n >= 2 && cross(cur[0], cur[1], p) <= 0) continue;
            if (n >= 2 && cross(cur[0], cur[n - 1], p) <= 0) continue;
            cur.push_back(p);
            rec(maxN);
            cur.pop_back();
        }
    };
    rec(mc::thorough() ? 6 : 8);
    return out;
}
static void lattice() {
    auto& poly = mc::pick(polys(), "polygon");
    size_t n = poly.size();
    size_t start = size_t(mc::choose(int(n), "start"));
    bool rev = mc::flip("winding");
    int closing = mc::choose(3, "closing");   // open list, first vertex repeated at the end, every vertex doubled
    int xf = mc::choose(start || rev ? 2 : 4, "frame");
    static const double FR[][3] = {{0.25, 0, 0}, {0.37 / 4, -0.1, 0.7}, {13.7, -250, 410}, {2.3e-4, 0.01, -0.003}};
    const double s = FR[xf][0], ox = FR[xf][1], oy = FR[xf][2];
    const double tolx = 1e-9 * std::max(1.0, s * 4) * (xf == 2 ? 100 : 1);
    std::vector<P> seq;
    for (size_t i = 0; i < n; ++i) seq.push_back(poly[(start + (rev ? n - i : i)) % n]);
    if (closing == 1) seq.push_back(seq[0]);
    if (closing == 2) { std::vector<P> t; for (auto& p : seq) { t.push_back(p); t.push_back(p); } seq = t; }
    Eigen::Matrix2Xd M(2, Eigen::Index(seq.size()));
    auto X = [&](long x) { return s * double(x) + ox; };
    auto Y = [&](long y) { return s * double(y) + oy; };
    for (size_t i = 0; i < seq.size(); ++i) { M(0, Eigen::Index(i)) = X(seq[i].x); M(1, Eigen::Index(i)) = Y(seq[i].y); }
    mc::state(mc::Hash().u(uint64_t(&poly - &polys()[0])).u(start).u(rev).u(uint64_t(closing)).u(uint64_t(xf)));
    const long G = mc::thorough() ? 16 : 12;
    long ylo = poly[0].y, yhi = poly[0].y;
    for (auto& p : poly) { ylo = std::min(ylo, p.y); yhi = std::max(yhi, p.y); }
    for (long y = -2; y <= G + 2; ++y) {
        auto r = hrm::intersectHorizontalLinePolygon2D(Y(y), M);
        mc::step();
        if (y < ylo || y > yhi) { MC_CHECK(r.empty(), "line-miss", "y=%ld misses but %zu intersections", y, r.size()); continue; }
        double lo = INFINITY, hi = -INFINITY;
        for (size_t i = 0; i < n; ++i) {
            P a = poly[i], b = poly[(i + 1) % n];
            if (a.y > b.y) std::swap(a, b);
            if (y < a.y || y > b.y) continue;
            if (a.y == b.y) { for (P p : {a, b}) { lo = std::min(lo, double(p.x)); hi = std::max(hi, double(p.x)); } continue; }
            double x = double(a.x) + double((b.x - a.x) * (y - a.y)) / double(b.y - a.y);
            lo = std::min(lo, x); hi = std::max(hi, x);
        }
        lo = s * lo + ox; hi = s * hi + ox;
        MC_CHECK(!r.empty(), "line-hit-missed", "y=%ld meets the polygon in [%.9g,%.9g], nothing reported", y, lo, hi);
        double rl = *std::min_element(r.begin(), r.end()), rh = *std::max_element(r.begin(), r.end());
        MC_CHECK(std::fabs(rl - lo) < tolx && std::fabs(rh - hi) < tolx, "line-extremes", "y=%ld: [%.9g,%.9g] reported [%.9g,%.9g]", y, lo, hi, rl, rh);
    }
    mc::outcome(mc::fmt("poly%zu", n));
    if ((closing && start) || xf >= 2) { if (xf < 2 || closing != 1) return; }
    const bool fine = start == 0 && !rev && closing == (mc::thorough() ? 0 : 1) && xf == 1;
    // segments between lattice and half-lattice points
    const long st = fine ? 2 : 4;
    std::vector<P> pts;
    for (long y = -st; y <= G + st; y += st) for (long x = -st; x <= G + st; x += st) pts.push_back({x, y});
    std::vector<int> side(pts.size());   // 1 strictly inside, 0 on the boundary, -1 strictly outside
    for (size_t k = 0; k < pts.size(); ++k) {
        int w = 1;
        for (size_t i = 0; i < n; ++i) { long c = cross(poly[i], poly[(i + 1) % n], pts[k]); if (c < 0) { w = -1; break; } if (c == 0) w = 0; }
        side[k] = w;
    }
    for (size_t i = 0; i < pts.size(); ++i) for (size_t j = 0; j < pts.size(); ++j) {
        if (i == j) continue;
        // clip to the half-planes: t in (tn/td) with exact rationals
        double lo = 0, hi = 1;
        bool emptyOpen = false, emptyClosed = false;
        for (size_t e = 0; e < n && !emptyClosed; ++e) {
            long ca = cross(poly[e], poly[(e + 1) % n], pts[i]), cb = cross(poly[e], poly[(e + 1) % n], pts[j]);
            if (ca < 0 && cb < 0) { emptyClosed = emptyOpen = true; }
            else if (ca <= 0 && cb <= 0) emptyOpen = true;
            if (ca == cb) continue;
            double t = double(ca) / double(ca - cb);
            if (cb > ca) lo = std::max(lo, t); else hi = std::min(hi, t);
        }
        if (lo > hi + 1e-12) emptyClosed = emptyOpen = true;
        if (lo > hi - 1e-12) emptyOpen = true;
        int want;
        if (emptyClosed) want = 0;                                  // stays strictly outside
        else if (side[i] == 1 && side[j] == 1) want = 0;            // stays strictly inside
        else if (side[i] * side[j] == -1) want = 1;                 // crosses
        else if (!emptyOpen && (side[i] == -1 || side[j] == -1)) want = 1;   // goes through the interior to the outside
        else continue;                                              // touches without crossing: not specified
        bool r = hrm::isIntersectSegPolygon2D({{X(pts[i].x), Y(pts[i].y)}, {X(pts[j].x), Y(pts[j].y)}}, M);
        mc::step();
        MC_CHECK(r == bool(want), want ? "segment-missed" : "segment-false", "segment (%ld,%ld)-(%ld,%ld)", pts[i].x, pts[i].y, pts[j].x, pts[j].y);
        mc::metric(want ? "segments-crossing" : "segments-clear");
    }
    // segments that end just behind or just before a point of an edge: the crossing is at their very end, or missed by a little
    for (size_t e = 0; e < n; ++e) {
        const P a = poly[e], b = poly[(e + 1) % n];
        for (double f : {1.0 / 3, 0.5, 0.9}) {
            const double mx = double(a.x) + f * double(b.x - a.x), my = double(a.y) + f * double(b.y - a.y);
            for (size_t k = 0; k < pts.size(); ++k) {
                const P p = pts[k];
                if (cross(a, b, p) >= 0 || ((p.x | p.y) & 3)) continue;
                for (double d : {1e-4, 5e-3, 0.03, -1e-4, -5e-3}) {
                    const double qx = mx + d * (mx - double(p.x)), qy = my + d * (my - double(p.y));
                    bool in = true;
                    for (size_t g = 0; d > 0 && in && g < n; ++g) {
                        const P u = poly[g], v = poly[(g + 1) % n];
                        in = double(v.x - u.x) * (qy - double(u.y)) - double(v.y - u.y) * (qx - double(u.x)) > 1e-4;
                    }
                    if (!in) continue;
                    const std::vector<double> A{s * double(p.x) + ox, s * double(p.y) + oy}, B{s * qx + ox, s * qy + oy};
                    for (int w = 0; w < 2; ++w) {
                        bool r = w ? hrm::isIntersectSegPolygon2D({B, A}, M) : hrm::isIntersectSegPolygon2D({A, B}, M);
                        mc::step();
                        MC_CHECK(r == (d > 0), d > 0 ? "segment-end-missed" : "segment-end-false", "(%ld,%ld) to %.6g past edge %zu at (%.6g,%.6g)", p.x, p.y, d, e, mx, my);
                    }
                    mc::metric(d > 0 ? "segments-just-in" : "segments-just-out");
                }
            }
        }
    }
}
static void sampled() {
    // boundaries sampled from shapes: a line at the exact height of every sample
    static const double EP[] = {0.1, 1.0, 1.5};
    static const double TH[] = {0, 0.6, 1.5707963267948966, -2.0};
    double ep = mc::pick(EP, "eps"), th = mc::pick(TH, "angle");
    static const int NN[] = {50, 8, 21, 130};
    int num = mc::pick(NN, "num");
    bool sum = mc::flip("sum");
    hrm::SuperEllipse A({7, 4}, ep, {1, -2}, th, hrm::Index(num));
    Eigen::Matrix2Xd M = sum ? A.getMinkSum2D(hrm::SuperEllipse({1, 0.5}, 1, {0, 0}, 0.4, 50), 1) : A.getOriginShape();
    mc::state(mc::Hash().d(ep).d(th).u(uint64_t(num)).u(sum));
    auto Y = M.row(1);
    std::vector<double> ys;
    for (int i = 0; i < M.cols(); ++i) for (double d : {0.0, 1e-10, -1e-10, 1e-3}) ys.push_back(Y(i) + d);
    double top = Y.maxCoeff(), bot = Y.minCoeff();
    ys.push_back(top + 1e-6); ys.push_back(bot - 1e-6);
    for (double y : ys) {
        auto r = hrm::intersectHorizontalLinePolygon2D(y, M);
        mc::step();
        if (y > top || y < bot) { MC_CHECK(r.empty(), "sampled-miss", "y=%.12g", y); continue; }
        long double lo = INFINITY, hi = -INFINITY;
        for (int i = 0; i < M.cols(); ++i) {
            int j = (i + 1) % int(M.cols());
            long double x1 = M(0, i), y1 = M(1, i), x2 = M(0, j), y2 = M(1, j), yy = y;
            if (yy < std::min(y1, y2) || yy > std::max(y1, y2)) continue;
            if (y1 == y2) { lo = std::min(lo, std::min(x1, x2)); hi = std::max(hi, std::max(x1, x2)); continue; }
            long double x = x1 + (x2 - x1) * ((yy - y1) / (y2 - y1));
            lo = std::min(lo, x); hi = std::max(hi, x);
        }
        MC_CHECK(!r.empty(), "sampled-hit-missed", "y=%.17g", y);
        double rl = *std::min_element(r.begin(), r.end()), rh = *std::max_element(r.begin(), r.end());
        // an edge flatter than the rounding of y may give any of its points
        MC_CHECK(std::fabs(rl - double(lo)) < 1e-4 && std::fabs(rh - double(hi)) < 1e-4, "sampled-extremes", "y=%.17g: [%.9Lg,%.9Lg] reported [%.9g,%.9g]", y, lo, hi, rl, rh);
    }
    mc::outcome("sampled");
}
static void body() { if (mc::flip("sampled")) sampled(); else lattice(); }
int main(int c, char** v) { mc::Options o; o.splitDepth = 2; return mc::run(c, v, body, o); }
