// K04: free segments of sweep lines against set algebra on the reported C-space boundaries.
#include "mc.hpp"
#include "hrmgeo.hpp"
#include "hrm/datastructure/FreeSpace2D.h"
#include "hrm/datastructure/FreeSpace3D.h"
#include <memory>
#include <set>
using namespace geo;
static const double PI_ = 3.14159265358979323846;
using LD = long double;
struct Iv { double lo, hi; bool any; bool vague = false; };
static Iv polyAt(const hrm::BoundaryPoints& P, double y) {
    LD lo = INFINITY, hi = -INFINITY;
    int n = int(P.cols());
    for (int i = 0; i < n; ++i) {
        LD x1 = P(0, i), y1 = P(1, i), x2 = P(0, (i + 1) % n), y2 = P(1, (i + 1) % n);
        if ((LD(y) - y1) * (LD(y) - y2) > 0) continue;
        if (y1 == y2) { lo = std::min({lo, x1, x2}); hi = std::max({hi, x1, x2}); continue; }
        LD x = x1 + (LD(y) - y1) / (y2 - y1) * (x2 - x1);
        lo = std::min(lo, x); hi = std::max(hi, x);
    }
    return {double(lo), double(hi), lo <= hi};
}
/// vertical line through (x,y): extremes over the triangles, edges included; vague when the line grazes the surface
static Iv meshAt(const hrm::MeshMatrix& m, double x, double y, double scale) {
    double lo[2] = {INFINITY, INFINITY}, hi[2] = {-INFINITY, -INFINITY};
    for (int i = 0; i < m.faces.rows(); ++i) {
        V3 p[3];
        for (int k = 0; k < 3; ++k) p[k] = m.vertices.col(int(m.faces(i, k)));
        LD ar = (LD(p[1].x()) - p[0].x()) * (LD(p[2].y()) - p[0].y()) - (LD(p[2].x()) - p[0].x()) * (LD(p[1].y()) - p[0].y());
        double ml = std::max({(p[1] - p[0]).head(2).norm(), (p[2] - p[0]).head(2).norm(), (p[2] - p[1]).head(2).norm()});
        if (std::fabs(double(ar)) < 1e-9 * ml * scale) continue;   // seen edge-on
        double d[3];   // signed distance from the edges
        LD z = 0;
        for (int k = 0; k < 3; ++k) {
            const V3 &a = p[(k + 1) % 3], &b = p[(k + 2) % 3];
            LD c = (LD(b.x()) - a.x()) * (LD(y) - a.y()) - (LD(x) - a.x()) * (LD(b.y()) - a.y());
            if (ar < 0) c = -c;
            double len = (b - a).head(2).norm();
            d[k] = len > 0 ? double(c) / len : double(c);
            z += c / (ar < 0 ? -ar : ar) * p[k].z();
        }
        double w = std::min({d[0], d[1], d[2]});
        for (int v = 0; v < 2; ++v)
            if (w > (v ? 1e-7 : -1e-7) * scale) { lo[v] = std::min(lo[v], double(z)); hi[v] = std::max(hi[v], double(z)); }
    }
    // the two readings differ when the line runs near an edge: harmless inside the surface (the neighbour is hit at the same
    // height), otherwise the line grazes the outline and either answer is right
    bool in0 = lo[0] <= hi[0], in1 = lo[1] <= hi[1];
    if (!in0) return {0, 0, false};
    return {lo[0], hi[0], true, !in1 && hi[0] - lo[0] < 0.05 * scale};
}
struct Seg { std::vector<double> L, U, M; };
static void judge(const std::vector<Iv>& arena, const std::vector<Iv>& obst, double low, double up, const Seg& s, double tol, const char* what) {
    MC_CHECK(s.L.size() == s.U.size() && s.L.size() == s.M.size(), "shape", "%s: %d low, %d high, %d middle", what, int(s.L.size()), int(s.U.size()), int(s.M.size()));
    for (auto& v : arena) if (v.vague) return;
    for (auto& v : obst) if (v.vague) return;
    double a = low, b = up;
    bool any = low <= up;
    for (auto& v : arena) { if (!v.any) any = false; else { a = std::max(a, v.lo); b = std::min(b, v.hi); } }
    any = any && a <= b;
    std::vector<double> ev{low, up};
    for (auto& v : arena) if (v.any) { ev.push_back(v.lo); ev.push_back(v.hi); }
    for (auto& v : obst) if (v.any) { ev.push_back(v.lo); ev.push_back(v.hi); }
    auto freeAt = [&](double x) -> int {   // 1 free, 0 not, -1 within tolerance of an end
        for (double e : ev) if (std::fabs(x - e) < 4 * tol) return -1;
        if (!any || x < a || x > b) return 0;
        for (auto& v : obst) if (v.any && x > v.lo && x < v.hi) return 0;
        return 1;
    };
    for (size_t j = 0; j < s.L.size(); ++j) {
        MC_CHECK(std::isfinite(s.L[j]) && std::isfinite(s.U[j]), "finite", "%s: segment %d is [%g,%g]", what, int(j), s.L[j], s.U[j]);
        MC_CHECK(s.L[j] <= s.U[j] && (!j || (s.L[j] >= s.U[j - 1])), "sorted", "%s: segment %d [%.9g,%.9g] after %.9g", what, int(j), s.L[j], s.U[j], j ? s.U[j - 1] : -INFINITY);
        MC_CHECK(s.M[j] >= s.L[j] && s.M[j] <= s.U[j], "middle", "%s: representative %.9g outside [%.9g,%.9g]", what, s.M[j], s.L[j], s.U[j]);
        // every point of the segment is free (ends and representative up to the tolerance)
        for (double x : {s.L[j], s.U[j], s.M[j]}) {
            bool ok = any && x > a - tol && x < b + tol;
            for (auto& v : obst) if (v.any && x > v.lo + tol && x < v.hi - tol) ok = false;
            MC_CHECK(ok, "not-free", "%s: %.9g of segment %d [%.9g,%.9g] is not free (arena and bounds leave [%.9g,%.9g])", what, x, int(j), s.L[j], s.U[j], any ? a : 0., any ? b : 0.);
        }
    }
    std::vector<double> cand = ev;
    for (size_t j = 0; j < s.L.size(); ++j) { cand.push_back(s.L[j]); cand.push_back(s.U[j]); }
    std::sort(cand.begin(), cand.end());
    std::vector<double> pr{cand.front() - 1, cand.back() + 1};
    for (size_t i = 0; i < cand.size(); ++i) {
        pr.push_back(cand[i] - 10 * tol); pr.push_back(cand[i] + 10 * tol);
        if (i + 1 < cand.size()) pr.push_back((cand[i] + cand[i + 1]) / 2);
    }
    for (double x : pr) {
        int f = freeAt(x);
        if (f < 0) continue;
        bool in = false;
        for (size_t j = 0; j < s.L.size(); ++j) in = in || (x >= s.L[j] && x <= s.U[j]);
        MC_CHECK(in == (f == 1), f ? "missing" : "extra", "%s: %.9g is %s but %s reported free", what, x, f ? "free" : "not free", in ? "is" : "not");
    }
}
static std::vector<double> linesOf(const std::vector<hrm::BoundaryPoints>& B, int row, bool every) {
    std::set<double> y;
    double mn = INFINITY, mx = -INFINITY;
    for (auto& b : B) {
        y.insert(b.row(row).maxCoeff()); y.insert(b.row(row).minCoeff());
        mn = std::min(mn, b.row(row).minCoeff()); mx = std::max(mx, b.row(row).maxCoeff());
        for (int i = 0; i < b.cols(); i += every ? 1 : 5) y.insert(b(row, i));
    }
    std::vector<double> v{mn - 1, mx + 1};
    for (int i = 1; i < 8; ++i) v.push_back(mn + (mx - mn) * i / 8.0);
    for (double d : y) { v.push_back(d); v.push_back(d + 1e-4); }
    std::sort(v.begin(), v.end());
    return v;
}
static Seg row(const hrm::FreeSegment2D& s, size_t i) { return {s.xL.at(i), s.xU.at(i), s.xM.at(i)}; }

static void run2() {
    using E = hrm::SuperEllipse;
    hrm::MultiBodyTree2D r(E({2, 1}, 1, {0, 0}, 0, 20));
    if (mc::flip("link")) r.addBody(E({1.5, 0.5}, 1, {2.5, 1}, 0.8, 20));
    std::vector<E> arena;
    int ar = mc::choose(3, "arena");
    arena.push_back(E({30, 20}, 0.7, {0, 0}, ar == 1 ? 0.3 : 0, 40));
    if (ar == 2) arena.push_back(E({25, 25}, 1, {14, 5}, 0, 30));
    static const double OB[][6] = {{4, 3, 0.5, 0, 0, 0}, {3, 6, 1, 6, 2, 0.5}, {5, 2, 1.4, -9, -6, 1.2}, {4, 3, 0.5, 8, 0, 0}, {6, 30, 0.2, -20, 0, 0}};
    std::vector<E> obs;
    int mask = mc::choose(32, "obstacles"), cnt = 0;
    for (int i = 0; i < 5; ++i) cnt += mask >> i & 1;
    mc::assume(cnt <= 3);
    for (int i = 0; i < 5; ++i) if (mask >> i & 1) obs.push_back(E({OB[i][0], OB[i][1]}, OB[i][2], {OB[i][3], OB[i][4]}, OB[i][5], hrm::Index(14 + 3 * i)));
    if (mc::flip("reverse")) { mc::assume(cnt >= 2); std::reverse(obs.begin(), obs.end()); }
    static const double BD[][2] = {{-100, 100}, {-12, 7}, {3, 60}, {200, 300}};
    auto& bd = mc::pick(BD, "bounds");
    static const double TH[] = {0, 0.9, -2.2};
    auto place = [&](hrm::FreeSpace2D& f, double th) {
        hrm::SE2Transform g = hrm::SE2Transform::Identity();
        g(0, 0) = g(1, 1) = std::cos(th); g(1, 0) = std::sin(th); g(0, 1) = -g(1, 0);
        f.setRobotTransform(g);
    };
    hrm::FreeSpace2D fs(r, arena, obs);
    int steps = 1 + mc::choose(3, "computations");   // earlier computations must leave no trace
    for (int t = 0; t < steps; ++t) {
        bool last = t + 1 == steps;
        double th = last ? mc::pick(TH, "heading") : TH[size_t(2 - t % 2)];
        bool other = !last && t == 1;
        double lo = other ? -1 : bd[0], hi = other ? 1 : bd[1];
        place(fs, th);
        fs.computeCSpaceBoundary();
        auto bound = fs.getCSpaceBoundary();
        std::vector<hrm::BoundaryPoints> all = bound.arena;
        all.insert(all.end(), bound.obstacle.begin(), bound.obstacle.end());
        auto ty = linesOf(all, 1, last && (mc::thorough() || cnt < 2));
        if (other) ty.resize(1);
        if (t == 0 && !last) ty.insert(ty.end(), {0.5, 0.75, 1.0});
        fs.setup(unsigned(ty.size()), lo, hi);
        fs.computeIntersectionInterval({ty});
        fs.computeFreeSegment(ty);
        mc::step(ty.size());
        MC_CHECK(bound.arena.size() == arena.size() * (1 + r.getNumLinks()) && bound.obstacle.size() == obs.size() * (1 + r.getNumLinks()), "count", "%d arena and %d obstacle boundaries", int(bound.arena.size()), int(bound.obstacle.size()));
        // the boundaries are those of a robot placed afresh
        {
            auto rr = r;
            hrm::SE2Transform g = hrm::SE2Transform::Identity();
            g(0, 0) = g(1, 1) = std::cos(th); g(1, 0) = std::sin(th); g(0, 1) = -g(1, 0);
            rr.robotTF(g);
            size_t k = 0;
            for (auto& a : arena) for (auto& b : rr.minkSum(a, -1)) { MC_CHECK((b - bound.arena.at(k)).cwiseAbs().maxCoeff() < 1e-9, "boundary", "arena boundary %d is not that of the placed robot", int(k)); ++k; }
            k = 0;
            for (auto& a : obs) for (auto& b : rr.minkSum(a, 1)) { MC_CHECK((b - bound.obstacle.at(k)).cwiseAbs().maxCoeff() < 1e-9, "boundary", "obstacle boundary %d is not that of the placed robot", int(k)); ++k; }
        }
        const auto& s = fs.getFreeSegment();
        MC_CHECK(s.ty == ty && s.xL.size() == ty.size() && s.xU.size() == ty.size() && s.xM.size() == ty.size(), "rows", "%d rows for %d lines", int(s.xL.size()), int(ty.size()));
        mc::state(mc::Hash().u(2).u(r.getNumLinks()).u(uint64_t(ar)).u(uint64_t(mask)).d(bd[0]).d(th).u(uint64_t(t)));
        for (size_t i = 0; i < ty.size(); ++i) {
            std::vector<Iv> va, vo;
            for (auto& b : bound.arena) va.push_back(polyAt(b, ty[i]));
            for (auto& b : bound.obstacle) vo.push_back(polyAt(b, ty[i]));
            judge(va, vo, lo, hi, row(s, i), 1e-7, mc::fmt("line y=%.12g", ty[i]).c_str());
        }
    }
    mc::outcome(mc::fmt("2D obstacles %d", cnt));
}
static void run3() {
    using Q = hrm::SuperQuadrics;
    auto I = Eigen::Quaterniond::Identity();
    hrm::MultiBodyTree3D r(Q({2, 1, 1.5}, {1, 1}, {0, 0, 0}, I, 8));
    if (mc::flip("link")) r.addBody(Q({1.5, 0.5, 1}, {1, 1}, {2.5, 1, -1}, Eigen::Quaterniond(Eigen::AngleAxisd(0.8, V3(1, 1, 0).normalized())), 8));
    std::vector<Q> arena;
    int ar = mc::choose(2, "arena");
    arena.push_back(Q({30, 20, 25}, {0.7, 0.8}, {0, 0, 0}, I, 8));
    if (ar == 1) arena.push_back(Q({25, 25, 30}, {1, 1}, {14, 5, 6}, I, 7));
    static const double OB[][9] = {{4, 3, 5, 0.5, 0.7, 0, 0, 0, 0}, {3, 6, 2, 1, 1, 6, 2, 4, 0.5}, {5, 2, 3, 1.3, 1.2, -9, -6, -5, 1.2}, {4, 3, 5, 0.5, 0.7, 0, 0, 9, 0}};
    std::vector<Q> obs;
    int mask = mc::choose(16, "obstacles"), cnt = 0;
    for (int i = 0; i < 4; ++i) cnt += mask >> i & 1;
    mc::assume(cnt <= (mc::thorough() ? 4 : 2));
    for (int i = 0; i < 4; ++i) if (mask >> i & 1)
        obs.push_back(Q({OB[i][0], OB[i][1], OB[i][2]}, {OB[i][3], OB[i][4]}, {OB[i][5], OB[i][6], OB[i][7]}, Eigen::Quaterniond(Eigen::AngleAxisd(OB[i][8], V3(1, 2, 1).normalized())), hrm::Index(6 + i)));
    if (mc::flip("reverse")) { mc::assume(cnt >= 2); std::reverse(obs.begin(), obs.end()); }
    static const double BD[][2] = {{-100, 100}, {-12, 7}, {200, 300}};
    auto& bd = mc::pick(BD, "bounds");
    static const double TH[] = {0, 0.9, -2.2};
    hrm::FreeSpace3D fs(r, arena, obs);
    int steps = 1 + mc::choose(2, "computations");
    for (int t = 0; t < steps; ++t) {
        bool last = t + 1 == steps;
        double th = last ? mc::pick(TH, "orientation") : 1.7;
        hrm::SE3Transform g = hrm::SE3Transform::Identity();
        g.topLeftCorner(3, 3) = rotAA(V3(1, -1, 2), th);
        fs.setRobotTransform(g);
        fs.computeCSpaceBoundary();
        auto bound = fs.getCSpaceBoundary();
        fs.computeCSpaceBoundaryMesh(bound);
        auto mesh = fs.getCSpaceBoundaryMesh();
        MC_CHECK(mesh.arena.size() == bound.arena.size() && mesh.obstacle.size() == bound.obstacle.size() && bound.arena.size() == arena.size() * (1 + r.getNumLinks()) && bound.obstacle.size() == obs.size() * (1 + r.getNumLinks()),
                 "count", "%d/%d arena and %d/%d obstacle boundaries", int(bound.arena.size()), int(mesh.arena.size()), int(bound.obstacle.size()), int(mesh.obstacle.size()));
        {
            auto rr = r;
            rr.robotTF(g);
            size_t k = 0;
            for (auto& a : arena) for (auto& b : rr.minkSum(a, -1)) { MC_CHECK((b - bound.arena.at(k)).cwiseAbs().maxCoeff() < 1e-9, "boundary", "arena boundary %d is not that of the placed robot", int(k)); ++k; }
            k = 0;
            for (auto& a : obs) for (auto& b : rr.minkSum(a, 1)) { MC_CHECK((b - bound.obstacle.at(k)).cwiseAbs().maxCoeff() < 1e-9, "boundary", "obstacle boundary %d is not that of the placed robot", int(k)); ++k; }
        }
        std::vector<hrm::MeshMatrix> ms = mesh.arena;
        ms.insert(ms.end(), mesh.obstacle.begin(), mesh.obstacle.end());
        std::vector<hrm::BoundaryPoints> all = bound.arena;
        all.insert(all.end(), bound.obstacle.begin(), bound.obstacle.end());
        for (size_t i = 0; i < ms.size(); ++i) {
            MC_CHECK(ms[i].vertices.cols() == all[i].cols() && (ms[i].vertices - all[i]).cwiseAbs().maxCoeff() == 0, "mesh", "mesh %d does not have the points of its boundary", int(i));
            std::vector<char> used(size_t(all[i].cols()), 0);
            int num = int(std::lround(std::sqrt(double(all[i].cols()))));
            for (int f = 0; f < ms[i].faces.rows(); ++f) for (int q = 0; q < 3; ++q) {
                double d = double(ms[i].faces(f, q));
                MC_CHECK(d >= 0 && d < double(all[i].cols()), "mesh", "mesh %d refers to point %g of %d", int(i), d, int(all[i].cols()));
                used[size_t(d)] = 1;
            }
            for (char u : used) MC_CHECK(u, "mesh", "a sampled point of boundary %d is not in its mesh", int(i));
            MC_CHECK(ms[i].faces.rows() >= 2 * (num - 1) * (num - 1), "mesh", "mesh %d has %d faces", int(i), int(ms[i].faces.rows()));
        }
        // sweep planes: generic, through surface vertices and through edge middles
        std::vector<double> tx{-7.3, 0.11, 5.2};
        for (size_t i = 0; i < all.size(); ++i) { tx.push_back(all[i](0, 3)); tx.push_back((all[i](0, 9) + all[i](0, 10)) / 2); }
        if (!mc::thorough() && tx.size() > 9) tx.resize(9);
        std::vector<double> ty;
        for (size_t i = 0; i < all.size(); ++i) for (int k : {3, 9, 10, 20}) ty.push_back(all[i](1, k) + (k == 20 ? 1e-3 : 0));
        for (double y : {-40.0, -15.0, -9.1, -4.4, -0.7, 0.3, 2.9, 6.6, 11.0, 40.0}) ty.push_back(y);
        std::sort(ty.begin(), ty.end());
        fs.setup(unsigned(ty.size()), bd[0], bd[1]);
        std::vector<double> tline;
        for (double x : tx) {
            tline.push_back(x);   // as the planner does: the last one is the current plane
            fs.computeIntersectionInterval({tline, ty});
            fs.computeFreeSegment(ty);
            mc::step(ty.size());
            const auto& s = fs.getFreeSegment();
            MC_CHECK(s.ty == ty && s.xL.size() == ty.size() && s.xU.size() == ty.size() && s.xM.size() == ty.size(), "rows", "%d rows for %d lines", int(s.xL.size()), int(ty.size()));
            for (size_t i = 0; i < ty.size(); ++i) {
                std::vector<Iv> va, vo;
                for (auto& m : mesh.arena) va.push_back(meshAt(m, x, ty[i], 10));
                for (auto& m : mesh.obstacle) vo.push_back(meshAt(m, x, ty[i], 10));
                judge(va, vo, bd[0], bd[1], row(s, i), 1e-4, mc::fmt("line x=%.12g y=%.12g", x, ty[i]).c_str());
            }
        }
        mc::state(mc::Hash().u(3).u(r.getNumLinks()).u(uint64_t(ar)).u(uint64_t(mask)).d(bd[0]).d(th).u(uint64_t(t)));
    }
    mc::outcome(mc::fmt("3D obstacles %d", cnt));
}
static void body() { if (mc::flip("3D")) run3(); else run2(); }
int main(int argc, char** argv) { return mc::run(argc, argv, body, mc::Options{5, 60}); }
