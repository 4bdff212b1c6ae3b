// 3D scene lattice and independent judges of roadmaps for rigid and articulated robots.
#pragma once
#include "mc.hpp"
#include "hrmgeo.hpp"
#include "hrm/config.h"
#include "hrm/planners/HRM3D.h"
#include "hrm/planners/HRM3DAblation.h"
#include "hrm/planners/ProbHRM3D.h"
#include <fstream>
#include "csv.hpp"
#include <memory>
namespace sc3 {
using namespace geo;
using M3 = Eigen::Matrix3d;
const double PI_ = 3.14159265358979323846;
struct Pose { V3 p; V3 axis; double ang; M3 R() const { return rotAA(axis, ang); } };
struct Body { V3 ax; Pose rel; };
/// joint of body k (k>=1): parent body (0 base), origin, axis; revolute
struct Joint { int parent; V3 xyz; V3 axis; };
struct Robot { const char* name; std::vector<Body> b; std::vector<Joint> j; };
struct Obj { V3 ax; double e1, e2; Pose g; };
struct Scene { const char* name; std::vector<Obj> arena, obs; V3 start, goal; };
const V3 Z3(0, 0, 0), EZ(0, 0, 1), EY(0, 1, 0), EX(1, 0, 0);
inline const std::vector<Robot>& robots() {
    static const std::vector<Robot> R{
        {"ellipsoid", {{V3(2, 1.2, 0.8), {Z3, EZ, 0}}}, {}},
        {"two-body", {{V3(1.5, 1, 0.9), {Z3, EZ, 0}}, {V3(1.8, 0.5, 0.6), {V3(1.5, 0.5, 1), EY, 1.0 - 2 * M_PI}}}, {}},
        {"offset-arms", {{V3(0.8, 0.9, 0.7), {Z3, EZ, 0}}, {V3(0.4, 0.7, 0.5), {V3(-1.2, -0.8, 0.6), V3(0, 1, 1), 2.2}}, {V3(2.2, 0.5, 0.5), {V3(2, 1, -0.5), V3(1, 1, 1), 0.9}}}, {}},
    };
    return R;
}
inline const std::vector<Robot>& arms() {
    static const std::vector<Robot> R{
        {"arm1", {{V3(1.2, 0.8, 0.6), {Z3, EZ, 0}}, {V3(1.6, 0.5, 0.4), {V3(1.6, 0, 0), EZ, 0}}}, {{0, V3(1, 0, 0), EZ}}},
        {"arm2", {{V3(1, 0.8, 0.7), {Z3, EZ, 0}}, {V3(1.3, 0.4, 0.5), {V3(1.3, 0, 0), EX, 0.3}}, {V3(0.9, 0.5, 0.4), {V3(0.8, 0.2, 0), EZ, -0.5}}}, {{0, V3(0.8, 0.2, 0.1), EY}, {1, V3(2.2, 0, 0), EZ}}},
        {"fork", {{V3(1, 1, 0.6), {Z3, EZ, 0}}, {V3(1.2, 0.4, 0.4), {V3(1.2, 0, 0), EZ, 0}}, {V3(1.5, 0.3, 0.5), {V3(-1.4, 0, 0), EZ, 0.2}}}, {{0, V3(0.7, 0, 0), EZ}, {0, V3(-0.7, 0, 0.2), EY}}},
    };
    return R;
}
inline const std::vector<Scene>& scenes() {
    static const Obj BOX{V3(12, 10, 8), 0.25, 0.25, {Z3, EZ, 0}};
    static const V3 S(-7, -5, -3), G(7, 5, 3);
    static const std::vector<Scene> V{
        {"empty", {BOX}, {}, S, G},
        {"block", {BOX}, {{V3(3, 3, 4), 0.4, 0.5, {V3(1, 0.5, 0), V3(std::cos(0.2), std::sin(0.2), 0), M_PI}}}, S, G},
        {"gap", {BOX}, {{V3(1.2, 5, 9), 0.4, 0.3, {V3(0, 6.5, 0), EZ, 0}}, {V3(1.2, 5, 9), 0.3, 0.4, {V3(0, -6.5, 0), EX, 3.1}}}, S, G},
        {"wall", {BOX}, {{V3(1, 14, 12), 0.5, 0.5, {V3(0.5, 0, 0), EZ, 0.1}}}, S, G},
        {"varied", {BOX}, {{V3(3, 2, 2.5), 1.5, 0.6, {V3(-3, 4, 2), V3(1, 0, 1), 0.8 - 2 * M_PI}}, {V3(2.5, 2.5, 2.5), 1, 1, {V3(4, -4, -2), EZ, 0}}, {V3(2, 4, 1.5), 0.6, 1.3, {V3(4, 4, 3), V3(1, 1, 0), 2.4}}}, S, G},
        {"overlap", {BOX}, {{V3(3, 2, 2), 0.5, 0.5, {Z3, EZ, 0}}, {V3(2, 3, 2), 1.2, 0.8, {V3(1.5, 1, 0.5), EX, 0.5 - M_PI}}}, S, G},
        {"two-arenas", {{V3(13, 11, 8), 0.4, 0.4, {V3(-1.5, 0, 0), EZ, 0.05 + 2 * M_PI}}, {V3(12, 11, 9), 1, 1, {V3(1, 0.5, 0), EY, 0.1}}}, {{V3(2, 2, 3), 0.4, 0.4, {V3(1, -1, 0), V3(1, 1, 1), 0.7}}}, V3(-6, -2, -1), V3(6, 2, 1)},
        {"round", {{V3(11, 10, 8), 1, 1, {Z3, EX, M_PI}}}, {{V3(2, 2, 1.2), 0.5, 0.5, {V3(2, 1, 1), EZ, 0.3}}, {V3(1.5, 3, 1), 1, 1, {V3(-3, -1, -1), EX, 0.4}}, {V3(2, 2, 1), 1, 0.5, {V3(-1, 3, 2), EY, 0.4 - M_PI}}}, V3(-5, 1, 1), V3(5, -2, -1)},
        {"no-room", {{V3(1.6, 1.4, 1.2), 0.6, 0.6, {Z3, EZ, 0}}}, {{V3(1, 1, 1), 1, 1, {V3(0.5, 0, 0), EZ, 0}}}, V3(-0.3, 0, 0), V3(0.3, 0, 0)},
    };
    return V;
}
struct Shipped { std::vector<Robot> r; std::vector<Scene> s; };
inline const Shipped& shipped() {
    static Shipped sh = [] {
        Shipped x;
        static const char* E[] = {"superquadrics_sparse", "superquadrics_cluttered", "superquadrics_maze", "superquadrics_narrow", "superquadrics_tunnel", "ellipsoid_sparse", "ellipsoid_cluttered", "ellipsoid_maze", "superquadrics_home"};
        static const char* R[] = {"rabbit", "rabbit2", "chair"};
        const std::string d = RESOURCES_PATH "/3D/";
        for (auto r : R) {
            Robot b{r, {}, {}};
            for (auto& l : csv::read(d + "robot_" + r + "_3D.csv")) b.b.push_back({V3(l[0], l[1], l[2]), {V3(l[5], l[6], l[7]), V3(l[8], l[9], l[10]), l[11]}});
            x.r.push_back(b);
        }
        auto obj = [](const std::vector<double>& l) { return Obj{V3(l[0], l[1], l[2]), l[3], l[4], {V3(l[5], l[6], l[7]), V3(l[8], l[9], l[10]), l[11]}}; };
        for (auto e : E) {
            Scene s{e, {}, {}, Z3, Z3};
            for (auto& l : csv::read(d + "env_" + e + "_3D_arena.csv")) s.arena.push_back(obj(l));
            for (auto& l : csv::read(d + "env_" + e + "_3D_obstacle.csv")) s.obs.push_back(obj(l));
            auto g = csv::read(d + "setting_" + e + "_3D.csv");
            s.start = V3(g.at(0)[0], g.at(0)[1], g.at(0)[2]); s.goal = V3(g.at(1)[0], g.at(1)[1], g.at(1)[2]);
            x.s.push_back(s);
        }
        return x;
    }();
    return sh;
}
struct El { V3 ax, p; M3 R; double h(const V3& n) const { return (R.transpose() * n).cwiseProduct(ax).norm(); } };
inline SQ3 of(const Obj& o) { return SQ3{o.ax.x(), o.ax.y(), o.ax.z(), o.e1, o.e2, o.g.p, o.g.R()}; }
inline M3 rotq(const std::vector<double>& v) { return rotOf(Eigen::Quaterniond(v[3], v[4], v[5], v[6])); }
/// every body of the robot at configuration v (x,y,z,qw,qx,qy,qz[,joints])
inline std::vector<El> place(const Robot& r, const std::vector<double>& v) {
    std::vector<El> out;
    M3 R0 = rotq(v);
    V3 p0(v[0], v[1], v[2]);
    std::vector<M3> FR{R0};
    std::vector<V3> FP{p0};
    for (size_t i = 0; i < r.b.size(); ++i) {
        M3 F = R0; V3 P = p0;
        if (i && !r.j.empty()) {
            auto& j = r.j[i - 1];
            P = FP[size_t(j.parent)] + FR[size_t(j.parent)] * j.xyz;
            F = FR[size_t(j.parent)] * rotAA(j.axis, v.at(7 + i - 1));
            FR.push_back(F); FP.push_back(P);
        }
        out.push_back({r.b[i].ax, P + F * r.b[i].rel.p, F * r.b[i].rel.R()});
    }
    return out;
}
inline double sweptGap(const SQ3& A, const El& B, const V3& seg, double stop) {
    V3 d = B.p - A.p;
    double rA = V3(A.a, A.b, A.c_).norm(), rB = B.ax.maxCoeff();
    auto f = [&](const V3& n) { return n.dot(d) - A.h(n) - B.h(n) - std::max(0., -n.dot(seg)); };
    {
        double L2 = seg.squaredNorm(), u = L2 > 0 ? std::min(1., std::max(0., -d.dot(seg) / L2)) : 0;
        V3 q = d + u * seg;
        if (q.norm() - rA - rB > stop) return q.norm() - rA - rB;
        if (q.norm() > 1e-9) { double y = f(q.normalized()); if (y > stop) return y; }
    }
    for (auto& n : sphere(60)) { double y = f(n); if (y > stop) return y; }
    double g = maxSphere(f, 500, 6, nullptr, stop);
    if (g > stop) return g;
    g = std::max(g, maxNormals(A, f, 20, 8));
    if (g > stop) return g;
    return std::max(g, maxSphere(f, 2500, 30, nullptr, stop));
}
/// grid of normals and boundary points of the sum/difference of A with an ellipsoid, sampled as superquadrics are
struct Grid { int n; std::vector<V3> P, N; };
inline Grid sampled(const SQ3& A, const El* B, int num) {
    auto sp = [](double x, double p) { return x < 0 ? -std::pow(-x, p) : std::pow(x, p); };
    Grid g{num, {}, {}};
    for (int i = 0; i < num; ++i) for (int j = 0; j < num; ++j) {
        double e = -PI_ / 2 + PI_ * i / (num - 1), w = -PI_ + 2 * PI_ * j / (num - 1);
        V3 n(sp(std::cos(e), 2 - A.e1) * sp(std::cos(w), 2 - A.e2) / A.a, sp(std::cos(e), 2 - A.e1) * sp(std::sin(w), 2 - A.e2) / A.b, sp(std::sin(e), 2 - A.e1) / A.c_);
        n.normalize();
        V3 p(A.a * sp(std::cos(e), A.e1) * sp(std::cos(w), A.e2), A.b * sp(std::cos(e), A.e1) * sp(std::sin(w), A.e2), A.c_ * sp(std::sin(e), A.e1));
        if (B) {
            V3 m = (B->R.transpose() * n).cwiseProduct(B->ax);
            p += B->R * m.cwiseProduct(B->ax) / m.norm();
        }
        g.P.push_back(p); g.N.push_back(n);
    }
    return g;
}
struct Key { double v[12]; bool operator<(const Key& k) const { return std::lexicographical_compare(v, v + 12, k.v, k.v + 12); } };
inline Key keyOf(const Obj& o, const V3& ax, const M3& rel, int num, bool diff) {
    M3 Q = rel * ax.cwiseAbs2().asDiagonal() * rel.transpose();
    auto r = [](double x) { double y = std::round(x * 1e7); return y == 0 ? 0. : y; };
    return Key{{o.ax.x(), o.ax.y() + 1e3 * o.e1, o.ax.z() + 1e3 * o.e2, r(Q(0, 0)), r(Q(1, 1)), r(Q(2, 2)), r(Q(0, 1)), r(Q(0, 2)), r(Q(1, 2)), double(num), double(diff), 0}};
}
inline double sag3(const Obj& o, const V3& ax, const M3& relR, int num) {
    static std::map<Key, double> cache;
    Key k = keyOf(o, ax, relR, num, false);
    auto it = cache.find(k);
    if (it != cache.end()) return it->second;
    SQ3 A{o.ax.x(), o.ax.y(), o.ax.z(), o.e1, o.e2, Z3, M3::Identity()};
    El B{ax, Z3, relR};
    Grid g = sampled(A, &B, num);
    double worst = 0;
    auto at = [&](int i, int j) { return size_t(i * num + j); };
    for (int i = 0; i + 1 < num; ++i) for (int j = 0; j + 1 < num; ++j) {
        size_t c[4] = {at(i, j), at(i + 1, j), at(i, j + 1), at(i + 1, j + 1)};
        static const double W[][4] = {{.5, .5, 0, 0}, {.5, 0, .5, 0}, {.5, 0, 0, .5}, {0, .5, .5, 0}, {0, 0.5, 0, .5}, {0, 0, .5, .5}, {.34, .33, .33, 0}, {0, .33, .33, .34}, {.34, .33, 0, .33}, {.33, 0, .33, .34}, {.25, .75, 0, 0}, {.75, .25, 0, 0}, {.25, 0, .75, 0}, {.75, 0, .25, 0}};
        for (auto& w : W) {
            V3 p = Z3, n = Z3;
            for (int q = 0; q < 4; ++q) { p += w[q] * g.P[c[q]]; n += w[q] * g.N[c[q]]; }
            double d = INFINITY;
            if (n.norm() > 1e-6) { n.normalize(); d = A.h(n) + B.h(n) - n.dot(p); }
            for (int q = 0; q < 4; ++q) if (w[q] > 0) d = std::min(d, g.N[c[q]].dot(g.P[c[q]] - p));
            worst = std::max(worst, d);
        }
    }
    return cache[k] = worst;
}
inline double sagOut3(const Obj& o, const V3& ax, const M3& relR, int num) {
    static std::map<Key, double> cache;
    Key k = keyOf(o, ax, relR, num, true);
    auto it = cache.find(k);
    if (it != cache.end()) return it->second;
    SQ3 A{o.ax.x(), o.ax.y(), o.ax.z(), o.e1, o.e2, Z3, M3::Identity()};
    El B{ax, Z3, relR};
    Grid g = sampled(A, nullptr, num);
    double worst = 0;
    auto at = [&](int i, int j) { return size_t(i * num + j); };
    auto H = [&](const V3& n) { return A.h(n) - B.h(n); };
    for (int i = 0; i + 1 < num; ++i) for (int j = 0; j + 1 < num; ++j) {
        size_t c[4] = {at(i, j), at(i + 1, j), at(i, j + 1), at(i + 1, j + 1)};
        static const double W[][4] = {{.5, .5, 0, 0}, {.5, 0, .5, 0}, {.5, 0, 0, .5}, {0, .5, .5, 0}, {0, 0.5, 0, .5}, {0, 0, .5, .5}, {.25, .25, .25, .25}, {.25, .75, 0, 0}, {.75, .25, 0, 0}};
        for (auto& w : W) {
            V3 n = Z3; double b = 0;
            for (int q = 0; q < 4; ++q) { n += w[q] * g.N[c[q]]; b += w[q] * H(g.N[c[q]]); }
            double l = n.norm();
            if (l < 0.2) continue;
            worst = std::max(worst, b / l - H(n / l));
        }
    }
    return cache[k] = worst;
}
struct Judge {
    const Robot& r;
    const Scene& s;
    int num;
    bool exact = false;   // the variant checks collisions itself (no sampled boundary between orientations)
    double tol(const Obj& o, const El& b) const { return 1.2 * sag3(o, b.ax, o.g.R().transpose() * b.R, num) + 3e-5; }
    double hit(const std::vector<double>& v, const V3& seg, int* body = nullptr, int* ob = nullptr) const {
        double worst = -INFINITY;
        auto bs = place(r, v);
        for (size_t i = 0; i < bs.size(); ++i) for (size_t j = 0; j < s.obs.size(); ++j) {
            double g = sweptGap(of(s.obs[j]), bs[i], seg, 0);
            mc::eval();
            if (g > 0) continue;
            double t = tol(s.obs[j], bs[i]);
            mc::maxi("tolerance/body", t / bs[i].ax.maxCoeff());
            mc::maxi("penetration/tolerance", -g / t);
            if (-g - t > worst) { worst = -g - t; if (body) *body = int(i); if (ob) *ob = int(j); }
        }
        return worst;
    }
    double hitTurn(const std::vector<double>& v, int* body = nullptr, int* ob = nullptr) const {
        double worst = -INFINITY;
        auto bs = place(r, v);
        for (size_t i = 0; i < bs.size(); ++i) for (size_t j = 0; j < s.obs.size(); ++j) {
            double g = sweptGap(of(s.obs[j]), bs[i], Z3, 0);
            mc::eval();
            if (g > 0) continue;
            double m = bs[i].ax.maxCoeff();
            double t = exact ? 0.02 * (m + s.obs[j].ax.maxCoeff()) + sag3(s.obs[j], V3(1e-3, 1e-3, 1e-3), M3::Identity(), num)
                             : 1.2 * sag3(s.obs[j], V3(m, m, m), M3::Identity(), num) + tol(s.obs[j], bs[i]);
            mc::maxi(r.j.empty() ? "turn-tolerance/body" : "articulated-turn-tolerance/body", t / m);
            mc::maxi(r.j.empty() ? "turn-penetration/tolerance" : "articulated-turn-penetration/tolerance", -g / t);
            if (!exact) mc::maxi(r.j.empty() ? "turn-penetration" : "articulated-turn-penetration", -g);
            if (-g - t > worst) { worst = -g - t; if (body) *body = int(i); if (ob) *ob = int(j); }
        }
        return worst;
    }
    double leave(const std::vector<double>& v) const {
        double worst = -INFINITY;
        auto bs = place(r, v);
        for (auto& B : bs) for (auto& a : s.arena) {
            SQ3 A = of(a);
            V3 d = B.p - A.p;
            double reach = B.ax.maxCoeff(), f = A.F(B.p);
            mc::eval();
            if (a.e1 <= 1 && a.e2 <= 1 && (1 - f) * a.ax.minCoeff() > reach) continue;
            auto F = [&](const V3& n) { return n.dot(d) + B.h(n) - A.h(n); };
            double t = 1.2 * sagOut3(a, B.ax, a.g.R().transpose() * B.R, num) + 3e-5;
            double o = std::max(maxSphere(F, 200, 3), maxNormals(A, F, 8, 3));
            mc::maxi("outside/tolerance", o / t);
            worst = std::max(worst, o - t);
        }
        return worst;
    }
};
template <class P> struct Timed : P {
    using P::P;
    double sliceCost = 1, searchCost = 0.125;
    int slices = 0, searches = 0;
    std::function<void(int)> afterSlice, afterSearch;
    double stopAt = 1e300;   // a planner that overruns its limit this far never ends (R11 judges that)
    void plan(const double timeLim) override { stopAt = double(env::e().ns) * 1e-9 + timeLim + 20; P::plan(timeLim); }
    void constructOneSlice(const hrm::Index i) override {
        if ((this->isRefine_ && double(env::e().ns) * 1e-9 > stopAt) || slices > 2000) throw mc::Prune();
        P::constructOneSlice(i); slices++; env::tick(sliceCost); if (afterSlice) afterSlice(slices);
    }
    std::vector<hrm::planners::Vertex> getNearestNeighborsOnGraph(const std::vector<hrm::Coordinate>& v, const hrm::Index k, const double r) override {
        if (searches++ % 2 == 0) { env::tick(searchCost); if (afterSearch) afterSearch(searches / 2 + 1); }
        return P::getNearestNeighborsOnGraph(v, k, r);
    }
};
using Base = hrm::planners::HRM3D;
enum Kind { RIGID, ABLATION, PROB, PROBABL };
struct Param { int kind, orient, linesX, linesY, points, rounds, bounds; bool far = false; };
struct Case {
    const Robot* r; const Scene* s; Param p; int num; int id = 0;
    std::unique_ptr<hrm::MultiBodyTree3D> robot;
    std::vector<hrm::SuperQuadrics> arena, obs;
    hrm::PlanningRequest req;
    std::string urdf;
};
inline Eigen::Quaterniond Q(const V3& ax, double a, bool neg = false) {
    V3 u = ax.normalized() * std::sin(a / 2);
    double w = std::cos(a / 2);
    return neg ? Eigen::Quaterniond(-w, -u.x(), -u.y(), -u.z()) : Eigen::Quaterniond(w, u.x(), u.y(), u.z());
}
/// predefined orientation sets; an empty one leaves the choice to the random source
inline std::vector<Eigen::Quaterniond> orientations(int k) {
    switch (k) {
        case 0: return {Q(EZ, 0)};
        case 1: return {Q(EZ, 0.3), Q(V3(1, 1, 0), 0.9)};
        case 2: return {Q(V3(0, 1, 1), 1.2), Q(V3(0, 1, 1), 1.5, true), Q(EX, -0.7), Q(V3(1, 2, 3), 2.9)};
        case 3: return {Q(EZ, 0), Q(EZ, PI_ / 2), Q(EZ, PI_), Q(EX, PI_), Q(EY, PI_ / 2), Q(V3(1, 1, 1), 2 * PI_ / 3)};
    }
    return {};
}
inline int slicesOf(int k) { return k < 4 ? int(orientations(k).size()) : k == 4 ? 1 : k == 5 ? 3 : 5; }
inline std::string urdfFile(const Robot& r) {
    std::string n = std::string("./") + r.name + "." + std::to_string(getpid()) + ".urdf";
    static std::set<std::string> done;
    if (done.insert(n).second) {
        std::ofstream o(n);
        o.precision(17);
        o << "<?xml version=\"1.0\"?>\n<robot name=\"r\">\n<link name=\"base\"/>\n";
        for (size_t i = 0; i < r.j.size(); ++i) o << "<link name=\"body" << i + 1 << "\"/>\n";
        for (size_t i = 0; i < r.j.size(); ++i) {
            auto& j = r.j[i];
            o << "<joint name=\"joint" << i + 1 << "\" type=\"revolute\"><parent link=\"" << (j.parent ? "body" + std::to_string(j.parent) : std::string("base"))
              << "\"/><child link=\"body" << i + 1 << "\"/><origin rpy=\"0 0 0\" xyz=\"" << j.xyz.x() << " " << j.xyz.y() << " " << j.xyz.z() << "\"/><axis xyz=\""
              << j.axis.x() << " " << j.axis.y() << " " << j.axis.z() << "\"/><limit effort=\"1\" lower=\"-9\" upper=\"9\" velocity=\"1\"/></joint>\n";
        }
        o << "</robot>\n";
    }
    return n;
}
inline hrm::SuperQuadrics sq(const Obj& o, int num) {
    return hrm::SuperQuadrics({o.ax.x(), o.ax.y(), o.ax.z()}, {o.e1, o.e2}, {o.g.p.x(), o.g.p.y(), o.g.p.z()}, Q(o.g.axis, o.g.ang), hrm::Index(num));
}
inline void build(Case& c) {
    auto& rb = *c.r;
    auto el = [&](const Body& b) { return hrm::SuperQuadrics({b.ax.x(), b.ax.y(), b.ax.z()}, {1, 1}, {b.rel.p.x(), b.rel.p.y(), b.rel.p.z()}, Q(b.rel.axis, b.rel.ang), hrm::Index(c.num)); };
    hrm::SuperQuadrics base = el(rb.b[0]);
    auto qs = orientations(c.p.orient);
    if (!qs.empty() && c.p.kind < PROB) base.setQuatSamples(qs);
    c.robot.reset(new hrm::MultiBodyTree3D(base));
    for (size_t i = 1; i < rb.b.size(); ++i) c.robot->addBody(el(rb.b[i]));
    c.arena.clear(); c.obs.clear();
    for (auto& o : c.s->arena) c.arena.push_back(sq(o, c.num));
    for (auto& o : c.s->obs) c.obs.push_back(sq(o, c.num));
    V3 X = c.s->arena[0].ax;
    if (X.x() < 5) c.req.parameters.boundaryLimits = {-X.x(), X.x(), -X.y(), X.y(), -X.z(), X.z()};
    else if (c.p.bounds == 0) c.req.parameters.boundaryLimits = {-X.x() + 2, X.x() - 2.5, -X.y() + 2.1, X.y() - 1.9, -X.z() + 1, X.z() - 1.5};
    else c.req.parameters.boundaryLimits = {-X.x() - 1, X.x() + 2, -X.y() - 1, X.y() + 2, -X.z() - 2, X.z() + 1};
    if (c.p.bounds == 2) {
        V3 x0 = c.s->arena[0].g.p, k = V3(1, 1, 1) * 1.2 * rb.b[0].ax.x();
        c.req.parameters.boundaryLimits = {x0.x() - X.x() + k.x(), x0.x() + X.x() - k.x(), x0.y() - X.y() + k.y(), x0.y() + X.y() - k.y(), x0.z() - X.z() + k.z(), x0.z() + X.z() - k.z()};
    }
    // predefined orientations count, whatever number was asked for
    const int asked = qs.empty() || c.p.kind >= PROB || c.p.linesY % 2 ? 0 : c.p.linesX % 2 ? 4 : -slicesOf(c.p.orient);
    c.req.parameters.numSlice = hrm::Index(slicesOf(c.p.orient) + asked);
    c.req.parameters.numLineX = hrm::Index(c.p.linesX);
    c.req.parameters.numLineY = hrm::Index(c.p.linesY);
    c.req.parameters.numPoint = hrm::Index(c.p.points);
    c.req.isRobotRigid = c.p.kind < PROB;
    auto cfg = [&](const V3& p, const Eigen::Quaterniond& q, double j) {
        std::vector<double> v{p.x(), p.y(), p.z(), q.w(), q.x(), q.y(), q.z()};
        for (size_t i = 0; i < rb.j.size(); ++i) v.push_back(j + 0.2 * double(i));
        return v;
    };
    c.req.start = cfg(c.s->start, Q(V3(0.2, 0, 1), 0.4), 0.3);
    c.req.goal = cfg(c.s->goal, Q(V3(0, 1, 1), 1.1), -0.5);
    if (c.p.far) {   // never reached; the slices are near each other when the random numbers are
        c.req.start = cfg(c.s->start, Eigen::Quaterniond(0.05, -0.7, 0.02, -0.71).normalized(), -0.2);
        c.req.goal = cfg(c.s->goal + V3(1000, 0, 0), Eigen::Quaterniond(-0.05, -0.68, -0.1, -0.72).normalized(), 0.1);
    }
    if (c.p.kind >= PROB) c.urdf = urdfFile(rb);
}
inline std::unique_ptr<Base> make(Case& c) {
    using namespace hrm::planners;
    switch (c.p.kind) {
        case RIGID: return std::unique_ptr<Base>(new Timed<HRM3D>(*c.robot, c.arena, c.obs, c.req));
        case ABLATION: return std::unique_ptr<Base>(new Timed<HRM3DAblation<HRM3D>>(*c.robot, c.arena, c.obs, c.req));
        case PROB: return std::unique_ptr<Base>(new Timed<ProbHRM3D>(*c.robot, c.urdf, c.arena, c.obs, c.req));
    }
    return std::unique_ptr<Base>(new Timed<HRM3DAblation<ProbHRM3D>>(*c.robot, c.urdf, c.arena, c.obs, c.req));
}
/// time limit that lets `rounds` refinement rounds begin (rigid), or that many slices be sampled (articulated)
inline double limit(const Case& c) {
    int n = slicesOf(c.p.orient);
    if (c.p.kind >= PROB) return c.p.rounds * 1.125 - 0.01;
    return c.p.rounds == 0 ? 0.0 : (n + 0.125) + (c.p.rounds - 1) * n * 1.125 + 0.01;
}
inline double qdist(const std::vector<double>& v, const std::vector<double>& w) {   // angle between the orientations
    double d = 0;
    for (int i = 3; i < 7; ++i) d += v[size_t(i)] * w[size_t(i)];
    return 2 * std::acos(std::min(1., std::fabs(d)));
}
inline bool sameTurn(const std::vector<double>& v, const std::vector<double>& w) {
    if (qdist(v, w) > 1e-6) return false;
    for (size_t i = 7; i < v.size(); ++i) if (std::fabs(v[i] - w[i]) > 1e-9) return false;
    return true;
}
/// the oracle's own interpolation: uniform positions and joints, shortest rotation at constant rate
inline std::vector<double> between(const std::vector<double>& v, const std::vector<double>& w, double t) {
    std::vector<double> o(v.size());
    for (size_t i = 0; i < v.size(); ++i) o[i] = v[i] + t * (w[i] - v[i]);
    M3 A = rotq(v), B = rotq(w), D = A.transpose() * B;
    double tr = std::min(1., std::max(-1., (D.trace() - 1) / 2)), ang = std::acos(tr);
    double d = 0, s = 1;
    for (int i = 3; i < 7; ++i) d += v[size_t(i)] * w[size_t(i)];
    if (d < 0) s = -1;
    double half = ang / 2;
    for (int i = 3; i < 7; ++i) {
        double a = v[size_t(i)], b = s * w[size_t(i)];
        o[size_t(i)] = half < 1e-7 ? a + t * (b - a) : (std::sin((1 - t) * half) * a + std::sin(t * half) * b) / std::sin(half);
    }
    return o;
}
inline std::string cfg(const std::vector<double>& v) { std::string s = "("; for (auto x : v) s += mc::fmt("%s%.7g", s.size() > 1 ? "," : "", x); return s + ")"; }
/// chooses a case of the lattice (steps: with every step count)
inline void pickCase(Case& c, bool steps) {
    static const int LN[][2] = {{3, 3}, {1, 1}, {2, 4}, {5, 3}, {6, 6}};
    static const int NP[] = {1, 2, 5};
    int src = mc::choose(5, "planner");
    bool ship = src == 4;
    c.p.kind = ship ? mc::choose(steps || mc::thorough() ? 2 : 1, "variant") : src;
    int kind = c.p.kind;
    auto& V = ship ? shipped().s : scenes();
    auto& R = ship ? shipped().r : kind < PROB ? robots() : arms();
    int si = mc::choose(int(V.size()), "scene"), ri = mc::choose(int(R.size()), "robot");
    c.id = si * 16 + ri;
    c.s = &V[size_t(si)]; c.r = &R[size_t(ri)];
    env::reset();
    c.p.orient = 0; c.p.bounds = 0; c.p.rounds = 0;
    if (ship) {
        c.p.orient = mc::thorough() ? 1 + mc::choose(3, "orientations") : 1;
        c.p.linesX = mc::thorough() ? 6 : 4; c.p.linesY = mc::thorough() ? 5 : 3;
        c.p.points = 5; c.p.bounds = 2;
    } else if (kind < PROB) {
        c.p.orient = mc::choose(mc::thorough() ? 6 : 5, "orientations");
        if (!mc::thorough() && c.p.orient == 4) c.p.orient = 5;
        int l = mc::choose(mc::thorough() ? 5 : 4, "lines");
        c.p.linesX = LN[l][0]; c.p.linesY = LN[l][1];
        c.p.points = steps || mc::thorough() ? mc::pick(NP, "points") : 2;
        c.p.bounds = mc::choose(2, "bounds");
        c.p.rounds = mc::choose(2, "rounds");
        if (c.p.rounds && c.p.linesX * c.p.linesY > 9) mc::assume(mc::thorough());
    } else {
        int l = mc::choose(mc::thorough() ? 3 : 2, "lines");
        c.p.linesX = LN[l][0]; c.p.linesY = LN[l][1];
        if (l == 0 && !mc::thorough()) c.p.linesX = c.p.linesY = 2;
        c.p.points = steps ? mc::pick(NP, "points") : 2;
        // a goal that is never reached keeps it sampling
        const int n = mc::choose(mc::thorough() ? 6 : 4, "slices");
        c.p.far = n == 3 || n == 5;
        c.p.rounds = n == 3 ? 7 : n == 5 ? 14 : 2 + n;
        if (c.p.far && steps && l) { c.p.linesX = 7; c.p.linesY = 6; }
        env::e().rnd = unsigned(1 + 77 * mc::choose(mc::thorough() ? 3 : 1, "rand"));
        if (c.p.far) { static const double SP[] = {0.1, 0.25, 1}; env::e().span = SP[mc::choose(steps || mc::thorough() ? 3 : 1, "random-range")]; }
        env::e().rngSeed = 5;
    }
    c.num = mc::thorough() ? (c.p.linesX * c.p.linesY <= 9 ? 30 : 22) : ship ? 16 : 22;
}
}  // namespace sc3
