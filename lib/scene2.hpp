// 2D scene lattice and independent judges of roadmaps: bodies are placed by the oracle itself from the scene's own description.
#pragma once
#include "mc.hpp"
#include "hrmgeo.hpp"
#include "hrm/config.h"
#include "hrm/planners/HRM2D.h"
#include "hrm/planners/HRM2DKC.h"
#include "csv.hpp"
#include <memory>
namespace sc2 {
using namespace geo;
const double PI_ = 3.14159265358979323846;
struct Body { double a, b, x, y, th; };                       // ellipse relative to the base
struct Robot { const char* name; std::vector<Body> b; };
struct Obj { double a, b, eps, x, y, th; };
struct Scene { const char* name; std::vector<Obj> arena, obs; std::vector<double> start, goal; };
inline const std::vector<Robot>& robots() {
    static const std::vector<Robot> R{
        {"ellipse", {{2, 1, 0, 0, 0}}},
        {"two-link", {{1.5, 1, 0, 0, 0}, {2.5, 0.6, 2, 0.5, 1.4}}},
        {"circle", {{1, 1, 0, 0, 0}}},
        {"offset-arms", {{1, 0.7, 0, 0, 0}, {0.4, 0.5, 0.6, -0.5, -2.0}, {3, 0.5, 3, 1.5, 0.7}, {0.4, 1.6, -1.5, -1, -2.6}}},
    };
    return R;
}
inline const std::vector<Scene>& scenes() {
    static const Obj BOX{20, 15, 0.1, 0, 0, 0};
    static const std::vector<double> S{-13, -8, 0.4}, G{13, 8, -2.0};
    static const std::vector<Scene> V{
        {"empty", {BOX}, {}, S, G},
        {"block", {BOX}, {{6, 4, 0.3, 2, 1, 3.4416}}, S, G},
        {"gap", {BOX}, {{1.5, 8, 0.2, 0, 9.3, 0}, {1.5, 8, 0.2, 0, -9.3, -3.0916}}, S, G},
        {"wall", {BOX}, {{1, 22, 0.4, 1, 0, -6.1832}}, S, G},
        {"varied", {BOX}, {{5, 3, 1.5, -6, 5, -2.2416}, {4, 4, 1.0, 7, -6, 0}, {3, 6, 0.7, 4, 7, -0.5}}, S, G},
        {"corridor", {BOX}, {{12, 1, 0.3, -4, 3.5, 3.14159265}, {12, 1, 0.3, 4, -1.5, 0}}, S, G},
        {"overlap", {BOX}, {{4, 3, 0.5, 0, 0, 0}, {3, 4, 1.2, 2, 2, 2.2}, {1, 1, 1, 0, 1, 0}}, S, G},
        {"two-arenas", {{22, 16, 0.3, -3, 0, 3.1916}, {20, 17, 1, 2, 1, -0.1}}, {{2, 2, 0.2, 3, -2, 0.8}}, {-12, -3, 0.4}, {12, 4, -2.0}},
        {"round", {{18, 15, 1, 0, 0, -2.9416}}, {{3, 3, 0.4, 5, 4, 0}, {2, 5, 1, -6, -3, 0.4}}, {-11, 3, 3.0}, {10, -5, -3.1}},
        {"crowded", {BOX}, {{2, 2, 0.2, -8, -7, -1.1}, {2, 2, 1.7, -8, 0, 0}, {2, 2, 1, -8, 7, 0}, {2, 3, 0.5, 8, -7, 3.3416}, {2, 2, 0.1, 8, 0.5, 0}, {3, 1.5, 1, 8, 8, 1}}, S, G},
        {"no-room", {{2.2, 1.2, 0.5, 0, 0, 0}}, {{1, 1, 1, 1, 0, 0}}, {-0.5, 0, 0}, {0.5, 0, 0}},
    };
    return V;
}
inline SE2 place(const Body& b, double x, double y, double th) {
    double c = std::cos(th), s = std::sin(th);
    return SE2{b.a, b.b, 1, x + c * b.x - s * b.y, y + s * b.x + c * b.y, th + b.th};
}
inline SE2 of(const Obj& o) { return SE2{o.a, o.b, o.eps, o.x, o.y, o.th}; }
/// separation of A from B swept along seg; exact maximum over directions, ended early once it is above stop
inline double sweptGap(const SE2& A, const SE2& B, const V2& seg, double stop) {
    V2 d = B.c() - A.c();
    double rA = std::hypot(A.a, A.b), rB = std::max(B.a, B.b);
    auto f = [&](double t) { V2 n = dir2(t); return n.dot(d) - A.h(n) - B.h(n) - std::max(0., -n.dot(seg)); };
    {   // far away
        double L2 = seg.squaredNorm(), u = L2 > 0 ? std::min(1., std::max(0., -d.dot(seg) / L2)) : 0;
        V2 q = d + u * seg;
        if (q.norm() - rA - rB > stop) return q.norm() - rA - rB;
        double y = f(std::atan2(q.y(), q.x()));
        if (y > stop) return y;
    }
    double best = -INFINITY;
    for (int i = 0; i < 48; ++i) { double y = f(TAU * i / 48); if (y > stop) return y; best = std::max(best, y); }
    return maxCircle(f, 480);
}
/// sampling error of the boundary of the sum of A (num points) with ellipse B: an upper bound of how deep the closed polygon runs inside
inline double sag2(const Obj& o, double ba, double bb, double brel, int num) {
    struct K { double v[7]; bool operator<(const K& k) const { return std::lexicographical_compare(v, v + 7, k.v, k.v + 7); } };
    static std::map<K, double> cache;
    K k{{o.a, o.b, o.eps, ba, bb, std::round(brel * 1e9), double(num)}};
    auto it = cache.find(k);
    if (it != cache.end()) return it->second;
    SE2 A{o.a, o.b, o.eps, 0, 0, 0}, B{ba, bb, 1, 0, 0, brel};
    auto sp = [](double x, double p) { return x < 0 ? -std::pow(-x, p) : std::pow(x, p); };
    std::vector<V2> P, N;
    for (int i = 0; i < num; ++i) {
        double t = TAU * i / (num - 1);
        V2 n(sp(std::cos(t), 2 - o.eps) / o.a, sp(std::sin(t), 2 - o.eps) / o.b);
        n.normalize();
        V2 p(o.a * sp(std::cos(t), o.eps), o.b * sp(std::sin(t), o.eps));
        double c = std::cos(brel), s = std::sin(brel);
        double m0 = ba * (c * n.x() + s * n.y()), m1 = bb * (-s * n.x() + c * n.y()), h = std::hypot(m0, m1);
        P.push_back(p + V2(c * ba * m0 / h - s * bb * m1 / h, s * ba * m0 / h + c * bb * m1 / h));
        N.push_back(n);
    }
    double worst = 0;
    for (int i = 0; i + 1 < num; ++i)
        for (int q = 1; q < 8; ++q) {
            V2 p = P[size_t(i)] + q / 8. * (P[size_t(i) + 1] - P[size_t(i)]);
            V2 n = ((1 - q / 8.) * N[size_t(i)] + q / 8. * N[size_t(i) + 1]).normalized();
            double dp = std::min({A.h(n) + B.h(n) - n.dot(p), N[size_t(i)].dot(P[size_t(i)] - p), N[size_t(i) + 1].dot(P[size_t(i) + 1] - p)});
            worst = std::max(worst, dp);
        }
    return cache[k] = worst;
}
/// sampling error of the difference of arena A with ellipse B: how far a vertex of the sampled half-planes may stick out
inline double sagOut2(const Obj& o, double ba, double bb, double brel, int num) {
    struct K { double v[7]; bool operator<(const K& k) const { return std::lexicographical_compare(v, v + 7, k.v, k.v + 7); } };
    static std::map<K, double> cache;
    K k{{o.a, o.b, o.eps, ba, bb, std::round(brel * 1e9), double(num)}};
    auto it = cache.find(k);
    if (it != cache.end()) return it->second;
    SE2 A{o.a, o.b, o.eps, 0, 0, 0}, B{ba, bb, 1, 0, 0, brel};
    auto sp = [](double x, double p) { return x < 0 ? -std::pow(-x, p) : std::pow(x, p); };
    std::vector<V2> N;
    for (int i = 0; i < num; ++i) {
        double t = TAU * i / (num - 1);
        V2 n(sp(std::cos(t), 2 - o.eps) / o.a, sp(std::sin(t), 2 - o.eps) / o.b);
        N.push_back(n.normalized());
    }
    double worst = 0;
    for (int i = 0; i + 1 < num; ++i) {
        const V2 &n1 = N[size_t(i)], &n2 = N[size_t(i) + 1];
        double det = n1.x() * n2.y() - n1.y() * n2.x();
        if (std::fabs(det) < 1e-12) continue;
        double h1 = A.h(n1) - B.h(n1), h2 = A.h(n2) - B.h(n2);
        V2 v((h1 * n2.y() - h2 * n1.y()) / det, (n1.x() * h2 - n2.x() * h1) / det);
        for (int q = 1; q < 8; ++q) {
            V2 n = ((1 - q / 8.) * n1 + q / 8. * n2).normalized();
            worst = std::max(worst, n.dot(v) + B.h(n) - A.h(n));
        }
    }
    return cache[k] = worst;
}
struct Judge {
    const Robot& r;
    const Scene& s;
    int num;
    double infl = 1;      // robot inflation of the variant, for the sampling error only
    double tol(const Obj& o, const Body& b, double th) const { return 1.2 * sag2(o, b.a * infl, b.b * infl, th + b.th - o.th, num) + 2e-5; }
    /// deepest penetration beyond the sampling error on the straight translation from (x,y) along seg; <=0: fine
    double hit(double x, double y, double th, const V2& seg, int* body = nullptr, int* ob = nullptr) const {
        double worst = -INFINITY;
        for (size_t i = 0; i < r.b.size(); ++i) {
            SE2 B = place(r.b[i], x, y, th);
            for (size_t j = 0; j < s.obs.size(); ++j) {
                double g = sweptGap(of(s.obs[j]), B, seg, 0);
                mc::eval();
                if (g > 0) continue;
                double t = tol(s.obs[j], r.b[i], th);
                mc::maxi("penetration/tolerance", -g / t);
                if (-g - t > worst) { worst = -g - t; if (body) *body = int(i); if (ob) *ob = int(j); }
            }
        }
        return worst;
    }
    /// tolerance of a motion through headings: the cover of the rotating body is judged as a full circle of its reach
    double hitTurn(double x, double y, double th, int* body = nullptr, int* ob = nullptr) const {
        double worst = -INFINITY;
        for (size_t i = 0; i < r.b.size(); ++i) {
            SE2 B = place(r.b[i], x, y, th);
            for (size_t j = 0; j < s.obs.size(); ++j) {
                double g = sweptGap(of(s.obs[j]), B, V2(0, 0), 0);
                mc::eval();
                if (g > 0) continue;
                double m = std::max(r.b[i].a, r.b[i].b);
                double t = 1.2 * sag2(s.obs[j], m, m, 0, num) + tol(s.obs[j], r.b[i], th);
                mc::maxi("turn-penetration/tolerance", -g / t);
                if (-g - t > worst) { worst = -g - t; if (body) *body = int(i); if (ob) *ob = int(j); }
            }
        }
        return worst;
    }
    /// how far a body sticks out of an arena beyond the sampling error
    double leave(double x, double y, double th) const {
        double worst = -INFINITY;
        for (auto& b : r.b) {
            SE2 B = place(b, x, y, th);
            for (auto& a : s.arena) {
                SE2 A = of(a);
                V2 d = B.c() - A.c();
                double reach = std::max(B.a, B.b);
                mc::eval();
                {   // well inside: the gauge ball
                    double f = A.F(B.c());
                    double rin = std::min(A.a, A.b) / std::sqrt(2.);   // every convex superellipse with eps<2 holds this disc
                    if (a.eps <= 1) rin = std::min(A.a, A.b);
                    if ((1 - f) * rin > reach) continue;
                }
                double o = maxCircle([&](double t) { V2 n = dir2(t); return n.dot(d) + B.h(n) - A.h(n); }, 240);
                double t = 1.2 * sagOut2(a, b.a * infl, b.b * infl, th + b.th - a.th, num) + 2e-5;
                mc::maxi("outside/tolerance", o / t);
                worst = std::max(worst, o - t);
            }
        }
        return worst;
    }
};
/// a planner whose clock advances with its work
template <class P> struct Timed : P {
    using P::P;
    double sliceCost = 1, searchCost = 0.125;
    int slices = 0, searches = 0;
    std::function<void(int)> afterSlice, afterSearch;
    double stopAt = 1e300;   // a planner that overruns its limit this far never ends (R11 judges that)
    void plan(const double timeLim) override { stopAt = double(env::e().ns) * 1e-9 + timeLim + 20; P::plan(timeLim); }
    void constructOneSlice(const hrm::Index i) override {
        if ((this->isRefine_ && double(env::e().ns) * 1e-9 > stopAt) || slices > 2000) throw mc::Prune();
        P::constructOneSlice(i); slices++; env::tick(sliceCost); if (afterSlice) afterSlice(slices);
    }
    std::vector<hrm::planners::Vertex> getNearestNeighborsOnGraph(const std::vector<hrm::Coordinate>& v, const hrm::Index k, const double r) override {
        if (searches++ % 2 == 0) { env::tick(searchCost); if (afterSearch) afterSearch(searches / 2 + 1); }
        return P::getNearestNeighborsOnGraph(v, k, r);
    }
};
struct Shipped { std::vector<Robot> r; std::vector<Scene> s; };
inline const Shipped& shipped() {
    static Shipped sh = [] {
        Shipped x;
        static const char* E[] = {"ellipse_cluttered", "ellipse_gym_maze", "ellipse_maze", "ellipse_sparse", "superellipse_NAO_lab", "superellipse_cluttered", "superellipse_maze1", "superellipse_maze2", "superellipse_maze3", "superellipse_sparse"};
        static const char* R[] = {"rabbit", "S_shape", "NAO_silhouette", "single_body"};
        const std::string d = RESOURCES_PATH "/2D/";
        for (auto r : R) {
            Robot b{r, {}};
            for (auto& l : csv::read(d + "robot_" + r + "_2D.csv")) b.b.push_back({l[0], l[1], l[3], l[4], l[5]});
            x.r.push_back(b);
        }
        for (auto e : E) {
            Scene s{e, {}, {}, {}, {}};
            for (auto& l : csv::read(d + "env_" + e + "_2D_arena.csv")) s.arena.push_back({l[0], l[1], l[2], l[3], l[4], l[5]});
            for (auto& l : csv::read(d + "env_" + e + "_2D_obstacle.csv")) s.obs.push_back({l[0], l[1], l[2], l[3], l[4], l[5]});
            auto g = csv::read(d + "setting_" + e + "_2D.csv");
            s.start = g.at(0); s.goal = g.at(1);
            x.s.push_back(s);
        }
        return x;
    }();
    return sh;
}
struct Param { int slices, lines, points, rounds; int bounds; };
struct Case {
    const Robot* r; const Scene* s; Param p; int num; int id = 0; bool kc = false;
    std::unique_ptr<hrm::MultiBodyTree2D> robot;
    std::vector<hrm::SuperEllipse> arena, obs;
    hrm::PlanningRequest req;
};
inline void build(Case& c) {
    auto& rb = *c.r;
    c.robot.reset(new hrm::MultiBodyTree2D(hrm::SuperEllipse({rb.b[0].a, rb.b[0].b}, 1, {0, 0}, 0, hrm::Index(c.num))));
    for (size_t i = 1; i < rb.b.size(); ++i) c.robot->addBody(hrm::SuperEllipse({rb.b[i].a, rb.b[i].b}, 1, {rb.b[i].x, rb.b[i].y}, rb.b[i].th, hrm::Index(c.num)));
    c.arena.clear(); c.obs.clear();
    for (auto& o : c.s->arena) c.arena.emplace_back(std::vector<double>{o.a, o.b}, o.eps, std::vector<double>{o.x, o.y}, o.th, hrm::Index(c.num));
    for (auto& o : c.s->obs) c.obs.emplace_back(std::vector<double>{o.a, o.b}, o.eps, std::vector<double>{o.x, o.y}, o.th, hrm::Index(c.num));
    double X = c.s->arena[0].a, Y = c.s->arena[0].b;
    if (c.p.bounds == 0) c.req.parameters.boundaryLimits = {-X + 2, X - 2.5, -Y + 2.1, Y - 1.9};
    else c.req.parameters.boundaryLimits = {-X - 3, X + 4, -Y - 1, Y + 2};
    if (c.s->arena[0].a < 5) c.req.parameters.boundaryLimits = {-X, X, -Y, Y};
    if (c.p.bounds == 2) {
        double k = 1.5 * rb.b[0].a, x0 = c.s->arena[0].x, y0 = c.s->arena[0].y;
        c.req.parameters.boundaryLimits = {x0 - X + k, x0 + X - k, y0 - Y + k, y0 + Y - k};
    }
    c.req.parameters.numSlice = hrm::Index(c.p.slices);
    c.req.parameters.numLineY = hrm::Index(c.p.lines);
    c.req.parameters.numPoint = hrm::Index(c.p.points);
    c.req.start = c.s->start;
    c.req.goal = c.s->goal;
}
/// time limit that lets `rounds` refinement rounds begin
inline double limit(const Param& p) { return p.rounds == 0 ? 0.0 : (p.slices + 0.125) + (p.rounds - 1) * p.slices * 1.125 + 0.01; }
inline std::vector<double> grid(int n) {
    std::vector<double> h;
    for (int i = 0; i < n; ++i) h.push_back(-PI_ + (n > 1 ? 2 * PI_ * i / (n - 1) : 0));
    return h;
}
inline int headingOf(const std::vector<double>& g, double th) {
    for (size_t i = 0; i < g.size(); ++i) if (std::fabs(g[i] - th) < 1e-5) return int(i);
    return -1;
}
inline std::string cfg(const std::vector<double>& v) { std::string s = "("; for (auto x : v) s += mc::fmt("%s%.9g", s.size() > 1 ? "," : "", x); return s + ")"; }
/// chooses a case of the lattice
inline void pickCase(Case& c, bool big = mc::thorough()) {
    bool ship = mc::flip("shipped");
    auto& V = ship ? shipped().s : scenes();
    auto& R = ship ? shipped().r : robots();
    int si = mc::choose(int(V.size()), "scene"), ri = mc::choose(int(R.size()), "robot");
    c.id = si * 16 + ri;
    c.s = &V[size_t(si)]; c.r = &R[size_t(ri)];
    c.num = 50;
    if (ship) {
        c.p.slices = mc::flip("slices") ? 9 : 4;
        c.p.lines = big ? (mc::flip("lines") ? 40 : 17) : 17;
        c.p.points = 5; c.p.bounds = 2;
        c.p.rounds = mc::choose(big ? 2 : 1, "rounds");
    } else {
        static const int SL[] = {1, 2, 3, 6, 4, 9}, LN[] = {1, 2, 5, 9, 14, 3, 25}, NP[] = {1, 2, 5, 3, 8}, NM[] = {50, 30, 100};
        c.p.slices = SL[mc::choose(big ? 6 : 4, "slices")];
        c.p.lines = LN[mc::choose(big ? 7 : 5, "lines")];
        c.p.bounds = mc::choose(2, "bounds");
        c.p.points = NP[mc::choose(big ? 5 : 3, "points")];
        c.p.rounds = mc::choose(big ? 3 : 2, "rounds");
        if (big) c.num = mc::pick(NM, "num");
    }
    if (c.r->b.size() == 1) c.kc = mc::flip("kinematics-of-containment");
}
inline std::unique_ptr<hrm::planners::HRM2D> make(Case& c) {
    if (c.kc) return std::unique_ptr<hrm::planners::HRM2D>(new Timed<hrm::planners::HRM2DKC>(*c.robot, c.arena, c.obs, c.req));
    return std::unique_ptr<hrm::planners::HRM2D>(new Timed<hrm::planners::HRM2D>(*c.robot, c.arena, c.obs, c.req));
}
}  // namespace sc2
