// R10: roadmaps of unsolved queries under every number of refinement steps: the time limit falls after each refined slice in turn.
#include "mc.hpp"
#include "env.hpp"
#include "scene2.hpp"
#include "scene3.hpp"
using geo::V2; using geo::V3;
/// start and goal can never be attached, so refinement goes on until the time is up
template <class P> struct Never : P {
    using P::P;
    std::vector<hrm::planners::Vertex> getNearestNeighborsOnGraph(const std::vector<hrm::Coordinate>& v, const hrm::Index k, const double r) override { P::getNearestNeighborsOnGraph(v, k, r); return {}; }
};
struct Snap {
    std::vector<std::vector<double>> v;
    std::vector<std::pair<long, long>> e;
    std::vector<double> w;
    int slices = 0;
    long lx = 0, ly = 0;
};
template <class T> static Snap snap(T& p) {
    Snap s;
    auto& G = p.getPlanningResult().graphStructure;
    MC_CHECK(!p.getPlanningResult().solved, "solved", "solved without attachments");
    s.v = G.vertex;
    for (auto& e : G.edge) s.e.push_back({long(e.first), long(e.second)});
    s.w = G.weight;
    s.slices = p.slices;
    s.lx = long(p.getPlannerParameters().numLineX);
    s.ly = long(p.getPlannerParameters().numLineY);
    mc::step(p.slices);
    return s;
}
static void prefix(const Snap& a, const Snap& b, const char* what) {
    MC_CHECK(b.v.size() >= a.v.size() && b.e.size() >= a.e.size(), "shrinks", "%s: %d vertices, %d edges became %d, %d", what, int(a.v.size()), int(a.e.size()), int(b.v.size()), int(b.e.size()));
    for (size_t i = 0; i < a.v.size(); ++i) MC_CHECK(a.v[i] == b.v[i], "vertex-changed", "%s: vertex %d changed", what, int(i));
    for (size_t i = 0; i < a.e.size(); ++i) MC_CHECK(a.e[i] == b.e[i] && a.w[i] == b.w[i], "edge-changed", "%s: edge %d changed", what, int(i));
    for (size_t i = a.e.size(); i < b.e.size(); ++i) MC_CHECK(b.e[i].first < long(b.v.size()) && b.e[i].second < long(b.v.size()) && b.e[i].first >= 0 && b.e[i].second >= 0, "edge-range", "%s: edge %d joins %ld and %ld of %d", what, int(i), b.e[i].first, b.e[i].second, int(b.v.size()));
}
template <class Visible, class Same> static void joined(const Snap& base, const Snap& a, const Snap& b, size_t oldFrom, Visible visible, Same same, const std::string& what) {
    // vertices of one refined slice are b minus a; earlier ones of this orientation from the round before are in base
    size_t from = a.v.size();
    if (b.v.size() == from) return;
    for (size_t i = from + 1; i < b.v.size(); ++i) MC_CHECK(same(b.v[i], b.v[from]), "one-orientation", "%s: refining one slice adds vertices of two orientations", what.c_str());
    bool edge = false, any = false;
    for (size_t i = a.e.size(); i < b.e.size(); ++i) {
        size_t x = size_t(std::min(b.e[i].first, b.e[i].second)), y = size_t(std::max(b.e[i].first, b.e[i].second));
        MC_CHECK(y >= from, "old-edge", "%s: a new edge joins two earlier vertices", what.c_str());
        MC_CHECK(same(b.v[x], b.v[y]), "edge-orientation", "%s: a refined edge joins two orientations", what.c_str());
        if (x < from) edge = true;
    }
    if (edge) { mc::metric("slices joined with earlier ones"); return; }
    std::string who;
    for (size_t i = oldFrom; i < base.v.size() && !any; ++i) {
        if (!same(base.v[i], b.v[from])) continue;
        for (size_t j = from; j < b.v.size() && !any; ++j) if (visible(base.v[i], b.v[j])) { any = true; who = sc2::cfg(base.v[i]) + " - " + sc2::cfg(b.v[j]); }
    }
    MC_CHECK(!any, "not-joined", "%s: the refined slice is not joined with the earlier ones at all, though %s is clear", what.c_str(), who.c_str());
    mc::metric("slices that cannot be joined");
}
static void body2() {
    using namespace sc2;
    Case c;
    pickCase(c);
    mc::assume(c.p.rounds == 0 && c.num == 50 && c.p.points != 1);
    c.num = 30;
    if (c.kc) c.num = 31;
    build(c);
    Judge J{*c.r, *c.s, c.num, c.kc ? 1.1 : 1};
    auto& lim = c.req.parameters.boundaryLimits;
    int n = c.p.slices, R = c.p.lines > 9 || n > 6 ? 1 : mc::thorough() ? 3 : 2;
    std::vector<Snap> s;
    for (int u = 0; u <= n * R; ++u) {   // u refined slices
        env::reset();
        double L = u == 0 ? 0 : n + 0.125 + (u - 1) * 1.125 + 0.01;
        if (c.kc) { Never<Timed<hrm::planners::HRM2DKC>> P(*c.robot, c.arena, c.obs, c.req); P.plan(L); s.push_back(snap(P)); }
        else { Never<Timed<hrm::planners::HRM2D>> P(*c.robot, c.arena, c.obs, c.req); P.plan(L); s.push_back(snap(P)); }
        int rounds = (u + n - 1) / n;
        MC_CHECK(s.back().slices == n + u, "slices", "time for %d refined slices, %d were built", u, s.back().slices - n);
        MC_CHECK(s.back().ly == (long(c.p.lines) << rounds), "doubling", "%d sweep lines after %d rounds of refining %d", int(s.back().ly), rounds, c.p.lines);
    }
    mc::state(mc::Hash().u(s.back().v.size()).u(s.back().e.size()).u(uint64_t(c.id)).u(uint64_t(n)).u(uint64_t(c.p.lines)).u(c.kc));
    mc::outcome(mc::fmt("2D %s", s.back().v.size() > s[0].v.size() ? "grew" : "nothing to add"));
    auto g = grid(n);
    for (int u = 1; u <= n * R; ++u) {
        std::string what = mc::fmt("refined slice %d (heading %d)", u, (u - 1) % n);
        prefix(s[size_t(u) - 1], s[size_t(u)], what.c_str());
        int round = (u - 1) / n;
        for (size_t i = s[size_t(u) - 1].v.size(); i < s[size_t(u)].v.size(); ++i) {
            auto& v = s[size_t(u)].v[i];
            MC_CHECK(std::fabs(v[2] - g[size_t((u - 1) % n)]) < 1e-5, "heading", "%s: new vertex %s", what.c_str(), cfg(v).c_str());
            double d = J.hit(v[0], v[1], v[2], V2(0, 0));
            MC_CHECK(d <= 0, "vertex-collides", "%s: new vertex %s enters an obstacle by %.6g", what.c_str(), cfg(v).c_str(), d);
        }
        for (size_t i = s[size_t(u) - 1].e.size(); i < s[size_t(u)].e.size(); ++i) {
            auto &v = s[size_t(u)].v[size_t(s[size_t(u)].e[i].first)], &w = s[size_t(u)].v[size_t(s[size_t(u)].e[i].second)];
            double d = J.hit(v[0], v[1], v[2], V2(w[0] - v[0], w[1] - v[1]));
            MC_CHECK(d <= 0, "edge-collides", "%s: new edge %s - %s enters an obstacle by %.6g", what.c_str(), cfg(v).c_str(), cfg(w).c_str(), d);
        }
        size_t old = round ? s[size_t((round - 1) * n)].v.size() : 0;
        joined(s[size_t(round * n)], s[size_t(u) - 1], s[size_t(u)], old,
               [&](const std::vector<double>& v, const std::vector<double>& w) {
                   if (std::fabs(v[1] - w[1]) > 2 * (lim[3] - lim[2]) / double(s[size_t(u)].ly) * 0.999) return false;
                   for (auto& b : c.r->b) for (auto& o : c.s->obs) {
                       SE2 B = place(b, v[0], v[1], v[2]);
                       if (c.kc) B.a *= 1.2, B.b *= 1.2;
                       if (sweptGap(of(o), B, V2(w[0] - v[0], w[1] - v[1]), 1e-4) <= 1e-4) return false;
                   }
                   return true;
               },
               [](const std::vector<double>& v, const std::vector<double>& w) { return std::fabs(v[2] - w[2]) < 1e-9; }, what);
    }
}
static void body3() {
    using namespace sc3;
    Case c;
    pickCase(c, false);
    mc::assume(c.p.rounds == 0 && c.p.kind < PROB && c.p.linesX * c.p.linesY <= 9);
    if (!mc::thorough()) mc::assume(c.p.kind == RIGID || c.p.orient < 2);
    c.num = 14;
    build(c);
    int n = slicesOf(c.p.orient), R = c.p.linesX * c.p.linesY <= 1 ? 2 : 1;
    Judge J{*c.r, *c.s, c.num, false};
    auto& lim = c.req.parameters.boundaryLimits;
    std::vector<Snap> s;
    for (int u = 0; u <= n * R; ++u) {
        env::reset();
        srand(1);
        double L = u == 0 ? 0 : n + 0.125 + (u - 1) * 1.125 + 0.01;
        if (c.p.kind == RIGID) { Never<Timed<hrm::planners::HRM3D>> P(*c.robot, c.arena, c.obs, c.req); P.plan(L); s.push_back(snap(P)); }
        else { Never<Timed<hrm::planners::HRM3DAblation<hrm::planners::HRM3D>>> P(*c.robot, c.arena, c.obs, c.req); P.plan(L); s.push_back(snap(P)); }
        int rounds = (u + n - 1) / n;
        MC_CHECK(s.back().slices == n + u, "slices", "time for %d refined slices, %d were built", u, s.back().slices - n);
        MC_CHECK(s.back().ly == (long(c.p.linesY) << rounds) && s.back().lx == (long(c.p.linesX) << rounds), "doubling", "%dx%d sweep lines after %d rounds", int(s.back().lx), int(s.back().ly), rounds);
    }
    mc::state(mc::Hash().u(s.back().v.size()).u(s.back().e.size()).u(uint64_t(c.id)).u(uint64_t(n)).u(uint64_t(c.p.linesX)).u(uint64_t(c.p.kind)));
    mc::outcome(mc::fmt("3D %s", s.back().v.size() > s[0].v.size() ? "grew" : "nothing to add"));
    auto qs = orientations(c.p.orient);
    for (int u = 1; u <= n * R; ++u) {
        int si = (u - 1) % n, round = (u - 1) / n;
        std::string what = mc::fmt("refined slice %d (orientation %d)", u, si);
        prefix(s[size_t(u) - 1], s[size_t(u)], what.c_str());
        for (size_t i = s[size_t(u) - 1].v.size(); i < s[size_t(u)].v.size(); ++i) {
            auto& v = s[size_t(u)].v[i];
            if (!qs.empty()) MC_CHECK(qdist(v, {0, 0, 0, qs[size_t(si)].w(), qs[size_t(si)].x(), qs[size_t(si)].y(), qs[size_t(si)].z()}) < 1e-5, "orientation", "%s: new vertex %s", what.c_str(), cfg(v).c_str());
            double d = J.hit(v, Z3);
            MC_CHECK(d <= 0, "vertex-collides", "%s: new vertex %s enters an obstacle by %.6g", what.c_str(), cfg(v).c_str(), d);
        }
        for (size_t i = s[size_t(u) - 1].e.size(); i < s[size_t(u)].e.size(); ++i) {
            auto &v = s[size_t(u)].v[size_t(s[size_t(u)].e[i].first)], &w = s[size_t(u)].v[size_t(s[size_t(u)].e[i].second)];
            double d = J.hit(v, V3(w[0] - v[0], w[1] - v[1], w[2] - v[2]));
            MC_CHECK(d <= 0, "edge-collides", "%s: new edge %s - %s enters an obstacle by %.6g", what.c_str(), cfg(v).c_str(), cfg(w).c_str(), d);
        }
        size_t old = round ? s[size_t((round - 1) * n)].v.size() : 0;
        joined(s[size_t(round * n)], s[size_t(u) - 1], s[size_t(u)], old,
               [&](const std::vector<double>& v, const std::vector<double>& w) {
                   if (std::fabs(v[0] - w[0]) > 2 * (lim[1] - lim[0]) / double(s[size_t(u)].lx) * 0.999 || std::fabs(v[1] - w[1]) > 2 * (lim[3] - lim[2]) / double(s[size_t(u)].ly) * 0.999) return false;
                   for (auto* p : {&v, &w}) for (auto& B : place(*c.r, *p)) for (auto& a : c.s->arena) {
                       SQ3 A = of(a);
                       V3 d = B.p - A.p;
                       double m = 1.2 * sag3(a, V3(1e-6, 1e-6, 1e-6), M3::Identity(), c.num) + 0.03 * a.ax.sum() + 0.8 * B.ax.maxCoeff();
                       for (auto& k : sphere(200)) if (k.dot(d) + B.h(k) - A.h(k) > -m) return false;
                   }
                   for (auto& B : place(*c.r, v)) for (auto& o : c.s->obs) if (sweptGap(of(o), B, V3(w[0] - v[0], w[1] - v[1], w[2] - v[2]), 1e-4) <= 1e-4) return false;
                   return true;
               }, sameTurn, what);
    }
}
/// sampled slices: refinement begins after 60 of them
static void sampled() {
    using namespace sc3;
    Case c;
    int ri = mc::choose(mc::thorough() ? 3 : 2, "arm"), si = mc::choose(3, "scene");
    static const int SC[] = {0, 1, 8};
    c.r = &arms()[size_t(ri)]; c.s = &scenes()[size_t(SC[si])]; c.id = ri * 16 + si;
    c.p = {mc::choose(2, "variant") ? PROBABL : PROB, 0, 1 + mc::choose(2, "lines"), 1, 2, 0, 0};
    c.num = 10;
    build(c);
    Judge J{*c.r, *c.s, c.num, false};
    static const int U[] = {59, 60, 61, 62, 90, 119, 120, 121};
    std::vector<Snap> s;
    int K = mc::thorough() ? 8 : 4;
    for (int k = 0; k < K; ++k) {
        env::reset();
        double L = U[k] * 1.125 - 0.01;
        if (c.p.kind == PROB) { Never<Timed<hrm::planners::ProbHRM3D>> P(*c.robot, c.urdf, c.arena, c.obs, c.req); P.plan(L); s.push_back(snap(P)); }
        else { Never<Timed<hrm::planners::HRM3DAblation<hrm::planners::ProbHRM3D>>> P(*c.robot, c.urdf, c.arena, c.obs, c.req); P.plan(L); s.push_back(snap(P)); }
        MC_CHECK(s.back().slices == U[k], "slices", "time for %d slices, %d were built", U[k], s.back().slices);
        MC_CHECK(s.back().ly == (U[k] > 60 ? 2 : 1), "doubling", "%d lines in y after %d slices", int(s.back().ly), U[k]);
        if (k) prefix(s[size_t(k) - 1], s.back(), mc::fmt("slice %d", U[k]).c_str());
    }
    mc::state(mc::Hash().u(s.back().v.size()).u(s.back().e.size()).u(uint64_t(c.id)).u(uint64_t(c.p.kind)).u(uint64_t(c.p.linesX)));
    mc::outcome(mc::fmt("sampled %s", s.back().v.size() > s[0].v.size() ? "grew" : "nothing to add"));
    for (auto& v : s.back().v) {
        double d = J.hit(v, Z3);
        MC_CHECK(d <= 0, "vertex-collides", "vertex %s enters an obstacle by %.6g", cfg(v).c_str(), d);
    }
    for (auto& e : s.back().e) {
        auto &v = s.back().v[size_t(e.first)], &w = s.back().v[size_t(e.second)];
        if (!sameTurn(v, w)) continue;
        double d = J.hit(v, V3(w[0] - v[0], w[1] - v[1], w[2] - v[2]));
        MC_CHECK(d <= 0, "edge-collides", "edge %s - %s enters an obstacle by %.6g", cfg(v).c_str(), cfg(w).c_str(), d);
    }
}
int main(int argc, char** argv) {
    mc::Options o;
    o.splitDepth = 5;
    return mc::run(argc, argv, [] { switch (mc::choose(3, "planner")) { case 0: sampled(); break; case 1: body3(); break; default: body2(); } }, o);
}
