// R02, R05 and the 3D part of R03: every roadmap of the 3D scene lattice, judged vertex by vertex and edge by edge.
#include "mc.hpp"
#include "env.hpp"
#include "scene3.hpp"
#ifndef WHAT
#define WHAT 2
#endif
static void body3() {
    using namespace sc3;
    Case c;
    pickCase(c, WHAT == 5);
    if (WHAT == 5 && !mc::thorough()) c.num = c.p.kind == sc3::PROB ? 24 : 16;
    int kind = c.p.kind;
    build(c);
    auto P = make(c);
    P->plan(limit(c));
    auto& G = P->getPlanningResult().graphStructure;
    mc::step(G.vertex.size() + G.edge.size());
    Judge J{*c.r, *c.s, c.num, kind == ABLATION || kind == PROBABL};
    mc::outcome(mc::fmt("%d %s %s", kind, c.s->name, P->getPlanningResult().solved ? "solved" : "unsolved"));
    mc::state(mc::Hash().u(G.vertex.size()).u(G.edge.size()).u(uint64_t(c.id)).u(uint64_t(c.p.orient)).u(uint64_t(c.p.linesX)));
    mc::metric("vertices", G.vertex.size());
    int b = -1, o = -1;
    if (WHAT == 2) for (auto& v : G.vertex) {
        MC_CHECK(v.size() == 7 + c.r->j.size(), "dimension", "vertex of %d numbers", int(v.size()));
        for (double x : v) MC_CHECK(std::isfinite(x), "finite", "vertex %s", cfg(v).c_str());
        double d = J.hit(v, Z3, &b, &o);
        MC_CHECK(d <= 0, "vertex-collides", "at vertex %s body %d enters obstacle %d by %.6g beyond the sampling error", cfg(v).c_str(), b, o, d);
        double l = J.leave(v);
        MC_CHECK(l <= 0, "vertex-outside", "at vertex %s a body leaves the arena by %.6g beyond the sampling error", cfg(v).c_str(), l);
    }
    for (auto& e : G.edge) {
        auto &v = G.vertex.at(e.first), &w = G.vertex.at(e.second);
        bool same = sameTurn(v, w);
        mc::metric(same ? "same-orientation edges" : kind >= PROB ? "articulated turning edges" : "turning edges");
        if (WHAT == 3 && same) {
            double d = J.hit(v, V3(w[0] - v[0], w[1] - v[1], w[2] - v[2]), &b, &o);
            MC_CHECK(d <= 0, "edge-collides", "on edge %s - %s body %d enters obstacle %d by %.6g beyond the sampling error", cfg(v).c_str(), cfg(w).c_str(), b, o, d);
        }
        if (WHAT == 5 && !same) {
            int k = std::max(c.p.points, 1);
            for (int q = 0; q <= k; ++q) {
                double d = J.hitTurn(between(v, w, double(q) / k), &b, &o);
                MC_CHECK(d <= 0, "turn-collides", "on edge %s - %s at %.3g body %d enters obstacle %d by %.6g beyond the sampling error", cfg(v).c_str(), cfg(w).c_str(), double(q) / k, b, o, d);
            }
        }
    }
}
#ifndef NO_MAIN
int main(int argc, char** argv) {
    mc::Options o;
    o.splitDepth = 5;
    return mc::run(argc, argv, body3, o);
}
#endif
