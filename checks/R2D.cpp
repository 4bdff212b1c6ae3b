// R01, R03 (2D part), R04, R06 (2D part): every roadmap of the 2D scene lattice, judged vertex by vertex and edge by edge.
#include "mc.hpp"
#include "env.hpp"
#include "scene2.hpp"
#ifndef WHAT
#define WHAT 1
#endif
static void body2() {
    using namespace sc2;
    Case c;
    pickCase(c);
    build(c);
    env::reset();
    auto P = make(c);
    P->plan(limit(c.p));
    auto& G = P->getPlanningResult().graphStructure;
    mc::step(G.vertex.size() + G.edge.size());
    Judge J{*c.r, *c.s, c.num, c.kc ? 1.1 : 1};
    mc::outcome(mc::fmt("%s %s", c.s->name, P->getPlanningResult().solved ? "solved" : "unsolved"));
    mc::state(mc::Hash().u(G.vertex.size()).u(G.edge.size()).u(uint64_t(c.id)).u(uint64_t(c.p.slices)).u(uint64_t(c.p.lines)));
    auto g = grid(c.p.slices);
    if (WHAT == 1) {
        for (auto& v : G.vertex) {
            MC_CHECK(v.size() == 3 && std::isfinite(v[0]) && std::isfinite(v[1]) && std::isfinite(v[2]), "finite", "vertex %s", cfg(v).c_str());
            int b = -1, o = -1;
            double d = J.hit(v[0], v[1], v[2], V2(0, 0), &b, &o);
            MC_CHECK(d <= 0, "vertex-collides", "at vertex %s body %d enters obstacle %d by %.6g beyond the sampling error", cfg(v).c_str(), b, o, d);
            double l = J.leave(v[0], v[1], v[2]);
            MC_CHECK(l <= 0, "vertex-outside", "at vertex %s a body leaves the arena by %.6g beyond the sampling error", cfg(v).c_str(), l);
        }
    }
    for (auto& e : G.edge) {
        auto &v = G.vertex.at(e.first), &w = G.vertex.at(e.second);
        bool same = std::fabs(v[2] - w[2]) < 1e-9;
        int b = -1, o = -1;
        if (WHAT == 3 && same) {
            double d = J.hit(v[0], v[1], v[2], V2(w[0] - v[0], w[1] - v[1]), &b, &o);
            MC_CHECK(d <= 0, "edge-collides", "on edge %s - %s body %d enters obstacle %d by %.6g beyond the sampling error", cfg(v).c_str(), cfg(w).c_str(), b, o, d);
        }
        if (WHAT == 4 && !same) {
            int i = headingOf(g, v[2]), j = headingOf(g, w[2]), n = int(g.size());
            MC_CHECK(i >= 0 && j >= 0 && (std::abs(i - j) == 1 || std::abs(i - j) == n - 1), "neighbours", "edge %s - %s joins headings %d and %d of %d", cfg(v).c_str(), cfg(w).c_str(), i, j, n);
            int k = std::max(c.p.points, 2);
            for (int q = 0; q < k; ++q) {
                double t = double(q) / (k - 1);
                double d = J.hitTurn(v[0] + t * (w[0] - v[0]), v[1] + t * (w[1] - v[1]), v[2] + t * (w[2] - v[2]), &b, &o);
                MC_CHECK(d <= 0, "turn-collides", "on edge %s - %s at %.3g body %d enters obstacle %d by %.6g beyond the sampling error", cfg(v).c_str(), cfg(w).c_str(), t, b, o, d);
            }
        }
    }
}
#ifndef NO_MAIN
int main(int argc, char** argv) {
    mc::Options o;
    o.splitDepth = 4;
    return mc::run(argc, argv, body2, o);
}
#endif
