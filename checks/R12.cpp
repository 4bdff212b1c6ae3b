// R12: the full product of small parameter values, for every planner, with address and undefined-behaviour checks.
#define ENV_CLOCK_ONLY
#include "mc.hpp"
#include "env.hpp"
#include "scene2.hpp"
#include "scene3.hpp"
template <class P> static void judge(P& p, size_t dim, const char* name) {
    auto& R = p.getPlanningResult();
    auto& G = R.graphStructure;
    mc::step(G.vertex.size() + 1);
    for (auto& v : G.vertex) {
        MC_CHECK(v.size() == dim, "dimension", "vertex of %d numbers", int(v.size()));
        for (double x : v) MC_CHECK(std::isfinite(x), "finite", "vertex %s", sc2::cfg(v).c_str());
    }
    for (size_t i = 0; i < G.edge.size(); ++i) MC_CHECK(size_t(G.edge[i].first) < G.vertex.size() && size_t(G.edge[i].second) < G.vertex.size() && std::isfinite(G.weight.at(i)), "edge", "edge %d", int(i));
    for (auto* path : {&R.solutionPath.solvedPath, &R.solutionPath.interpolatedPath}) for (auto& v : *path) for (double x : v) MC_CHECK(std::isfinite(x), "path-finite", "path point %s", sc2::cfg(v).c_str());
    MC_CHECK(R.solved != R.solutionPath.solvedPath.empty(), "path", "solved=%d, path of %d", int(R.solved), int(R.solutionPath.solvedPath.size()));
    mc::outcome(mc::fmt("%s %s", name, G.vertex.empty() ? "no free vertex" : R.solved ? "solved" : "unsolved"));
}
static void body2() {
    using namespace sc2;
    Case c;
    static const int NUM[] = {12, 5, 4}, NB[] = {10, 1, 0};
    int ri = mc::choose(4, "robot");
    c.r = &robots()[size_t(ri)];
    static Scene S;
    S = scenes()[1];
    int arenas = 1 + mc::choose(2, "arenas"), obs = mc::choose(4, "obstacles");
    if (obs == 3) S = scenes()[10];
    else { auto& m = scenes()[4].obs; S.obs.assign(m.begin(), m.begin() + obs); }
    if (arenas == 2) S.arena.push_back({30, 14, 1, 1, 0, 0});
    c.s = &S;
    c.p.slices = 1 + mc::choose(mc::thorough() ? 5 : 4, "slices");
    static const int LN[] = {1, 2, 3, 5};
    c.p.lines = mc::pick(LN, "lines");
    c.p.points = 1 + mc::choose(3, "points");
    c.p.bounds = 0;
    c.p.rounds = mc::choose(2, "rounds");
    c.num = NUM[mc::choose(mc::thorough() ? 3 : 2, "num")];
    if (c.r->b.size() == 1) c.kc = mc::flip("kinematics-of-containment");
    build(c);
    c.req.parameters.numSearchNeighbor = hrm::Index(NB[mc::choose(mc::thorough() ? 3 : 1, "neighbours")]);
    env::reset();
    mc::state(mc::Hash().u(uint64_t(ri)).u(uint64_t(arenas * 8 + obs)).u(uint64_t(c.p.slices)).u(uint64_t(c.p.lines)).u(uint64_t(c.p.points)).u(uint64_t(c.p.rounds)).u(c.kc).u(uint64_t(c.num)));
    auto P = make(c);
    P->plan(limit(c.p));
    judge(*P, 3, c.kc ? "HRM2DKC" : "HRM2D");
    if (c.kc) return;
    for (auto& b : P->getCSpaceBoundary()) { auto& f = P->getFreeSegmentOneSlice(b); MC_CHECK(f.ty.size() == f.xM.size() && f.xL.size() == f.xU.size(), "segments", "%d lines", int(f.ty.size())); }
}
static void body3() {
    using namespace sc3;
    Case c;
    c.p.kind = mc::choose(4, "planner");
    int ri = mc::choose(3, "robot"), obs = mc::choose(4, "obstacles"), arenas = 1 + mc::choose(2, "arenas");
    c.r = c.p.kind < PROB ? &robots()[size_t(ri)] : &arms()[size_t(ri)];
    static Scene S;
    S = scenes()[1];
    if (obs == 3) S = scenes()[8];
    else { auto& m = scenes()[4].obs; S.obs.assign(m.begin(), m.begin() + obs); }
    if (arenas == 2) S.arena.push_back({V3(14, 9, 9), 1, 1, {V3(0.5, 0, 0), EZ, 0}});
    c.s = &S;
    c.p.orient = c.p.kind < PROB ? mc::choose(3, "orientations") : 0;
    c.p.linesX = 1 + mc::choose(3, "lines-x"); c.p.linesY = 1 + mc::choose(3, "lines-y");
    c.p.points = 1 + mc::choose(2, "points");
    c.p.rounds = c.p.kind < PROB ? mc::choose(2, "rounds") : 1 + mc::choose(2, "slices");
    c.p.bounds = 0;
    c.num = mc::thorough() && mc::flip("num") ? 8 : 6;
    if (!mc::thorough()) mc::assume((c.p.linesX == c.p.linesY || ri == 0) && (c.p.linesX * c.p.linesY < 9 || c.p.points == 1) && (arenas == 1 || ri == 1));
    build(c);
    env::reset();
    mc::state(mc::Hash().u(uint64_t(c.p.kind)).u(uint64_t(ri)).u(uint64_t(arenas * 8 + obs)).u(uint64_t(c.p.orient)).u(uint64_t(c.p.linesX * 8 + c.p.linesY)).u(uint64_t(c.p.points)).u(uint64_t(c.p.rounds)).u(uint64_t(c.num)));
    auto P = make(c);
    P->plan(limit(c));
    static const char* N[] = {"HRM3D", "HRM3D-ablation", "ProbHRM3D", "ProbHRM3D-ablation"};
    judge(*P, 7 + c.r->j.size(), N[c.p.kind]);
    for (auto& b : P->getCSpaceBoundary()) { auto& f = P->getFreeSegmentOneSlice(&b); MC_CHECK(f.tx.size() == f.freeSegmentYZ.size(), "segments", "%d planes", int(f.tx.size())); }
}
int main(int argc, char** argv) {
    mc::Options o;
    o.splitDepth = 4;
    return mc::run(argc, argv, [] { if (mc::choose(2, "dimension")) body3(); else body2(); }, o);
}
