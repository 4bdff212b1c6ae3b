// R11: the clock is owned by the explorer: every placement of up to two long delays among the slices and searches of a plan,
// every moment at which the limit falls, every search at which the query becomes solvable.
#include "mc.hpp"
#include "env.hpp"
#include "scene2.hpp"
#include "scene3.hpp"
template <class P> struct Clocked : P {
    using P::P;
    int solveAt = 1 << 20;
    int sl = 0, se = 0;      // slices and searches done
    std::vector<double> sliceCost, searchCost;
    double lastB = 0, lastS = 0;
    std::vector<double> ends;   // elapsed virtual time at the end of each search
    double t0 = 0;
    static double now() { return double(env::e().ns) * 1e-9; }
    double cost(const std::vector<double>& c, int i) { return i < int(c.size()) ? c[size_t(i)] : c.back(); }
    void observe() {
        auto& t = this->getPlanningResult().planningTime;
        MC_CHECK(t.buildTime >= lastB && t.searchTime >= lastS, "shrinks", "build time %.9g after %.9g, search time %.9g after %.9g", t.buildTime, lastB, t.searchTime, lastS);
        lastB = t.buildTime; lastS = t.searchTime;
    }
    int expect = 1 << 20;       // units of work that may begin
    void constructOneSlice(const hrm::Index i) override {
        MC_CHECK(int(ends.size()) < expect, "too-long", "slice %d is begun after %d units of work, at %.6g", sl + 1, expect, now() - t0);
        P::constructOneSlice(i); observe(); env::tick(cost(sliceCost, sl++));
    }
    std::vector<hrm::planners::Vertex> getNearestNeighborsOnGraph(const std::vector<hrm::Coordinate>& v, const hrm::Index k, const double r) override {
        bool first = se++ % 2 == 0;
        if (first) { observe(); env::tick(cost(searchCost, (se - 1) / 2)); }
        else ends.push_back(now() - t0);
        if ((se + 1) / 2 >= solveAt && !this->getPlanningResult().graphStructure.vertex.empty()) return {0};
        (void)v; (void)k; (void)r;
        return {};
    }
};
template <class P> static void drive(P& pl, int initialSlices, bool sampled, const char* name) {
    int units = 5;                                 // units of work looked at
    // the costs: all 1 and .125, with up to two long delays at any slice or search
    int slices = sampled ? units : initialSlices + units - 1, points = slices + units;
    int d1 = mc::choose(points + 1, "delay-1"), d2 = d1 == points ? points : d1 + 1 + mc::choose(points - d1, "delay-2");
    double len[2] = {7.5, 20};
    if (d1 != points && mc::flip("second-shorter")) std::swap(len[0], len[1]);
    pl.sliceCost.assign(size_t(slices) + 1, 1); pl.searchCost.assign(size_t(units) + 1, 0.125);
    for (int k = 0; k < 2; ++k) { int d = k ? d2 : d1; if (d >= points) continue; if (d < slices) pl.sliceCost[size_t(d)] += len[k]; else pl.searchCost[size_t(d - slices)] += len[k]; }
    int solve = 1 + mc::choose(units + 1, "solvable-at-search");
    pl.solveAt = solve > units ? 1 << 20 : solve;
    // the model: elapsed time at the end of each unit
    std::vector<double> T;
    double t = 0;
    int s = 0;
    for (int u = 0; u < units; ++u) {
        int m = u == 0 && !sampled ? initialSlices : 1;
        for (int k = 0; k < m; ++k) t += pl.cost(pl.sliceCost, s++);
        t += pl.cost(pl.searchCost, u);
        T.push_back(t);
    }
    // the limit falls just before or just after the end of some unit, or is zero
    int at = mc::choose(2 * units, "limit");
    double limit = at == 0 ? 0 : T[size_t(at / 2)] + (at % 2 ? 0.01 : -0.01);
    if (at == 2 * units - 1) limit = T.back() - 0.02;
    int expect = 0;
    for (int u = 0; u < units; ++u) { expect = u + 1; if (u + 1 >= pl.solveAt || T[size_t(u)] >= limit) break; }
    pl.expect = expect;
    env::reset();
    pl.t0 = pl.now();
    pl.plan(limit);
    double el = pl.now() - pl.t0;
    auto& R = pl.getPlanningResult();
    int done = pl.se / 2;
    mc::step(done);
    mc::state(mc::Hash().u(uint64_t(d1)).u(uint64_t(d2)).d(limit).u(uint64_t(solve)).d(len[0]));
    mc::outcome(mc::fmt("%s %s after %d", name, R.solved ? "solved" : "out of time", done));
    bool can = true;
    MC_CHECK(!R.graphStructure.vertex.empty(), "setup", "no vertex to attach to");
    MC_CHECK(R.solved == (can && done >= pl.solveAt), "solved", "solved=%d after %d searches, solvable at %d", int(R.solved), done, pl.solveAt);
    MC_CHECK(done == expect || !can, done > expect ? "too-long" : "too-short", "%d units of work were done with limit %.6g; the %d-th ended at %.6g", done, limit, expect, T[size_t(expect - 1)]);
    auto& W = R.planningTime;
    MC_CHECK(W.buildTime >= 0 && W.searchTime >= 0, "negative", "build %.9g, search %.9g", W.buildTime, W.searchTime);
    MC_CHECK(std::fabs(W.buildTime + W.searchTime - W.totalTime) < 1e-6, "sum", "build %.9g + search %.9g is not the total %.9g", W.buildTime, W.searchTime, W.totalTime);
    MC_CHECK(std::fabs(W.totalTime - el) < 1e-6, "elapsed", "total %.9g, the clock moved %.9g", W.totalTime, el);
    double b = 0, q = 0;
    for (int k = 0; k < pl.sl; ++k) b += pl.cost(pl.sliceCost, k);
    for (int k = 0; k < done; ++k) q += pl.cost(pl.searchCost, k);
    MC_CHECK(std::fabs(W.buildTime - b) < 1e-6 && std::fabs(W.searchTime - q) < 1e-6, "account", "build %.9g and search %.9g, the slices took %.9g and the searches %.9g", W.buildTime, W.searchTime, b, q);
}
static void body() {
    int kind = mc::choose(6, "planner");
    int n = kind >= 4 ? 1 : 1 + mc::choose(3, "slices");
    using namespace hrm::planners;
    if (kind < 2) {
        using namespace sc2;
        Case c;
        c.r = &robots()[0]; c.s = &scenes()[0]; c.num = 12; c.p = {n, 3, 2, 0, 0}; c.kc = kind == 1;
        build(c);
        if (c.kc) { Clocked<HRM2DKC> P(*c.robot, c.arena, c.obs, c.req); drive(P, n, false, "HRM2DKC"); }
        else { Clocked<HRM2D> P(*c.robot, c.arena, c.obs, c.req); drive(P, n, false, "HRM2D"); }
        return;
    }
    using namespace sc3;
    Case c;
    c.r = kind < 4 ? &sc3::robots()[0] : &sc3::arms()[0]; c.s = &sc3::scenes()[0]; c.num = 8;
    c.p = {kind < 4 ? kind - 2 : kind - 2, n == 1 ? 0 : n == 2 ? 1 : 5, 3, 3, 1, 0, 0};
    build(c);
    switch (kind) {
        case 2: { Clocked<HRM3D> P(*c.robot, c.arena, c.obs, c.req); drive(P, n, false, "HRM3D"); break; }
        case 3: { Clocked<HRM3DAblation<HRM3D>> P(*c.robot, c.arena, c.obs, c.req); drive(P, n, false, "HRM3D-ablation"); break; }
        case 4: { Clocked<ProbHRM3D> P(*c.robot, c.urdf, c.arena, c.obs, c.req); drive(P, 1, true, "ProbHRM3D"); break; }
        default: { Clocked<HRM3DAblation<ProbHRM3D>> P(*c.robot, c.urdf, c.arena, c.obs, c.req); drive(P, 1, true, "ProbHRM3D-ablation"); }
    }
}
int main(int argc, char** argv) {
    mc::Options o;
    o.splitDepth = 3;
    return mc::run(argc, argv, body, o);
}
