// R07: the graph search on every small weighted graph with every placement and attachment of start and goal.
#include "mc.hpp"
#include "env.hpp"
#include "scene2.hpp"
using namespace sc2;
struct Probe : hrm::planners::HRM2D {
    using HRM2D::HRM2D;
    std::vector<hrm::planners::Vertex> S, T;
    int asked = 0;
    std::vector<hrm::planners::Vertex> getNearestNeighborsOnGraph(const std::vector<hrm::Coordinate>&, const hrm::Index, const double) override { return asked++ % 2 ? T : S; }
};
static std::vector<double> dijkstra(size_t n, const std::vector<std::array<double, 3>>& E, int from) {   // Bellman-Ford, in fact
    std::vector<double> d(n, INFINITY);
    d[size_t(from)] = 0;
    for (size_t r = 0; r < n; ++r) for (auto& e : E) {
        size_t a = size_t(e[0]), b = size_t(e[1]);
        d[b] = std::min(d[b], d[a] + e[2]);
        d[a] = std::min(d[a], d[b] + e[2]);
    }
    return d;
}
static void judge(const hrm::PlanningResult& R, const std::vector<std::array<double, 3>>& E, size_t n, const std::vector<hrm::planners::Vertex>& S, const std::vector<hrm::planners::Vertex>& T) {
    bool any = false;
    for (auto s : S) { auto d = dijkstra(n, E, int(s)); for (auto t : T) any = any || std::isfinite(d[t]); }
    auto& sol = R.solutionPath;
    std::string p;
    for (int x : sol.PathId) p += mc::fmt(" %d", x);
    MC_CHECK(R.solved == any, any ? "missed" : "invented", "solved=%d though start and goal are%s connected; path%s", int(R.solved), any ? "" : " not", p.c_str());
    if (!R.solved) { MC_CHECK(sol.PathId.empty(), "path-when-unsolved", "path%s", p.c_str()); return; }
    MC_CHECK(!sol.PathId.empty(), "no-path", "solved without a path");
    int a = sol.PathId.front(), b = sol.PathId.back();
    MC_CHECK(std::count(S.begin(), S.end(), size_t(a)) && std::count(T.begin(), T.end(), size_t(b)), "ends", "path%s does not join an attachment of start with one of goal", p.c_str());
    double sum = 0;
    for (size_t i = 0; i + 1 < sol.PathId.size(); ++i) {
        double w = INFINITY;
        for (auto& e : E) if ((int(e[0]) == sol.PathId[i] && int(e[1]) == sol.PathId[i + 1]) || (int(e[1]) == sol.PathId[i] && int(e[0]) == sol.PathId[i + 1])) w = std::min(w, e[2]);
        MC_CHECK(std::isfinite(w), "not-an-edge", "path%s: step %d is no edge", p.c_str(), int(i));
        sum += w;
    }
    double best = dijkstra(n, E, a)[size_t(b)];
    MC_CHECK(std::fabs(sum - best) < 1e-9 * (1 + best), "not-shortest", "path%s has weight %.12g, the shortest has %.12g", p.c_str(), sum, best);
    MC_CHECK(std::fabs(sol.cost - sum) < 1e-9 * (1 + sum), "cost", "path%s has weight %.12g, reported cost %.12g", p.c_str(), sum, sol.cost);
}
static void small() {
    static const double LAY[][6][3] = {
        {{0, 0, 0}, {4, 0, 0}, {4, 3, 0}, {0, 3, 0}, {2, 1.4, 1}, {2, 6, -1}},          // generic
        {{0, 0, 0}, {1, 0, 0}, {2, 0, 0}, {3, 0, 0}, {4, 0, 0}, {5, 0, 0}},             // on a line: ties
        {{1, 1, 0}, {1, 1, 0}, {3, 1, 0}, {3, 1, 0}, {1, 2, 0}, {1, 1, 0}},             // coincident vertices
    };
    int n = mc::choose(mc::thorough() ? 7 : 6, "vertices");
    int lay = n < 2 ? 0 : mc::choose(3, "layout");
    int wk = n < 2 ? 0 : mc::choose(2, "weights");   // Euclidean, or longer (every second edge)
    static Case c;
    static std::unique_ptr<Probe> P;
    if (!P) {
        c.r = &robots()[0]; c.s = &scenes()[0]; c.num = 12; c.p = {1, 1, 2, 0, 0};
        build(c);
    }
    P.reset(new Probe(*c.robot, c.arena, c.obs, c.req));
    auto& G = P->res_.graphStructure;
    for (int i = 0; i < n; ++i) G.vertex.push_back({LAY[lay][i][0], LAY[lay][i][1], LAY[lay][i][2]});
    int pairs = n * (n - 1) / 2, set = 0;
    if (pairs) { int hi = mc::choose(1 << (pairs / 2), "edges-high"), lo = mc::choose(1 << (pairs - pairs / 2), "edges-low"); set = (hi << (pairs - pairs / 2)) | lo; }
    std::vector<std::array<double, 3>> E;
    for (int i = 0, k = 0; i < n; ++i) for (int j = i + 1; j < n; ++j, ++k) if (set >> k & 1) {
        double d = 0;
        for (int q = 0; q < 3; ++q) d += std::pow(LAY[lay][i][q] - LAY[lay][j][q], 2);
        d = std::sqrt(d) * (wk && k % 2 ? 1.7 : 1);
        bool rev = (i + j) % 2;
        E.push_back({double(rev ? j : i), double(rev ? i : j), d});
        G.edge.push_back({rev ? j : i, rev ? i : j});
        G.weight.push_back(d);
    }
    // an edge listed twice, once longer
    if (!E.empty() && wk) { E.push_back({E[0][1], E[0][0], E[0][2] + 1}); G.edge.push_back({int(E[0][1]), int(E[0][0])}); G.weight.push_back(E[0][2] + 1); }
    mc::state(mc::Hash().u(uint64_t(n)).u(uint64_t(lay)).u(uint64_t(wk)).u(uint64_t(set)));
    // every attachment: none, one vertex, two vertices in either order, for start and for goal
    std::vector<std::vector<hrm::planners::Vertex>> lists{{}};
    for (int i = 0; i < n; ++i) lists.push_back({size_t(i)});
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (i != j && (n < 5 || (i + 2 * j) % 3 == 0)) lists.push_back({size_t(i), size_t(j)});
    for (auto& s : lists) for (auto& t : lists) {
        P->res_.solved = false; P->res_.solutionPath = {};
        P->S = s; P->T = t; P->asked = 0;
        P->search();
        mc::step();
        try { judge(P->getPlanningResult(), E, size_t(n), s, t); }
        catch (mc::Fail& f) {
            std::string a, b, e;
            for (auto x : s) a += mc::fmt(" %d", int(x));
            for (auto x : t) b += mc::fmt(" %d", int(x));
            for (auto& x : E) e += mc::fmt(" %g-%g:%.4g", x[0], x[1], x[2]);
            mc::say("start at" + a + "; goal at" + b + "; edges" + e);
            throw;
        }
        if (!P->getPlanningResult().solved) {   // as refinement does: search again once the graph has grown
            mc::outcome("unsolved");
        } else mc::outcome("solved");
    }
}
/// searches that fail, then succeed after the graph has grown
static void growing() {
    int n = 3 + mc::choose(2, "vertices");
    int split = mc::choose(n + 1, "edges-at-first");
    int order = mc::choose(6, "order");
    int s = mc::choose(n, "start"), t = mc::choose(n, "goal"), late = mc::choose(3, "late-attachment");
    Case c;
    c.r = &robots()[0]; c.s = &scenes()[0]; c.num = 12; c.p = {1, 1, 2, 0, 0};
    build(c);
    Probe P(*c.robot, c.arena, c.obs, c.req);
    auto& G = P.res_.graphStructure;
    std::vector<std::array<double, 3>> all, E;
    for (int i = 0; i < n; ++i) all.push_back({double((i * (order % 3 + 1)) % n), double((i + 1 + order / 3) % n), 0});
    all.erase(std::remove_if(all.begin(), all.end(), [](const std::array<double, 3>& e) { return e[0] == e[1]; }), all.end());
    for (int i = 0; i < n; ++i) G.vertex.push_back({double(i), double((i * i) % 4), 0});
    size_t given = 0;
    for (int round = 0; round < 3; ++round) {
        for (; given < all.size() && (round > 0 || int(given) < split); ++given) {
            auto e = all[given];
            auto &v = G.vertex[size_t(e[0])], &w = G.vertex[size_t(e[1])];
            e[2] = std::hypot(v[0] - w[0], v[1] - w[1]);
            E.push_back(e);
            G.edge.push_back({int(e[0]), int(e[1])});
            G.weight.push_back(e[2]);
            if (round == 1) { ++given; break; }
        }
        P.asked = 0;
        P.S = round >= late ? std::vector<hrm::planners::Vertex>{size_t(s)} : std::vector<hrm::planners::Vertex>{};
        P.T = {size_t(t)};
        P.search();
        mc::step();
        judge(P.getPlanningResult(), E, size_t(n), P.S, P.T);
        if (P.getPlanningResult().solved) { mc::outcome(mc::fmt("solved in round %d", round)); return; }
    }
    mc::outcome("never solved");
}
static void real() {
    Case c;
    pickCase(c);
    mc::assume(c.p.points != 1);
    c.num = 30;
    build(c);
    env::reset();
    auto P = make(c);
    P->plan(limit(c.p));
    auto& R = P->getPlanningResult();
    auto& G = R.graphStructure;
    std::vector<std::array<double, 3>> E;
    for (size_t i = 0; i < G.edge.size(); ++i) E.push_back({double(G.edge[i].first), double(G.edge[i].second), G.weight[i]});
    auto &p = P->getPlannerParameters();
    auto S = P->getNearestNeighborsOnGraph(P->getStart(), p.numSearchNeighbor, p.searchRadius), T = P->getNearestNeighborsOnGraph(P->getGoal(), p.numSearchNeighbor, p.searchRadius);
    mc::step(G.vertex.size());
    mc::state(mc::Hash().u(G.vertex.size()).u(G.edge.size()).u(uint64_t(c.id)).u(7));
    if (G.vertex.size() < 400) judge(R, E, G.vertex.size(), S, T);
    mc::outcome(R.solved ? "roadmap solved" : "roadmap unsolved");
}
int main(int argc, char** argv) {
    mc::Options o;
    o.splitDepth = 4;
    return mc::run(argc, argv, [] { switch (mc::choose(3, "kind")) { case 0: small(); break; case 1: growing(); break; default: real(); } }, o);
}
