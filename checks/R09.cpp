// R09: what a planner reports as solution, on every roadmap of both lattices and several start/goal pairs.
#include "mc.hpp"
#include "env.hpp"
#include "scene2.hpp"
#include "scene3.hpp"
static double dist(const std::vector<double>& a, const std::vector<double>& b) {
    double d = 0;
    for (size_t i = 0; i < a.size(); ++i) d += (a[i] - b[i]) * (a[i] - b[i]);
    return std::sqrt(d);
}
static bool same(std::vector<double> a, const std::vector<double>& b) {   // quaternions up to sign
    if (a.size() != b.size()) return false;
    if (a.size() >= 7) {
        double s = a[3] * b[3] + a[4] * b[4] + a[5] * b[5] + a[6] * b[6];
        if (s < 0) for (size_t i = 3; i < 7; ++i) a[i] = -a[i];
    }
    return dist(a, b) < 1e-6;
}
template <class P> static void judge(P& pl, const hrm::PlanningRequest& req) {
    const hrm::PlanningResult& R = pl.getPlanningResult();
    auto& G = R.graphStructure;
    auto& S = R.solutionPath;
    if (!R.solved) {
        MC_CHECK(S.PathId.empty() && S.solvedPath.empty() && S.interpolatedPath.empty(), "path-when-unsolved", "unsolved, with %d indices, %d path and %d interpolated points", int(S.PathId.size()), int(S.solvedPath.size()), int(S.interpolatedPath.size()));
        return;
    }
    auto& p = S.solvedPath;
    MC_CHECK(!S.PathId.empty() && p.size() == S.PathId.size() + 2, "length", "%d indices, %d path points", int(S.PathId.size()), int(p.size()));
    MC_CHECK(p.front() == req.start, "start", "the path starts at %s", sc2::cfg(p.front()).c_str());
    MC_CHECK(p.back() == req.goal, "goal", "the path ends at %s", sc2::cfg(p.back()).c_str());
    double sum = 0;
    for (size_t i = 0; i < S.PathId.size(); ++i) {
        int v = S.PathId[i];
        MC_CHECK(v >= 0 && size_t(v) < G.vertex.size(), "index", "index %d of %d vertices", v, int(G.vertex.size()));
        MC_CHECK(p[i + 1] == G.vertex[size_t(v)], "vertex", "path point %d is not vertex %d", int(i) + 1, v);
        if (!i) continue;
        double w = INFINITY;
        for (size_t e = 0; e < G.edge.size(); ++e) {
            int a = int(G.edge[e].first), b = int(G.edge[e].second), u = S.PathId[i - 1];
            if ((a == u && b == v) || (a == v && b == u)) w = std::min(w, G.weight[e]);
        }
        MC_CHECK(std::isfinite(w), "edge", "path step %d - %d is no edge", S.PathId[i - 1], v);
        sum += w;
    }
    MC_CHECK(std::fabs(S.cost - sum) < 1e-9 * (1 + sum), "cost", "cost %.12g, edges add up to %.12g", S.cost, sum);
    auto& q = S.interpolatedPath;
    MC_CHECK(q.size() >= 2, "interpolated-empty", "interpolated path of %d points", int(q.size()));
    double leg = 0;
    for (size_t i = 1; i < p.size(); ++i) leg = std::max(leg, dist(p[i - 1], p[i]));
    for (size_t i = 0; i < q.size(); ++i) {
        MC_CHECK(q[i].size() == p[0].size(), "interpolated-dimension", "interpolated point of %d numbers", int(q[i].size()));
        for (double x : q[i]) MC_CHECK(std::isfinite(x), "interpolated-finite", "interpolated point %d is not finite", int(i));
        if (q[i].size() >= 7) { double n = std::sqrt(q[i][3] * q[i][3] + q[i][4] * q[i][4] + q[i][5] * q[i][5] + q[i][6] * q[i][6]); MC_CHECK(std::fabs(n - 1) < 1e-6, "interpolated-unit", "interpolated quaternion of norm %.9g", n); }
        if (i) {
            double d = dist(q[i - 1], q[i]);
            if (q[i].size() >= 7) { auto a = q[i]; for (size_t k = 3; k < 7; ++k) a[k] = -a[k]; d = std::min(d, dist(q[i - 1], a)); }
            MC_CHECK(d <= leg + 1e-6, "interpolated-step", "interpolated step %d of %.6g, the longest leg is %.6g", int(i), d, leg);
        }
    }
    MC_CHECK(same(q.front(), req.start), "interpolated-start", "the interpolated path starts at %s", sc2::cfg(q.front()).c_str());
    MC_CHECK(same(q.back(), req.goal), "interpolated-goal", "the interpolated path ends at %s", sc2::cfg(q.back()).c_str());
    // passes through all path points in order, and in between stays on the legs
    size_t at = 0;
    for (size_t i = 0; i < p.size(); ++i) {
        size_t from = at;
        while (at < q.size() && !same(q[at], p[i])) ++at;
        MC_CHECK(at < q.size(), "interpolated-order", "path point %d is not met in order", int(i));
        for (size_t k = from; k < at && i; ++k) {
            std::vector<double> u(p[i].size());
            double L = 0, s = 0;
            for (size_t z = 0; z < 3; ++z) L += std::pow(p[i][z] - p[i - 1][z], 2), s += (q[k][z] - p[i - 1][z]) * (p[i][z] - p[i - 1][z]);
            if (p[0].size() < 7 || L < 1e-9) continue;
            auto w = sc3::between(p[i - 1], p[i], s / L);
            MC_CHECK(same(w, q[k]), "interpolated-leg", "interpolated point %s is not on the leg %s - %s", sc2::cfg(q[k]).c_str(), sc2::cfg(p[i - 1]).c_str(), sc2::cfg(p[i]).c_str());
        }
    }
}
static void body2() {
    using namespace sc2;
    Case c;
    pickCase(c);
    mc::assume(c.p.points != 2 && c.num == 50);
    int ends = mc::choose(6, "ends");
    if (ends && !mc::thorough()) mc::assume(!c.p.bounds && (ends < 4 || (!c.p.rounds && !c.kc)));
    c.num = 20;
    build(c);
    if (ends == 1) c.req.goal = c.req.start;
    if (ends == 2) { c.req.goal = c.req.start; c.req.goal[0] += 0.5; c.req.goal[2] += 0.2; }
    if (ends == 3) { std::swap(c.req.start, c.req.goal); c.req.parameters.numSearchNeighbor = 1; c.req.parameters.searchRadius = 3; }
    env::reset();
    auto P = make(c);
    P->plan(limit(c.p));
    if (ends >= 4) {   // the end points lie exactly on vertices of the roadmap
        auto& F = P->getPlanningResult();
        mc::assume(F.solved && F.solutionPath.PathId.size() > 1);
        auto a = F.graphStructure.vertex.at(F.solutionPath.PathId.front()), b = F.graphStructure.vertex.at(F.solutionPath.PathId.back());
        c.req.goal = b;
        if (ends == 5) c.req.start = a;
        env::reset();
        P = make(c);
        P->plan(limit(c.p));
    }
    auto& R = P->getPlanningResult();
    mc::step();
    mc::state(mc::Hash().u(R.graphStructure.vertex.size()).u(R.solutionPath.PathId.size()).u(uint64_t(c.id)).u(uint64_t(ends)).u(uint64_t(c.p.slices)));
    mc::outcome(mc::fmt("2D %s %s", R.solved ? "solved" : "unsolved", ends == 1 ? "start=goal" : ""));
    judge(*P, c.req);
}
static void body3() {
    using namespace sc3;
    Case c;
    pickCase(c, true);
    int ends = mc::choose(6, "ends");
    if (ends && !mc::thorough()) mc::assume(!c.p.bounds && (ends < 4 || !c.p.rounds));
    c.num = 12;
    build(c);
    if (ends == 1) c.req.goal = c.req.start;
    if (ends == 2) { c.req.goal = c.req.start; c.req.goal[0] += 0.5; for (int i = 3; i < 7; ++i) c.req.goal[size_t(i)] *= -1; }
    if (ends == 3) { std::swap(c.req.start, c.req.goal); c.req.parameters.numSearchNeighbor = 1; c.req.parameters.searchRadius = 3; }
    auto P = make(c);
    P->plan(limit(c));
    if (ends >= 4) {   // the end points lie exactly on vertices of the roadmap
        mc::assume(c.p.kind < PROB);   // random slices: another run has other vertices
        auto& F = P->getPlanningResult();
        mc::assume(F.solved && F.solutionPath.PathId.size() > 1);
        auto a = F.graphStructure.vertex.at(F.solutionPath.PathId.front()), b = F.graphStructure.vertex.at(F.solutionPath.PathId.back());
        c.req.goal = b;
        if (ends == 5) c.req.start = a;
        P = make(c);
        P->plan(limit(c));
    }
    auto& R = P->getPlanningResult();
    mc::step();
    mc::state(mc::Hash().u(R.graphStructure.vertex.size()).u(R.solutionPath.PathId.size()).u(uint64_t(c.id)).u(uint64_t(ends)).u(uint64_t(c.p.kind)));
    mc::outcome(mc::fmt("3D/%d %s %s", c.p.kind, R.solved ? "solved" : "unsolved", ends == 1 ? "start=goal" : ""));
    judge(*P, c.req);
}
int main(int argc, char** argv) {
    mc::Options o;
    o.splitDepth = 5;
    return mc::run(argc, argv, [] { if (mc::choose(2, "dimension")) body3(); else body2(); }, o);
}
