// R08: attachment of query configurations to the roadmap, on every roadmap of both lattices x a lattice of queries.
#include "mc.hpp"
#include "env.hpp"
#include "scene2.hpp"
#include "scene3.hpp"
static const double RADII[] = {1.5707963267948966, 0.15, 0.0, 4.0, 0.7};
static const int KS[] = {10, 1, 2, 100};
using VV = std::vector<std::vector<double>>;
static double dist(const std::vector<double>& a, const std::vector<double>& b) {
    double d = 0;
    for (size_t i = 0; i < std::min(a.size(), b.size()); ++i) d += (a[i] - b[i]) * (a[i] - b[i]);
    return std::sqrt(d);
}
/// orient: orientation class of each vertex; away(c): angle of class c from the query; apart(c,d): between two classes;
/// near(v): within the allowed gaps of the query (1 yes, 0 no, -1 too close to tell)
template <class Away, class Apart, class Near>
static void judge(const VV& V, const std::vector<int>& orient, int classes, const std::vector<double>& q, int k, double radius,
                  const std::vector<hrm::planners::Vertex>& got, Away away, Apart apart, Near near, const std::string& who) {
    mc::step();
    MC_CHECK(int(got.size()) <= k, "limit", "%s: %d attachments, limit %d", who.c_str(), int(got.size()), k);
    std::vector<int> seen(size_t(classes), 0), has(size_t(classes), 0);
    for (int o : orient) has[size_t(o)] = 1;
    std::vector<double> best(size_t(classes), INFINITY);
    for (size_t i = 0; i < V.size(); ++i) best[size_t(orient[i])] = std::min(best[size_t(orient[i])], dist(V[i], q));
    // the orientation closest to the query: among all of them, or among those with vertices
    auto closest = [&](bool withVertices) {
        int c = -1;
        double d = INFINITY, d2 = INFINITY;
        for (int i = 0; i < classes; ++i) {
            if (withVertices && !has[size_t(i)]) continue;
            double a = away(i);
            if (a < d) { d2 = d; d = a; c = i; } else d2 = std::min(d2, a);
        }
        return d2 - d < 1e-6 ? -1 : c;
    };
    int c = closest(true), c2 = closest(false);
    bool known = c >= 0 && c == c2;
    for (auto v : got) {
        MC_CHECK(v < V.size(), "range", "%s: vertex %d of %d", who.c_str(), int(v), int(V.size()));
        int o = orient[v];
        MC_CHECK(!seen[size_t(o)]++, "twice", "%s: two attachments with the orientation of vertex %d", who.c_str(), int(v));
        MC_CHECK(dist(V[v], q) <= best[size_t(o)] + 1e-9, "nearest", "%s: vertex %d is %.9g away, the nearest of its orientation is %.9g away", who.c_str(), int(v), dist(V[v], q), best[size_t(o)]);
        MC_CHECK(near(V[v]) != 0, "gap", "%s: vertex %d is too many sweep lines away", who.c_str(), int(v));
        if (known) MC_CHECK(apart(c, o) < radius + 1e-6, "radius", "%s: vertex %d turned by %.6g from the closest orientation, radius %.6g", who.c_str(), int(v), apart(c, o), radius);
    }
    if (!known || k < classes) return;
    for (int o = 0; o < classes; ++o) {
        if (!has[size_t(o)] || seen[size_t(o)] || apart(c, o) > radius - 1e-6) continue;
        bool all = true;   // every nearest vertex (there may be ties) lies within the gaps
        for (size_t i = 0; i < V.size(); ++i) if (orient[i] == o && dist(V[i], q) <= best[size_t(o)] + 1e-9 && near(V[i]) != 1) all = false;
        MC_CHECK(!all, "missed", "%s: no attachment to orientation %d, %.6g from the closest one", who.c_str(), o, apart(c, o));
    }
}
static void body2() {
    using namespace sc2;
    Case c;
    pickCase(c);
    mc::assume(c.p.points != 2 && c.num == 50);
    c.num = 20;
    build(c);
    env::reset();
    auto P = make(c);
    P->plan(limit(c.p));
    auto& V = P->getPlanningResult().graphStructure.vertex;
    mc::state(mc::Hash().u(V.size()).u(uint64_t(c.id)).u(uint64_t(c.p.slices)).u(uint64_t(c.p.lines)).u(uint64_t(c.p.bounds)));
    mc::outcome(V.empty() ? "2D empty" : "2D");
    auto g = grid(c.p.slices);
    std::vector<int> orient;
    for (auto& v : V) { int h = headingOf(g, v[2]); orient.push_back(h); MC_CHECK(h >= 0, "heading", "%g", v[2]); }
    auto& lim = c.req.parameters.boundaryLimits;
    double range = lim[3] - lim[2], lines = double(P->getPlannerParameters().numLineY);
    int N = mc::thorough() ? 5 : 3;
    for (int ix = 0; ix < N; ++ix) for (int iy = 0; iy < N; ++iy) for (double th : {0.3, -3.0, 3.1, 1.6, -1.2}) for (int k : KS) for (double r : RADII) {
        std::vector<double> q{lim[0] + (lim[1] - lim[0]) * (ix + 0.31) / N, lim[2] + range * (iy + 0.43) / N, th};
        if (!V.empty() && k == 1) { q = V[(size_t(ix) * 7 + size_t(iy) * 3) % V.size()]; q[0] += 0.1 * ix; q[2] += th / 50; if (std::fabs(q[2]) > PI_) continue; }
        auto got = P->getNearestNeighborsOnGraph(q, hrm::Index(k), r);
        judge(V, orient, int(g.size()), q, k, r, got, [&](int o) { return std::fabs(q[2] - g[size_t(o)]); }, [&](int a, int b) { return std::fabs(g[size_t(a)] - g[size_t(b)]); },
              [&](const std::vector<double>& v) { double d = std::fabs(q[1] - v[1]) - r * range / lines; return std::fabs(d) < 1e-9 ? -1 : d < 0; }, mc::fmt("query %s, limit %d, radius %g", cfg(q).c_str(), k, r));
    }
    if (V.empty()) MC_CHECK(!P->getPlanningResult().solved, "solved-empty", "solved without a vertex");
}
static void body3() {
    using namespace sc3;
    Case c;
    pickCase(c, false);
    c.num = 12;
    build(c);
    auto P = make(c);
    P->plan(limit(c));
    auto& V = P->getPlanningResult().graphStructure.vertex;
    bool prob = c.p.kind >= PROB;
    mc::state(mc::Hash().u(V.size()).u(uint64_t(c.id)).u(uint64_t(c.p.orient)).u(uint64_t(c.p.linesX)).u(uint64_t(c.p.kind)));
    mc::outcome(mc::fmt("3D/%d %s", c.p.kind, V.empty() ? "empty" : ""));
    std::vector<std::vector<double>> turns;
    bool all = true;   // every orientation is known, those without vertices included
    if (!prob) for (auto& q : orientations(c.p.orient)) turns.push_back({0, 0, 0, q.w(), q.x(), q.y(), q.z()});
    else { turns.push_back(c.req.start); turns.push_back(c.req.goal); }
    if (turns.empty() || prob) all = false;
    std::vector<int> orient;
    for (auto& v : V) {
        int o = -1;
        for (size_t t = 0; t < turns.size(); ++t) if (qdist(turns[t], v) < 2e-6) o = int(t);
        if (o < 0) { o = int(turns.size()); turns.push_back(v); }
        orient.push_back(o);
    }
    if (!all && turns.size() < P->getPlannerParameters().numSlice) return;   // some orientation without vertices is not observable
    auto& lim = c.req.parameters.boundaryLimits;
    auto& par = P->getPlannerParameters();
    std::vector<double> qa{1, 0.2, 0, 0.3}, qb{-0.1, 0.9, 0.3, 0.3}, qc{0.6, 0.1, -0.9, 0.5};
    for (int ix = 0; ix < 2; ++ix) for (int iy = 0; iy < 2; ++iy) for (int iz = 0; iz < 2; ++iz) for (auto* qq : {&qa, &qb, &qc}) for (int k : KS) for (double r : RADII) {
        std::vector<double> q{lim[0] + (lim[1] - lim[0]) * (ix + 0.31) / 2, lim[2] + (lim[3] - lim[2]) * (iy + 0.43) / 2, lim[4] + (lim[5] - lim[4]) * (iz + 0.4) / 2};
        double n = std::sqrt((*qq)[0] * (*qq)[0] + (*qq)[1] * (*qq)[1] + (*qq)[2] * (*qq)[2] + (*qq)[3] * (*qq)[3]);
        for (double x : *qq) q.push_back(x / n);
        for (size_t j = 0; j < c.r->j.size(); ++j) q.push_back(0.1);
        if (!V.empty() && k == 2) { auto v = V[(size_t(ix) * 7 + size_t(iy) * 3 + size_t(iz)) % V.size()]; v[2] += 0.05 * ix; q = v; if (iz) for (int i = 3; i < 7; ++i) q[size_t(i)] = -q[size_t(i)]; }
        auto got = P->getNearestNeighborsOnGraph(q, hrm::Index(k), r);
        judge(V, orient, int(turns.size()), q, k, r, got, [&](int o) { return qdist(q, turns[size_t(o)]); }, [&](int a, int b) { return a == b ? 0. : qdist(turns[size_t(a)], turns[size_t(b)]); },
              [&](const std::vector<double>& v) {
                  double a = std::fabs(q[0] - v[0]) - r * (lim[1] - lim[0]) / double(par.numLineX), b = std::fabs(q[1] - v[1]) - r * (lim[3] - lim[2]) / double(par.numLineY);
                  if (a > 1e-9 || b > 1e-9) return 0;
                  return a < -1e-9 && b < -1e-9 ? 1 : -1;
              }, mc::fmt("query %s, limit %d, radius %g", cfg(q).c_str(), k, r));
    }
    if (V.empty()) MC_CHECK(!P->getPlanningResult().solved, "solved-empty", "solved without a vertex");
}
int main(int argc, char** argv) {
    mc::Options o;
    o.splitDepth = 5;
    return mc::run(argc, argv, [] { if (mc::choose(2, "dimension")) body3(); else body2(); }, o);
}
