// R06: the graph of every roadmap of both lattices is well formed, lies on the requested sweep lines and orientations,
// and the C-space boundaries recorded with it are those of its orientations.
#include "mc.hpp"
#include "env.hpp"
#include "scene2.hpp"
#include "scene3.hpp"
using geo::V2; using geo::V3;
template <class G> static void graph(const G& g, size_t dim) {
    for (size_t i = 0; i < g.vertex.size(); ++i) {
        auto& v = g.vertex[i];
        MC_CHECK(v.size() == dim, "dimension", "vertex %d has %d numbers, not %d", int(i), int(v.size()), int(dim));
        for (double x : v) MC_CHECK(std::isfinite(x), "finite", "vertex %d is not finite", int(i));
        if (dim >= 7) {
            double n = std::sqrt(v[3] * v[3] + v[4] * v[4] + v[5] * v[5] + v[6] * v[6]);
            MC_CHECK(std::fabs(n - 1) < 1e-6, "unit-quaternion", "vertex %d has a quaternion of norm %.9g", int(i), n);
        }
    }
    MC_CHECK(g.edge.size() == g.weight.size(), "weights", "%d edges, %d weights", int(g.edge.size()), int(g.weight.size()));
    for (size_t i = 0; i < g.edge.size(); ++i) {
        long a = long(g.edge[i].first), b = long(g.edge[i].second), n = long(g.vertex.size());
        MC_CHECK(a >= 0 && b >= 0 && a < n && b < n, "edge-vertices", "edge %d joins %ld and %ld of %ld vertices", int(i), a, b, n);
        MC_CHECK(a != b, "self-edge", "edge %d joins vertex %ld with itself", int(i), a);
        double d = 0;
        for (size_t k = 0; k < dim; ++k) { double x = g.vertex[size_t(a)][k] - g.vertex[size_t(b)][k]; d += x * x; }
        d = std::sqrt(d);
        MC_CHECK(std::fabs(g.weight[i] - d) < 1e-9 * (1 + d), "weight", "edge %d has weight %.12g, its ends are %.12g apart", int(i), g.weight[i], d);
    }
}
/// on one of the evenly spaced lines of the initial grid or of one of its doublings
static bool onLine(double x, double lo, double hi, int n, int rounds) {
    for (int r = 0; r <= rounds; ++r, n *= 2) {
        if (n == 1) { if (std::fabs(x - lo) < 1e-9) return true; continue; }
        double k = std::round((x - lo) / (hi - lo) * (n - 1));
        if (k >= 0 && k < n && std::fabs(lo + (hi - lo) * k / (n - 1) - x) < 1e-9 * (1 + std::fabs(x))) return true;
    }
    return false;
}
static int doublings(long now, long first) { int r = 0; while (first < now && r < 30) { first *= 2; ++r; } return r; }
static void body2() {
    using namespace sc2;
    Case c;
    pickCase(c);
    build(c);
    env::reset();
    auto P = make(c);
    P->plan(limit(c.p));
    auto& G = P->getPlanningResult().graphStructure;
    mc::step(G.vertex.size() + G.edge.size());
    mc::state(mc::Hash().u(G.vertex.size()).u(G.edge.size()).u(uint64_t(c.id)).u(uint64_t(c.p.slices)).u(uint64_t(c.p.lines)));
    mc::outcome(mc::fmt("2D %s", G.vertex.empty() ? "empty" : "roadmap"));
    graph(G, 3);
    auto g = grid(c.p.slices);
    auto& lim = c.req.parameters.boundaryLimits;
    long now = long(P->getPlannerParameters().numLineY);
    int rounds = doublings(now, c.p.lines);
    MC_CHECK((long(c.p.lines) << rounds) == now && rounds <= c.p.rounds, "lines", "%d sweep lines became %ld in up to %d rounds", c.p.lines, now, c.p.rounds);
    for (auto& v : G.vertex) {
        MC_CHECK(headingOf(g, v[2]) >= 0, "heading", "vertex %s is at none of the %d headings", cfg(v).c_str(), c.p.slices);
        MC_CHECK(onLine(v[1], lim[2], lim[3], c.p.lines, rounds), "line", "vertex %s is on no sweep line", cfg(v).c_str());
        MC_CHECK(v[0] >= lim[0] - 1e-9 && v[0] <= lim[1] + 1e-9, "bounds", "vertex %s is outside of the bounds", cfg(v).c_str());
    }
    if (c.kc) return;   // its boundaries are those of the enlarged robot
    auto& B = P->getCSpaceBoundary();
    MC_CHECK(int(B.size()) == c.p.slices, "boundary-sets", "%d sets for %d headings", int(B.size()), c.p.slices);
    for (size_t s = 0; s < B.size(); ++s) {
        size_t nb = c.r->b.size();
        MC_CHECK(B[s].obstacle.size() == nb * c.s->obs.size() && B[s].arena.size() == nb * c.s->arena.size(), "boundary-count", "heading %d: %d obstacle and %d arena boundaries", int(s), int(B[s].obstacle.size()), int(B[s].arena.size()));
        for (int kind = 0; kind < 2; ++kind) {
            auto& L = kind ? B[s].arena : B[s].obstacle;
            auto& O = kind ? c.s->arena : c.s->obs;
            for (size_t o = 0; o < O.size(); ++o) for (size_t b = 0; b < nb; ++b) {
                auto& M = L[o * nb + b];
                for (int q = 0; q < M.cols(); q += 11) {
                    SE2 A = of(O[o]), X = place(c.r->b[b], M(0, q), M(1, q), g[s]);
                    double e = kind ? out2(A, X, 90) : gap2(A, X, 90);
                    // a difference may be trimmed inwards where the body cannot reach
                    bool ok = kind ? e < 1e-4 * (A.a + A.b) : std::fabs(e) < 1e-4 * (A.a + A.b + X.a);
                    MC_CHECK(ok || (kind && e < sagOut2(O[o], X.a, X.b, X.th - A.th, c.num) * 1.2 + 1e-4), kind ? "arena-boundary" : "obstacle-boundary",
                             "heading %d, body %d, %s %d: at base position (%.6g,%.6g) the gap is %.6g", int(s), int(b), kind ? "arena" : "obstacle", int(o), M(0, q), M(1, q), e);
                }
            }
        }
    }
}
static void body3() {
    using namespace sc3;
    Case c;
    pickCase(c, false);
    c.num = 12;
    build(c);
    auto P = make(c);
    P->plan(limit(c));
    auto& G = P->getPlanningResult().graphStructure;
    bool prob = c.p.kind >= PROB;
    mc::step(G.vertex.size() + G.edge.size());
    mc::state(mc::Hash().u(G.vertex.size()).u(G.edge.size()).u(uint64_t(c.id)).u(uint64_t(c.p.orient)).u(uint64_t(c.p.linesX)).u(uint64_t(c.p.kind)));
    mc::outcome(mc::fmt("3D/%d %s", c.p.kind, G.vertex.empty() ? "empty" : "roadmap"));
    graph(G, 7 + c.r->j.size());
    auto& par = P->getPlannerParameters();
    auto& lim = c.req.parameters.boundaryLimits;
    int rx = doublings(long(par.numLineX), c.p.linesX), ry = doublings(long(par.numLineY), c.p.linesY);
    MC_CHECK((long(c.p.linesX) << rx) == long(par.numLineX) && (long(c.p.linesY) << ry) == long(par.numLineY) && rx == ry, "lines", "%dx%d sweep lines became %ldx%ld", c.p.linesX, c.p.linesY, long(par.numLineX), long(par.numLineY));
    auto qs = prob ? std::vector<Eigen::Quaterniond>() : orientations(c.p.orient);
    std::vector<std::vector<double>> turns;   // distinct orientations (and joints)
    for (auto& v : G.vertex) {
        MC_CHECK(onLine(v[0], lim[0], lim[1], c.p.linesX, rx) && onLine(v[1], lim[2], lim[3], c.p.linesY, ry), "line", "vertex %s is on no sweep line", cfg(v).c_str());
        MC_CHECK(v[2] >= lim[4] - 1e-9 && v[2] <= lim[5] + 1e-9, "bounds", "vertex %s is outside of the bounds", cfg(v).c_str());
        if (!qs.empty()) {
            bool in = false;
            for (auto& q : qs) { double d = std::fabs(q.w() * v[3] + q.x() * v[4] + q.y() * v[5] + q.z() * v[6]); if (d > 1 - 1e-9) in = true; }
            MC_CHECK(in, "orientation", "vertex %s has none of the predefined orientations", cfg(v).c_str());
        }
        bool known = false;
        for (auto& t : turns) if (sameTurn(t, v)) known = true;
        if (!known) turns.push_back(v);
    }
    auto& B = P->getCSpaceBoundary();
    size_t n = par.numSlice;
    MC_CHECK(turns.size() <= n, "orientation-count", "%d orientations among the vertices, %d slices", int(turns.size()), int(n));
    if (!prob) MC_CHECK(int(n) == slicesOf(c.p.orient), "slice-count", "%d slices", int(n));
    MC_CHECK(B.size() == n, "boundary-sets", "%d sets for %d orientations", int(B.size()), int(n));
    size_t nb = c.r->b.size();
    for (size_t s = 0; s < B.size(); ++s) {
        MC_CHECK(B[s].obstacle.size() == nb * c.s->obs.size() && B[s].arena.size() == nb * c.s->arena.size(), "boundary-count", "orientation %d: %d obstacle and %d arena boundaries", int(s), int(B[s].obstacle.size()), int(B[s].arena.size()));
        for (auto* L : {&B[s].obstacle, &B[s].arena}) for (auto& M : *L) MC_CHECK(M.rows() == 3 && M.cols() == c.num * c.num && (L == &B[s].arena || M.allFinite()), "boundary-points", "orientation %d: a boundary of %d points", int(s), int(M.cols()));
        if (qs.empty() && !(prob && s < 2)) continue;
        std::vector<double> at(7 + c.r->j.size(), 0.);
        if (prob) at = s == 0 ? c.req.start : c.req.goal;
        else { at[3] = qs[s].w(); at[4] = qs[s].x(); at[5] = qs[s].y(); at[6] = qs[s].z(); }
        for (size_t o = 0; o < c.s->obs.size(); ++o) for (size_t b = 0; b < nb; ++b) for (int q = 5; q < c.num * c.num; q += 41) {
            auto& M = B[s].obstacle[o * nb + b];
            for (int k = 0; k < 3; ++k) at[size_t(k)] = M(k, q);
            El X = place(*c.r, at)[b];
            SQ3 A = of(c.s->obs[o]);
            V3 d = X.p - A.p;
            auto f = [&](const V3& m) { return m.dot(d) - A.h(m) - X.h(m); };
            double e = std::max(maxSphere(f, 300, 6), maxNormals(A, f, 16, 6));
            mc::maxi("contact gap", std::fabs(e));
            MC_CHECK(std::fabs(e) < 2e-3 * (A.a + A.b + A.c_), "obstacle-boundary", "orientation %d, body %d, obstacle %d: with the base at (%.6g,%.6g,%.6g) the gap is %.6g", int(s), int(b), int(o), M(0, q), M(1, q), M(2, q), e);
        }
    }
}
int main(int argc, char** argv) {
    mc::Options o;
    o.splitDepth = 5;
    return mc::run(argc, argv, [] { if (mc::choose(2, "dimension")) body3(); else body2(); }, o);
}
