// R14: the roadmap covers the sweep lines: every clearly free configuration on a sweep line is joined by a straight free
// translation to a vertex of its line; clearly visible vertices of neighbouring lines are joined; neighbouring orientations
// are joined wherever some clearly free turn exists.
#include "mc.hpp"
#include "env.hpp"
#include "scene2.hpp"
#include "scene3.hpp"
#include <numeric>
using geo::V2; using geo::V3;
struct Sets {
    std::vector<int> p;
    explicit Sets(size_t n) : p(n) { std::iota(p.begin(), p.end(), 0); }
    int root(int i) { while (p[size_t(i)] != i) i = p[size_t(i)] = p[size_t(p[size_t(i)])]; return i; }
    void join(int a, int b) { p[size_t(root(a))] = root(b); }
};
static void body2() {
    using namespace sc2;
    Case c;
    pickCase(c);
    if (c.kc) return;
    build(c);
    env::reset();
    auto P = make(c);
    P->plan(limit(c.p));
    auto& G = P->getPlanningResult().graphStructure;
    auto& lim = c.req.parameters.boundaryLimits;
    mc::step(G.vertex.size() + G.edge.size());
    mc::state(mc::Hash().u(G.vertex.size()).u(G.edge.size()).u(uint64_t(c.id)).u(uint64_t(c.p.slices)).u(uint64_t(c.p.lines)));
    Judge J{*c.r, *c.s, c.num, 1};
    auto g = grid(c.p.slices);
    int slices = dynamic_cast<Timed<hrm::planners::HRM2D>&>(*P).slices;
    auto clear = [&](double x, double y, double th, const V2& seg, double scale, double margin) {
        for (auto& b : c.r->b) {
            SE2 B = place(b, x, y, th);
            if (scale > 0) { B.a = B.b = scale * std::max(B.a, B.b); }
            for (auto& o : c.s->obs) if (sweptGap(of(o), B, seg, margin) <= margin) return false;
        }
        return true;
    };
    auto inside = [&](double x, double y, double th) {   // clearly
        for (auto& b : c.r->b) {
            SE2 B = place(b, x, y, th);
            for (auto& a : c.s->arena) {
                SE2 A = of(a);
                double m = 1.2 * sag2(a, 1e-6, 1e-6, 0, c.num) + 0.03 * (A.a + A.b) + 0.8 * std::max(B.a, B.b);   // corners that the body cannot reach are cut coarsely
                V2 d = B.c() - A.c();
                for (int q = 0; q < 32; ++q) { V2 n = dir2(TAU * q / 32); if (n.dot(d) + B.h(n) - A.h(n) > -m) return false; }
                if (maxCircle([&](double t) { V2 n = dir2(t); return n.dot(d) + B.h(n) - A.h(n); }, 120) > -m) return false;
            }
        }
        return true;
    };
    std::vector<std::vector<int>> at(g.size());
    for (size_t i = 0; i < G.vertex.size(); ++i) { int h = headingOf(g, G.vertex[i][2]); if (h >= 0) at[size_t(h)].push_back(int(i)); }
    std::set<std::pair<int, int>> E;
    Sets same(G.vertex.size());
    for (auto& e : G.edge) {
        int a = int(e.first), b = int(e.second);
        E.insert({std::min(a, b), std::max(a, b)});
        if (std::fabs(G.vertex[size_t(a)][2] - G.vertex[size_t(b)][2]) < 1e-9 && std::fabs(G.vertex[size_t(a)][1] - G.vertex[size_t(b)][1]) < 1e-9) same.join(a, b);
    }
    int n = c.p.lines, doneSlices = slices;
    for (int round = 0; doneSlices > 0; ++round, n *= 2, doneSlices -= c.p.slices) {
        // the vertices of this round, heading by heading, come in blocks; find them by their order of creation
        for (int s = 0; s < c.p.slices && s < doneSlices; ++s) {
            std::vector<std::vector<int>> line{size_t(n)};
            for (int v : at[size_t(s)]) for (int l = 0; l < n; ++l) {
                double y = lim[2] + (n > 1 ? l * (lim[3] - lim[2]) / (n - 1) : 0);
                if (std::fabs(G.vertex[size_t(v)][1] - y) < 1e-9) line[size_t(l)].push_back(v);
            }
            for (int l = 0; l < n; ++l) {
                double y = lim[2] + (n > 1 ? l * (lim[3] - lim[2]) / (n - 1) : 0);
                int K = mc::thorough() ? 41 : 17;
                for (int q = 0; q < K; ++q) {
                    double x = lim[0] + (lim[1] - lim[0]) * q / (K - 1);
                    if (!inside(x, y, g[size_t(s)]) || !clear(x, y, g[size_t(s)], V2(0, 0), 0, 1e-4)) continue;
                    mc::metric("free points");
                    bool ok = false;
                    for (int v : line[size_t(l)]) if (J.hit(x, y, g[size_t(s)], V2(G.vertex[size_t(v)][0] - x, 0)) <= 0) { ok = true; break; }
                    MC_CHECK(ok, "line-covered", "(%.6g,%.6g) at heading %d is free, and joined to no vertex of its sweep line (round %d, line %d of %d)", x, y, s, round, l, n);
                }
                if (round) continue;   // connections: of the first round; R10 judges those of later rounds
                for (int a : line[size_t(l)]) for (int d = 0; d < 2 && l + d < n; ++d) for (int b : line[size_t(l + d)]) {
                    if (a >= b && d == 0) continue;
                    auto &v = G.vertex[size_t(a)], &w = G.vertex[size_t(b)];
                    if (!clear(v[0], v[1], v[2], V2(w[0] - v[0], w[1] - v[1]), 0, 1e-4)) continue;
                    mc::metric("clear pairs");
                    bool ok = d ? E.count({std::min(a, b), std::max(a, b)}) > 0 : same.root(a) == same.root(b);
                    // in later rounds the same line may carry vertices again, joined by R10's rules
                    if (!ok && slices > c.p.slices) continue;
                    MC_CHECK(ok, d ? "neighbour-lines" : "same-line", "%s and %s see each other, and are not joined", cfg(v).c_str(), cfg(w).c_str());
                }
            }
        }
    }
    int H = c.p.slices;
    for (int i = 0; i < H && H > 1 && slices >= H; ++i) {
        int j = (i + 1) % H;
        if (j == 0 && H == 2) break;
        bool joined = false, possible = false;
        std::string who;
        for (int a : at[size_t(i)]) for (int b : at[size_t(j)]) if (E.count({std::min(a, b), std::max(a, b)})) joined = true;
        if (joined) continue;
        if (slices > H) continue;   // only the first round joins headings; its vertices are not told apart here
        for (int a : at[size_t(i)]) for (int b : at[size_t(j)]) {
            auto &v = G.vertex[size_t(a)], &w = G.vertex[size_t(b)];
            if (std::fabs(v[1] - w[1]) > 2 * (lim[3] - lim[2]) / c.p.lines * 0.999) continue;
            bool ok = true;
            int k = std::max(c.p.points, 2);
            for (int q = 0; q < k && ok; ++q) {
                double t = double(q) / (k - 1);
                ok = clear(v[0] + t * (w[0] - v[0]), v[1] + t * (w[1] - v[1]), v[2] + t * (w[2] - v[2]), V2(0, 0), 1.6, 1e-4);
            }
            if (ok) { possible = true; who = cfg(v) + " - " + cfg(w); }
        }
        mc::metric(possible ? "turns possible" : "turns not clearly possible");
        MC_CHECK(!possible, "turns", "headings %d and %d are not joined at all, though %s is clear", i, j, who.c_str());
    }
}
static void body3() {
    using namespace sc3;
    Case c;
    pickCase(c, false);
    build(c);
    auto P = make(c);
    P->plan(limit(c));
    auto& G = P->getPlanningResult().graphStructure;
    bool prob = c.p.kind >= PROB;
    mc::step(G.vertex.size() + G.edge.size());
    mc::state(mc::Hash().u(G.vertex.size()).u(G.edge.size()).u(uint64_t(c.id)).u(uint64_t(c.p.orient)).u(uint64_t(c.p.linesX)).u(uint64_t(c.p.kind)));
    Judge J{*c.r, *c.s, c.num, false};
    auto& lim = c.req.parameters.boundaryLimits;
    auto& par = P->getPlannerParameters();
    bool refined = long(par.numLineX) != c.p.linesX;
    auto clear = [&](const std::vector<double>& v, const V3& seg, double scale, double margin) {
        for (auto B : place(*c.r, v)) {
            if (scale > 0) { double m = scale * B.ax.maxCoeff(); B.ax = V3(m, m, m); }
            for (auto& o : c.s->obs) if (sweptGap(of(o), B, seg, margin) <= margin) return false;
        }
        return true;
    };
    auto inside = [&](const std::vector<double>& v) {
        for (auto& B : place(*c.r, v)) for (auto& a : c.s->arena) {
            SQ3 A = of(a);
            V3 d = B.p - A.p;
            double m = 1.2 * sag3(a, V3(1e-6, 1e-6, 1e-6), M3::Identity(), c.num) + 0.03 * a.ax.sum() + 0.8 * B.ax.maxCoeff();
            for (auto& n : sphere(300)) if (n.dot(d) + B.h(n) - A.h(n) > -m) return false;
        }
        return true;
    };
    std::set<std::pair<int, int>> E;
    Sets same(G.vertex.size());
    for (auto& e : G.edge) {
        int a = int(e.first), b = int(e.second);
        E.insert({std::min(a, b), std::max(a, b)});
        auto &v = G.vertex[size_t(a)], &w = G.vertex[size_t(b)];
        if (sameTurn(v, w) && std::fabs(v[0] - w[0]) < 1e-9 && std::fabs(v[1] - w[1]) < 1e-9) same.join(a, b);
    }
    // orientations: predefined ones, start and goal of the sampled planners
    std::vector<std::vector<double>> turns;
    if (!prob) for (auto& q : orientations(c.p.orient)) turns.push_back({0, 0, 0, q.w(), q.x(), q.y(), q.z()});
    else { turns.push_back(c.req.start); if (par.numSlice > 1) turns.push_back(c.req.goal); }
    bool ordered = !turns.empty();
    std::vector<hrm::FreeSegment3D> seg;
    if (ordered && !refined) for (size_t t = 0; t < turns.size(); ++t) seg.push_back(P->getFreeSegmentOneSlice(&P->getCSpaceBoundary().at(t)));
    auto primary = [&](size_t t, int i, int j, double z) {
        for (double m : seg[t].freeSegmentYZ.at(size_t(i)).xM.at(size_t(j))) if (std::fabs(m - z) < 1e-9) return true;
        return false;
    };
    if (turns.empty()) for (auto& v : G.vertex) {
        bool known = false;
        for (auto& t : turns) known = known || sameTurn(t, v);
        if (!known) turns.push_back(v);
    }
    std::vector<std::vector<int>> at(turns.size());
    int nx = c.p.linesX, ny = c.p.linesY;
    auto X = [&](int i) { return lim[0] + (nx > 1 ? i * (lim[1] - lim[0]) / (nx - 1) : 0); };
    auto Y = [&](int i) { return lim[2] + (ny > 1 ? i * (lim[3] - lim[2]) / (ny - 1) : 0); };
    for (size_t t = 0; t < turns.size(); ++t) {
        std::vector<std::vector<int>> line{size_t(nx * ny)};
        for (size_t v = 0; v < G.vertex.size(); ++v) if (sameTurn(G.vertex[v], turns[t])) {
            at[t].push_back(int(v));
            for (int i = 0; i < nx; ++i) for (int j = 0; j < ny; ++j)
                if (std::fabs(G.vertex[v][0] - X(i)) < 1e-9 && std::fabs(G.vertex[v][1] - Y(j)) < 1e-9) line[size_t(i * ny + j)].push_back(int(v));
        }
        for (int i = 0; i < nx; ++i) for (int j = 0; j < ny; ++j) {
            auto& L = line[size_t(i * ny + j)];
            int K = mc::thorough() ? 23 : 9;
            for (int q = 0; q < K; ++q) {
                auto p = turns[t];
                p[0] = X(i); p[1] = Y(j); p[2] = lim[4] + (lim[5] - lim[4]) * q / (K - 1);
                if (!inside(p) || !clear(p, Z3, 0, 1e-4)) continue;
                mc::metric("free points");
                bool ok = false;
                for (int v : L) if (J.hit(p, V3(0, 0, G.vertex[size_t(v)][2] - p[2])) <= 0) { ok = true; break; }
                MC_CHECK(ok, "line-covered", "%s is free, and joined to no vertex of its sweep line (%d,%d)", cfg(p).c_str(), i, j);
            }
            if (refined || !ordered) continue;
            for (int d = 0; d < 3; ++d) {
                int i2 = i + (d == 1), j2 = j + (d == 2);
                if (i2 >= nx || j2 >= ny) continue;
                for (int a : L) for (int b : line[size_t(i2 * ny + j2)]) {
                    if (d == 0 && a >= b) continue;
                    auto &v = G.vertex[size_t(a)], &w = G.vertex[size_t(b)];
                    if (!inside(v) || !inside(w)) continue;
                    if (E.count({std::min(a, b), std::max(a, b)}) || (d == 0 && same.root(a) == same.root(b))) continue;
                    if (!primary(t, i, j, v[2]) || !primary(t, i2, j2, w[2])) continue;   // a bridge vertex
                    if (!clear(v, V3(w[0] - v[0], w[1] - v[1], w[2] - v[2]), 0, 1e-4)) continue;
                    MC_CHECK(false, d ? "neighbour-lines" : "same-line", "%s and %s see each other, and are not joined", cfg(v).c_str(), cfg(w).c_str());
                }
                mc::metric("line pairs");
            }
        }
    }
    // turns: the second orientation onwards, with its nearest earlier one
    if (refined || (prob && par.numSlice != 2) || (!prob && c.p.orient >= 4)) return;
    for (size_t i = 1; i < turns.size(); ++i) {
        size_t near = 0;
        double best = INFINITY;
        bool tie = false;
        for (size_t j = 0; j < i; ++j) { double d = qdist(turns[i], turns[j]); if (std::fabs(d - best) < 1e-6) tie = true; if (d < best - 1e-6) { best = d; near = j; tie = false; } }
        if (tie) continue;
        bool joined = false, possible = false;
        std::string who;
        for (int a : at[near]) for (int b : at[i]) if (E.count({std::min(a, b), std::max(a, b)})) joined = true;
        if (joined) { mc::metric("orientations joined"); continue; }
        for (int a : at[near]) for (int b : at[i]) {
            auto &v = G.vertex[size_t(a)], &w = G.vertex[size_t(b)];
            if (std::fabs(v[0] - w[0]) > 2 * (lim[1] - lim[0]) / nx * 0.999 || std::fabs(v[1] - w[1]) > 2 * (lim[3] - lim[2]) / ny * 0.999) continue;
            bool ok = true;
            int k = std::max(c.p.points, 1);
            bool ex = c.p.kind == ABLATION || c.p.kind == PROBABL;
            for (int q = 0; q <= k && ok; ++q) ok = clear(between(v, w, double(q) / k), Z3, ex ? 0 : 1.6, ex ? 0.02 : 1e-4);
            if (ok) { possible = true; who = cfg(v) + " - " + cfg(w); break; }
        }
        mc::metric(possible ? "turns possible" : "turns not clearly possible");
        MC_CHECK(!possible, "turns", "orientation %d is not joined with its nearest one %d at all, though %s is clear", int(i), int(near), who.c_str());
    }
}
int main(int argc, char** argv) {
    mc::Options o;
    o.splitDepth = 5;
    return mc::run(argc, argv, [] { if (mc::choose(2, "dimension")) body3(); else body2(); }, o);
}
