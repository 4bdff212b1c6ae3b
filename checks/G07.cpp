// G07: lines against triangles and closed convex meshes.
#include "mc.hpp"
#include "hrmgeo.hpp"
#include "hrm/geometry/LineIntersection.h"
#include "hrm/geometry/MeshGenerator.h"
#include "hrm/geometry/SuperQuadrics.h"
using geo::V3;
struct I3 { long x, y, z; };
static I3 operator-(I3 a, I3 b) { return {a.x - b.x, a.y - b.y, a.z - b.z}; }
static I3 crs(I3 a, I3 b) { return {a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x}; }
static long dot(I3 a, I3 b) { return a.x * b.x + a.y * b.y + a.z * b.z; }
static const std::vector<I3>& dirs() {
    static std::vector<I3> d;
    if (d.empty()) for (long x = -1; x <= 1; ++x) for (long y = -1; y <= 1; ++y) for (long z = -1; z <= 1; ++z) {
        if (!x && !y && !z) continue;
        if (x < 0 || (x == 0 && y < 0) || (x == 0 && y == 0 && z < 0)) continue;
        d.push_back({x, y, z});
    }
    if (d.size() == 13) { d.push_back({0, 0, -2}); d.push_back({1, 2, 0}); d.push_back({2, -1, 3}); d.push_back({-3, 1, 1}); }
    return d;
}
/// frames: identity, and a scaled shifted one whose coordinates are not exactly representable
static const double FS[] = {1, 0.37, 23.1};
static V3 real(I3 p, int f) { return FS[f] * V3(double(p.x), double(p.y), double(p.z)) + (f == 1 ? V3(0.1, -0.7, 5.3) : f == 2 ? V3(-60.3, 33.1, 81.7) : V3(0, 0, 0)); }
static V3 realD(I3 p, int f) { return f ? V3(0.9 * double(p.x), 0.9 * double(p.y), 0.9 * double(p.z)) : V3(double(p.x), double(p.y), double(p.z)); }
static hrm::Line3D line(V3 o, V3 d) { hrm::Line3D l(6); l << o, d; return l; }

static void triangle() {
    static std::vector<I3> g;
    if (g.empty()) for (long x = 0; x < 3; ++x) for (long y = 0; y < 3; ++y) for (long z = 0; z < 3; ++z) g.push_back({2 * x, 2 * y, 2 * z});
    I3 a = mc::pick(g, "a"), b = mc::pick(g, "b"), c = mc::pick(g, "c");
    I3 u = b - a, v = c - a, n = crs(u, v);
    mc::assume(dot(n, n) != 0);
    int f = mc::choose(mc::thorough() ? 3 : 2, "frame");
    mc::state(mc::Hash().u(uint64_t(a.x * 100 + a.y * 10 + a.z)).u(uint64_t(b.x * 100 + b.y * 10 + b.z)).u(uint64_t(c.x * 100 + c.y * 10 + c.z)).u(uint64_t(f)));
    V3 A = real(a, f), U = realD(u, 0) * FS[f], W = realD(v, 0) * FS[f];
    const long st = mc::thorough() ? 1 : 2;
    for (long x = -2; x <= 6; x += st) for (long y = -2; y <= 6; y += st) for (long z = 0; z <= 4; z += 2) for (auto& d : dirs()) {
        I3 o{x, y, z};
        if (st == 2) o = {x, y + (d.z & 1), z};   // odd heights as well
        long nd = dot(n, d);
        V3 pt(7e7, 7e7, 7e7);
        bool r = hrm::intersectLineTriangle3D(line(real(o, f), realD(d, f)), A, U, W, pt);
        mc::step();
        if (nd == 0) {
            if (dot(n, o - a) != 0) MC_CHECK(!r, "triangle-parallel", "parallel line reported");
            continue;   // a line within the plane of the triangle has no single point: not specified
        }
        // hit point h = o + t d, t = n.(a-o)/nd ; scaled by nd to stay integral
        long num = dot(n, a - o);
        I3 h{o.x * nd + num * d.x - a.x * nd, o.y * nd + num * d.y - a.y * nd, o.z * nd + num * d.z - a.z * nd};   // nd*(h - a)
        long nn = dot(n, n);
        // h - a = s u + t v ; s*nn*nd = (h x v).n , t*nn*nd = (u x h).n
        long S = dot(crs(h, v), n), T = dot(crs(u, h), n), D = nn * nd;
        if (D < 0) { S = -S; T = -T; D = -D; }
        bool want = S >= 0 && T >= 0 && S + T <= D;
        MC_CHECK(r == want, want ? "triangle-missed" : "triangle-false", "line (%ld,%ld,%ld)+t(%ld,%ld,%ld): s=%ld/%ld t=%ld/%ld", o.x, o.y, o.z, d.x, d.y, d.z, S, D, T, D);
        if (r) {
            V3 e = A + U * (double(S) / double(D)) + W * (double(T) / double(D));
            MC_CHECK((pt - e).norm() < 1e-9 * (f == 2 ? 100 : 1), "triangle-point", "point (%g,%g,%g), expected (%g,%g,%g)", pt.x(), pt.y(), pt.z(), e.x(), e.y(), e.z());
            mc::metric(S == 0 || T == 0 || S + T == D ? "triangle-hits-on-edge" : "triangle-hits-inside");
        } else mc::metric("triangle-misses");
    }
    mc::outcome("triangle");
}
/// integer convex polytopes with triangulated faces
struct Poly { std::vector<I3> v; std::vector<std::array<int, 3>> f; };
static const std::vector<Poly>& polytopes() {
    static std::vector<Poly> out;
    if (!out.empty()) return out;
    auto hull = [](std::vector<I3> v, int diag) {
        Poly p; p.v = v;
        int n = int(v.size());
        // faces: planes through three points with all others on one side; coplanar points fanned (start chosen by diag)
        std::set<std::vector<int>> seen;
        for (int i = 0; i < n; ++i) for (int j = i + 1; j < n; ++j) for (int k = j + 1; k < n; ++k) {
            I3 nn = crs(v[j] - v[i], v[k] - v[i]);
            if (dot(nn, nn) == 0) continue;
            int pos = 0, neg = 0;
            std::vector<int> on;
            for (int m = 0; m < n; ++m) { long s = dot(nn, v[m] - v[i]); if (s > 0) pos++; else if (s < 0) neg++; else on.push_back(m); }
            if (pos && neg) continue;
            if (!seen.insert(on).second) continue;
            V3 c(0, 0, 0), N{double(nn.x), double(nn.y), double(nn.z)};
            for (int m : on) c += V3(double(v[m].x), double(v[m].y), double(v[m].z)) / double(on.size());
            V3 e1 = N.unitOrthogonal(), e2 = N.normalized().cross(e1);
            std::sort(on.begin(), on.end(), [&](int x, int y) {
                V3 X = V3(double(v[x].x), double(v[x].y), double(v[x].z)) - c, Y = V3(double(v[y].x), double(v[y].y), double(v[y].z)) - c;
                return std::atan2(X.dot(e2), X.dot(e1)) < std::atan2(Y.dot(e2), Y.dot(e1)); });
            std::rotate(on.begin(), on.begin() + diag % int(on.size()), on.end());
            for (size_t m = 1; m + 1 < on.size(); ++m) p.f.push_back({on[0], on[m], on[m + 1]});
        }
        return p;
    };
    for (int d = 0; d < 2; ++d) {
        out.push_back(hull({{0, 0, 0}, {4, 0, 0}, {0, 4, 0}, {4, 4, 0}, {0, 0, 4}, {4, 0, 4}, {0, 4, 4}, {4, 4, 4}}, d));                     // cube
        out.push_back(hull({{2, 2, 0}, {2, 2, 4}, {0, 2, 2}, {4, 2, 2}, {2, 0, 2}, {2, 4, 2}}, d));                                         // octahedron
        out.push_back(hull({{0, 0, 0}, {4, 0, 0}, {0, 4, 0}, {0, 0, 4}}, d));                                                               // tetrahedron
        out.push_back(hull({{0, 0, 0}, {4, 0, 0}, {2, 4, 0}, {0, 0, 4}, {4, 0, 4}, {2, 4, 4}}, d));                                         // prism
        out.push_back(hull({{0, 0, 0}, {4, 0, 0}, {4, 4, 0}, {0, 4, 0}, {2, 2, 4}}, d));                                                    // pyramid
        out.push_back(hull({{2, 0, 0}, {4, 2, 0}, {2, 4, 0}, {0, 2, 0}, {0, 0, 4}, {4, 0, 4}, {4, 4, 4}, {0, 4, 4}}, d));                     // antiprism
    }
    return out;
}
static void polytope() {
    int pi = mc::choose(int(polytopes().size()), "polytope");
    const Poly& p = polytopes()[size_t(pi)];
    int f = mc::choose(3, "frame");
    I3 d = mc::pick(dirs(), "dir");
    int rot = mc::choose(3, "faceorder");
    hrm::MeshMatrix M;
    M.vertices = Eigen::MatrixXd(3, Eigen::Index(p.v.size()));
    for (size_t i = 0; i < p.v.size(); ++i) M.vertices.col(Eigen::Index(i)) = real(p.v[i], f);
    M.faces = Eigen::MatrixXd(Eigen::Index(p.f.size()), 3);
    for (size_t i = 0; i < p.f.size(); ++i) {
        size_t k = rot == 1 ? p.f.size() - 1 - i : rot == 2 ? (i + p.f.size() / 2) % p.f.size() : i;
        for (int j = 0; j < 3; ++j) M.faces(Eigen::Index(i), j) = p.f[k][size_t((j + rot) % 3)];
    }
    mc::state(mc::Hash().u(uint64_t(pi)).u(uint64_t(f)).u(uint64_t(rot)).u(uint64_t(d.x + 5)).u(uint64_t(d.y + 5)).u(uint64_t(d.z + 5)));
    I3 centre{0, 0, 0};
    for (auto& q : p.v) centre = {centre.x + q.x, centre.y + q.y, centre.z + q.z};
    long N = long(p.v.size());
    bool vertical = d.x == 0 && d.y == 0;
    for (long x = -1; x <= 5; ++x) for (long y = -1; y <= 5; ++y) for (long z = -1; z <= 5; ++z) {
        if (vertical && z > 0) continue;
        I3 o{x, y, z};
        double lo = -INFINITY, hi = INFINITY;
        bool miss = false;
        long ln = -1000000, ld = 1, hn = 1000000, hd = 1;   // exact rational clip
        for (auto& t : p.f) {
            I3 a = p.v[size_t(t[0])], n = crs(p.v[size_t(t[1])] - a, p.v[size_t(t[2])] - a);
            if (dot(n, I3{centre.x - N * a.x, centre.y - N * a.y, centre.z - N * a.z}) > 0) n = {-n.x, -n.y, -n.z};
            long s = dot(n, o - a), m = dot(n, d);   // inside: s + t m <= 0
            if (m == 0) { if (s > 0) miss = true; continue; }
            if (m > 0) { if (-s * hd < hn * m) { hn = -s; hd = m; } }
            else { if (s * ld > ln * -m) { ln = s; ld = -m; } }
        }
        if (ln * hd > hn * ld) miss = true;
        lo = double(ln) / double(ld); hi = double(hn) / double(hd);
        for (int fn = 0; fn < (vertical ? 2 : 1); ++fn) {
            auto r = fn ? hrm::intersectVerticalLineMesh3D(line(real(o, f), realD(d, f)), M) : hrm::intersectLineMesh3D(line(real(o, f), realD(d, f)), M);
            mc::step();
            if (miss) { MC_CHECK(r.empty(), "mesh-false", "line (%ld,%ld,%ld)+t(%ld,%ld,%ld) misses, %zu points", o.x, o.y, o.z, d.x, d.y, d.z, r.size()); mc::metric("mesh-misses"); continue; }
            MC_CHECK(!r.empty(), "mesh-missed", "line (%ld,%ld,%ld)+t(%ld,%ld,%ld) enters at %g leaves at %g, nothing reported", o.x, o.y, o.z, d.x, d.y, d.z, lo, hi);
            mc::metric(lo < hi ? "mesh-hits" : "mesh-touches");
            V3 D = realD(d, 0) * FS[f], O = real(o, f);
            double rl = INFINITY, rh = -INFINITY;
            for (auto& q : r) {
                double t = (q - O).dot(D) / D.squaredNorm();
                MC_CHECK((O + t * D - q).norm() < 1e-8, "mesh-offline", "reported point is off the line");
                rl = std::min(rl, t); rh = std::max(rh, t);
            }
            MC_CHECK(std::fabs(rl - lo) < 1e-8 && std::fabs(rh - hi) < 1e-8, "mesh-extremes", "line (%ld,%ld,%ld)+t(%ld,%ld,%ld): [%g,%g], reported [%g,%g]", o.x, o.y, o.z, d.x, d.y, d.z, lo, hi, rl, rh);
        }
    }
    mc::outcome("polytope");
}
/// surfaces sampled from shapes: lines through every vertex, edge middle and cell
static void sampled() {
    static const double EP[][2] = {{1, 1}, {0.2, 0.6}, {1.4, 1}};
    auto& ep = mc::pick(EP, "eps");
    int num = 6 + 3 * mc::choose(2, "num");
    bool rotd = mc::flip("rot");
    bool sum = mc::flip("sum");
    bool vert = mc::flip("vertical");
    hrm::SuperQuadrics A({5, 3, 4}, {ep[0], ep[1]}, {1, -2, 0.5}, rotd ? Eigen::Quaterniond(Eigen::AngleAxisd(0.8, V3(1, 2, 0.5).normalized())) : Eigen::Quaterniond::Identity(), hrm::Index(num));
    auto P = sum ? A.getMinkSum3D(hrm::SuperQuadrics({0.5, 0.3, 1}, {1, 1}, {0, 0, 0}, Eigen::Quaterniond::Identity(), 6), 1) : A.getOriginShape();
    auto M = hrm::getMeshFromParamSurface(P, hrm::Index(num));
    mc::state(mc::Hash().d(ep[0]).u(uint64_t(num)).u(rotd).u(sum).u(vert));
    std::vector<V3> O;
    for (int i = 0; i < P.cols(); ++i) { O.push_back(P.col(i)); O.push_back((P.col(i) + P.col((i + 1) % P.cols())) / 2); O.push_back(V3(P.col(i)) + V3(0.013, 0.007, 0.011)); O.push_back(V3(P.col(i)) * 1.3); }
    std::vector<V3> D;
    if (vert) D = {V3(0, 0, 1)}; else D = {V3(1, 0, 0), V3(0, 1, 0), V3(1, 1, 0), V3(0.3, -0.5, 0.8)};
    for (auto& o : O) for (auto& d : D) {
        auto r = vert ? hrm::intersectVerticalLineMesh3D(line(o, d), M) : hrm::intersectLineMesh3D(line(o, d), M);
        mc::step();
        // own clip of every triangle with and without tolerance: reported extremes lie between the two
        double il = INFINITY, ih = -INFINITY, xl = INFINITY, xh = -INFINITY;
        for (int k = 0; k < M.faces.rows(); ++k) {
            V3 a = M.vertices.col(int(M.faces(k, 0) + 0.5)), b = M.vertices.col(int(M.faces(k, 1) + 0.5)), c = M.vertices.col(int(M.faces(k, 2) + 0.5));
            double len = std::max({(b - a).norm(), (c - a).norm(), (c - b).norm()});
            // signed volumes of the line against the three edges
            auto sv = [&](V3 p, V3 q) { return d.dot((p - o).cross(q - o)); };
            double w0 = sv(b, c), w1 = sv(c, a), w2 = sv(a, b), tot = w0 + w1 + w2;
            double tolv = 1e-9 * (1 + len) * d.norm() * 10;
            bool loose = (w0 > -tolv && w1 > -tolv && w2 > -tolv) || (w0 < tolv && w1 < tolv && w2 < tolv);
            if (!loose) continue;
            // candidates along the line: with tolerance the whole triangle span is possible when it is nearly edge on
            double ta = (a - o).dot(d) / d.squaredNorm(), tb = (b - o).dot(d) / d.squaredNorm(), tc = (c - o).dot(d) / d.squaredNorm();
            bool strict = (w0 > tolv && w1 > tolv && w2 > tolv) || (w0 < -tolv && w1 < -tolv && w2 < -tolv);
            if (strict) {
                double t = (w0 * ta + w1 * tb + w2 * tc) / tot;
                il = std::min(il, t - 1e-7); ih = std::max(ih, t + 1e-7);
                xl = std::min(xl, t - 1e-6); xh = std::max(xh, t + 1e-6);
                // exact hits count fully
                il = std::min(il, t); ih = std::max(ih, t);
            } else {
                xl = std::min(xl, std::min(ta, std::min(tb, tc)) - 1e-6); xh = std::max(xh, std::max(ta, std::max(tb, tc)) + 1e-6);
            }
        }
        double rl = INFINITY, rh = -INFINITY;
        for (auto& q : r) { double t = (q - o).dot(d) / d.squaredNorm(); rl = std::min(rl, t); rh = std::max(rh, t); }
        if (il <= ih) {
            MC_CHECK(!r.empty(), "sampled-missed", "line through (%g,%g,%g) along (%g,%g,%g) meets the surface in [%g,%g], nothing reported", o.x(), o.y(), o.z(), d.x(), d.y(), d.z(), il, ih);
            MC_CHECK(rl <= il + 1e-6 && rh >= ih - 1e-6, "sampled-short", "(%g,%g,%g): true [%g,%g] reported [%g,%g]", o.x(), o.y(), o.z(), il, ih, rl, rh);
            mc::metric("sampled-hits");
        }
        if (!r.empty()) MC_CHECK(rl >= xl - 1e-6 && rh <= xh + 1e-6, "sampled-outside", "(%g,%g,%g): reported [%g,%g], surface within [%g,%g]", o.x(), o.y(), o.z(), rl, rh, xl, xh);
        else mc::metric("sampled-misses");
    }
    mc::outcome("sampled");
}
static void body() {
    switch (mc::choose(3, "kind")) { case 0: triangle(); break; case 1: polytope(); break; default: sampled(); }
}
int main(int c, char** v) { mc::Options o; o.splitDepth = 3; return mc::run(c, v, body, o); }
