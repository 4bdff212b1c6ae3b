// G08: surface meshes (grid topology, closedness, faithfulness) and solid collision meshes.
#include "mc.hpp"
#include "hrmgeo.hpp"
#include "hrm/geometry/MeshGenerator.h"
#include "hrm/geometry/SuperQuadrics.h"
using namespace geo;
static const double AX[][3] = {{5, 3, 4}, {1, 6, 0.5}, {2, 2, 2}, {40, 25, 30}};
static const double EP[][2] = {{1, 1}, {0.1, 0.1}, {0.1, 1}, {1, 0.3}, {1.5, 1.5}, {0.5, 1.8}};
static bool rayTri(const V3& d, const V3& a, const V3& b, const V3& c, double tol, double& t) {   // ray from the origin
    auto sv = [&](const V3& p, const V3& q) { return d.dot(p.cross(q)); };
    double w0 = sv(b, c), w1 = sv(c, a), w2 = sv(a, b), s = w0 + w1 + w2;
    if (s < 0) { w0 = -w0; w1 = -w1; w2 = -w2; s = -s; }
    if (w0 < -tol || w1 < -tol || w2 < -tol || s <= 1e-7) return false;   // slivers at the poles carry no area
    w0 = std::max(w0, 0.0); w1 = std::max(w1, 0.0); w2 = std::max(w2, 0.0); s = w0 + w1 + w2;   // a point of the triangle
    t = (w0 * a.dot(d) + w1 * b.dot(d) + w2 * c.dot(d)) / s;
    return t > 0;
}
static void grid() {   // any points: the topology only depends on n
    int n = 2 + mc::choose(mc::thorough() ? 51 : 21, "n");
    if (n >= (mc::thorough() ? 51 : 21)) n = n % 2 ? 64 : 33;
    Eigen::MatrixXd P(3, n * n);
    for (int i = 0; i < n * n; ++i) P.col(i) << i, i * 0.5, -i;
    auto M = hrm::getMeshFromParamSurface(P, hrm::Index(n));
    mc::step();
    mc::state(mc::Hash().u(uint64_t(n)));
    MC_CHECK(M.vertices.rows() == 3 && M.vertices.cols() == n * n && M.vertices == P, "grid-vertices", "vertices are not the sampled points");
    std::map<std::pair<int, int>, std::vector<std::set<int>>> cells;
    MC_CHECK(M.faces.cols() == 3, "grid-faces", "%d columns", int(M.faces.cols()));
    for (int k = 0; k < M.faces.rows(); ++k) {
        std::set<int> f;
        int r0 = n, c0 = n, r1 = 0, c1 = 0;
        for (int j = 0; j < 3; ++j) {
            double x = M.faces(k, j);
            MC_CHECK(x == std::floor(x) && x >= 0 && x < n * n, "grid-index", "face %d refers to point %g", k, x);
            int id = int(x);
            f.insert(id);
            r0 = std::min(r0, id / n); r1 = std::max(r1, id / n); c0 = std::min(c0, id % n); c1 = std::max(c1, id % n);
        }
        MC_CHECK(f.size() == 3, "grid-degenerate", "face %d repeats a point", k);
        MC_CHECK(r1 - r0 == 1 && c1 - c0 == 1, "grid-stretched", "face %d spans rows %d..%d columns %d..%d", k, r0, r1, c0, c1);
        cells[{r0, c0}].push_back(f);
    }
    for (int r = 0; r + 1 < n; ++r) for (int c = 0; c + 1 < n; ++c) {
        auto& v = cells[{r, c}];
        MC_CHECK(v.size() == 2, "grid-cell", "cell (%d,%d) has %zu triangles", r, c, v.size());
        int q = r * n + c;
        std::vector<int> com;
        for (int x : v[0]) if (v[1].count(x)) com.push_back(x);
        bool diag = com.size() == 2 && ((com[0] == q && com[1] == q + n + 1) || (com[0] == q + 1 && com[1] == q + n));
        MC_CHECK(diag, "grid-overlap", "triangles of cell (%d,%d) do not share a diagonal", r, c);
    }
    mc::outcome("grid");
}
static void surface() {
    auto& ax = mc::pick(AX, "axes"); auto& ep = mc::pick(EP, "eps");
    int num = mc::pick(std::vector<int>{6, 10, 15}, "num");
    bool mink = mc::flip("mink");
    hrm::SuperQuadrics A({ax[0], ax[1], ax[2]}, {ep[0], ep[1]}, {0, 0, 0}, Eigen::Quaterniond::Identity(), hrm::Index(num));
    Eigen::MatrixXd P = mink ? A.getMinkSum3D(hrm::SuperQuadrics({0.4, 0.6, 0.5}, {1, 1}, {0, 0, 0}, Eigen::Quaterniond(Eigen::AngleAxisd(0.7, V3(1, 0, 1).normalized())), 5), 1) : A.getOriginShape();
    auto M = hrm::getMeshFromParamSurface(P, hrm::Index(num));
    mc::step();
    mc::state(mc::Hash().d(ax[0]).d(ep[0]).d(ep[1]).u(uint64_t(num)).u(mink));
    SQ3 S = of(A);
    // every ray from the centre leaves through the mesh, close to the surface
    for (auto& d : sphere(mc::thorough() ? 600 : 150)) {
        double best = -1, t;
        for (int k = 0; k < M.faces.rows(); ++k)
            if (rayTri(d, M.vertices.col(int(M.faces(k, 0))), M.vertices.col(int(M.faces(k, 1))), M.vertices.col(int(M.faces(k, 2))), 1e-11, t)) best = std::max(best, t);
        MC_CHECK(best > 0, "surface-hole", "ray (%g,%g,%g) leaves through a hole", d.x(), d.y(), d.z());
        double g = S.F(best * d);
        if (!mink) { mc::maxi(mc::fmt("surface-sag num%d", num), 1 - g); MC_CHECK(g < 1 + 1e-6 && g > (num < 10 ? 0.35 : 0.55), "surface-sag", "mesh at gauge %g along (%g,%g,%g)", g, d.x(), d.y(), d.z()); }
        mc::eval();
    }
    mc::outcome("surface");
}
static void solid() {
    auto& ax = mc::pick(AX, "axes"); auto& ep = mc::pick(EP, "eps");
    int num = mc::pick(std::vector<int>{6, 10}, "num");
    bool pose = mc::flip("pose");   // the solid mesh is in the body frame whatever the pose
    hrm::SuperQuadrics A({ax[0], ax[1], ax[2]}, {ep[0], ep[1]}, pose ? std::vector<double>{7, 8, -9} : std::vector<double>{0, 0, 0},
                         pose ? Eigen::Quaterniond(Eigen::AngleAxisd(1.7, V3(1, -1, 1).normalized())) : Eigen::Quaterniond::Identity(), hrm::Index(num));
    auto M = hrm::getMeshFromSQ(A);
    mc::step();
    mc::state(mc::Hash().d(ax[0]).d(ep[0]).d(ep[1]).u(uint64_t(num)).u(pose).u(99));
    SQ3 S{ax[0], ax[1], ax[2], ep[0], ep[1], V3::Zero(), Eigen::Matrix3d::Identity()};
    MC_CHECK(M.vertices.size() >= 4 && !M.triangles.empty(), "solid-empty", "%zu vertices", M.vertices.size());
    for (auto& v : M.vertices) MC_CHECK(std::fabs(S.F(v) - 1) < 1e-9, "solid-vertex", "vertex (%g,%g,%g) at gauge %g", v.x(), v.y(), v.z(), S.F(v));
    for (auto& t : M.triangles) for (int j = 0; j < 3; ++j) MC_CHECK(size_t(t[j]) < M.vertices.size(), "solid-index", "index %d", int(t[j]));
    // every sampled point is kept (up to duplicates)
    A.setPosition({0, 0, 0}); A.setQuaternion(Eigen::Quaterniond::Identity());
    auto P = A.getOriginShape();
    for (int i = 0; i < P.cols(); ++i) {
        double best = 1e9;
        for (auto& v : M.vertices) best = std::min(best, (v - V3(P.col(i))).norm());
        MC_CHECK(best < 1e-9, "solid-lost-point", "sampled point %d is %g away from the mesh", i, best);
    }
    for (auto& d : sphere(150)) {
        double best = -1, t;
        for (auto& k : M.triangles) if (rayTri(d, M.vertices[k[0]], M.vertices[k[1]], M.vertices[k[2]], 1e-11, t)) best = std::max(best, t);
        MC_CHECK(best > 0, "solid-hole", "ray (%g,%g,%g) leaves through a hole", d.x(), d.y(), d.z());
        double g = S.F(best * d);
        mc::maxi(mc::fmt("solid-sag num%d", num), 1 - g);
        MC_CHECK(g < 1 + 1e-6 && g > (num < 10 ? 0.35 : 0.55), "solid-sag", "mesh at gauge %g", g);
        mc::eval();
    }
    mc::outcome("solid");
}
static void body() { switch (mc::choose(3, "kind")) { case 0: grid(); break; case 1: surface(); break; default: solid(); } }
int main(int c, char** v) { mc::Options o; o.splitDepth = 3; return mc::run(c, v, body, o); }
