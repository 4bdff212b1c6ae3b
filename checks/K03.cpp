// K03: C-space boundaries of multi-body robots: every point is a base position of exact contact of that body.
#include "mc.hpp"
#include "hrmgeo.hpp"
#include "hrm/config.h"
#include "hrm/datastructure/MultiBodyTree2D.h"
#include "hrm/datastructure/MultiBodyTree3D.h"
#include <memory>
using namespace geo;
static const double PI_ = 3.14159265358979323846;
static const char* KN(int K) { return K > 0 ? "obstacle" : "arena"; }

static void run2() {
    static const double TH[] = {0, 0.6, -2.1, PI_ / 2, 3.9, -PI_};
    static const double LOC[][2] = {{0, 0}, {13, -8}, {-60, 45}};
    static const double LN[][5] = {{1.5, 0.8, 4, 1, 0.5}, {0.5, 2, -3, 2.5, -1.2}, {1, 1, 0, -4, 3.0}};   // axes, offset, heading
    static const double OB[][6] = {{5, 3, 0.5, 20, 10, 0.4}, {2, 6, 1, -7, 3, -1.1}, {4, 4, 1.4, 0, 0, 2.5}};   // axes, eps, pose
    int nl = mc::choose(5, "links");
    if (nl == 4) nl = 7;
    bool rev = mc::flip("order");
    bool reloc = mc::flip("placed-before");
    hrm::MultiBodyTree2D r(hrm::SuperEllipse({2, 1}, 1, {0, 0}, 0, 20));
    struct L { double a, b; V2 t; double th; };
    std::vector<L> bodies{{2, 1, V2(0, 0), 0}};
    for (int i = 0; i < nl; ++i) {
        auto& l = LN[rev ? 2 - i % 3 : i % 3];
        double sh = i / 3;   // further copies lie elsewhere
        r.addBody(hrm::SuperEllipse({l[0], l[1]}, 1, {l[2] + 2.5 * sh, l[3] - sh}, l[4] + sh, 20));
        bodies.push_back({l[0], l[1], V2(l[2] + 2.5 * sh, l[3] - sh), l[4] + sh});
    }
    auto place = [&](double x, double y, double th) {
        hrm::SE2Transform g = hrm::SE2Transform::Identity();
        g(0, 0) = g(1, 1) = std::cos(th); g(1, 0) = std::sin(th); g(0, 1) = -g(1, 0); g(0, 2) = x; g(1, 2) = y;
        r.robotTF(g);
    };
    if (reloc) place(100, 3, 1.234);
    double th = mc::pick(TH, "heading");
    auto& lo = mc::pick(LOC, "location");
    place(lo[0], lo[1], th);
    int k = mc::choose(4, "against");
    int K = k < 3 ? 1 : -1;
    int num = mc::flip("num") ? 30 : 17;
    if (nl == 2 && rev) num = num == 30 ? 64 : 9;
    hrm::SuperEllipse s = k < 3 ? hrm::SuperEllipse({OB[k][0], OB[k][1]}, OB[k][2], {OB[k][3], OB[k][4]}, OB[k][5], hrm::Index(num))
                                : hrm::SuperEllipse({60, 40}, 1, {5, -3}, 0.3, hrm::Index(num));
    SE2 A = of(s);
    auto M = r.minkSum(s, K);
    mc::step();
    mc::state(mc::Hash().u(2).u(uint64_t(nl)).u(rev).u(reloc).d(th).d(lo[0]).u(uint64_t(k)).u(uint64_t(num)));
    MC_CHECK(M.size() == bodies.size(), "count", "%d boundaries for %d bodies", int(M.size()), int(bodies.size()));
    Eigen::Rotation2Dd R(th);
    for (size_t b = 0; b < bodies.size(); ++b) {
        V2 t = R * bodies[b].t;
        SE2 B{bodies[b].a, bodies[b].b, 1, 0, 0, th + bodies[b].th};
        MC_CHECK(M[b].rows() == 2 && M[b].cols() == num, "points", "%d points", int(M[b].cols()));
        double cov = 0;
        for (int i = 0; i < num; ++i) {
            V2 d = V2(M[b].col(i)) + t - A.c();
            double v = maxCircle([&](double u) { V2 n = dir2(u); return n.dot(d) - A.h(n) - K * B.h(n); }, 120) / 10;
            mc::maxi("residual2", std::fabs(v));
            MC_CHECK(std::fabs(v) < 1e-6, KN(K), "body %d: with the base at (%.9g,%.9g) the gap is %.9g of size", int(b), M[b](0, i), M[b](1, i), v);
        }
        for (int q = 0; q < 36; ++q) {
            V2 n = dir2(TAU * q / 36);
            cov = std::max(cov, (A.h(n) + K * B.h(n) - ((n.transpose() * M[b]).maxCoeff() + n.dot(t - A.c()))) / (A.h(n) + B.h(n)));
        }
        mc::maxi(mc::fmt("cover2 num%d", num), cov);
        MC_CHECK(cov < 0.5, "coverage", "body %d: a direction is missed by %g", int(b), cov);
    }
    mc::outcome(mc::fmt("2D links %d %s", nl, KN(K)));
}
static Eigen::Quaterniond Q(const double* a) {
    V3 ax = V3(a[1], a[2], a[3]).normalized();
    return Eigen::Quaterniond(std::cos(a[0] / 2), ax.x() * std::sin(a[0] / 2), ax.y() * std::sin(a[0] / 2), ax.z() * std::sin(a[0] / 2));
}
static void run3() {
    static const double RO[][4] = {{0, 0, 0, 1}, {0.9, 1, 1, 0}, {4.0, 1, -2, 3}, {PI_, 0, 1, 0}};
    static const double LOC[][3] = {{0, 0, 0}, {13, -8, 30}};
    static const double LN[][10] = {{1.5, 0.8, 1, 4, 1, -1, 0.5, 0, 0, 1}, {0.5, 2, 1, -3, 2.5, 2, -1.2, 1, 1, 0}, {1, 1, 3, 0, -4, 1, 3.0, 0, 1, 2}};
    static const double OB[][13] = {{5, 3, 4, 0.5, 0.8, 20, 10, -5, 0.4, 0, 0, 1}, {2, 6, 3, 1, 1, -7, 3, 2, 1.1, 1, 2, 0}};
    int nl = mc::choose(4, "links");
    if (nl == 2) nl = 6;   // 0, 1, 3 or 6 links
    int how = mc::choose(nl > 3 ? 2 : 3, "placing");   // rigid once, rigid after another, articulated (serial arm)
    hrm::MultiBodyTree3D r(hrm::SuperQuadrics({2, 1, 1.5}, {1, 1}, {0, 0, 0}, Eigen::Quaterniond::Identity(), 8));
    auto& ro = mc::pick(RO, "orientation");
    auto& lo = mc::pick(LOC, "location");
    struct L { double a, b, c; Eigen::Matrix4d g; };
    std::vector<L> bodies{{2, 1, 1.5, Eigen::Matrix4d::Identity()}};
    for (int i = 0; i < nl; ++i) {
        double l[10];
        std::copy(LN[i % 3], LN[i % 3] + 10, l);
        l[3] += 2 * (i / 3); l[6] += 0.8 * (i / 3);   // further copies lie elsewhere
        r.addBody(hrm::SuperQuadrics({l[0], l[1], l[2]}, {1, 1}, {l[3], l[4], l[5]}, Q(l + 6), 8));
        Eigen::Matrix4d g = Eigen::Matrix4d::Identity();
        g.topLeftCorner(3, 3) = rotOf(Q(l + 6));
        for (int j = 0; j < 3; ++j) g(j, 3) = l[3 + j];
        bodies.push_back({l[0], l[1], l[2], g});
    }
    hrm::SE3Transform g = hrm::SE3Transform::Identity();
    g.topLeftCorner(3, 3) = rotOf(Q(ro));
    for (int j = 0; j < 3; ++j) g(j, 3) = lo[j];
    if (how == 1) {
        hrm::SE3Transform z = hrm::SE3Transform::Identity();
        z.topLeftCorner(3, 3) = rotOf(Q(RO[1])); z(0, 3) = 55; z(2, 3) = -4;
        r.robotTF(z);
    }
    if (how < 2) {
        r.robotTF(g);
        for (auto& b : bodies) b.g = g * b.g;
    } else {
        static hrm::ParseURDF kdl(std::string(RESOURCES_PATH "/3D/urdf/snake.urdf"));
        Eigen::VectorXd q(3);
        q << 0.8, -1.1, 0.5;
        r.robotTF(kdl, g, q);   // where the links are now is K02's matter
        bodies[0].g = g;
        for (int i = 0; i < nl; ++i) {
            auto& l = r.getLinks().at(size_t(i));
            auto& b = bodies[size_t(i) + 1];
            b.g.topLeftCorner(3, 3) = rotOf(l.getQuaternion());
            for (int j = 0; j < 3; ++j) b.g(j, 3) = l.getPosition().at(size_t(j));
        }
    }
    int k = mc::choose(3, "against");
    int K = k < 2 ? 1 : -1;
    int num = mc::thorough() && mc::flip("num") ? 11 : 6;
    hrm::SuperQuadrics s = k < 2 ? hrm::SuperQuadrics({OB[k][0], OB[k][1], OB[k][2]}, {OB[k][3], OB[k][4]}, {OB[k][5], OB[k][6], OB[k][7]}, Q(OB[k] + 8), hrm::Index(num))
                                 : hrm::SuperQuadrics({60, 40, 50}, {1, 1}, {5, -3, 2}, Q(RO[1]), hrm::Index(num));
    SQ3 A = of(s);
    auto M = r.minkSum(s, K);
    mc::step();
    mc::state(mc::Hash().u(3).u(uint64_t(nl)).u(uint64_t(how)).d(ro[0]).d(lo[0]).u(uint64_t(k)).u(uint64_t(num)));
    MC_CHECK(M.size() == bodies.size(), "count", "%d boundaries for %d bodies", int(M.size()), int(bodies.size()));
    for (size_t b = 0; b < bodies.size(); ++b) {
        V3 t = bodies[b].g.topRightCorner(3, 1) - g.topRightCorner(3, 1);
        SQ3 B{bodies[b].a, bodies[b].b, bodies[b].c, 1, 1, V3(0, 0, 0), bodies[b].g.topLeftCorner(3, 3)};
        MC_CHECK(M[b].rows() == 3 && M[b].cols() == num * num, "points", "%d points", int(M[b].cols()));
        for (int i = 0; i < M[b].cols(); ++i) {
            V3 d = V3(M[b].col(i)) + t - A.c();
            auto f = [&](const V3& n) { return n.dot(d) - A.h(n) - K * B.h(n); };
            double v = maxSphere(f, 100, 3) / 10;
            if (v < -1e-6) v = std::max(v, maxNormals(A, f) / 10);
            if (v < -1e-6) v = std::max(v, maxSphere(f, 2000, 40) / 10);
            mc::maxi("residual3", std::fabs(v));
            MC_CHECK(std::fabs(v) < 1e-5, KN(K), "body %d: with the base at (%.9g,%.9g,%.9g) the gap is %.9g of size", int(b), M[b](0, i), M[b](1, i), M[b](2, i), v);
        }
        double cov = 0;
        for (auto& n : sphere(60))
            cov = std::max(cov, (A.h(n) + K * B.h(n) - ((n.transpose() * M[b]).maxCoeff() + n.dot(t - A.c()))) / (A.h(n) + B.h(n)));
        mc::maxi(mc::fmt("cover3 num%d", num), cov);
        MC_CHECK(cov < 0.6, "coverage", "body %d: a direction is missed by %g", int(b), cov);
    }
    mc::outcome(mc::fmt("3D links %d %s", nl, KN(K)));
}
static void body() { if (mc::flip("3D")) run3(); else run2(); }
int main(int argc, char** argv) { return mc::run(argc, argv, body, mc::Options{4, 60}); }
