// G09: pairwise separation / collision tests against support functions, and the polynomial root finder.
#include "mc.hpp"
#include "hrmgeo.hpp"
#include "hrm/util/EllipsoidSeparation.h"
#include "hrm/util/EllipsoidSQCollisionFCL.h"
using namespace geo;
/// centre distance along direction u at which B touches A (outside), by bisection on the oracle gap
static double contact2(SE2 A, SE2 B, V2 u) {
    double lo = 0, hi = 4 * (A.a + A.b + B.a + B.b);
    for (int k = 0; k < 60; ++k) { double m = (lo + hi) / 2; B.x = A.x + m * u.x(); B.y = A.y + m * u.y(); (gap2(A, B, 120) > 0 ? hi : lo) = m; }
    return hi;
}
static double contact3(SQ3 A, SQ3 B, V3 u) {
    double lo = 0, hi = 4 * (A.a + A.b + A.c_ + B.a + B.b + B.c_);
    for (int k = 0; k < 40; ++k) { double m = (lo + hi) / 2; B.p = A.p + m * u; (gap3(A, B, 150, 1e-12) > 0 ? hi : lo) = m; }
    return hi;
}
static const double REL[] = {0, 0.3, 0.7, 0.95, 0.995, 1.005, 1.05, 1.5, 4};
static const double SC[] = {0.05, 0.5, 1, 4, 40};
static void ellipses() {
    static const double SH[][2] = {{1, 0.5}, {1, 1}, {0.15, 1}};
    auto& sa = mc::pick(SH, "shapeA"); auto& sb = mc::pick(SH, "shapeB");
    double k = mc::pick(SC, "scaleB");
    static const double TH[] = {0, 0.9, -2.2, 1.5707963267948966};
    double ta = mc::pick(TH, "thA"), tb = mc::pick(TH, "thB");
    double dirv = TAU * mc::choose(mc::thorough() ? 12 : 5, "dir") / (mc::thorough() ? 12 : 5) + 0.2;
    bool off = mc::flip("origin");
    SE2 A{5 * sa[0], 5 * sa[1], 1, off ? 12.0 : 0, off ? -7.0 : 0, ta}, B{5 * k * sb[0], 5 * k * sb[1], 1, 0, 0, tb};
    V2 u = dir2(dirv);
    double r0 = contact2(A, B, u);
    for (double rel : REL) {
        B.x = A.x + rel * r0 * u.x(); B.y = A.y + rel * r0 * u.y();
        bool sep = rel > 1;
        hrm::SuperEllipse a({A.a, A.b}, 1, {A.x, A.y}, A.th, 20), b({B.a, B.b}, 1, {B.x, B.y}, B.th, 20);
        bool r1 = hrm::isEllipseSeparated(a, b), r2 = hrm::isEllipseSeparated(b, a);
        mc::step(2);
        mc::state(mc::Hash().d(A.x).d(A.a).d(B.a).d(B.b).d(ta).d(tb).d(B.x).d(B.y));
        MC_CHECK(r1 == sep, sep ? "ellipse-separated-missed" : "ellipse-overlap-missed", "sizes %g,%g and %g,%g headings %g %g offset %g,%g: at %g of contact reported %s", A.a, A.b, B.a, B.b, ta, tb, B.x - A.x, B.y - A.y, rel, r1 ? "separated" : "not separated");
        MC_CHECK(r2 == sep, "ellipse-order", "exchanged arguments at %g of contact reported %s", rel, r2 ? "separated" : "not separated");
        mc::metric(sep ? "ellipses-apart" : "ellipses-touching");
    }
    mc::outcome("ellipses");
}
static const std::vector<Eigen::Quaterniond>& quats() {
    static std::vector<Eigen::Quaterniond> v;
    if (v.empty()) {
        auto aa = [&](double t, double x, double y, double z) { v.emplace_back(Eigen::AngleAxisd(t, V3(x, y, z).normalized())); };
        aa(0, 0, 0, 1); aa(1.1, 1, 2, -1); aa(TAU / 4, 0, 1, 0);
    }
    return v;
}
static void ellipsoids() {
    static const double SH[][3] = {{1, 0.5, 0.7}, {1, 1, 1}, {0.2, 1, 0.4}};
    auto& sa = mc::pick(SH, "shapeA"); auto& sb = mc::pick(SH, "shapeB");
    double k = mc::pick(SC, "scaleB");
    auto& qa = mc::pick(quats(), "qA"); auto& qb = mc::pick(quats(), "qB");
    static const std::vector<V3> D{V3(1, 0, 0), V3(0.3, -0.8, 0.5).normalized(), V3(-0.2, 0.1, 1).normalized()};
    V3 u = mc::pick(D, "dir");
    bool off = mc::flip("origin");
    SQ3 A{5 * sa[0], 5 * sa[1], 5 * sa[2], 1, 1, off ? V3(12, -7, 3) : V3(0, 0, 0), rotOf(qa)}, B{5 * k * sb[0], 5 * k * sb[1], 5 * k * sb[2], 1, 1, V3(0, 0, 0), rotOf(qb)};
    double r0 = contact3(A, B, u);
    hrm::SuperQuadrics a({A.a, A.b, A.c_}, {1, 1}, {A.p.x(), A.p.y(), A.p.z()}, qa, 10);
    auto ca = hrm::setCollisionObjectFromSQ(a);
    for (double rel : REL) {
        B.p = A.p + rel * r0 * u;
        bool sep = rel > 1;
        hrm::SuperQuadrics b({B.a, B.b, B.c_}, {1, 1}, {B.p.x(), B.p.y(), B.p.z()}, qb, 10);
        auto cb = hrm::setCollisionObjectFromSQ(b);
        bool r1 = hrm::isEllipsoidSeparated(a, b), r2 = hrm::isEllipsoidSeparated(b, a);
        mc::step(2);
        mc::state(mc::Hash().d(A.p.x()).d(A.a).d(B.a).d(B.b).d(B.p.x()).d(B.p.y()).d(qa.w()).d(qb.w()));
        MC_CHECK(r1 == sep, sep ? "ellipsoid-separated-missed" : "ellipsoid-overlap-missed", "sizes %g,%g,%g and %g,%g,%g at %g of contact reported %s", A.a, A.b, A.c_, B.a, B.b, B.c_, rel, r1 ? "separated" : "not separated");
        MC_CHECK(r2 == sep, "ellipsoid-order", "exchanged arguments at %g of contact reported %s", rel, r2 ? "separated" : "not separated");
        bool c1 = hrm::isCollision(a, ca, b, cb), c2 = hrm::isCollision(b, cb, a, ca);
        mc::step(2);
        MC_CHECK(c1 == !sep, sep ? "fcl-ellipsoid-false" : "fcl-ellipsoid-missed", "sizes %g,%g,%g and %g,%g,%g at %g of contact reported %s", A.a, A.b, A.c_, B.a, B.b, B.c_, rel, c1 ? "collision" : "none");
        MC_CHECK(c2 == c1, "fcl-ellipsoid-order", "exchanged arguments differ at %g of contact", rel);
        mc::metric(sep ? "ellipsoids-apart" : "ellipsoids-touching");
    }
    mc::outcome("ellipsoids");
}
/// an ellipsoid against a superquadric mesh: the mesh lies within the shape up to its sampling error
static void mesh3() {
    static const double EP[][2] = {{0.2, 0.2}, {0.1, 1}, {1.4, 0.8}};
    auto& ep = mc::pick(EP, "eps");
    static const double SO[][3] = {{5, 3, 4}, {1, 6, 2}, {40, 20, 30}};
    auto& so = mc::pick(SO, "size");
    static const double SR[][3] = {{2, 1, 1}, {0.3, 0.3, 0.5}, {12, 9, 9}};
    auto& sr = mc::pick(SR, "robot");
    auto& qa = mc::pick(quats(), "qA"); auto& qb = mc::pick(quats(), "qB");
    static const std::vector<V3> D{V3(1, 0, 0), V3(0.3, -0.8, 0.5).normalized(), V3(-0.2, 0.1, 1).normalized(), V3(0, 0, -1)};
    V3 u = mc::pick(D, "dir");
    int num = mc::thorough() ? (mc::flip("num") ? 20 : 10) : 10;
    SQ3 A{so[0], so[1], so[2], ep[0], ep[1], V3(2, -1, 3), rotOf(qa)}, B{sr[0], sr[1], sr[2], 1, 1, V3(0, 0, 0), rotOf(qb)};
    double r0 = contact3(A, B, u);
    hrm::SuperQuadrics a({A.a, A.b, A.c_}, {A.e1, A.e2}, {A.p.x(), A.p.y(), A.p.z()}, qa, hrm::Index(num));
    auto ca = hrm::setCollisionObjectFromSQ(a);
    double tol = 0.15 * std::max({so[0], so[1], so[2]});
    for (double rel : REL) {
        B.p = A.p + rel * r0 * u;
        double g = gap3(A, B, 300);
        if (g <= 0 && g > -tol) { mc::metric("mesh-near-contact"); continue; }
        if (g > 0 && g < 1e-6) continue;
        bool sep = g > 0;
        hrm::SuperQuadrics b({B.a, B.b, B.c_}, {1, 1}, {B.p.x(), B.p.y(), B.p.z()}, qb, 10);
        auto cb = hrm::setCollisionObjectFromSQ(b);
        mc::state(mc::Hash().d(ep[0]).d(so[0]).d(sr[0]).d(B.p.x()).d(B.p.y()).d(qa.w()).d(qb.w()));
        bool c1 = hrm::isCollision(a, ca, b, cb), c2 = hrm::isCollision(b, cb, a, ca);
        mc::step(2);
        MC_CHECK(c1 == !sep, sep ? "fcl-mesh-false" : rel < 0.5 ? "fcl-mesh-missed-nested" : "fcl-mesh-missed", "superquadric %g,%g,%g eps %g,%g and ellipsoid %g,%g,%g at %g of contact (gap %g) reported %s", A.a, A.b, A.c_, A.e1, A.e2, B.a, B.b, B.c_, rel, g, c1 ? "collision" : "none");
        MC_CHECK(c2 == c1, "fcl-mesh-order", "exchanged arguments differ at %g of contact", rel);
        mc::metric(sep ? "mesh-apart" : "mesh-touching");
    }
    mc::outcome("mesh3");
}
static void mesh2() {
    static const double EP[] = {0.1, 0.5, 1.4, 1.0};
    double ep = mc::pick(EP, "eps");
    static const double SO[][2] = {{5, 3}, {1, 6}, {40, 30}};
    auto& so = mc::pick(SO, "size");
    static const double SR[][2] = {{2, 1}, {0.3, 0.5}, {12, 9}};
    auto& sr = mc::pick(SR, "robot");
    static const double TH[] = {0, 0.9, -2.2};
    double ta = mc::pick(TH, "thA"), tb = mc::pick(TH, "thB");
    V2 u = dir2(TAU * mc::choose(7, "dir") / 7 + 0.1);
    SE2 A{so[0], so[1], ep, 2, -1, ta}, B{sr[0], sr[1], 1, 0, 0, tb};
    double r0 = contact2(A, B, u);
    hrm::SuperEllipse a({A.a, A.b}, A.eps, {A.x, A.y}, A.th, 50);
    auto ca = hrm::setCollisionObjectFromSQ(a);
    double tol = ep == 1.0 ? 1e-3 : 0.15 * std::max(so[0], so[1]);
    for (double rel : REL) {
        B.x = A.x + rel * r0 * u.x(); B.y = A.y + rel * r0 * u.y();
        double g = gap2(A, B);
        if (g <= 0 && g > -tol) { mc::metric("mesh-near-contact"); continue; }
        if (g > 0 && g < 1e-3) continue;
        bool sep = g > 0;
        hrm::SuperEllipse b({B.a, B.b}, 1, {B.x, B.y}, B.th, 50);
        auto cb = hrm::setCollisionObjectFromSQ(b);
        mc::state(mc::Hash().d(ep).d(so[0]).d(sr[0]).d(B.x).d(B.y).d(ta).d(tb));
        bool c1 = hrm::isCollision(a, ca, b, cb), c2 = hrm::isCollision(b, cb, a, ca);
        mc::step(2);
        MC_CHECK(c1 == !sep, sep ? "fcl-2d-false" : rel < 0.5 ? "fcl-2d-missed-nested" : "fcl-2d-missed", "superellipse %g,%g eps %g heading %g and ellipse %g,%g heading %g at %g of contact (gap %g) reported %s", A.a, A.b, A.eps, ta, B.a, B.b, tb, rel, g, c1 ? "collision" : "none");
        MC_CHECK(c2 == c1, "fcl-2d-order", "exchanged arguments differ at %g of contact", rel);
        mc::metric(sep ? "2d-apart" : "2d-touching");
    }
    mc::outcome("mesh2");
}
static void roots() {
    // polynomials from chosen roots (real and conjugate pairs): the finder must return exactly these
    static const double R[] = {-3, -1, -0.25, 0, 0.5, 2};
    int deg = 1 + mc::choose(4, "degree");
    static const double L[] = {1, -2, 0.3};
    double lead = mc::pick(L, "lead");
    std::vector<std::complex<double>> want;
    int last = 0;
    while (int(want.size()) < deg) {
        if (deg - int(want.size()) >= 2 && want.empty() && mc::flip("complex")) {
            static const std::complex<double> C[] = {{0, 1}, {-1, 0.5}, {2, 2}};
            auto z = mc::pick(C, "pair");
            want.push_back(z); want.push_back(std::conj(z));
        } else { last += mc::choose(6 - last, "root"); want.push_back(R[last]); }
    }
    std::vector<std::complex<double>> p{1};
    for (auto& z : want) { p.push_back(0); for (size_t i = p.size() - 1; i > 0; --i) p[i] -= z * p[i - 1]; }
    std::vector<double> co;
    for (auto& z : p) co.push_back(lead * z.real());
    auto got = hrm::getRootsPolynomial(co);
    mc::step();
    mc::state(mc::Hash().v(co));
    MC_CHECK(int(got.size()) == deg, "roots-count", "%zu roots of a polynomial of degree %d", got.size(), deg);
    auto rest = got;
    for (auto& z : want) {
        size_t b = 0;
        for (size_t i = 1; i < rest.size(); ++i) if (std::abs(rest[i] - z) < std::abs(rest[b] - z)) b = i;
        mc::maxi("root-error", std::abs(rest[b] - z));
        MC_CHECK(std::abs(rest[b] - z) < 5e-3, "roots-value", "root (%g,%g) missing, nearest off by %g", z.real(), z.imag(), std::abs(rest[b] - z));
        rest.erase(rest.begin() + long(b));
    }
    mc::outcome(mc::fmt("roots%d", deg));
}
static void body() {
    switch (mc::choose(5, "kind")) { case 0: ellipses(); break; case 1: ellipsoids(); break; case 2: mesh3(); break; case 3: mesh2(); break; default: roots(); }
}
int main(int c, char** v) { mc::Options o; o.splitDepth = 4; return mc::run(c, v, body, o); }
