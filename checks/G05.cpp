// G05: covering and tightly-fitted ellipsoids against support functions.
#include "mc.hpp"
#include "hrmgeo.hpp"
#include "hrm/geometry/TightFitEllipsoid.h"
using namespace geo;
static const double AX[][3] = {{5, 3, 2}, {2, 3, 5}, {4, 4, 4}, {10, 1, 4}, {0.5, 8, 0.6}, {4, 4, 2}, {30, 20, 25}};
struct QQ { double w, x, y, z; };
static const std::vector<Eigen::Quaterniond>& quats() {
    static std::vector<Eigen::Quaterniond> v;
    if (v.empty()) {
        auto aa = [&](double t, double x, double y, double z, int s) { Eigen::Quaterniond q(Eigen::AngleAxisd(t, V3(x, y, z).normalized())); q.coeffs() *= s; v.push_back(q); };
        aa(0, 0, 0, 1, 1); aa(0, 0, 0, 1, -1); aa(0.3, 0, 0, 1, 1); aa(1.2, 1, 2, -1, 1); aa(1.2, 1, 2, -1, -1); aa(3.14159265358979, 1, 0, 0, 1);
        aa(2.5, -1, 1, 1, 1); aa(3.1, 0, 1, 0.2, -1); aa(1.57079632679, 0, 1, 0, 1);
    }
    return v;
}
static SQ3 mk(const double* a, const Eigen::Quaterniond& q) { return SQ3{a[0], a[1], a[2], 1, 1, V3::Zero(), rotOf(q)}; }
/// exact for ellipsoids: h_B^2 = n^T M_B n, so containment is an eigenvalue problem
static Eigen::Matrix3d shp(const SQ3& A) { return A.R * V3(A.a * A.a, A.b * A.b, A.c_ * A.c_).asDiagonal() * A.R.transpose(); }
static double ratio(const SQ3& C, const SQ3& A) {   // max over n of h_A(n)/h_C(n)
    Eigen::GeneralizedSelfAdjointEigenSolver<Eigen::Matrix3d> es(shp(A), shp(C));
    return std::sqrt(es.eigenvalues().maxCoeff());
}
static double supDiff(const SQ3& A, const SQ3& B) {
    double w = 0;
    for (auto& n : sphere(100)) w = std::max(w, std::fabs(A.h(n) - B.h(n)));
    return w;
}
static void wellFormed(const hrm::SuperQuadrics& c, int num) {
    MC_CHECK(c.getEpsilon()[0] == 1 && c.getEpsilon()[1] == 1 && int(c.getNumParam()) == num && V3(c.getPosition()[0], c.getPosition()[1], c.getPosition()[2]).norm() == 0, "form", "eps %g", c.getEpsilon()[0]);
    MC_CHECK(std::fabs(c.getQuaternion().norm() - 1) < 1e-9, "unit", "quaternion norm %.12g", c.getQuaternion().norm());
    for (double x : c.getSemiAxis()) MC_CHECK(std::isfinite(x) && x > 0, "form", "axis %g", x);
}
static void cover() {
    auto& a = mc::pick(AX, "a"); auto& b = mc::pick(AX, "b");
    auto& qa = mc::pick(quats(), "qA"); auto& qb = mc::pick(quats(), "qB");
    auto c = hrm::getMVCE3D({a[0], a[1], a[2]}, {b[0], b[1], b[2]}, qa, qb, 10);
    mc::step();
    mc::state(mc::Hash().u(1).v(c.getSemiAxis()).d(c.getQuaternion().w()).d(c.getQuaternion().x()).d(c.getQuaternion().y()));
    wellFormed(c, 10);
    SQ3 A = mk(a, qa), B = mk(b, qb), C = of(c);
    double ra = ratio(C, A), rb = ratio(C, B), sc = std::max({a[0], a[1], a[2], b[0], b[1], b[2]});
    mc::maxi("cover-ratio", std::max(ra, rb) - 1);
    MC_CHECK(ra < 1 + 1e-7, "cover-a", "first ellipsoid sticks out: ratio %.9g", ra);
    MC_CHECK(rb < 1 + 1e-7, "cover-b", "second ellipsoid sticks out: ratio %.9g", rb);
    if (ratio(B, A) <= 1) { double d = supDiff(C, B) / sc; mc::maxi("tight", d); MC_CHECK(d < 1e-7, "tight", "first inside second, cover differs from the second by %g", d); mc::outcome("a in b"); }
    else if (ratio(A, B) <= 1) { double d = supDiff(C, A) / sc; mc::maxi("tight", d); MC_CHECK(d < 1e-7, "tight", "second inside first, cover differs from the first by %g", d); mc::outcome("b in a"); }
    else mc::outcome("crossing");
    double vol = c.getSemiAxis()[0] * c.getSemiAxis()[1] * c.getSemiAxis()[2] / (sc * sc * sc);
    mc::maxi("volume", vol);
    MC_CHECK(vol < 1 + 1e-9, "volume", "volume of the cover is %g of the smallest sphere around both", vol);
}
static void tfe() {
    auto& a = mc::pick(AX, "a");
    auto& qa = mc::pick(quats(), "qA"); auto& qb = mc::pick(quats(), "qB");
    int n = 1 + mc::choose(mc::thorough() ? 18 : 9, "steps");
    if (n == (mc::thorough() ? 17 : 8)) n = 20;
    else if (n == (mc::thorough() ? 18 : 9)) n = 41;
    auto c = hrm::getTFE3D({a[0], a[1], a[2]}, qa, qb, hrm::Index(n), 10);
    mc::step();
    mc::state(mc::Hash().u(2).v(c.getSemiAxis()).d(c.getQuaternion().w()).d(c.getQuaternion().x()).u(uint64_t(n)));
    wellFormed(c, 10);
    SQ3 C = of(c);
    // shortest rotation from qa to qb, in the oracle's own arithmetic
    Eigen::Matrix3d Ra = rotOf(qa), D = Ra.transpose() * rotOf(qb);
    double cs = std::max(-1.0, std::min(1.0, (D.trace() - 1) / 2)), ang = std::acos(cs);
    V3 ax(D(2, 1) - D(1, 2), D(0, 2) - D(2, 0), D(1, 0) - D(0, 1));
    bool half = ang > 3.14159 - 1e-4;   // the shortest rotation is not unique at half a turn
    if (ang > 1e-9 && !half) ax.normalize(); else ax = V3(0, 0, 1);
    for (int i = 0; i <= n; ++i) {
        if (half && i != 0 && i != n) continue;
        Eigen::Matrix3d R = i == n ? rotOf(qb) : Eigen::Matrix3d(Ra * rotAA(ax, ang * i / n));
        SQ3 A{a[0], a[1], a[2], 1, 1, V3::Zero(), R};
        double r = ratio(C, A);
        mc::maxi("tfe-ratio", r - 1);
        MC_CHECK(r < 1 + 1e-6, i == 0 || i == n ? "tfe-end" : "tfe-step", "ellipsoid at step %d of %d sticks out: ratio %.9g", i, n, r);
    }
    mc::outcome(half ? "tfe half turn" : "tfe");
    if (a[0] == a[1] && a[1] == a[2]) { double d = supDiff(C, mk(a, qa)) / a[0]; MC_CHECK(d < 1e-7, "tfe-sphere", "sphere does not stay itself: %g", d); }
}
static void body() { if (mc::flip("tfe")) tfe(); else cover(); }
int main(int c, char** v) { mc::Options o; o.splitDepth = 3; return mc::run(c, v, body, o); }
