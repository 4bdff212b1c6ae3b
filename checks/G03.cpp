// G03: superquadric surface and closed-form Minkowski surface against support functions.
#include "mc.hpp"
#include "hrmgeo.hpp"
using namespace geo;
using hrm::SuperQuadrics;
static bool rolls(const SQ3& A, const SQ3& B) {   // h_A - 1.02 h_B is sublinear (midpoint test on a fine direction lattice)
    auto D = [&](const V3& n) { return A.h(n) - 1.02 * B.h(n); };
    for (auto& n : sphere(600)) {
        if (D(n) <= 0) return false;
        V3 u = n.unitOrthogonal(), w = n.cross(u);
        for (int k = 0; k < 6; ++k) {
            double t = TAU * k / 12;
            V3 d = std::cos(t) * u + std::sin(t) * w;
            for (double e : {0.02, 0.2}) if (D(n + e * d) + D(n - e * d) < 2 * D(n)) return false;
        }
    }
    return true;
}
static void body() {
    static const double AX[][3] = {{5, 3, 2}, {3, 5, 8}, {50, 40, 45}, {10, 1, 4}, {4, 4, 4}};
    static const double EP[][2] = {{1, 1}, {0.1, 1}, {1, 0.2}, {1.5, 0.6}, {0.6, 1.4}};
    static const double Q[][4] = {{0, 0, 1, 0}, {0.7, 1, 1, 0}, {4.0, 1, -2, 3}};   // angle, axis
    auto& ax = mc::pick(AX, "A");
    auto& ep = mc::pick(EP, "eps");
    auto& q = mc::pick(Q, "quat");
    bool pos = mc::flip("pos");
    static const std::vector<int> NT{8, 11, 20};
    int num = mc::thorough() ? mc::pick(NT, "num") : 8;
    // quick: the odd and the dense grid for one size each
    if (!mc::thorough() && ax[0] == 10 && pos) num = 11;
    if (!mc::thorough() && ax[0] == 50 && pos && q[0] == 0.7) num = 17;
    Eigen::Quaterniond qa(Eigen::AngleAxisd(q[0], V3(q[1], q[2], q[3]).normalized()));
    bool neg = q[0] > 3.2;   // the quaternion of the last orientation has a negative real part
    if (neg) qa.coeffs() *= qa.w() > 0 ? -1 : 1;
    const std::vector<double> at = pos ? std::vector<double>{30, -20, 10} : std::vector<double>{0, 0, 0};
    const bool viaSet = ax[0] == 3;   // the shape gets its parameters by assignment after it has been used
    SuperQuadrics a = viaSet ? SuperQuadrics({7, 2, 3}, {0.8, 1}, {-3, 4, 1}, Eigen::Quaterniond(0.5, 0.5, -0.5, 0.5), hrm::Index(num)) : SuperQuadrics({ax[0], ax[1], ax[2]}, {ep[0], ep[1]}, at, qa, hrm::Index(num));
    if (viaSet) {
        a.getOriginShape();
        a.getMinkSum3D(SuperQuadrics({1, 0.5, 2}, {1, 1}, {1, 2, 3}, Eigen::Quaterniond(0.8, 0.6, 0, 0), 6), 1);
        a.setSemiAxis({ax[0], ax[1], ax[2]}); a.setEpsilon({ep[0], ep[1]}); a.setPosition(at); a.setQuaternion(qa);
    }
    SQ3 A = of(a);
    double scale = std::max({ax[0], ax[1], ax[2]});
    auto P = a.getOriginShape();
    mc::step();
    mc::state(mc::Hash().d(ax[0]).d(ax[1]).d(ep[0]).d(ep[1]).d(q[0]).u(pos).u(neg).u(uint64_t(num)));
    MC_CHECK(P.rows() == 3 && P.cols() == num * num, "count", "%dx%d points", int(P.rows()), int(P.cols()));
    for (int i = 0; i < P.cols(); ++i) {
        double f = A.F(P.col(i));
        mc::maxi("boundary-residual", std::fabs(f - 1));
        MC_CHECK(std::fabs(f - 1) < 1e-9, "boundary", "point %d (%.9g,%.9g,%.9g) has gauge %.12g", i, P(0, i), P(1, i), P(2, i), f);
    }
    auto cover = [&](const Eigen::MatrixXd& X, const std::function<double(const V3&)>& h, const V3& c) {
        double worst = 0;
        for (auto& n : sphere(150)) worst = std::max(worst, h(n) - ((n.transpose() * X).maxCoeff() - n.dot(c)));
        return worst;
    };
    double cv = cover(P, [&](const V3& n) { return A.h(n); }, A.c()) / scale;
    mc::maxi(mc::fmt("cover-shape num%d", num), cv);
    MC_CHECK(cv < (num >= 15 ? 0.08 : num >= 10 ? 0.16 : 0.4), "coverage-shape", "a direction of the surface is missed by %g of the size", cv);
    static const double BX[][3] = {{1, 1, 1}, {2, 0.5, 1}, {0.3, 0.2, 1.5}};
    static const double BQ[][4] = {{0, 0, 0, 1}, {1.1, 1, 2, -1}};
    auto& bx = mc::pick(BX, "B");
    auto& bq = mc::pick(BQ, "Bquat");
    int K = mc::flip("K") ? 1 : -1;
    bool bpos = pos;
    SuperQuadrics b({bx[0], bx[1], bx[2]}, {1, 1}, bpos ? std::vector<double>{7, -9, 3} : std::vector<double>{0, 0, 0},
                    Eigen::Quaterniond(Eigen::AngleAxisd(bq[0], V3(bq[1], bq[2], bq[3]).normalized())), 12);
    SQ3 B = of(b);
    if (bpos) a.getMinkSum3D(b, -K);   // an earlier request of the other kind leaves no trace
    auto M = a.getMinkSum3D(b, K);
    mc::step();
    if (bpos && K > 0) {
        SuperQuadrics c = a;
        MC_CHECK(c.getMinkSum3D(b, K) == M && a.getMinkSum3D(b, K) == M && a.getOriginShape() == P, "repeat", "the same request gives another answer");
    }
    MC_CHECK(M.rows() == 3 && M.cols() == num * num, "count-mink", "%dx%d points", int(M.rows()), int(M.cols()));
    bool ok = K > 0 || (ep[0] <= 1 && ep[1] <= 1 && rolls(A, B));   // above 1 the curvature is unbounded
    double sc = scale + std::max({bx[0], bx[1], bx[2]});
    if (K < 0) {   // does the ellipsoid fit at all (both shapes are centrally symmetric)
        double fit = maxSphere([&](const V3& n) { return (B.h(n) - A.h(n)) / sc; }, 400, 6);
        double margin = num >= 15 ? 0.06 : num >= 10 ? 0.1 : 0.15;   // corners of the shape fall between the samples
        if (fit > margin) { for (int i = 0; i < M.cols(); ++i) MC_CHECK(!M.col(i).allFinite(), "no-fit", "the ellipsoid does not fit but point %d is reported", i); mc::outcome("no-fit"); return; }
        mc::assume(fit < -1e-3);
    }
    for (int i = 0; i < M.cols(); ++i) {
        V3 d = V3(M.col(i)) - A.c();
        MC_CHECK(std::isfinite(d.x()) && std::isfinite(d.y()) && std::isfinite(d.z()), "finite", "point %d", i);
        // the contact normal is where the closed form claims it: offset = x - p; the oracle only needs the maximum
        auto f = [&](const V3& n) { return n.dot(d) - A.h(n) - K * B.h(n); };
        double s = maxSphere(f, 100, 3) / sc;
        // a low maximum is only believed after two more searches from many more starts
        if (s < -1e-6) s = std::max(s, maxNormals(A, f) / sc);
        if (s < -1e-6) s = std::max(s, maxSphere(f, 2000, 40) / sc);
        if (ok) mc::maxi("mink-residual", std::fabs(s)); else mc::maxi("mink-inside", -s);
        if (ok) MC_CHECK(std::fabs(s) < 5e-6, K > 0 ? "sum-touch" : "difference-touch", "point %d (%.9g,%.9g,%.9g): gap %.9g of size", i, M(0, i), M(1, i), M(2, i), s);
        else mc::maxi(mc::fmt("mink-outside num%d", num), s);
        if (!ok) MC_CHECK(s < (num >= 15 ? 0.1 : num >= 10 ? 0.15 : 0.18), "difference-outside", "point %d (%.9g,%.9g,%.9g): the ellipsoid sticks out by %.9g of size", i, M(0, i), M(1, i), M(2, i), s);
        if (!ok) MC_CHECK(s > -5e-6, "difference-inside", "point %d is strictly inside: %.9g", i, s);
    }
    if (ok) {
        double cm = cover(M, [&](const V3& n) { return A.h(n) + K * B.h(n); }, A.c()) / sc;
        mc::maxi(mc::fmt("cover-mink num%d", num), cm);
        MC_CHECK(cm < (num >= 15 ? 0.3 : num >= 10 ? 0.4 : 0.5), "coverage-mink", "a direction of the surface is missed by %g of the size", cm);
    }
    mc::outcome(K > 0 ? "sum" : ok ? "difference" : "difference-not-smooth");
}
int main(int c, char** v) { mc::Options o; o.splitDepth = 5; return mc::run(c, v, body, o); }
