// G10: interpolation of poses and joint vectors, and the vector metric.
#include "mc.hpp"
#include "hrmgeo.hpp"
#include "hrm/util/InterpolateSE3.h"
#include "hrm/util/DistanceMetric.h"
using namespace geo;
static const std::vector<Eigen::Quaterniond>& quats() {
    static std::vector<Eigen::Quaterniond> v;
    if (v.empty()) {
        auto aa = [&](double t, double x, double y, double z, int s) { Eigen::Quaterniond q(Eigen::AngleAxisd(t, V3(x, y, z).normalized())); q.coeffs() *= s; v.push_back(q); };
        aa(0, 0, 0, 1, 1); aa(0, 0, 0, 1, -1); aa(0.4, 0, 0, 1, 1); aa(0.4, 0, 0, 1, -1); aa(1.2, 1, 2, -1, 1); aa(2.5, -1, 1, 1, -1); aa(TAU / 2, 1, 0, 0, 1); aa(TAU / 2, 0, 1, 0, 1); aa(1e-7, 0, 1, 1, 1); aa(3.1, 3, 1, -2, 1);
    }
    return v;
}
static double qdist(const Eigen::Quaterniond& a, const Eigen::Quaterniond& b) { return std::min((a.coeffs() - b.coeffs()).norm(), (a.coeffs() + b.coeffs()).norm()); }
static double rotAngle(const Eigen::Quaterniond& a, const Eigen::Quaterniond& b) {
    Eigen::Quaterniond r = a.conjugate() * b;
    return 2 * std::atan2(r.vec().norm(), std::fabs(r.w()));
}
/// shared oracle for a list of orientations
static void orient(const std::vector<Eigen::Quaterniond>& q, const Eigen::Quaterniond& a, const Eigen::Quaterniond& b, int n, const char* what) {
    std::string k = what;
    MC_CHECK(int(q.size()) == n + 1, k + "-count", "%zu orientations for %d steps", q.size(), n);
    double total = rotAngle(a, b);
    MC_CHECK(qdist(q[0], a) < 1e-7, k + "-start", "off by %g", qdist(q[0], a));
    MC_CHECK(qdist(q[size_t(n)], b) < 1e-7, k + "-end", "off by %g", qdist(q[size_t(n)], b));
    for (int i = 0; i <= n; ++i) {
        MC_CHECK(std::fabs(q[size_t(i)].norm() - 1) < 1e-9, k + "-unit", "step %d norm %.12g", i, q[size_t(i)].norm());
        double fa = rotAngle(a, q[size_t(i)]), fb = rotAngle(q[size_t(i)], b);
        MC_CHECK(std::fabs(fa - total * i / n) < 1e-6 && std::fabs(fb - total * (n - i) / n) < 1e-6, k + "-uniform", "step %d of %d: %g and %g of %g", i, n, fa, fb, total);
        if (i) { double st = rotAngle(q[size_t(i - 1)], q[size_t(i)]); MC_CHECK(std::fabs(st - total / n) < 1e-6, k + "-step", "step %d turns %g, expected %g", i, st, total / n); }
    }
}
static void body() {
    static const double PP[][3] = {{0, 0, 0}, {1, -2, 30}, {-5.5, 0.25, 1e-3}};
    auto& a = mc::pick(quats(), "qa"); auto& b = mc::pick(quats(), "qb");
    auto& pa = mc::pick(PP, "pa"); auto& pb = mc::pick(PP, "pb");
    int n = mc::choose(mc::thorough() ? 42 : 11, "n");
    if (n == (mc::thorough() ? 40 : 9)) n = 50;
    else if (n == (mc::thorough() ? 41 : 10)) n = 128;
    int nj = mc::choose(5, "joints");
    if (nj == 4) nj = 9;
    std::vector<double> va{pa[0], pa[1], pa[2], a.w(), a.x(), a.y(), a.z()}, vb{pb[0], pb[1], pb[2], b.w(), b.x(), b.y(), b.z()};
    for (int j = 0; j < nj; ++j) { va.push_back(0.3 * j - 1); vb.push_back(2 - 0.7 * j); }
    const auto ka = va, kb = vb;
    auto r = hrm::interpolateCompoundSE3Rn(va, vb, hrm::Index(n));
    mc::step();
    mc::state(mc::Hash().v(va).v(vb).u(uint64_t(n)));
    MC_CHECK(va == ka && vb == kb, "inputs", "arguments changed");
    int m = n ? n : 1;
    MC_CHECK(int(r.size()) == m + 1, "count", "%zu poses for %d steps", r.size(), n);
    std::vector<Eigen::Quaterniond> qs;
    for (int i = 0; i <= m; ++i) {
        auto& v = r[size_t(i)];
        MC_CHECK(v.size() == va.size(), "dim", "pose %d has %zu entries", i, v.size());
        for (size_t k = 0; k < v.size(); ++k) {
            if (k >= 3 && k < 7) continue;
            double e = va[k] + (vb[k] - va[k]) * i / m;
            MC_CHECK(std::fabs(v[k] - e) < 1e-12 * (1 + std::fabs(va[k]) + std::fabs(vb[k])), k < 3 ? "position" : "joints", "pose %d entry %zu: %.12g, expected %.12g", i, k, v[k], e);
        }
        qs.emplace_back(v[3], v[4], v[5], v[6]);
    }
    orient(qs, a, b, m, "compound");
    if (n) {
        if (!nj) {
            auto s = hrm::interpolateSE3(va, vb, hrm::Index(n));
            mc::step();
            MC_CHECK(s == r, "se3", "interpolateSE3 differs");
            orient(hrm::interpolateSlerp(a, b, hrm::Index(n)), a, b, n, "slerp");
            // half a turn has two shortest rotations: either is fine, the oracle only measures angles
            orient(hrm::interpolateAngleAxis(a, b, hrm::Index(n)), a, b, n, "angleaxis");
            mc::step(2);
        }
        auto x = hrm::interpolateRn(va, vb, hrm::Index(n));
        mc::step();
        MC_CHECK(int(x.size()) == n + 1, "rn-count", "%zu", x.size());
        for (int i = 0; i <= n; ++i) for (size_t k = 0; k < va.size(); ++k) {
            double e = va[k] + (vb[k] - va[k]) * i / n;
            MC_CHECK(x[size_t(i)].size() == va.size() && std::fabs(x[size_t(i)][k] - e) < 1e-12 * (1 + std::fabs(va[k]) + std::fabs(vb[k])), "rn", "row %d entry %zu", i, k);
        }
    }
    // metric
    long double s = 0;
    for (size_t k = 0; k < va.size(); ++k) s += (long double)(va[k] - vb[k]) * (va[k] - vb[k]);
    double e = std::sqrt(double(s)), d = hrm::vectorEuclidean(va, vb), d2 = hrm::vectorEuclidean(vb, va);
    mc::step(2);
    MC_CHECK(std::fabs(d - e) < 1e-12 * (1 + e) && d == d2, "metric", "%.12g and %.12g, expected %.12g", d, d2, e);
    MC_CHECK(hrm::vectorEuclidean(va, va) == 0, "metric-zero", "distance to itself");
    for (size_t j = 0; j < r.size(); ++j) MC_CHECK(hrm::vectorEuclidean(va, vb) <= hrm::vectorEuclidean(va, r[j]) + hrm::vectorEuclidean(r[j], vb) + 1e-12, "triangle-inequality", "via %zu", j);
    MC_CHECK(hrm::vectorEuclidean({}, {}) == 0 && hrm::vectorEuclidean({3}, {-1}) == 4, "metric-small", "short vectors");
    mc::outcome(mc::fmt("n%d", n));
}
int main(int c, char** v) { mc::Options o; o.splitDepth = 3; return mc::run(c, v, body, o); }
