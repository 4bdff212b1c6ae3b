// Independent geometry oracle: convex bodies by their support functions. Shares no code with /repo.
#pragma once
#include <Eigen/Dense>
#include <array>
#include <cmath>
#include <functional>
#include <vector>

namespace geo {
using V2 = Eigen::Vector2d;
using V3 = Eigen::Vector3d;
const double TAU = 6.283185307179586476925286766559;
inline double spow(double x, double p) { return std::pow(std::fabs(x), p); }
inline double qnorm(double x, double y, double q) {   // (|x|^q+|y|^q)^(1/q), q>=1, scaled against overflow
    x = std::fabs(x); y = std::fabs(y);
    double m = std::max(x, y);
    if (m == 0) return 0;
    if (!std::isfinite(q)) return m;
    return m * std::pow(std::pow(x / m, q) + std::pow(y / m, q), 1 / q);
}
inline double dualExp(double eps) { return eps >= 2 - 1e-12 ? INFINITY : 2 / (2 - eps); }

struct SE2 {   // superellipse
    double a, b, eps, x, y, th;
    double h(const V2& n) const {   // support function about its own centre
        double c = std::cos(th), s = std::sin(th);
        return qnorm(a * (c * n.x() + s * n.y()), b * (-s * n.x() + c * n.y()), dualExp(eps));
    }
    V2 c() const { return V2(x, y); }
    double F(const V2& p) const {   // gauge: <1 inside, 1 on the boundary
        double cs = std::cos(th), s = std::sin(th);
        V2 d = p - c();
        return qnorm((cs * d.x() + s * d.y()) / a, (-s * d.x() + cs * d.y()) / b, 2 / eps);
    }
};
struct SQ3 {   // superquadric
    double a, b, c_, e1, e2;
    V3 p;
    Eigen::Matrix3d R;
    double h(const V3& n) const {
        V3 m = R.transpose() * n;
        return qnorm(qnorm(a * m.x(), b * m.y(), dualExp(e2)), c_ * m.z(), dualExp(e1));
    }
    V3 c() const { return p; }
    double F(const V3& x) const {
        V3 m = R.transpose() * (x - p);
        return qnorm(qnorm(m.x() / a, m.y() / b, 2 / e2), m.z() / c_, 2 / e1);
    }
};
inline V2 dir2(double t) { return V2(std::cos(t), std::sin(t)); }

/// max over the unit circle of f(angle): grid and golden refinement of the best cells
template <class F> double maxCircle(F f, int grid = 360, double* arg = nullptr) {
    std::vector<double> v(static_cast<size_t>(grid));
    for (int i = 0; i < grid; ++i) v[size_t(i)] = f(TAU * i / grid);
    double best = -INFINITY, ba = 0;
    for (int i = 0; i < grid; ++i) {
        double l = v[size_t((i + grid - 1) % grid)], r = v[size_t((i + 1) % grid)];
        if (v[size_t(i)] < l || v[size_t(i)] < r) continue;
        double lo = TAU * (i - 1) / grid, hi = TAU * (i + 1) / grid;
        const double g = 0.6180339887498949;
        double x1 = hi - g * (hi - lo), x2 = lo + g * (hi - lo), f1 = f(x1), f2 = f(x2);
        for (int k = 0; k < 60; ++k) {
            if (f1 < f2) { lo = x1; x1 = x2; f1 = f2; x2 = lo + g * (hi - lo); f2 = f(x2); }
            else { hi = x2; x2 = x1; f2 = f1; x1 = hi - g * (hi - lo); f1 = f(x1); }
        }
        double m = std::max(std::max(f1, f2), v[size_t(i)]);
        if (m > best) { best = m; ba = f1 > f2 ? x1 : x2; }
    }
    if (arg) *arg = ba;
    return best;
}
inline const std::vector<V3>& sphere(int n) {
    static std::vector<std::pair<int, std::vector<V3>>> cache;
    for (auto& c : cache) if (c.first == n) return c.second;
    cache.reserve(64);
    std::vector<V3> d;
    for (int i = 0; i < n; ++i) {
        double z = 1 - 2 * (i + 0.5) / n, r = std::sqrt(1 - z * z), t = i * 2.399963229728653;
        d.emplace_back(r * std::cos(t), r * std::sin(t), z);
    }
    for (int k = 0; k < 3; ++k) for (int s = -1; s <= 1; s += 2) { V3 e = V3::Zero(); e(k) = s; d.push_back(e); }
    cache.emplace_back(n, d);
    return cache.back().second;
}
/// max over the unit sphere of f(n): Fibonacci grid, then pattern refinement of the best few
template <class F> double maxSphere(F f, int grid = 400, int starts = 4, V3* arg = nullptr, double stopAbove = INFINITY) {
    const auto& D = sphere(grid);
    std::vector<std::pair<double, int>> v;
    for (size_t i = 0; i < D.size(); ++i) {
        double y = f(D[i]);
        if (y > stopAbove) { if (arg) *arg = D[i]; return y; }
        v.emplace_back(-y, int(i));
    }
    std::partial_sort(v.begin(), v.begin() + std::min<size_t>(size_t(starts), v.size()), v.end());
    double best = -INFINITY;
    for (int k = 0; k < starts && k < int(v.size()); ++k) {
        V3 n = D[size_t(v[size_t(k)].second)];
        double cur = -v[size_t(k)].first, step = 2.5 / std::sqrt(double(grid));
        for (int it = 0; step > 1e-8 && it < 300; ++it) {
            V3 u = n.unitOrthogonal(), w = n.cross(u);
            bool up = false;
            for (int q = 0; q < 8; ++q) {
                double t = TAU * q / 8;
                V3 m = (n + step * (std::cos(t) * u + std::sin(t) * w)).normalized();
                double y = f(m);
                if (y > cur + 1e-13 * std::fabs(cur)) { cur = y; n = m; up = true; break; }
            }
            if (!up) step *= 0.5;
        }
        if (cur > best) { best = cur; if (arg) *arg = n; }
    }
    return best;
}
/// as maxSphere, with directions given as the normals of a superquadric (well conditioned where its support function is not smooth)
template <class F> double maxNormals(const SQ3& A, F f, int grid = 24, int starts = 8) {
    auto sgn = [](double x, double p) { return x < 0 ? -std::pow(-x, p) : std::pow(x, p); };
    auto g = [&](double e, double w) {
        V3 m(sgn(std::cos(e), 2 - A.e1) * sgn(std::cos(w), 2 - A.e2) / A.a, sgn(std::cos(e), 2 - A.e1) * sgn(std::sin(w), 2 - A.e2) / A.b, sgn(std::sin(e), 2 - A.e1) / A.c_);
        return f(V3((A.R * m).normalized()));
    };
    std::vector<std::array<double, 3>> v;
    for (int i = 0; i <= grid; ++i) for (int j = 0; j < 2 * grid; ++j) {
        double e = -TAU / 4 + TAU / 2 * (i + 0.01) / (grid + 0.02), w = TAU * (j + 0.3) / (2 * grid);
        v.push_back({-g(e, w), e, w});
    }
    std::partial_sort(v.begin(), v.begin() + starts, v.end());
    double best = -INFINITY;
    for (int k = 0; k < starts; ++k) {
        double cur = -v[size_t(k)][0], e = v[size_t(k)][1], w = v[size_t(k)][2], st = TAU / 2 / grid;
        for (int it = 0; st > 1e-10 && it < 600; ++it) {
            bool up = false;
            for (int q = 0; q < 8 && !up; ++q) {
                double e2 = e + st * std::cos(TAU * q / 8), w2 = w + st * std::sin(TAU * q / 8), y = g(e2, w2);
                if (y > cur + 1e-13 * std::fabs(cur)) { cur = y; e = e2; w = w2; up = true; }
            }
            if (!up) st *= 0.5;
        }
        best = std::max(best, cur);
    }
    return best;
}
/// signed gap between two convex bodies (separation > 0, penetration < 0), exact up to the refinement
inline double gap2(const SE2& A, const SE2& B, int grid = 180) {
    V2 d = B.c() - A.c();
    return maxCircle([&](double t) { V2 n = dir2(t); return n.dot(d) - A.h(n) - B.h(-n); }, grid);
}
inline double gap3(const SQ3& A, const SQ3& B, int grid = 300, double stopAbove = INFINITY) {
    V3 d = B.c() - A.c();
    return maxSphere([&](const V3& n) { return n.dot(d) - A.h(n) - B.h(-n); }, grid, 4, nullptr, stopAbove);
}
/// by how much body B sticks out of the container A (<= 0: contained)
inline double out2(const SE2& A, const SE2& B, int grid = 180) {
    V2 d = B.c() - A.c();
    return maxCircle([&](double t) { V2 n = dir2(t); return n.dot(d) + B.h(n) - A.h(n); }, grid);
}
inline double out3(const SQ3& A, const SQ3& B, int grid = 300) {
    V3 d = B.c() - A.c();
    return maxSphere([&](const V3& n) { return n.dot(d) + B.h(n) - A.h(n); }, grid);
}
inline Eigen::Matrix3d rotAA(const V3& axis, double ang) { return Eigen::AngleAxisd(ang, axis.normalized()).toRotationMatrix(); }
}  // namespace geo
