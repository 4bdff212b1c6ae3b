// G11: every polyhedral region of a few lattice simplices, every lattice and half-lattice point, against exact integer
// orientation tests.
#include "mc.hpp"
#include "hrm/geometry/PointInPoly.h"
#include "hrm/datastructure/DataType.h"
#include <array>
typedef std::array<long, 3> P3;
static long det(const P3& a, const P3& b, const P3& c, const P3& d) {
    long u[3], v[3], w[3];
    for (int i = 0; i < 3; ++i) { u[i] = b[i] - a[i]; v[i] = c[i] - a[i]; w[i] = d[i] - a[i]; }
    return u[0] * (v[1] * w[2] - v[2] * w[1]) - u[1] * (v[0] * w[2] - v[2] * w[0]) + u[2] * (v[0] * w[1] - v[1] * w[0]);
}
struct Simplex {
    std::array<P3, 4> v;   // in half units
    long d() const { return det(v[0], v[1], v[2], v[3]); }
    /// 1 strictly inside, 0 on the boundary, -1 outside
    int side(const P3& p) const {
        long D = d();
        int r = 1;
        for (int i = 0; i < 4; ++i) {
            auto w = v;
            w[size_t(i)] = p;
            long a = det(w[0], w[1], w[2], w[3]);
            if ((D > 0) != (a > 0) && a) return -1;
            if (!a) r = 0;
        }
        return r;
    }
};
struct Frame { double s; double t[3]; };
/// inverse of the matrix whose columns are the vertices with a 1 below, column after column
static std::vector<double> inverse(const Simplex& S, const Frame& f) {
    Eigen::Matrix4d M;
    for (int c = 0; c < 4; ++c) {
        for (int r = 0; r < 3; ++r) M(r, c) = f.s * double(S.v[size_t(c)][size_t(r)]) / 2 + f.t[r];
        M(3, c) = 1;
    }
    Eigen::Matrix4d I;   // by cofactors: exact where the determinant is a power of two
    double D = 0;
    for (int r = 0; r < 4; ++r) for (int c = 0; c < 4; ++c) {
        Eigen::Matrix3d m;
        for (int i = 0, a = 0; i < 4; ++i) if (i != r) { for (int j = 0, b = 0; j < 4; ++j) if (j != c) m(a, b++) = M(i, j); ++a; }
        double k = m(0, 0) * (m(1, 1) * m(2, 2) - m(1, 2) * m(2, 1)) - m(0, 1) * (m(1, 0) * m(2, 2) - m(1, 2) * m(2, 0)) + m(0, 2) * (m(1, 0) * m(2, 1) - m(1, 1) * m(2, 0));
        I(c, r) = ((r + c) % 2 ? -k : k);
        if (r == 3) D += I(c, r);
    }
    I /= D;
    return std::vector<double>(I.data(), I.data() + 16);
}
static const P3 L[] = {{0, 0, 0}, {2, 0, 0}, {0, 2, 0}, {0, 0, 2}, {2, 2, 0}, {2, 0, 2}, {0, 2, 2}, {2, 2, 2}, {4, 2, 0}, {-2, 0, 2}, {2, 4, 4}, {1, -2, 0}};
static std::vector<Simplex> region() {
    const int NL = mc::thorough() ? 12 : 10;
    int k = mc::choose(6, "region");
    std::vector<Simplex> R;
    auto any = [&](const char* l) {
        int a = mc::choose(NL, l), b = mc::choose(NL, l), c = mc::choose(NL, l), d = mc::choose(NL, l);
        Simplex S{{L[a], L[b], L[c], L[d]}};
        mc::assume(S.d() != 0);
        return S;
    };
    // triangulated cube [0,2]^3 (half units: a unit cube), six simplices along the diagonal; and five
    static const int PM[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
    auto kuhn = [&](P3 o) {
        for (auto& p : PM) {
            Simplex S;
            P3 x = o;
            S.v[0] = x;
            for (int i = 0; i < 3; ++i) { x[size_t(p[i])] += 2; S.v[size_t(i) + 1] = x; }
            R.push_back(S);
        }
    };
    if (k == 0) R = {any("vertex")};
    else if (k == 1) {
        static const int A[][4] = {{0, 1, 2, 3}, {7, 4, 5, 6}, {4, 5, 6, 0}};
        auto& a = mc::pick(A, "first");
        Simplex S{{L[a[0]], L[a[1]], L[a[2]], L[a[3]]}};
        int i = mc::choose(NL, "vertex"), j = mc::choose(NL, "vertex"), m = mc::choose(NL, "vertex"), n = mc::choose(NL, "vertex");
        mc::assume(i < j && j < m && m < n);
        Simplex T{{L[i], L[j], L[m], L[n]}};
        mc::assume(T.d() != 0);
        R = {S, T};
        if (mc::flip("swapped")) std::swap(R[0], R[1]);
    } else if (k == 2) { kuhn({0, 0, 0}); int r = mc::choose(6, "rotate"); std::rotate(R.begin(), R.begin() + r, R.end()); }
    else if (k == 3) {
        static const int F[5][4] = {{0, 4, 5, 6}, {1, 0, 4, 5}, {2, 0, 4, 6}, {3, 0, 5, 6}, {7, 4, 5, 6}};
        for (auto& f : F) R.push_back({{L[f[0]], L[f[1]], L[f[2]], L[f[3]]}});
        int r = mc::choose(5, "rotate");
        std::rotate(R.begin(), R.begin() + r, R.end());
    } else if (k == 4) { kuhn({0, 0, 0}); kuhn({2, 0, 0}); kuhn({-2, -2, 2}); if (mc::flip("reversed")) std::reverse(R.begin(), R.end()); }
    // k == 5: no simplex at all
    return R;
}
static void body() {
    auto R = region();
    static const Frame FR[] = {{1, {0, 0, 0}}, {0.5, {-1, 2, 0.25}}, {0.01, {0.3, -0.2, 0.1}}, {300, {1000, -500, 70}}};
    int fi = mc::choose(4, "frame");
    const Frame& f = FR[fi];
    hrm::PolyCSpace poly;
    for (auto& S : R) {
        poly.matrixInverse.push_back(inverse(S, f));
        for (auto& v : S.v) poly.vertex.push_back({f.s * double(v[0]) / 2 + f.t[0], f.s * double(v[1]) / 2 + f.t[1], f.s * double(v[2]) / 2 + f.t[2]});
    }
    auto keep = poly.matrixInverse;
    int in = 0, out = 0;
    mc::Hash h;
    for (long x = -3; x <= 6; ++x) for (long y = -3; y <= 6; ++y) for (long z = -3; z <= 6; ++z) {
        int side = -1;
        bool exact = fi == 0;
        for (auto& S : R) {
            int s = S.side({x, y, z});
            long D = std::labs(S.d());
            if (s == 0 && (D & (D - 1))) exact = false;   // the inverse of such a simplex is rounded
            side = std::max(side, s);
        }
        std::vector<double> p{f.s * double(x) / 2 + f.t[0], f.s * double(y) / 2 + f.t[1], f.s * double(z) / 2 + f.t[2]};
        bool got = hrm::isPtInPoly(poly, p);
        mc::step();
        if (side == 0 && !exact) continue;
        bool want = side >= 0;
        MC_CHECK(got == want, want ? (side ? "inside-missed" : "boundary-missed") : "outside-accepted", "point (%g,%g,%g) of a region of %d simplices: %s", p[0], p[1], p[2], int(R.size()), got ? "inside" : "outside");
        (want ? in : out)++;
        h.u(uint64_t(got));
    }
    MC_CHECK(poly.matrixInverse == keep, "input-changed", "the region was changed");
    h.u(uint64_t(fi)).u(uint64_t(R.size()));
    for (auto& S : R) for (auto& v : S.v) for (long c : v) h.u(uint64_t(c + 9));
    mc::state(h);
    mc::outcome(in ? "some inside" : "none inside");
    mc::metric("points_inside", in); mc::metric("points_outside", out);
}
int main(int argc, char** argv) { return mc::run(argc, argv, body); }
