// G02: superellipse boundary and closed-form Minkowski boundary against support functions.
#include "mc.hpp"
#include "hrmgeo.hpp"
using namespace geo;
using hrm::SuperEllipse;
static const double PI_ = 3.14159265358979323846;
/// is h_A - h_B the support function of A minus B (B rolls freely inside A), with a margin
static bool rolls(const SE2& A, const SE2& B) {
    const int N = 1440;
    std::vector<double> D(N);
    for (int i = 0; i < N; ++i) D[size_t(i)] = A.h(dir2(TAU * i / N)) - 1.02 * B.h(dir2(TAU * i / N));
    for (int i = 0; i < N; ++i)
        if (D[size_t(i)] <= 0 || D[size_t((i + 1) % N)] + D[size_t((i + N - 1) % N)] < 2 * std::cos(TAU / N) * D[size_t(i)]) return false;
    return true;
}
static void body() {
    static const double AX[][2] = {{5, 3}, {3, 5}, {4, 4}, {10, 1}, {0.5, 8}, {40, 25}};
    static const double EP[] = {0.1, 0.4, 1.0, 1.3, 1.7};
    static const double TH[] = {0, 0.7, -2.5, PI_ / 2, 4.0, -PI_};
    static const double PO[][2] = {{0, 0}, {30, -20}};
    static const double BX[][2] = {{1, 1}, {2, 0.5}, {0.3, 3}, {0.01, 0.02}};
    static const double BT[] = {0, 1.0, -0.5, 3.0};
    auto& ax = mc::pick(AX, "A");
    double eps = mc::pick(EP, "eps"), th = mc::pick(TH, "angle");
    auto& po = mc::pick(PO, "pos");
    static const std::vector<int> NQ{50, 9}, NT{50, 9, 20, 51, 100};
    int num = mc::pick(mc::thorough() ? NT : NQ, "num");
    const bool viaSet = (num == 9) != mc::thorough();   // the shape gets its parameters by assignment after it has been used
    SuperEllipse a = viaSet ? SuperEllipse({7, 2}, 0.8, {-3, 4}, 1.9, hrm::Index(num)) : SuperEllipse({ax[0], ax[1]}, eps, {po[0], po[1]}, th, hrm::Index(num));
    if (viaSet) {
        a.getOriginShape();
        a.getMinkSum2D(SuperEllipse({1, 0.5}, 1, {1, 2}, 0.3, 20), 1);
        a.setSemiAxis({ax[0], ax[1]}); a.setEpsilon(eps); a.setPosition({po[0], po[1]}); a.setAngle(th);
    }
    SE2 A = of(a);
    double scale = std::max(ax[0], ax[1]);
    auto P = a.getOriginShape();
    mc::step();
    mc::state(mc::Hash().d(ax[0]).d(ax[1]).d(eps).d(th).d(po[0]).u(uint64_t(num)));
    MC_CHECK(P.rows() == 2 && P.cols() == num, "count", "%dx%d points", int(P.rows()), int(P.cols()));
    for (int i = 0; i < P.cols(); ++i) {
        double f = A.F(P.col(i));
        mc::maxi("boundary-residual", std::fabs(f - 1));
        MC_CHECK(std::fabs(f - 1) < 1e-9, "boundary", "point %d (%.9g,%.9g) has gauge %.12g", i, P(0, i), P(1, i), f);
    }
    // the loop goes once around: successive polar angles increase (or all decrease) by a full turn in total
    auto winding = [&](const Eigen::MatrixXd& Q, const V2& c) {
        double t = 0;
        for (int i = 0; i < Q.cols(); ++i) {
            V2 p = V2(Q.col(i)) - c, q = V2(Q.col((i + 1) % Q.cols())) - c;
            t += std::atan2(p.x() * q.y() - p.y() * q.x(), p.dot(q));
        }
        return std::fabs(t) / TAU;
    };
    double w = winding(P, A.c());
    MC_CHECK(std::fabs(w - 1) < 1e-6, "loop", "winding number %g", w);
    auto cover = [&](const Eigen::MatrixXd& Q, const std::function<double(const V2&)>& h, const V2& c) {
        double worst = 0;
        for (int k = 0; k < 72; ++k) {
            V2 n = dir2(TAU * (k + 0.37) / 72);
            double m = -INFINITY;
            for (int i = 0; i < Q.cols(); ++i) m = std::max(m, n.dot(V2(Q.col(i)) - c));
            worst = std::max(worst, h(n) - m);
        }
        return worst;
    };
    // relative sampling error of a direction: about twice the maxima measured on the closed form
    const double tolShape = num >= 50 ? 0.007 : num >= 20 ? 0.03 : 0.15, tolMink = num >= 50 ? 0.2 : num >= 20 ? 0.35 : 0.5;
    double cv = cover(P, [&](const V2& n) { return A.h(n); }, A.c()) / scale;
    mc::maxi(mc::fmt("cover-shape eps%g num%d", eps, num), cv);
    MC_CHECK(cv < tolShape, "coverage-shape", "a direction of the boundary is missed by %g of the size", cv);
    auto& bx = mc::pick(BX, "B");
    double bt = mc::pick(BT, "Bangle");
    bool bpos = mc::flip("Bpos");
    int K = mc::flip("K") ? 1 : -1;
    SuperEllipse b({bx[0], bx[1]}, 1, bpos ? std::vector<double>{7, -9} : std::vector<double>{0, 0}, bt, 50);
    SE2 B = of(b);
    if (bpos) a.getMinkSum2D(b, -K);   // an earlier request of the other kind leaves no trace
    auto Q = a.getMinkSum2D(b, K);
    mc::step();
    if (bpos && K > 0) {
        SuperEllipse c = a;
        MC_CHECK(c.getMinkSum2D(b, K) == Q && a.getMinkSum2D(b, K) == Q && a.getOriginShape() == P, "repeat", "the same request gives another answer");
    }
    MC_CHECK(Q.rows() == 2 && Q.cols() == num, "count-mink", "%dx%d points", int(Q.rows()), int(Q.cols()));
    bool ok = K > 0 || (eps <= 1 && rolls(A, B));   // above 1 the curvature is unbounded
    double sc = scale + std::max(bx[0], bx[1]);
    if (K < 0) {   // does the ellipse fit at all (both shapes are centrally symmetric)
        double fit = maxCircle([&](double t) { V2 n = dir2(t); return (B.h(n) - A.h(n)) / sc; }, 720);
        double margin = num >= 50 ? 0.006 : num >= 20 ? 0.03 : 0.1;   // corners of the shape fall between the samples
        if (fit > margin) { for (int i = 0; i < Q.cols(); ++i) MC_CHECK(!(std::isfinite(Q(0, i)) && std::isfinite(Q(1, i))), "no-fit", "the ellipse does not fit but point %d is reported", i); mc::outcome("no-fit"); return; }
        mc::assume(fit < -1e-3);
    }
    for (int i = 0; i < Q.cols(); ++i) {
        V2 d = V2(Q.col(i)) - A.c();
        MC_CHECK(std::isfinite(d.x()) && std::isfinite(d.y()), "finite", "point %d", i);
        auto f = [&](double t) { V2 n = dir2(t); return n.dot(d) - A.h(n) - K * B.h(n); };
        double s = maxCircle(f, 120) / sc;
        if (s < -1e-10) s = std::max(s, maxCircle(f, 7200) / sc);   // a narrow maximum between grid directions
        if (K > 0 || ok) mc::maxi("mink-residual", std::fabs(s)); else mc::maxi("mink-inside", -s);
        if (ok) MC_CHECK(std::fabs(s) < 1e-6, K > 0 ? "sum-touch" : "difference-touch", "point %d (%.9g,%.9g): gap %.9g of size", i, Q(0, i), Q(1, i), s);
        else {
            mc::maxi(mc::fmt("mink-outside eps%g num%d", eps, num), s);
            MC_CHECK(s < (num >= 50 ? 0.006 : num >= 20 ? 0.025 : 0.08), "difference-outside", "point %d (%.9g,%.9g): the ellipse sticks out by %.9g of size", i, Q(0, i), Q(1, i), s);
            MC_CHECK(s > -1e-9, "difference-inside", "point %d (%.9g,%.9g) is strictly inside: %.9g", i, Q(0, i), Q(1, i), s);
        }
    }
    if (ok) {
        double wm = winding(Q, A.c());
        MC_CHECK(std::fabs(wm - 1) < 1e-6, "loop-mink", "winding number %g", wm);
        double cm = cover(Q, [&](const V2& n) { return A.h(n) + K * B.h(n); }, A.c()) / sc;
        mc::maxi(mc::fmt("cover-mink eps%g num%d", eps, num), cm);
        MC_CHECK(cm < tolMink, "coverage-mink", "a direction of the boundary is missed by %g of the size", cm);
    }
    mc::outcome(K > 0 ? "sum" : ok ? "difference" : "difference-not-smooth");
}
int main(int c, char** v) { return mc::run(c, v, body); }
