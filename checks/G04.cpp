// G04: covering and tightly-fitted ellipses against support functions.
#include "mc.hpp"
#include "hrmgeo.hpp"
#include "hrm/geometry/TightFitEllipsoid.h"
using namespace geo;
static const double AX[][2] = {{5, 3}, {3, 5}, {4, 4}, {10, 1}, {0.5, 8}, {4, 4.0001}, {30, 20}, {1e-3, 2e-3}};
static const double TH[] = {0, 0.3, -0.3, 1.5707963267948966, -1.5707963267948966, 3.1415926535, -3.1415926535, 2.2, -2.9, 7.0, -11.0, 0.3 + 1e-7};
static SE2 mk(const double* a, double th) { return SE2{a[0], a[1], 1, 0, 0, th}; }
static double supDiff(const SE2& A, const SE2& B) {
    double w = 0;
    for (int i = 0; i < 90; ++i) { V2 n = dir2(TAU * i / 90); w = std::max(w, std::fabs(A.h(n) - B.h(n))); }
    return w;
}
static void wellFormed(const hrm::SuperEllipse& c, hrm::Index num) {
    MC_CHECK(c.getEpsilon() == 1 && c.getNum() == num && c.getPosition().size() == 2 && c.getPosition()[0] == 0 && c.getPosition()[1] == 0, "form", "eps %g num %u", c.getEpsilon(), c.getNum());
    MC_CHECK(std::isfinite(c.getAngle()) && c.getSemiAxis()[0] > 0 && c.getSemiAxis()[1] > 0, "form", "angle %g axes %g %g", c.getAngle(), c.getSemiAxis()[0], c.getSemiAxis()[1]);
}
static void cover() {
    auto& a = mc::pick(AX, "a"); auto& b = mc::pick(AX, "b");
    double ta = mc::pick(TH, "thA"), tb = mc::pick(TH, "thB");
    auto c = hrm::getMVCE2D({a[0], a[1]}, {b[0], b[1]}, ta, tb, 30);
    mc::step();
    mc::state(mc::Hash().u(1).v(c.getSemiAxis()).d(c.getAngle()));
    wellFormed(c, 30);
    SE2 A = mk(a, ta), B = mk(b, tb), C = of(c);
    double sc = std::max({a[0], a[1], b[0], b[1]});
    double oa = out2(C, A) / sc, ob = out2(C, B) / sc;
    mc::maxi("cover-excess", std::max(oa, ob));
    MC_CHECK(oa < 1e-7, "cover-a", "first ellipse sticks out by %g of the size", oa);
    MC_CHECK(ob < 1e-7, "cover-b", "second ellipse sticks out by %g of the size", ob);
    double ab = out2(B, A) / sc, ba = out2(A, B) / sc;
    if (ab <= 0) { double d = supDiff(C, B) / sc; mc::maxi("tight", d); MC_CHECK(d < 1e-7, "tight", "first inside second, but the cover differs from the second by %g", d); mc::outcome("a in b"); }
    else if (ba <= 0) { double d = supDiff(C, A) / sc; mc::maxi("tight", d); MC_CHECK(d < 1e-7, "tight", "second inside first, but the cover differs from the first by %g", d); mc::outcome("b in a"); }
    else mc::outcome("crossing");
    double m = std::max(c.getSemiAxis()[0], c.getSemiAxis()[1]) / sc, ar = c.getSemiAxis()[0] * c.getSemiAxis()[1] / (sc * sc);
    mc::maxi("major", m);
    mc::maxi("area", ar);
    MC_CHECK(ar < 1 + 1e-9, "area", "area of the cover is %g of the smallest circle around both", ar);
}
static void tfe() {
    auto& a = mc::pick(AX, "a");
    double ta = mc::pick(TH, "thA"), tb = mc::pick(TH, "thB");
    int n = mc::choose(mc::thorough() ? 22 : 10, "steps");
    if (n == 8 && !mc::thorough()) n = 20;
    else if (n == (mc::thorough() ? 21 : 9)) n = 57;
    auto c = hrm::getTFE2D({a[0], a[1]}, ta, tb, hrm::Index(n), 30);
    mc::step();
    mc::state(mc::Hash().u(2).v(c.getSemiAxis()).d(c.getAngle()).u(uint64_t(n)));
    wellFormed(c, 30);
    SE2 C = of(c);
    double sc = std::max(a[0], a[1]);
    for (int i = -1; i <= n; ++i) {
        double t = i < 0 ? ta : i == n ? tb : n > 1 ? ta + (tb - ta) * i / (n - 1) : ta;
        double o = out2(C, mk(a, t)) / sc;
        mc::maxi("tfe-excess", o);
        MC_CHECK(o < 1e-7, i < 0 || i == n ? "tfe-end" : "tfe-step", "ellipse at heading %.9g (step %d of %d) sticks out by %g of the size", t, i, n, o);
    }
    mc::outcome("tfe");
    if (std::fabs(a[0] - a[1]) < 1e-12) { double d = supDiff(C, mk(a, 0)) / sc; MC_CHECK(d < 1e-7, "tfe-circle", "circle does not stay itself: %g", d); }
    double ar = c.getSemiAxis()[0] * c.getSemiAxis()[1] / (sc * sc);
    mc::maxi("tfe-area", ar);
}
static void body() { if (mc::flip("tfe")) tfe(); else cover(); }
int main(int c, char** v) { mc::Options o; o.splitDepth = 3; return mc::run(c, v, body, o); }
