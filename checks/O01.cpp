// O01: the sampling planners' state validity against exact body-by-body separation, for states on a lattice and on
// approach lines to every obstacle, in varying order.
#include "mc.hpp"
#include "hrmgeo.hpp"
#include "urdf.hpp"
#include "hrm/config.h"
#include "hrm/planners/ompl_interface/OMPL2D.h"
#include "hrm/planners/ompl_interface/OMPL3D.h"
#include "hrm/planners/ompl_interface/OMPL3DArticulated.h"
#include <ompl/base/spaces/RealVectorStateSpace.h>
#include <ompl/base/spaces/SE2StateSpace.h>
#include <ompl/base/spaces/SE3StateSpace.h>
#include <ompl/util/Console.h>
using namespace geo;
namespace ob = ompl::base;
namespace oi = hrm::planners::ompl_interface;
using Vec = std::vector<double>;
static const double PI = 3.14159265358979323846;
/// -1 certainly overlapping, +1 certainly apart, 0 too close to call
struct Sum { int worst = 1; int body = -1, obs = -1; double gap = INFINITY;
    void add(double g, double tolIn, double tolOut, int b, int o) {
        if (g < gap) { gap = g; if (worst > -1) body = b, obs = o; }
        if (g < -tolIn) { if (worst > -1) body = b, obs = o; worst = -1; }
        else if (g < tolOut && worst > 0) worst = 0;
    } };
template <class P> static void judge(P& pl, const ob::State* st, const Sum& v, const std::string& what, bool again) {
    bool got = pl.isStateValid(st);
    mc::step();
    if (v.worst == 0) { mc::metric("near-contact"); return; }
    mc::metric(v.worst > 0 ? "free" : "colliding");
    MC_CHECK(got == (v.worst > 0), v.worst > 0 ? "valid-missed" : "collision-missed", "%s%s: body %d and obstacle %d have gap %g, but the state is reported %s", again ? "after other states, " : "", what.c_str(), v.body, v.obs, v.gap, got ? "valid" : "invalid");
}
// ------------------------------------------------------------------ 2D
struct B2 { double a, b, x, y, th; };
static const std::vector<std::vector<B2>> RB2 = {
    {{3, 1, 0, 0, 0}},
    {{2, 1, 0, 0, 0}, {1.5, 0.7, 3, 1, 0.8}, {2.5, 0.4, -2, -2, -1.9}},
    {{1, 2, 0, 0, 0}, {0.5, 4, 6, 0, 1.2}},
};
struct O2 { double a, b, e, x, y, th; };
static const std::vector<std::vector<O2>> SC2 = {
    {},
    {{4, 2, 1, 5, -3, 0.7}},
    {{4, 3, 0.2, -4, 2, 0.4}},
    {{2, 5, 1, -8, -6, -0.5}, {3, 3, 1.5, 7, 6, 0.2}, {5, 1.5, 0.5, 2, -9, 1.1}},
    {{3, 3, 0.4, 8, 1, 0}, {2, 2, 1, -6, 4, 0}, {6, 0.5, 1, 0, -7, 2.5}},
};
static void planar() {
    int r = mc::choose(int(RB2.size()), "robot"), s = mc::choose(int(SC2.size()), "scene");
    int hist = mc::choose(3, "history");   // as set up; set up twice; after a first query
    bool pre = mc::flip("displaced");      // the robot was placed elsewhere before
    static const double TH[] = {0, 0.6, -1.3, 2.4, PI / 2, -PI};
    int ti = mc::choose(6, "heading");
    auto& R = RB2[size_t(r)];
    hrm::MultiBodyTree2D robot(hrm::SuperEllipse({R[0].a, R[0].b}, 1, {0, 0}, 0, 20));
    for (size_t i = 1; i < R.size(); ++i) robot.addBody(hrm::SuperEllipse({R[i].a, R[i].b}, 1, {R[i].x, R[i].y}, R[i].th, 20));
    if (pre) {
        Eigen::Matrix3d g = Eigen::Matrix3d::Identity();
        g.topLeftCorner(2, 2) = Eigen::Rotation2Dd(1.1).toRotationMatrix(); g(0, 2) = 4; g(1, 2) = -3;
        robot.robotTF(g);
    }
    std::vector<hrm::SuperEllipse> obs, arena{hrm::SuperEllipse({30, 30}, 0.3, {0, 0}, 0, 20)};
    for (auto& o : SC2[size_t(s)]) obs.emplace_back(hrm::SuperEllipse({o.a, o.b}, o.e, {o.x, o.y}, o.th, 50));
    const Vec lo{-20, -20}, hi{20, 20};
    oi::OMPL2D pl(lo, hi, robot, arena, obs);
    pl.setup(hrm::Index(hist == 1 ? 3 : 2), 0);
    if (hist == 1) pl.setup(2, 0);
    if (hist == 2) pl.plan({-19, -19, 0}, {-19, -18.9, 0}, 0.02);
    std::vector<SE2> ex;
    for (auto& o : obs) ex.push_back(of(o));
    auto at = [&](double x, double y, double th) {
        Sum v;
        for (size_t b = 0; b < R.size(); ++b) {
            double c = std::cos(th), sn = std::sin(th);
            SE2 B{R[b].a, R[b].b, 1, x + c * R[b].x - sn * R[b].y, y + sn * R[b].x + c * R[b].y, th + R[b].th};
            for (size_t o = 0; o < ex.size(); ++o) {
                bool ell = ex[o].eps == 1;
                v.add(gap2(ex[o], B), ell ? 1e-3 : 0.15 * std::max(ex[o].a, ex[o].b), ell ? 1e-3 : 1e-3, int(b), int(o));
            }
        }
        return v;
    };
    double th = TH[ti];
    struct Q { double x, y; };
    std::vector<Q> qs;
    int n = mc::thorough() ? 15 : 8;
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) qs.push_back({-18 + 36.0 * i / (n - 1), -18 + 36.0 * j / (n - 1)});
    for (auto& o : ex) for (size_t b = 0; b < R.size(); ++b) for (int d = 0; d < (mc::thorough() ? 6 : 3); ++d) {   // body b near obstacle o
        V2 u = dir2(2.1 * d + 0.3);
        double lo2 = 0, hi2 = 30, c = std::cos(th), sn = std::sin(th);
        V2 rel(c * R[b].x - sn * R[b].y, sn * R[b].x + c * R[b].y);
        for (int k = 0; k < 40; ++k) { double m = (lo2 + hi2) / 2; V2 p = o.c() + m * u; (gap2(o, SE2{R[b].a, R[b].b, 1, p.x(), p.y(), th + R[b].th}, 120) > 0 ? hi2 : lo2) = m; }
        for (double f : {0.0, 0.5, 0.9, 0.99, 1.01, 1.1}) { V2 p = o.c() + f * hi2 * u - rel; qs.push_back({p.x(), p.y()}); }
    }
    ob::ScopedState<ob::SE2StateSpace> st(pl.ss_->getStateSpace());
    for (int pass = 0; pass < 2; ++pass)
        for (size_t k = 0; k < qs.size(); ++k) {
            if (pass && k % 3) continue;
            auto& q = qs[pass ? qs.size() - 1 - k : k];
            if (std::fabs(q.x) > 20 || std::fabs(q.y) > 20) continue;
            st->setX(q.x); st->setY(q.y); st->setYaw(th);
            mc::state(mc::Hash().u(uint64_t(r)).u(uint64_t(s)).d(q.x).d(q.y).d(th));
            judge(pl, st.get(), at(q.x, q.y, th), mc::fmt("2D robot %d scene %d at (%g,%g,%g)", r, s, q.x, q.y, th), pass > 0);
        }
    mc::outcome("2d");
}
// ------------------------------------------------------------------ 3D
struct B3 { V3 s, p, ax; double th; };
static const std::vector<std::vector<B3>> RB3 = {
    {{V3(3, 1, 0.7), V3(0, 0, 0), V3(0, 0, 1), 0}},
    {{V3(1.5, 1, 0.8), V3(0, 0, 0), V3(0, 0, 1), 0}, {V3(2.2, 0.5, 0.6), V3(3, 1, 0.5), V3(1, 1, 0), 0.9}, {V3(0.5, 2.4, 0.5), V3(-1, -2, 1.5), V3(0, 1, 1), 2.2}},
};
struct O3 { V3 s; double e1, e2; V3 p, ax; double th; };
static const std::vector<std::vector<O3>> SC3 = {
    {},
    {{V3(4, 2, 3), 1, 1, V3(5, -3, 1), V3(1, 0, 1), 0.7}},
    {{V3(3, 4, 2), 0.2, 1, V3(-4, 2, -2), V3(0, 0, 1), 0.5}},
    {{V3(2, 3, 4), 1, 0.3, V3(3, 4, 5), V3(0, 1, 0), 0.6}, {V3(3, 1, 2), 1, 1, V3(-6, -5, 0), V3(1, 1, 1), -1.3}, {V3(2, 2, 2), 0.3, 0.3, V3(5, -6, -4), V3(0, 0, 1), 0.4}},
};
static hrm::SuperQuadrics mk(const O3& o, int num) { return hrm::SuperQuadrics({o.s.x(), o.s.y(), o.s.z()}, {o.e1, o.e2}, {o.p.x(), o.p.y(), o.p.z()}, Eigen::Quaterniond(Eigen::AngleAxisd(o.th, o.ax.normalized())), hrm::Index(num)); }
static const std::vector<Eigen::Quaterniond>& quats() {
    static std::vector<Eigen::Quaterniond> v;
    if (v.empty()) {
        auto aa = [&](double t, V3 a, bool neg) { Eigen::Quaterniond q(Eigen::AngleAxisd(t, a.normalized())); if (neg) q.coeffs() = -q.coeffs(); v.push_back(q); };
        aa(0, V3(0, 0, 1), false); aa(1.1, V3(1, 2, -1), false); aa(PI, V3(1, 0, 1), false); aa(2.3, V3(-1, 1, 0), true);
        if (mc::thorough()) { aa(-0.5, V3(0, 1, 0), false); aa(PI / 2, V3(0, 0, 1), true); }
    }
    return v;
}
using Poses = std::vector<std::pair<V3, Eigen::Matrix3d>>;   // of the bodies relative to the base
template <class P> static void spatial(P& pl, const std::vector<V3>& sizes, const Poses& rel, const Eigen::Quaterniond& q, const Vec& joints, const std::vector<hrm::SuperQuadrics>& obs, const std::string& what, int n) {
    std::vector<SQ3> ex;
    for (auto& o : obs) ex.push_back(of(o));
    const Eigen::Matrix3d R = rotOf(q);
    auto bodyAt = [&](size_t b, const V3& p) { return SQ3{sizes[b].x(), sizes[b].y(), sizes[b].z(), 1, 1, p + R * rel[b].first, R * rel[b].second}; };
    auto at = [&](const V3& p) {
        Sum v;
        for (size_t b = 0; b < sizes.size(); ++b) {
            SQ3 B = bodyAt(b, p);
            for (size_t o = 0; o < ex.size(); ++o) {
                bool ell = ex[o].e1 == 1 && ex[o].e2 == 1;
                double rb = sizes[b].maxCoeff(), ro = std::sqrt(3.0) * std::max({ex[o].a, ex[o].b, ex[o].c_}), d = (B.p - ex[o].p).norm();
                double g = d > rb + ro + 0.1 ? d - rb - ro : gap3(ex[o], B, 200, 0.1);
                v.add(g, ell ? 2e-3 : 0.15 * std::max({ex[o].a, ex[o].b, ex[o].c_}), 2e-3, int(b), int(o));
            }
        }
        return v;
    };
    std::vector<V3> qs;
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) for (int k = 0; k < n; ++k) qs.push_back(V3(-9 + 18.0 * i / (n - 1), -9 + 18.0 * j / (n - 1), -8 + 16.0 * k / (n - 1)));
    for (auto& o : ex) for (size_t b = 0; b < sizes.size(); ++b) for (int d = 0; d < 2; ++d) {
        V3 u = d ? V3(0.3, -0.8, 0.5).normalized() : V3(-1, 0.2, 0.1).normalized();
        double l = 0, h = 30;
        for (int k = 0; k < 30; ++k) { double m = (l + h) / 2; SQ3 B = bodyAt(b, V3(0, 0, 0)); B.p = o.p + m * u; (gap3(o, B, 150, 1e-12) > 0 ? h : l) = m; }
        for (double f : {0.0, 0.5, 0.95, 0.99, 1.01, 1.1}) qs.push_back(V3(o.p + f * h * u - R * rel[b].first));
    }
    ob::ScopedState<ob::CompoundStateSpace> st(pl.ss_->getStateSpace());
    for (int pass = 0; pass < 2; ++pass)
        for (size_t k = 0; k < qs.size(); ++k) {
            if (pass && k % 5) continue;
            auto& p = qs[pass ? qs.size() - 1 - k : k];
            if (std::fabs(p.x()) > 20 || std::fabs(p.y()) > 20 || std::fabs(p.z()) > 20) continue;
            ob::State* raw = st.get();
            auto* se = joints.empty() && !std::is_same<P, oi::OMPL3DArticulated>::value ? raw->template as<ob::SE3StateSpace::StateType>() : raw->template as<ob::CompoundState>()->template as<ob::SE3StateSpace::StateType>(0);
            se->setXYZ(p.x(), p.y(), p.z());
            se->rotation().w = q.w(); se->rotation().x = q.x(); se->rotation().y = q.y(); se->rotation().z = q.z();
            for (size_t i = 0; i < joints.size(); ++i) raw->template as<ob::CompoundState>()->template as<ob::RealVectorStateSpace::StateType>(1)->values[i] = joints[i];
            mc::state(mc::Hash().d(p.x()).d(p.y()).d(p.z()).d(q.w()).d(q.x()).d(joints.empty() ? 0 : joints[0]).u(obs.size()));
            judge(pl, raw, at(p), mc::fmt("%s at (%g,%g,%g) q %g,%g,%g,%g", what.c_str(), p.x(), p.y(), p.z(), q.w(), q.x(), q.y(), q.z()), pass > 0);
        }
}
static void rigid3() {
    int r = mc::choose(int(RB3.size()), "robot"), s = mc::choose(int(SC3.size()), "scene");
    int hist = mc::choose(3, "history");
    bool pre = mc::flip("displaced");
    auto& q = mc::pick(quats(), "orientation");
    auto& R = RB3[size_t(r)];
    hrm::MultiBodyTree3D robot(hrm::SuperQuadrics({R[0].s.x(), R[0].s.y(), R[0].s.z()}, {1, 1}, {0, 0, 0}, Eigen::Quaterniond::Identity(), 8));
    std::vector<V3> sizes; Poses rel;
    for (size_t i = 0; i < R.size(); ++i) {
        sizes.push_back(R[i].s);
        rel.push_back({R[i].p, rotAA(R[i].ax, R[i].th)});
        if (i) robot.addBody(mk(O3{R[i].s, 1, 1, R[i].p, R[i].ax, R[i].th}, 8));
    }
    if (pre) {
        Eigen::Matrix4d g = Eigen::Matrix4d::Identity();
        g.topLeftCorner(3, 3) = rotAA(V3(1, 2, 2), 1.4); g(0, 3) = 5; g(1, 3) = -2; g(2, 3) = 3;
        robot.robotTF(hrm::SE3Transform(g));
    }
    std::vector<hrm::SuperQuadrics> obs, arena{mk(O3{V3(30, 30, 30), 0.2, 0.2, V3(0, 0, 0), V3(0, 0, 1), 0}, 8)};
    std::vector<hrm::Mesh> mesh;
    for (auto& o : SC3[size_t(s)]) { obs.push_back(mk(o, 10)); mesh.push_back(hrm::getMeshFromSQ(obs.back())); }
    const Vec lo{-20, -20, -20}, hi{20, 20, 20};
    oi::OMPL3D pl(lo, hi, robot, arena, obs, mesh);
    pl.setup(hist == 1 ? 3 : 2, 0);
    if (hist == 1) pl.setup(2, 0);
    if (hist == 2) pl.plan({-19, -19, -19, 1, 0, 0, 0}, {-19, -18.9, -19, 1, 0, 0, 0}, 0.02);
    spatial(pl, sizes, rel, q, {}, obs, mc::fmt("3D robot %d scene %d", r, s), mc::thorough() ? 5 : 4);
    mc::outcome("3d");
}
static void arms() {
    static const std::vector<int> K{0, 1, 2, 3, 6, -1, -2};   // (3 and 6 have prismatic joints)
    int k = mc::pick(K, "description");
    std::string file = k >= 0 ? urdf::synFile(size_t(k)) : std::string(RESOURCES_PATH "/3D/urdf/") + (k == -1 ? "snake" : "tree") + ".urdf";
    urdf::Desc D(file);
    int nb = D.bodies();
    int s = mc::choose(int(SC3.size()), "scene");
    auto& q = mc::pick(quats(), "orientation");
    int pat = mc::choose(mc::thorough() ? 4 : 3, "joints");
    hrm::MultiBodyTree3D robot(hrm::SuperQuadrics({1.5, 0.8, 0.6}, {1, 1}, {0, 0, 0}, Eigen::Quaterniond::Identity(), 6));
    std::vector<V3> sizes{V3(1.5, 0.8, 0.6)}; Poses rel{{V3(0, 0, 0), Eigen::Matrix3d::Identity()}};
    Vec v(size_t(D.dof), 0.0);
    for (size_t i = 0; i < v.size(); ++i) v[i] = pat == 0 ? 0 : pat == 1 ? 0.5 * double(i % 3) - 0.8 : pat == 2 ? 1.2 - 0.35 * double(i) : (i % 2 ? 1.5 : -1.5);
    Eigen::VectorXd ev = Eigen::Map<Eigen::VectorXd>(v.data(), long(v.size()));
    for (int i = 0; i < nb; ++i) {
        V3 sz(1.1, 0.4 + 0.05 * i, 0.5);
        V3 p(0.8, 0.1 * i, -0.2); Eigen::Matrix3d Ri = rotAA(V3(0, 1, 1), 0.4 * i);
        robot.addBody(hrm::SuperQuadrics({sz.x(), sz.y(), sz.z()}, {1, 1}, {p.x(), p.y(), p.z()}, Eigen::Quaterniond(Ri), 6));
        Eigen::Matrix4d g = Eigen::Matrix4d::Identity();
        g.topLeftCorner(3, 3) = Ri; g.topRightCorner(3, 1) = p;
        Eigen::Matrix4d w = D.fk("body" + std::to_string(i + 1), ev) * g;
        sizes.push_back(sz);
        rel.push_back({V3(w.topRightCorner(3, 1)), Eigen::Matrix3d(w.topLeftCorner(3, 3))});
    }
    std::vector<hrm::SuperQuadrics> obs, arena{mk(O3{V3(30, 30, 30), 0.2, 0.2, V3(0, 0, 0), V3(0, 0, 1), 0}, 8)};
    std::vector<hrm::Mesh> mesh;
    for (auto& o : SC3[size_t(s)]) { obs.push_back(mk(o, 10)); mesh.push_back(hrm::getMeshFromSQ(obs.back())); }
    const Vec lo{-20, -20, -20}, hi{20, 20, 20};
    oi::OMPL3DArticulated pl(lo, hi, robot, file, arena, obs, mesh);
    pl.setup(2, 0);
    spatial(pl, sizes, rel, q, v, obs, mc::fmt("%s scene %d joints %d", file.c_str(), s, pat), mc::thorough() ? 4 : 3);
    mc::outcome("articulated");
}
static void body() {
    ompl::msg::setLogLevel(ompl::msg::LOG_NONE);
    switch (mc::choose(3, "kind")) { case 0: planar(); break; case 1: rigid3(); break; default: arms(); }
}
int main(int argc, char** argv) { mc::Options o; o.splitDepth = 3; return mc::run(argc, argv, body, o); }
