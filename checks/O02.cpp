// O02: configuration vector -> planner state -> configuration vector, and the start and goal the planner is given.
#include "mc.hpp"
#include "hrmgeo.hpp"
#include "urdf.hpp"
#include "hrm/config.h"
#include "hrm/planners/ompl_interface/OMPL2D.h"
#include "hrm/planners/ompl_interface/OMPL3D.h"
#include "hrm/planners/ompl_interface/OMPL3DArticulated.h"
#include <ompl/base/goals/GoalState.h>
#include <ompl/base/spaces/RealVectorStateSpace.h>
#include <ompl/base/spaces/SE2StateSpace.h>
#include <ompl/base/spaces/SE3StateSpace.h>
#include <ompl/util/Console.h>
using namespace geo;
namespace ob = ompl::base;
namespace oi = hrm::planners::ompl_interface;
using Vec = std::vector<double>;
static const double PI = 3.14159265358979323846;
static std::string str(const Vec& v) { std::string s; for (double x : v) s += mc::fmt("%s%.17g", s.empty() ? "" : ",", x); return s; }
/// empty: v is what was written (heading modulo a turn, quaternion up to sign and length)
static std::string diff(int dim, const Vec& want, const Vec& got) {
    if (want.size() != got.size()) return mc::fmt("%zu components instead of %zu", got.size(), want.size());
    size_t q = dim == 2 ? 2 : 3;
    for (size_t i = 0; i < q; ++i) if (got[i] != want[i]) return mc::fmt("coordinate %zu is %.17g instead of %.17g", i, got[i], want[i]);
    if (dim == 2) {
        if (std::fabs(std::remainder(got[2] - want[2], TAU)) > 1e-9) return mc::fmt("heading is %.17g instead of %.17g", got[2], want[2]);
        return "";
    }
    double nw = 0, ng = 0, dot = 0;
    for (size_t i = 3; i < 7; ++i) nw += want[i] * want[i], ng += got[i] * got[i], dot += want[i] * got[i];
    if (std::fabs(std::fabs(dot) / std::sqrt(nw * ng) - 1) > 1e-12) return "the rotation differs: " + str(got);
    if (std::fabs(ng - 1) > 1e-8) return mc::fmt("the quaternion has length %.12g", std::sqrt(ng));
    for (size_t i = 7; i < want.size(); ++i) if (got[i] != want[i]) return mc::fmt("joint %zu is %.17g instead of %.17g", i - 7, got[i], want[i]);
    return "";
}
/// what the state itself holds, read through OMPL's own interface
static Vec raw(int dim, const ob::State* s, size_t joints, bool art) {
    if (dim == 2) { auto* t = s->as<ob::SE2StateSpace::StateType>(); return {t->getX(), t->getY(), t->getYaw()}; }
    auto* t = art ? s->as<ob::CompoundState>()->as<ob::SE3StateSpace::StateType>(0) : s->as<ob::SE3StateSpace::StateType>();
    Vec v{t->getX(), t->getY(), t->getZ(), t->rotation().w, t->rotation().x, t->rotation().y, t->rotation().z};
    for (size_t i = 0; i < joints; ++i) v.push_back(s->as<ob::CompoundState>()->as<ob::RealVectorStateSpace::StateType>(1)->values[i]);
    return v;
}
template <class P> static void both(P& pl, int dim, size_t joints, bool art, const std::vector<Vec>& vs) {
    ob::ScopedState<ob::CompoundStateSpace> reused(pl.ss_->getStateSpace());
    for (size_t k = 0; k < vs.size(); ++k) {
        auto& v = vs[k];
        ob::ScopedState<ob::CompoundStateSpace> fresh(pl.ss_->getStateSpace());
        for (auto* st : {&fresh, &reused}) {
            pl.setStateFromVector(&v, st);
            Vec r = raw(dim, st->get(), joints, art), back = pl.setVectorFromState(st->get());
            mc::step(2);
            std::string d = diff(dim, v, r);
            MC_CHECK(d.empty(), "state", "%s state from (%s): %s", st == &fresh ? "new" : "reused", str(v).c_str(), d.c_str());
            d = diff(dim, v, back);
            MC_CHECK(d.empty(), "vector", "%s state from (%s) read back: %s", st == &fresh ? "new" : "reused", str(v).c_str(), d.c_str());
            MC_CHECK(pl.ss_->getStateSpace()->satisfiesBounds(st->get()), "bounds", "the state of (%s) is reported out of bounds", str(v).c_str());
        }
        const Vec& w = vs[(k * 7 + 3) % vs.size()];
        pl.setStartAndGoalState(v, w);
        mc::step();
        auto pd = pl.ss_->getProblemDefinition();
        MC_CHECK(pd->getStartStateCount() == 1, "starts", "%u start states after %zu problems", pd->getStartStateCount(), k + 1);
        std::string d = diff(dim, v, raw(dim, pd->getStartState(0), joints, art));
        MC_CHECK(d.empty(), "start", "start of problem %zu: %s", k, d.c_str());
        d = diff(dim, w, raw(dim, pd->getGoal()->template as<ob::GoalState>()->getState(), joints, art));
        MC_CHECK(d.empty(), "goal", "goal of problem %zu: %s", k, d.c_str());
        mc::Hash h; for (double x : v) h.d(x);
        mc::state(h);
    }
}
/// the planner's space ends where the given bounds end, in every coordinate and joint
template <class P> static void ends(P& pl, int dim, size_t joints, bool art, const Vec& lo, const Vec& hi) {
    auto space = pl.ss_->getStateSpace();
    ob::State* st = space->allocState();
    auto set = [&](const Vec& p, const Vec& q) {
        if (dim == 2) { auto* t = st->as<ob::SE2StateSpace::StateType>(); t->setXY(p[0], p[1]); t->setYaw(0.4); return; }
        auto* t = art ? st->as<ob::CompoundState>()->as<ob::SE3StateSpace::StateType>(0) : st->as<ob::SE3StateSpace::StateType>();
        t->setXYZ(p[0], p[1], p[2]);
        t->rotation().setIdentity();
        for (size_t i = 0; i < joints; ++i) st->as<ob::CompoundState>()->as<ob::RealVectorStateSpace::StateType>(1)->values[i] = q[i];
    };
    const double J = 1.5707963;
    for (size_t i = 0; i < lo.size() + joints; ++i) for (int side = 0; side < 2; ++side) for (double d : {-1e-3, 1e-3, 0.4, 1000.0}) {
        Vec p, q(joints, 0.1);
        for (size_t k = 0; k < lo.size(); ++k) p.push_back(0.5 * (lo[k] + hi[k]));
        double& c = i < lo.size() ? p[i] : q[i - lo.size()];
        double l = i < lo.size() ? lo[i] : -J, h = i < lo.size() ? hi[i] : J;
        c = side ? h + d : l - d;
        set(p, q);
        mc::step();
        bool in = space->satisfiesBounds(st);
        MC_CHECK(in == (d < 0), d < 0 ? "space-too-small" : "space-too-large", "%s %zu at %g with bounds %g..%g: %s", i < lo.size() ? "coordinate" : "joint", i < lo.size() ? i : i - lo.size(), c, l, h, in ? "inside" : "outside");
    }
    space->freeState(st);
}
static const double BND[][2] = {{-10, 10}, {0, 7}, {-3.5, -0.25}, {2, 100}};
static Vec axis(int b) { double l = BND[b][0], h = BND[b][1]; Vec v{l, h, l + 0.37 * (h - l), l + 0.81 * (h - l)}; if (l < 0 && h > 0) v.push_back(0); if (mc::thorough()) v.push_back(l + 1e-9), v.push_back(0.5 * (l + h)); return v; }
static void planar() {
    int bx = mc::choose(4, "bx"), by = mc::choose(4, "by");
    bool late = mc::flip("setup");
    hrm::MultiBodyTree2D r(hrm::SuperEllipse({2, 1}, 1, {0, 0}, 0, 10));
    const Vec lo{BND[bx][0], BND[by][0]}, hi{BND[bx][1], BND[by][1]};
    oi::OMPL2D pl(lo, hi, r, {}, {});
    pl.setup(late ? 0 : 2, 0);
    if (late) pl.setup(3, 0);
    std::vector<Vec> vs;
    for (double x : axis(bx)) for (double y : axis(by)) for (double t : {0.0, 0.3, -2.9, 3.1, PI, -PI, 4.0, 7.0, -9.0, 1e-7}) vs.push_back({x, y, t});
    both(pl, 2, 0, false, vs);
    ends(pl, 2, 0, false, lo, hi);
    mc::outcome("2d");
}
static std::vector<Eigen::Vector4d> quats() {
    std::vector<Eigen::Vector4d> v;
    for (int w = -1; w <= 1; ++w) for (int x = -1; x <= 1; ++x) for (int y = -1; y <= 1; ++y) for (int z = -1; z <= 1; ++z)
        if (w || x || y || z) v.push_back(Eigen::Vector4d(w, 2 * x, 0.5 * y, 1.5 * z).normalized());
    return v;
}
static void spatial(bool art) {
    int bx = mc::choose(4, "bx"), by = mc::choose(4, "by"), bz = mc::choose(4, "bz");
    hrm::SuperQuadrics base({2, 1, 1}, {1, 1}, {0, 0, 0}, Eigen::Quaterniond::Identity(), 6);
    hrm::MultiBodyTree3D r(base);
    const Vec lo{BND[bx][0], BND[by][0], BND[bz][0]}, hi{BND[bx][1], BND[by][1], BND[bz][1]};
    std::vector<Vec> vs;
    auto Q = quats();
    size_t n = 0;
    static const double UNN[] = {1, 1 + 1e-6, 1 - 1e-5};   // as read from text: unit up to printing precision
    for (double x : axis(bx)) for (double y : axis(by)) for (double z : axis(bz)) {
        auto& q = Q[n++ % Q.size()];
        double u = UNN[n % 3];
        vs.push_back({x, y, z, u * q(0), u * q(1), u * q(2), u * q(3)});
    }
    for (auto& q : Q) vs.push_back({axis(bx)[2], axis(by)[3], axis(bz)[2], q(0), q(1), q(2), q(3)});
    if (!art) {
        bool late = mc::flip("setup");
        oi::OMPL3D pl(lo, hi, r, {}, {}, {});
        pl.setup(late ? 0 : 2, 0);
        if (late) pl.setup(3, 0);
        both(pl, 3, 0, false, vs);
        ends(pl, 3, 0, false, lo, hi);
        mc::outcome("3d");
        return;
    }
    int k = mc::choose(5, "description");
    std::string file = k < 3 ? urdf::synFile(size_t(k == 2 ? 6 : k)) : std::string(RESOURCES_PATH "/3D/urdf/") + (k == 3 ? "snake" : "tree") + ".urdf";
    urdf::Desc D(file);
    for (int i = 0; i < D.bodies(); ++i) r.addBody(base);
    n = 0;
    for (auto& v : vs) {
        for (int i = 0; i < D.dof; ++i) { static const double J[] = {0, 0.7, -1.3, 1.5707963, -1.5707963, 0.01}; v.push_back(J[(n + size_t(i) * (1 + n % 5)) % 6]); }
        ++n;
    }
    oi::OMPL3DArticulated pl(lo, hi, r, file, {}, {}, {});
    if (mc::flip("setup")) pl.setup(2, 0);
    both(pl, 3, size_t(D.dof), true, vs);
    ends(pl, 3, size_t(D.dof), true, lo, hi);
    mc::outcome("articulated");
}
static void body() {
    ompl::msg::setLogLevel(ompl::msg::LOG_NONE);
    switch (mc::choose(3, "kind")) { case 0: planar(); break; case 1: spatial(false); break; default: spatial(true); }
}
int main(int argc, char** argv) { return mc::run(argc, argv, body); }
