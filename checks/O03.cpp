// O03: what the sampling-planner wrapper reports after every call, (a) above a scripted planner whose answers are all
// enumerated, (b) above OMPL's own planners under a virtual clock, owned random sources and a controlled scheduler for
// the planner that searches in a second thread.
#include "mc.hpp"
#include <condition_variable>
#include <dlfcn.h>
#include <mutex>
#include <pthread.h>
#include <thread>
namespace sched { void point(); void join(pthread_t); }
#define ENV_CLOCK_ONLY
#define ENV_ON_READ sched::point()
#include "env.hpp"
#include "hrmgeo.hpp"
#include "urdf.hpp"
#include "hrm/config.h"
#include "hrm/planners/ompl_interface/OMPL2D.h"
#include "hrm/planners/ompl_interface/OMPL3D.h"
#include "hrm/planners/ompl_interface/OMPL3DArticulated.h"
#include <ompl/base/PlannerData.h>
#include <ompl/base/goals/GoalState.h>
#include <ompl/base/spaces/RealVectorStateSpace.h>
#include <ompl/base/spaces/SE2StateSpace.h>
#include <ompl/base/spaces/SE3StateSpace.h>
#include <ompl/util/Console.h>
using namespace geo;
namespace ob = ompl::base;
namespace og = ompl::geometric;
namespace oi = hrm::planners::ompl_interface;
using Vec = std::vector<double>;
// ------------------------------------------------------------------ scheduler
// One thread runs at a time. Every reading of the clock (each evaluation of a termination condition is one) is a
// scheduling point; by default the two threads take turns there, and the explorer chooses where they do not.
namespace sched {
static std::mutex m;
static std::condition_variable cv;
static bool on = false, worker = false, workerReady = false, mainJoining = false;
static int holder = 0, points = 0, deviations = 0, maxDev = 0, window = 0;
static thread_local int self = 0;   // 0: the thread that calls plan, 1: the planner's second thread
static double tickPer = 0.001;
static void reset(int dev, int win) { on = true; worker = workerReady = mainJoining = false; holder = 0; points = deviations = 0; maxDev = dev; window = win; }
void point() {
    if (!on) return;
    env::tick(tickPer);
    std::unique_lock<std::mutex> l(m);
    if (self == 1 && !workerReady) { workerReady = true; cv.notify_all(); cv.wait(l, [] { return holder == 1; }); return; }
    if (!worker || !workerReady || (self == 1 && mainJoining)) return;
    bool go = true;   // hand over
    if (points < window && deviations < maxDev) {
        int d = mc::choose(2, "stay");
        if (d) { go = false; deviations++; }
    }
    points++;
    if (!go) return;
    holder = 1 - self;
    cv.notify_all();
    int me = self;
    cv.wait(l, [me] { return holder == me; });
}
struct Arg { void* (*f)(void*); void* a; };
static void* entry(void* p) {
    Arg a = *static_cast<Arg*>(p);
    delete static_cast<Arg*>(p);
    self = 1;
    void* r = a.f(a.a);
    std::unique_lock<std::mutex> l(m);
    worker = false; workerReady = true; holder = 0;
    cv.notify_all();
    return r;
}
static void started() {   // let the new thread run up to its first scheduling point (or its end)
    std::unique_lock<std::mutex> l(m);
    cv.wait(l, [] { return workerReady; });
}
}  // namespace sched
extern "C" int pthread_create(pthread_t* t, const pthread_attr_t* at, void* (*f)(void*), void* a) {
    using F = int (*)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
    static F real = reinterpret_cast<F>(dlsym(RTLD_NEXT, "pthread_create"));
    if (!sched::on || sched::self != 0) return real(t, at, f, a);
    { std::unique_lock<std::mutex> l(sched::m); sched::worker = true; sched::workerReady = false; sched::mainJoining = false; }
    int r = real(t, at, sched::entry, new sched::Arg{f, a});
    sched::started();
    return r;
}
extern "C" int pthread_join(pthread_t t, void** v) {
    using F = int (*)(pthread_t, void**);
    static F real = reinterpret_cast<F>(dlsym(RTLD_NEXT, "pthread_join"));
    if (sched::on && sched::self == 0) {
        std::unique_lock<std::mutex> l(sched::m);
        sched::mainJoining = true;
        if (sched::worker) { sched::holder = 1; sched::cv.notify_all(); }
    }
    return real(t, v);
}
// ------------------------------------------------------------------ the three wrappers behind one face
static const double PI = 3.14159265358979323846;
struct W {
    int dim = 2; size_t joints = 0; bool art = false;
    std::vector<SE2> o2; std::vector<SQ3> o3;
    double reach = 2;
    static double hd(double a) { return std::remainder(a, TAU); }
    /// by how much the robot (one ellipse or ellipsoid) at v is clear of everything
    double gap(const Vec& v) const {
        double g = INFINITY;
        if (dim == 2) for (auto& o : o2) g = std::min(g, gap2(o, SE2{2, 1, 1, v[0], v[1], v[2]}, 120));
        else for (auto& o : o3) {
            double far = (o.p - V3(v[0], v[1], v[2])).norm() - std::max({o.a, o.b, o.c_}) - 2;
            g = std::min(g, far > 0.1 ? far : gap3(o, SQ3{2, 1, 0.8, 1, 1, V3(v[0], v[1], v[2]), rotOf(Eigen::Quaterniond(v[3], v[4], v[5], v[6]))}, 150, 0.1));
        }
        return g;
    }
    Vec raw(const ob::State* s) const {
        if (dim == 2) { auto* t = s->as<ob::SE2StateSpace::StateType>(); return {t->getX(), t->getY(), t->getYaw()}; }
        auto* t = art ? s->as<ob::CompoundState>()->as<ob::SE3StateSpace::StateType>(0) : s->as<ob::SE3StateSpace::StateType>();
        Vec v{t->getX(), t->getY(), t->getZ(), t->rotation().w, t->rotation().x, t->rotation().y, t->rotation().z};
        for (size_t i = 0; i < joints; ++i) v.push_back(s->as<ob::CompoundState>()->as<ob::RealVectorStateSpace::StateType>(1)->values[i]);
        return v;
    }
    bool same(const Vec& a, const Vec& b) const {
        if (a.size() != b.size()) return false;
        size_t q = dim == 2 ? 2 : 3;
        for (size_t i = 0; i < q; ++i) if (std::fabs(a[i] - b[i]) > 1e-9) return false;
        if (dim == 2) return std::fabs(hd(a[2] - b[2])) < 1e-9;
        double d = 0;
        for (size_t i = 3; i < 7; ++i) d += a[i] * b[i];
        if (std::fabs(std::fabs(d) - 1) > 1e-9) return false;
        for (size_t i = 7; i < a.size(); ++i) if (std::fabs(a[i] - b[i]) > 1e-9) return false;
        return true;
    }
};
static std::string str(const Vec& v) { std::string s = "("; for (double x : v) s += mc::fmt("%s%.6g", s.size() == 1 ? "" : ",", x); return s + ")"; }
template <class P> static void judge(P& pl, const W& w, const Vec& s, const Vec& g, const std::string& what, bool lazy) {
    auto& path = pl.getSolutionPath();
    auto& interp = pl.getInterpolatedSolutionPath();
    mc::step();
    if (pl.isSolved()) {
        mc::metric("solved");
        MC_CHECK(path.size() >= 2, "path", "%s: solved with a path of %zu states", what.c_str(), path.size());
        MC_CHECK(pl.getPathLength() == path.size(), "length", "%s: path length %u for a path of %zu states", what.c_str(), unsigned(pl.getPathLength()), path.size());
        double seg = pl.ss_->getStateSpace()->getLongestValidSegmentLength();
        for (int k = 0; k < 2; ++k) {
            auto& p = k ? interp : path;
            const char* nm = k ? "interpolated path" : "path";
            MC_CHECK(p.size() >= 2, "interpolated", "%s: solved with an %s of %zu states", what.c_str(), nm, p.size());
            MC_CHECK(w.same(p.front(), s), k ? "interpolated-start" : "path-start", "%s: the %s starts at %s instead of %s", what.c_str(), nm, str(p.front()).c_str(), str(s).c_str());
            MC_CHECK(w.same(p.back(), g), k ? "interpolated-goal" : "path-goal", "%s: the %s ends at %s instead of %s", what.c_str(), nm, str(p.back()).c_str(), str(g).c_str());
            for (auto& v : p) {
                double gp = w.gap(v);
                MC_CHECK(gp > (k ? -0.5 * seg * (1 + w.reach) : -2e-3), k ? "interpolated-collision" : "path-collision", "%s: state %s of the %s is %g inside an obstacle", what.c_str(), str(v).c_str(), nm, -gp);
            }
        }
        // the interpolated path passes through the states of the path in their order
        size_t at = 0;
        for (auto& v : path) { while (at < interp.size() && !w.same(interp[at], v)) ++at; MC_CHECK(at < interp.size(), "interpolated-misses", "%s: state %s of the path is not on the interpolated path", what.c_str(), str(v).c_str()); }
    } else {
        mc::metric("unsolved");
        MC_CHECK(path.empty(), "stale-path", "%s: unsolved, but a path of %zu states is reported", what.c_str(), path.size());
        MC_CHECK(interp.empty(), "stale-interpolated", "%s: unsolved, but an interpolated path of %zu states is reported", what.c_str(), interp.size());
        MC_CHECK(pl.getPathLength() == 0, "stale-length", "%s: unsolved, but path length %u is reported", what.c_str(), unsigned(pl.getPathLength()));
    }
    // vertices and edges are those the planner holds
    ob::PlannerData pd(pl.ss_->getSpaceInformation());
    pl.ss_->getPlannerData(pd);
    auto& V = pl.getVertices();
    auto& E = pl.getEdges();
    MC_CHECK(pl.getNumVertex() == pd.numVertices() && V.size() == pd.numVertices(), "vertices", "%s: %zu vertices listed, %u counted, the planner holds %u", what.c_str(), V.size(), unsigned(pl.getNumVertex()), pd.numVertices());
    MC_CHECK(pl.getNumEdges() == pd.numEdges() && E.size() == pd.numEdges(), "edges", "%s: %zu edges listed, %u counted, the planner holds %u", what.c_str(), E.size(), unsigned(pl.getNumEdges()), pd.numEdges());
    for (size_t i = 0; i < V.size(); ++i) {
        Vec r = w.raw(pd.getVertex(unsigned(i)).getState());
        MC_CHECK(w.same(r, V[i]), "vertex", "%s: vertex %zu is listed as %s, the planner holds %s", what.c_str(), i, str(V[i]).c_str(), str(r).c_str());
        if (!lazy) { double gp = w.gap(V[i]); MC_CHECK(gp > -2e-3, "vertex-collision", "%s: vertex %s is %g inside an obstacle", what.c_str(), str(V[i]).c_str(), -gp); }
    }
    for (auto& e : E) MC_CHECK(e.first < V.size() && e.second < V.size() && pd.edgeExists(unsigned(e.first), unsigned(e.second)), "edge", "%s: edge %u-%u among %zu vertices", what.c_str(), unsigned(e.first), unsigned(e.second), V.size());
    mc::state(mc::Hash().u(V.size()).u(E.size()).u(path.size()).u(pl.isSolved()).d(V.empty() ? 0 : V.back()[0]));
}
// ------------------------------------------------------------------ (a) scripted planner
struct Script : ob::Planner {
    explicit Script(const ob::SpaceInformationPtr& si) : ob::Planner(si, "Script") {}
    ~Script() override { drop(); }
    std::vector<ob::State*> held;
    std::vector<std::pair<unsigned, unsigned>> links;
    int answer = 0, more = 0; bool late = false; int mids = 0;
    ob::State* via = nullptr;
    unsigned solves = 0, clears = 0;
    void drop() { for (auto* s : held) si_->freeState(s); held.clear(); links.clear(); }
    void clear() override { ob::Planner::clear(); drop(); ++clears; }
    void setup() override { ob::Planner::setup(); }
    ob::PlannerStatus solve(const ob::PlannerTerminationCondition&) override {
        ++solves;
        auto pd = getProblemDefinition();
        for (int i = 0; i < more; ++i) { held.push_back(si_->cloneState(via)); if (held.size() > 1) links.push_back({unsigned(held.size() - 2), unsigned(held.size() - 1)}); if (held.size() > 2 && i == 2) links.push_back({unsigned(held.size() - 1), 0}); }
        if (late) env::tick(100);
        if (answer >= 3) { if (answer == 3) return ob::PlannerStatus::TIMEOUT; if (answer == 4) return ob::PlannerStatus::INVALID_START; if (answer == 5) return ob::PlannerStatus::CRASH; throw ompl::Exception("scripted", "failure"); }
        auto p = std::make_shared<og::PathGeometric>(si_);
        p->append(pd->getStartState(0));
        for (int i = 0; i < mids; ++i) p->append(via);
        const ob::State* goal = pd->getGoal()->as<ob::GoalState>()->getState();
        if (answer != 1) p->append(goal); else if (!mids) p->append(via);   // 1: approximate
        pd->addSolutionPath(p, answer == 1, answer == 1 ? 1.0 : -1.0, getName());
        return answer == 1 ? ob::PlannerStatus::APPROXIMATE_SOLUTION : ob::PlannerStatus::EXACT_SOLUTION;
    }
    void getPlannerData(ob::PlannerData& d) const override {
        for (auto* s : held) d.addVertex(ob::PlannerDataVertex(s));
        for (auto& l : links) d.addEdge(l.first, l.second);
    }
};
template <class P> static void scripted(P& pl, const W& w, const std::vector<std::pair<Vec, Vec>>& Q, const Vec& via) {
    pl.setup(2, 0);
    auto si = pl.ss_->getSpaceInformation();
    auto sp = std::make_shared<Script>(si);
    pl.ss_->setPlanner(sp);
    ob::ScopedState<ob::CompoundStateSpace> vs(pl.ss_->getStateSpace());
    pl.setStateFromVector(&via, &vs);
    sp->via = vs.get();
    int calls = mc::thorough() ? 3 : 2;
    std::string hist;
    for (int c = 0; c < calls; ++c) {
        auto& q = mc::pick(Q, "query");
        int a = mc::choose(7, "answer");   // exact, approximate, exact late, timeout, invalid start, crash, exception
        sp->answer = a == 2 ? 0 : a; sp->late = a == 2;
        sp->mids = a < 2 ? mc::choose(2, "mids") : 0;
        static const int M[] = {0, 1, 3};
        sp->more = M[mc::choose(c == 0 || mc::thorough() ? 3 : 2, "vertices")];
        unsigned before = sp->solves;
        pl.plan(q.first, q.second, 0.5);
        static const char* N[] = {"exact", "approximate", "exact but late", "timeout", "invalid start", "crash", "exception"};
        hist += std::string(c ? ", then " : "") + N[a];
        mc::eval();
        MC_CHECK(sp->solves == before + 1, "solves", "%s: the planner was asked %u times", hist.c_str(), sp->solves - before);
        MC_CHECK(pl.isSolved() == (a == 0), a == 0 ? "solved-missed" : "solved-false", "%s: reported %s", hist.c_str(), pl.isSolved() ? "solved" : "unsolved");
        judge(pl, w, q.first, q.second, "planner answers " + hist, false);
    }
}
// ------------------------------------------------------------------ scenes
static std::vector<std::pair<Vec, Vec>> queries(int dim, size_t joints) {
    auto lift = [&](Vec v) {
        if (dim == 2) return v;
        Eigen::Quaterniond q(Eigen::AngleAxisd(v[2], V3(1, 1, 1).normalized()));
        Vec r{v[0], v[1], 0.3 * v[2], q.w(), q.x(), q.y(), q.z()};
        for (size_t i = 0; i < joints; ++i) r.push_back(0.2 * double(i) - 0.3 + 0.1 * v[2]);
        return r;
    };
    return {{lift({-15, 0, 0}), lift({15, -10, 1})},     // around the obstacle
            {lift({-15, -15, 1}), lift({-15, -3, -1})},   // easy
            {lift({-15, 0, 0}), lift({12, 12, 0})},       // into a closed pocket
            {lift({0, 0, 0}), lift({15, -10, 0})},        // start in an obstacle
            {lift({-15, -15, 0}), lift({0, 2, 0.5})},     // goal in an obstacle
            {lift({5, -15, 0.2}), lift({5, -15, 0.2})}};  // nothing to do
}
static std::vector<hrm::SuperEllipse> obs2() {
    std::vector<hrm::SuperEllipse> o{hrm::SuperEllipse({3, 6}, 1, {0, 0}, 0.2, 20)};
    for (int k = 0; k < 4; ++k) o.emplace_back(hrm::SuperEllipse({6, 1}, 1, {12 + 4 * std::cos(k * PI / 2), 12 + 4 * std::sin(k * PI / 2)}, (k + 1) * PI / 2, 20));
    return o;
}
static std::vector<hrm::SuperQuadrics> obs3() {
    auto I = Eigen::Quaterniond::Identity();
    std::vector<hrm::SuperQuadrics> o{hrm::SuperQuadrics({3, 6, 6}, {1, 1}, {0, 0, 0}, I, 6)};
    for (int a = 0; a < 3; ++a) for (int s = -1; s <= 1; s += 2) {
        std::vector<double> sz{8, 8, 8}, p{12, 12, 0};
        sz[size_t(a)] = 1; p[size_t(a)] += 4 * s;
        o.emplace_back(hrm::SuperQuadrics({sz[0], sz[1], sz[2]}, {1, 1}, {p[0], p[1], p[2]}, I, 6));
    }
    return o;
}
static void build(int kind, const std::function<void(oi::OMPL2D&, W&)>& f2, const std::function<void(oi::OMPL3D&, W&)>& f3, const std::function<void(oi::OMPL3DArticulated&, W&)>& fa, bool clear) {
    W w;
    if (kind == 0) {
        std::vector<hrm::SuperEllipse> o = clear ? std::vector<hrm::SuperEllipse>{} : obs2();
        for (auto& x : o) w.o2.push_back(of(x));
        hrm::MultiBodyTree2D r(hrm::SuperEllipse({2, 1}, 1, {0, 0}, 0, 20));
        Vec* lo = new Vec{-20, -20}; Vec* hi = new Vec{20, 20};
        oi::OMPL2D pl(*lo, *hi, r, {}, o);
        delete lo; delete hi;   // a caller's temporaries
        f2(pl, w);
        return;
    }
    w.dim = 3;
    std::vector<hrm::SuperQuadrics> o = clear ? std::vector<hrm::SuperQuadrics>{} : obs3();
    for (auto& x : o) w.o3.push_back(of(x));
    hrm::MultiBodyTree3D r(hrm::SuperQuadrics({2, 1, 0.8}, {1, 1}, {0, 0, 0}, Eigen::Quaterniond::Identity(), 6));
    Vec* lo = new Vec{-20, -20, -20}; Vec* hi = new Vec{20, 20, 20};
    auto* ms = new std::vector<hrm::Mesh>();
    if (kind == 1) {
        oi::OMPL3D pl(*lo, *hi, r, {}, o, *ms);
        delete lo; delete hi; delete ms;
        f3(pl, w);
    } else {
        w.art = true; w.joints = 2;
        // both bodies coincide with the base, so that the base decides about collisions
        oi::OMPL3DArticulated pl(*lo, *hi, r, urdf::synFile(8), {}, o, *ms);
        delete lo; delete hi; delete ms;
        fa(pl, w);
    }
}
// ------------------------------------------------------------------ (b) OMPL's planners
template <class P> static void real(P& pl, const W& w, const std::vector<std::pair<Vec, Vec>>& Q, bool threads) {
    static const char* N[] = {"PRM", "LazyPRM", "RRT", "RRTConnect", "EST", "SBL", "KPIECE"};
    int id = threads ? 0 : w.art ? 2 + mc::choose(2, "planner") : 1 + mc::choose(6, "planner");
    int sm = w.dim == 2 && (threads || id == 4 || id == 5) ? mc::choose(5, "sampler") : 0;
    env::e().rngSeed = 1 + 1000003ul * (unsigned long)mc::choose(threads || w.art ? 1 : mc::thorough() ? 6 : sm ? 1 : 2, "random");
    int calls = threads || w.art ? 2 : 2;
    static const double B[] = {0.06, 0.35};
    double budget = threads ? 0.08 : B[mc::choose(2, "budget")];
    int resetup = threads || (!mc::thorough() && budget > 0.1) ? 0 : mc::choose(2, "setup-again");
    pl.setup(hrm::Index(id), hrm::Index(sm));
    std::string hist = mc::fmt("%s sampler %d budget %g", N[id], sm, budget);
    std::vector<int> qs;
    for (int c = 0; c < calls; ++c) qs.push_back(mc::choose(int(Q.size()), "query"));
    for (int c = 0; c < calls; ++c) {
        auto& q = Q[size_t(qs[size_t(c)])];
        hist += mc::fmt("%s query %d", c ? ", then" : ":", qs[size_t(c)]);
        if (c && resetup) { pl.setup(hrm::Index(id), hrm::Index(sm)); hist += " after another setup"; }
        sched::reset(threads && c == calls - 1 ? (mc::thorough() ? 2 : 1) : 0, mc::thorough() ? 60 : 24);
        pl.plan(q.first, q.second, budget);
        sched::on = false;
        mc::metric(std::string(N[id]) + (pl.isSolved() ? "-solved" : "-unsolved"));
        if (sched::points) mc::maxi("scheduling-points", sched::points);
        int k = qs[size_t(c)];
        MC_CHECK(!(pl.isSolved() && k >= 2 && k <= 4), "solved-impossible", "%s: reported solved", hist.c_str());
        judge(pl, w, q.first, q.second, hist, id == 1);
    }
}
static void body() {
    ompl::msg::setLogLevel(ompl::msg::LOG_NONE);
    env::reset();
    int mode = mc::choose(3, "mode");
    int kind = mc::choose(mode == 2 ? 2 : 3, "wrapper");
    if (mode == 0) {
        auto Q = queries(kind ? 3 : 2, kind == 2 ? 2 : 0);
        std::vector<std::pair<Vec, Vec>> q2{Q[0], Q[5], Q[1]};
        Vec via = Q[1].first;
        if (!mc::thorough()) q2.pop_back();
        build(kind, [&](auto& p, W& w) { scripted(p, w, q2, via); }, [&](auto& p, W& w) { scripted(p, w, q2, via); }, [&](auto& p, W& w) { scripted(p, w, q2, via); }, true);
        mc::outcome("scripted");
    } else {
        auto Q = queries(kind ? 3 : 2, kind == 2 ? 2 : 0);
        if (mode == 2 || kind == 2) { if (!mc::thorough()) Q = {Q[0], Q[1], Q[2]}; }
        bool th = mode == 2;
        build(kind, [&](auto& p, W& w) { real(p, w, Q, th); }, [&](auto& p, W& w) { real(p, w, Q, th); }, [&](auto& p, W& w) { real(p, w, Q, th); }, false);
        mc::outcome(th ? "threads" : "planners");
    }
}
int main(int argc, char** argv) { mc::Options o; o.splitDepth = 5; return mc::run(argc, argv, body, o); }
