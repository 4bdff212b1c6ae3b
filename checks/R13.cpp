// R13: planning is a function of its inputs. Every history of another planner's life (construct, plan, query, destroy)
// woven into the life of the judged one, at every point between its operations and at every slice boundary inside its
// plan call. Judged and reference runs each start in a fresh process, so hidden static state cannot level them.
#include "mc.hpp"
#include "env.hpp"
#include "scene2.hpp"
#include "scene3.hpp"
#include <malloc.h>
#include <sys/wait.h>
#include <unistd.h>
#include <csignal>
using Rep = std::string;   // lines "label value"
static std::string hx(double d) { return mc::fmt("%a", d); }
struct Dig {
    mc::Hash h;
    void n(double d) { h.d(d); }
    void n(const std::vector<double>& v) { h.u(v.size()); for (double x : v) h.d(x); }
    void n(const std::vector<std::vector<double>>& v) { h.u(v.size()); for (auto& x : v) n(x); }
    void n(const Eigen::MatrixXd& m) { h.u(uint64_t(m.rows())).u(uint64_t(m.cols())); for (int j = 0; j < m.cols(); ++j) for (int i = 0; i < m.rows(); ++i) h.d(m(i, j)); }
    void body(const hrm::SuperEllipse& e) { n(std::vector<double>(e.getSemiAxis())); h.d(e.getEpsilon()); n(std::vector<double>(e.getPosition())); h.d(e.getAngle()).u(e.getNum()); }
    void body(const hrm::SuperQuadrics& e) {
        n(std::vector<double>(e.getSemiAxis())); n(std::vector<double>(e.getEpsilon())); n(std::vector<double>(e.getPosition()));
        n(std::vector<double>{e.getQuaternion().w(), e.getQuaternion().x(), e.getQuaternion().y(), e.getQuaternion().z()});
        h.u(e.getNumParam());
        for (auto& q : e.getQuatSamples()) n(std::vector<double>{q.w(), q.x(), q.y(), q.z()});
    }
    void seg(const hrm::FreeSegment2D& s) { n(s.ty); n(s.xL); n(s.xU); n(s.xM); }
    std::string str() { return mc::fmt("%016llx", (unsigned long long)h.h); }
};
template <class G, class R> static void result(std::string& o, const std::string& who, const G& r, R& p) {
    auto& g = r.graphStructure;
    Dig d; d.n(g.vertex);
    o += who + ".vertices " + std::to_string(g.vertex.size()) + ":" + d.str() + "\n";
    d = Dig(); for (auto& e : g.edge) d.n(std::vector<double>{double(e.first), double(e.second)});
    o += who + ".edges " + std::to_string(g.edge.size()) + ":" + d.str() + "\n";
    d = Dig(); d.n(g.weight);
    o += who + ".weights " + d.str() + "\n";
    o += who + ".solved " + std::to_string(r.solved) + " " + hx(r.solutionPath.cost) + "\n";
    d = Dig(); for (int i : r.solutionPath.PathId) d.n(i); d.n(r.solutionPath.solvedPath); d.n(r.solutionPath.interpolatedPath);
    o += who + ".path " + std::to_string(r.solutionPath.solvedPath.size()) + ":" + d.str() + "\n";
    o += who + ".times " + hx(r.planningTime.buildTime) + " " + hx(r.planningTime.searchTime) + " " + hx(r.planningTime.totalTime) + "\n";
    d = Dig();
    for (auto& b : p.getCSpaceBoundary()) { for (auto& m : b.arena) d.n(m); for (auto& m : b.obstacle) d.n(m); }
    o += who + ".boundaries " + std::to_string(p.getCSpaceBoundary().size()) + ":" + d.str() + "\n";
    auto& q = p.getPlannerParameters();
    o += who + ".parameters " + mc::fmt("%d %d %d %d", int(q.numSlice), int(q.numLineX), int(q.numLineY), int(q.numPoint)) + "\n";
    d = Dig(); d.n(p.getStart()); d.n(p.getGoal()); for (auto& b : p.getArena()) d.body(b); for (auto& b : p.getObstacle()) d.body(b);
    o += who + ".scene " + d.str() + "\n";
}
/// one planner with its own environment
struct Run {
    int kind, variant;
    std::string who;
    sc2::Case c2; sc3::Case c3;
    std::unique_ptr<hrm::planners::HRM2D> p2;
    std::unique_ptr<sc3::Base> p3;
    env::E own;
    std::function<void(int)> atSlice;
    Run(int k, int v, const char* w) : kind(k), variant(v), who(w) {
        static const int SC2[] = {2, 4, 7}, RB2[] = {1, 0, 3}, SL2[] = {3, 4, 2}, LN2[] = {4, 7, 3};
        static const int SC3[] = {1, 4, 6}, RB3[] = {1, 0, 2}, OR3[] = {1, 5, 2}, LX[] = {3, 2, 2}, LY[] = {2, 3, 2};
        own = env::E();
        own.rnd = 17u + 5u * unsigned(v); own.rngSeed = 3 + (unsigned long)v;
        if (kind < 2) {
            c2.s = &sc2::scenes()[size_t(SC2[v])]; c2.kc = kind == 1; c2.r = &sc2::robots()[size_t(c2.kc ? 2 * (v % 2) : RB2[v])];
            c2.num = v == 1 ? 30 : 50;
            c2.p = sc2::Param{SL2[v], LN2[v], 3, v == 2 ? 2 : 1, 0};
            sc2::build(c2);
        } else {
            c3.p.kind = kind - 2;
            c3.s = &sc3::scenes()[size_t(SC3[v])]; c3.r = c3.p.kind < sc3::PROB ? &sc3::robots()[size_t(RB3[v])] : &sc3::arms()[size_t(RB3[v])];
            c3.num = v == 1 ? 12 : 16;
            c3.p.orient = c3.p.kind < sc3::PROB ? OR3[v] : 0;
            c3.p.linesX = LX[v]; c3.p.linesY = LY[v]; c3.p.points = 3; c3.p.rounds = c3.p.kind < sc3::PROB ? (v == 2 ? 1 : 0) : 3; c3.p.bounds = 0;
            sc3::build(c3);
        }
    }
    template <class F> void in(F f) {   // with this planner's clock and random sources
        env::E keep = env::e();
        env::e() = own;
        f();
        own = env::e();
        env::e() = keep;
    }
    void construct() {
        in([&] {
            if (kind < 2) p2 = sc2::make(c2); else p3 = sc3::make(c3);
            auto cb = [this](int i) { if (atSlice) { own = env::e(); atSlice(i); env::e() = own; } };
            using namespace hrm::planners;
            if (auto* t = dynamic_cast<sc2::Timed<HRM2D>*>(p2.get())) t->afterSlice = cb;
            if (auto* t = dynamic_cast<sc2::Timed<HRM2DKC>*>(p2.get())) t->afterSlice = cb;
            if (auto* t = dynamic_cast<sc3::Timed<HRM3D>*>(p3.get())) t->afterSlice = cb;
            if (auto* t = dynamic_cast<sc3::Timed<HRM3DAblation<HRM3D>>*>(p3.get())) t->afterSlice = cb;
            if (auto* t = dynamic_cast<sc3::Timed<ProbHRM3D>*>(p3.get())) t->afterSlice = cb;
            if (auto* t = dynamic_cast<sc3::Timed<HRM3DAblation<ProbHRM3D>>*>(p3.get())) t->afterSlice = cb;
        });
    }
    void plan() { in([&] { if (p2) p2->plan(sc2::limit(c2.p)); else p3->plan(sc3::limit(c3)); }); }
    void destroy() { p2.reset(); p3.reset(); }
    std::string inputs() const {
        Dig d;
        if (kind < 2) {
            d.body(c2.robot->getBase()); for (auto& l : c2.robot->getLinks()) d.body(l);
            for (auto& m : c2.robot->getTF()) d.n(Eigen::MatrixXd(m.matrix()));
            for (auto& a : c2.arena) d.body(a); for (auto& a : c2.obs) d.body(a);
            req(d, c2.req);
        } else {
            d.body(c3.robot->getBase()); for (auto& l : c3.robot->getLinks()) d.body(l);
            for (auto& m : c3.robot->getTF()) d.n(Eigen::MatrixXd(m.matrix()));
            for (auto& a : c3.arena) d.body(a); for (auto& a : c3.obs) d.body(a);
            req(d, c3.req);
        }
        return d.str();
    }
    static void req(Dig& d, const hrm::PlanningRequest& r) {
        auto& p = r.parameters;
        d.n(r.start); d.n(r.goal); d.n(p.boundaryLimits); d.n(r.isRobotRigid);
        d.n(std::vector<double>{double(p.numSlice), double(p.numLineX), double(p.numLineY), double(p.numPoint), double(p.numSearchNeighbor), p.searchRadius});
    }
    /// 1: change every original, 2: destroy them
    void spoil(int how) {
        if (how == 1) {
            if (kind < 2) {
                hrm::SE2Transform g = hrm::SE2Transform::Identity(); g(0, 2) = 31; g(1, 2) = -5;
                c2.robot->robotTF(g);
                for (auto* L : {&c2.arena, &c2.obs}) for (auto& o : *L) { o.setPosition({55, 44}); o.setAngle(0.9); }
                c2.req.parameters.boundaryLimits = {-1, 1, -1, 1}; c2.req.parameters.numLineY = 2; c2.req.start = {9, 9, 9}; c2.req.goal = {8, 8, 8};
            } else {
                hrm::SE3Transform g = hrm::SE3Transform::Identity(); g(0, 3) = 31; g(1, 3) = -5;
                c3.robot->robotTF(g);
                for (auto* L : {&c3.arena, &c3.obs}) for (auto& o : *L) { o.setPosition({55, 44, 33}); o.setQuaternion(Eigen::Quaterniond(0.6, 0.8, 0, 0)); }
                c3.req.parameters.boundaryLimits = {-1, 1, -1, 1, -1, 1}; c3.req.parameters.numLineX = 1; c3.req.start.assign(9, 1.); c3.req.goal.assign(9, 2.);
            }
        } else if (how == 2) {
            c2.robot.reset(); std::vector<hrm::SuperEllipse>().swap(c2.arena); std::vector<hrm::SuperEllipse>().swap(c2.obs); c2.req = hrm::PlanningRequest();
            c3.robot.reset(); std::vector<hrm::SuperQuadrics>().swap(c3.arena); std::vector<hrm::SuperQuadrics>().swap(c3.obs); c3.req = hrm::PlanningRequest();
        }
    }
    std::string judge() {
        std::string o;
        if (p2) result(o, who, p2->getPlanningResult(), *p2); else result(o, who, p3->getPlanningResult(), *p3);
        return o;
    }
    /// free segments of every recorded orientation, asked for in the given order (0 forwards, 1 backwards, 2 with foreign questions in between)
    std::string query(int order) {
        std::vector<std::string> a;
        in([&] {
            size_t n = p2 ? p2->getCSpaceBoundary().size() : p3->getCSpaceBoundary().size();
            a.resize(n);
            for (size_t k = 0; k < n; ++k) {
                size_t i = order == 1 ? n - 1 - k : k;
                Dig d;
                if (p2) {
                    auto B = p2->getCSpaceBoundary()[i];
                    if (order == 2) { auto X = B; X.obstacle.clear(); p2->getFreeSegmentOneSlice(X); X = B; if (X.obstacle.size() > 1) std::swap(X.obstacle.front(), X.obstacle.back()); for (auto& m : X.obstacle) m.array() += 3; p2->getFreeSegmentOneSlice(X); }
                    d.seg(p2->getFreeSegmentOneSlice(B));
                } else {
                    auto B = p3->getCSpaceBoundary()[i];
                    if (order == 2) { auto X = B; X.obstacle.clear(); p3->getFreeSegmentOneSlice(&X); X = B; for (auto& m : X.obstacle) m.array() += 2; p3->getFreeSegmentOneSlice(&X); }
                    auto& f = p3->getFreeSegmentOneSlice(&B);
                    d.n(f.tx); for (auto& s : f.freeSegmentYZ) d.seg(s);
                }
                a[i] = d.str();
            }
        });
        std::string o;
        for (size_t i = 0; i < a.size(); ++i) o += who + ".segments" + std::to_string(i) + " " + a[i] + "\n";
        return o;
    }
};
/// runs f in a process of its own
template <class F> static Rep child(F f) {
    int fd[2];
    if (pipe(fd)) mc::fail("pipe", "no pipe");
    fflush(stdout); fflush(stderr);
    pid_t p = fork();
    if (p == 0) {
        close(fd[0]);
        alarm(60);
        Rep r;
        try { mallopt(M_PERTURB, 0xa5); r = f(); } catch (mc::Prune&) { r = "PRUNE\n"; } catch (std::exception& e) { r = std::string("EXCEPTION ") + e.what() + "\n"; } catch (...) { r = "EXCEPTION ?\n"; }
        r += "END\n";
        for (size_t o = 0; o < r.size();) { ssize_t k = write(fd[1], r.data() + o, r.size() - o); if (k <= 0) break; o += size_t(k); }
        _exit(0);
    }
    close(fd[1]);
    Rep r;
    char b[4096];
    for (ssize_t k; (k = read(fd[0], b, sizeof b)) > 0;) r.append(b, size_t(k));
    close(fd[0]);
    int st = 0;
    waitpid(p, &st, 0);
    if (WIFSIGNALED(st)) r += mc::fmt("SIGNAL %d\n", WTERMSIG(st));
    return r;
}
static std::map<std::string, std::string> lines(const Rep& r) {
    std::map<std::string, std::string> m;
    std::istringstream i(r);
    for (std::string l; std::getline(i, l);) { auto k = l.find(' '); m[l.substr(0, k)] = k == std::string::npos ? "" : l.substr(k + 1); }
    return m;
}
static Rep alone(int kind, int var, const char* who) {
    static std::map<std::tuple<int, int, std::string>, Rep> cache;
    auto k = std::make_tuple(kind, var, std::string(who));
    auto it = cache.find(k);
    if (it != cache.end()) return it->second;
    Rep r = child([&] {
        Run a(kind, var, who);
        a.construct();
        a.plan();
        Rep x = a.judge();
        return x + a.query(0);
    });
    return cache[k] = r;
}
static void compare(const Rep& ref, const Rep& got, const std::string& who, const std::string& what) {
    MC_CHECK(ref.find("END\n") != std::string::npos && ref.find("EXCEPTION") == std::string::npos && ref.find("SIGNAL") == std::string::npos, "alone", "%s: alone: %s", what.c_str(), ref.substr(0, 200).c_str());
    auto A = lines(ref), B = lines(got);
    MC_CHECK(!B.count("SIGNAL") && !B.count("EXCEPTION") && B.count("END"), "crash", "%s: %s", what.c_str(), got.size() > 200 ? got.substr(got.size() - 200).c_str() : got.c_str());
    for (auto& l : A) {
        if (l.first.compare(0, who.size() + 1, who + ".") != 0) continue;
        auto it = B.find(l.first);
        MC_CHECK(it != B.end() && it->second == l.second, l.first.substr(who.size() + 1, 5).c_str(), "%s: %s is %s instead of %s", what.c_str(), l.first.c_str(), it == B.end() ? "missing" : it->second.c_str(), l.second.c_str());
    }
}
static void body() {
    static const char* K[] = {"HRM2D", "HRM2DKC", "HRM3D", "HRM3D-ablation", "ProbHRM3D", "ProbHRM3D-ablation"};
    int ka = mc::choose(6, "planner"), va = mc::choose(3, "variant");
    int kb = mc::choose(6, "other"), vb = mc::choose(mc::thorough() ? 3 : 2, "other-variant");
    // life of the other planner: its steps happen at non-decreasing points of the judged one's life
    //  0 before construction, 1 after it, 2 after the first slice, 3 after the second slice, 4 after plan, 5 after the queries
    int c = mc::choose(5, "construct"), p = c + mc::choose(5 - c, "plan"), d = p + mc::choose(6 - p, "destroy");
    int how = mc::choose(3, "originals"), order = mc::choose(3, "order");
    if (!mc::thorough()) mc::assume((how + order + c + p + d + ka + kb) % 4 == 0 || (kb == ka && vb == va));
    std::string what = mc::fmt("%s/%d with %s/%d constructed at %d, planning at %d, destroyed at %d, originals %s, queries %d", K[ka], va, K[kb], vb, c, p, d, how == 0 ? "kept" : how == 1 ? "changed" : "destroyed", order);
    Rep ra = alone(ka, va, "A"), rb = alone(kb, vb, "B");
    Rep g = child([&] {
        Run a(ka, va, "A");
        std::unique_ptr<Run> b(new Run(kb, vb, "B"));
        Rep out;
        std::string in0 = a.inputs(), inB = b->inputs();
        bool bLive = false;
        auto at = [&](int t) {
            if (c == t) { b->construct(); bLive = true; if (how) b->spoil(how); }
            if (p == t && bLive) { b->plan(); out += b->judge(); out += b->query(0); if (!how) out += std::string("inputs-B ") + (b->inputs() == inB ? "same\n" : "changed\n"); }
            if (d == t && bLive) { b->destroy(); b.reset(); bLive = false; }
        };
        at(0);
        a.construct();
        if (how) a.spoil(how);
        at(1);
        bool two = false, three = false;
        a.atSlice = [&](int i) { if (i == 1) { two = true; at(2); } if (i == 2) { three = true; at(3); } };
        a.plan();
        a.atSlice = nullptr;
        if (!two) at(2);
        if (!three) at(3);
        at(4);
        out += a.judge();
        out += a.query(order);
        if (!how) out += std::string("inputs-A ") + (a.inputs() == in0 ? "same\n" : "changed\n");
        at(5);
        std::string again = a.judge();   // queries and the other's end leave the result alone
        if (order != 2) { auto q = a.query(0); again += q; }
        out += std::string("again ") + (lines(again) == [&] { auto m = lines(out); std::map<std::string, std::string> k; for (auto& l : lines(again)) { auto it = m.find(l.first); if (it != m.end()) k[l.first] = it->second; } return k; }() ? "same\n" : "changed\n");
        return out;
    });
    mc::step(6);
    mc::eval(uint64_t(lines(ra).size() + lines(rb).size()));
    mc::state(mc::Hash().u(uint64_t(((ka * 3 + va) * 6 + kb) * 3 + vb)).u(uint64_t((c * 6 + p) * 6 + d)).u(uint64_t(how * 3 + order)));
    if (lines(ra).count("PRUNE")) { mc::metric("cut off"); throw mc::Prune(); }
    compare(ra, g, "A", what);
    compare(rb, g, "B", what);
    auto L = lines(g);
    if (!how) {
        MC_CHECK(L["inputs-A"] == "same", "inputs", "%s: the caller's inputs were changed", what.c_str());
        MC_CHECK(!L.count("inputs-B") || L["inputs-B"] == "same", "inputs", "%s: the caller's inputs were changed (other planner)", what.c_str());
    }
    MC_CHECK(L["again"] == "same", "again", "%s: the result changed after queries", what.c_str());
    mc::outcome(std::string(K[ka]) + (ra.find(".solved 1") != std::string::npos ? " solved" : " unsolved"));
}
int main(int argc, char** argv) { mc::Options o; o.splitDepth = 5; return mc::run(argc, argv, body, o); }
