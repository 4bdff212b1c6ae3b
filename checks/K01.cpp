// K01: histories of addBody / place / copy on two robots against a reference model of rigid bodies.
#include "mc.hpp"
#include "hrmgeo.hpp"
#include "hrm/datastructure/MultiBodyTree2D.h"
#include "hrm/datastructure/MultiBodyTree3D.h"
#include <memory>
using namespace geo;
static const double PI_ = 3.14159265358979323846;
using M4 = Eigen::Matrix4d;

struct D2 {
    using Robot = hrm::MultiBodyTree2D;
    using Shape = hrm::SuperEllipse;
    static M4 tf(int k) {
        static const double P[][3] = {{0, 0, 0}, {3, -7, 2.5}, {-1.5, 0.25, -PI_}, {12, 4, PI_ / 2}, {-40, 31, 5.9}};
        M4 g = M4::Identity();
        double c = std::cos(P[k][2]), s = std::sin(P[k][2]);
        g(0, 0) = c; g(0, 1) = -s; g(1, 0) = s; g(1, 1) = c; g(0, 3) = P[k][0]; g(1, 3) = P[k][1];
        return g;
    }
    static double ang(int k) { static const double A[] = {0, 2.5, -PI_, PI_ / 2, 5.9}; return A[k]; }
    static Shape shape(int s, int k) {
        static const double AX[][3] = {{4, 2, 1}, {1, 3, 1}, {2, 2, 0.4}};
        static const int N[] = {9, 12, 7};
        M4 g = tf(k);
        return Shape({AX[s][0], AX[s][1]}, AX[s][2], {g(0, 3), g(1, 3)}, ang(k), hrm::Index(N[s]));
    }
    static void place(Robot& r, int k) {
        M4 g = tf(k);
        hrm::SE2Transform t = hrm::SE2Transform::Identity();
        t.topLeftCorner(2, 2) = g.topLeftCorner(2, 2);
        t(0, 2) = g(0, 3); t(1, 2) = g(1, 3);
        r.robotTF(t);
    }
    static M4 pose(const Shape& s) {
        M4 g = M4::Identity();
        double c = std::cos(s.getAngle()), q = std::sin(s.getAngle());
        g(0, 0) = c; g(0, 1) = -q; g(1, 0) = q; g(1, 1) = c; g(0, 3) = s.getPosition().at(0); g(1, 3) = s.getPosition().at(1);
        return g;
    }
    static bool same(const Shape& a, const Shape& b) { return a.getSemiAxis() == b.getSemiAxis() && a.getEpsilon() == b.getEpsilon() && a.getNum() == b.getNum(); }
    static M4 up(const hrm::SE2Transform& t) {
        M4 g = M4::Identity();
        g.topLeftCorner(2, 2) = t.topLeftCorner(2, 2); g(0, 3) = t(0, 2); g(1, 3) = t(1, 2);
        return g;
    }
};
struct D3 {
    using Robot = hrm::MultiBodyTree3D;
    using Shape = hrm::SuperQuadrics;
    static Eigen::Quaterniond q(int k) {
        static const double A[][4] = {{0, 0, 1, 0}, {1, 2, -1, 2.2}, {0, 1, 0, PI_}, {1, 0, 0, -PI_ / 2}, {-1, 1, 3, 5.5}};
        V3 ax = V3(A[k][0], A[k][1], A[k][2]).normalized();
        double h = A[k][3] / 2;
        return Eigen::Quaterniond(std::cos(h), ax.x() * std::sin(h), ax.y() * std::sin(h), ax.z() * std::sin(h));
    }
    static M4 tf(int k) {
        static const double P[][3] = {{0, 0, 0}, {3, -7, 5}, {-1.5, 0.25, 0}, {12, 4, -9}, {-40, 31, 2}};
        M4 g = M4::Identity();
        g.topLeftCorner(3, 3) = rotOf(q(k));
        for (int i = 0; i < 3; ++i) g(i, 3) = P[k][i];
        return g;
    }
    static Shape shape(int s, int k) {
        static const double AX[][5] = {{4, 2, 1, 1, 1}, {1, 3, 2, 1, 1}, {2, 2, 5, 0.4, 1.5}};
        static const int N[] = {4, 6, 5};
        M4 g = tf(k);
        return Shape({AX[s][0], AX[s][1], AX[s][2]}, {AX[s][3], AX[s][4]}, {g(0, 3), g(1, 3), g(2, 3)}, q(k), hrm::Index(N[s]));
    }
    static void place(Robot& r, int k) { r.robotTF(hrm::SE3Transform(tf(k))); }
    static M4 pose(const Shape& s) {
        M4 g = M4::Identity();
        g.topLeftCorner(3, 3) = rotOf(s.getQuaternion());
        for (int i = 0; i < 3; ++i) g(i, 3) = s.getPosition().at(size_t(i));
        return g;
    }
    static bool same(const Shape& a, const Shape& b) { return a.getSemiAxis() == b.getSemiAxis() && a.getEpsilon() == b.getEpsilon() && a.getNum() == b.getNum(); }
    static M4 up(const hrm::SE3Transform& t) { return t; }
};
template <class D> struct Model {
    int baseS = 0;
    M4 base;                       // where the base is
    struct L { int s, k; bool placed; M4 pose; };
    std::vector<L> links;
};
static bool near(const M4& a, const M4& b) { return ((a - b).cwiseAbs().maxCoeff()) < 1e-9 * (1 + b.cwiseAbs().maxCoeff()); }

template <class D> void checkRobot(const typename D::Robot& r, const Model<D>& m, const char* who) {
    MC_CHECK(D::same(r.getBase(), D::shape(m.baseS, 0)), "shape", "%s: base shape changed", who);
    MC_CHECK(near(D::pose(r.getBase()), m.base), "base", "%s: base not at the last pose", who);
    MC_CHECK(r.getNumLinks() == m.links.size() && r.getLinks().size() == m.links.size() && r.getTF().size() == m.links.size(), "count", "%s: %d links, %d expected", who, int(r.getNumLinks()), int(m.links.size()));
    for (size_t i = 0; i < m.links.size(); ++i) {
        MC_CHECK(D::same(r.getLinks().at(i), D::shape(m.links[i].s, 0)), "shape", "%s: shape of link %d changed", who, int(i));
        MC_CHECK(near(D::up(r.getTF().at(i)), D::tf(m.links[i].k)), "relative", "%s: relative transform of link %d changed", who, int(i));
        if (m.links[i].placed)
            MC_CHECK(near(D::pose(r.getLinks().at(i)), m.links[i].pose), "link", "%s: link %d is not at base pose times its relative transform", who, int(i));
    }
}
template <class D> void history(int depth) {
    Model<D> m[2];
    std::unique_ptr<typename D::Robot> r[2];
    int bk = mc::choose(2, "base-pose") ? 3 : 0;
    for (int i = 0; i < 2; ++i) {
        m[i].baseS = i;
        m[i].base = D::tf(i ? 4 : bk);
        auto s = D::shape(i, i ? 4 : bk);
        r[i] = std::make_unique<typename D::Robot>(s);
        s.setPosition(std::vector<double>(i ? 3 : 3, 77.0));   // the robot keeps its own base
    }
    int pre = mc::choose(3, "preload");   // robot 0 starts with none, 5 or 12 links
    if (pre) {
        for (int i = 0; i < (pre == 1 ? 5 : 12); ++i) { int s = i % 3, k = 1 + (i * 3) % 4; r[0]->addBody(D::shape(s, k)); m[0].links.push_back({s, k, false, M4::Identity()}); }
        depth = std::min(depth, pre == 1 ? 4 : 3);
    }
    for (int t = 0; t < depth; ++t) {
        // 0 stop, 1..3 add to robot 0, 4..7 place robot 0, 8 copy 0 to 1, 9 copy 1 to 0, 10 add to 1, 11.. place 1
        int op = mc::choose(13, "op");
        if (op == 0) break;
        if (op <= 3 || op == 10) {
            int w = op == 10;
            int s = w ? 2 : op - 1, k = w ? 3 : (op == 1 ? 1 : op == 2 ? 4 : 2);
            auto b = D::shape(s, k);
            r[w]->addBody(b);
            m[w].links.push_back({s, k, false, M4::Identity()});
            mc::say(mc::fmt("add shape %d at %d to robot %d", s, k, w));
        } else if (op <= 7 || op >= 11) {
            int w = op >= 11;
            int k = w ? op - 10 : op - 3;
            D::place(*r[w], k);
            m[w].base = D::tf(k);
            for (auto& l : m[w].links) { l.placed = true; l.pose = D::tf(k) * D::tf(l.k); }
            mc::say(mc::fmt("place robot %d at %d", w, k));
        } else if (op == 8) {
            r[1] = std::make_unique<typename D::Robot>(*r[0]);
            m[1] = m[0];
            mc::say("copy 0 to 1");
        } else {
            *r[0] = *r[1];
            m[0] = m[1];
            mc::say("assign 1 to 0");
        }
        mc::step();
        mc::Hash h;
        for (int w = 0; w < 2; ++w) {
            h.u(uint64_t(m[w].baseS)).d(m[w].base(0, 3)).d(m[w].base(0, 0)).u(m[w].links.size());
            for (auto& l : m[w].links) h.u(uint64_t(l.s * 16 + l.k)).d(l.placed ? l.pose(0, 3) : 1e9);
        }
        mc::state(h);
        checkRobot<D>(*r[0], m[0], "robot 0");
        checkRobot<D>(*r[1], m[1], "robot 1");
    }
    mc::outcome(mc::fmt("links %d/%d", int(m[0].links.size()), int(m[1].links.size())));
}
static void body() {
    int d = mc::thorough() ? 6 : 5;
    if (mc::flip("3D")) history<D3>(d); else history<D2>(d);
}
int main(int argc, char** argv) { return mc::run(argc, argv, body, mc::Options{4, 20}); }
