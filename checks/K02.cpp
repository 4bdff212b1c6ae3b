// K02: articulated placement against an independent reading of the robot description and its forward kinematics.
#include "mc.hpp"
#include "hrmgeo.hpp"
#include "urdf.hpp"
#include "hrm/config.h"
#include "hrm/datastructure/MultiBodyTree3D.h"
using namespace geo;
using namespace urdf;
static void body() {
    int nd = int(SYN.size()) + 2;
    int k = mc::choose(nd, "description");
    std::string file = k < int(SYN.size()) ? synFile(size_t(k)) : std::string(RESOURCES_PATH "/3D/urdf/") + (k == int(SYN.size()) ? "snake" : "tree") + ".urdf";
    static std::map<std::string, std::unique_ptr<Desc>> descs;
    auto& dp = descs[file];
    if (!dp) dp = std::make_unique<Desc>(file);
    const Desc& D = *dp;
    int nb = D.bodies();
    hrm::SuperQuadrics base({3, 2, 1}, {1, 1}, {1, 1, 1}, Eigen::Quaterniond::Identity(), 4);
    hrm::MultiBodyTree3D r(base);
    int off = mc::choose(2, "offsets");   // links at their joint frame or away from it
    std::vector<M4> rel;
    for (int i = 0; i < nb; ++i) {
        M4 g = off ? tf(1 + i % 4) : tf(0);
        rel.push_back(g);
        Eigen::Quaterniond q(Eigen::Matrix3d(g.topLeftCorner(3, 3)));
        r.addBody(hrm::SuperQuadrics({1 + 0.1 * i, 1, 2}, {1, 1}, {g(0, 3), g(1, 3), g(2, 3)}, q, 4));
    }
    static const double Q[] = {0, 0.7, -1.9, 3.5};
    int placements = 1 + mc::choose(2, "more");
    for (int t = 0; t < placements; ++t) {
        Eigen::VectorXd v = Eigen::VectorXd::Zero(D.dof);
        if (t == 0 && placements == 2) {   // an earlier placement that must leave no trace
            for (int i = 0; i < D.dof; ++i) v(i) = Q[(i + 1) % 4];
        } else if (D.dof <= 4) {
            for (int i = 0; i < D.dof; ++i) v(i) = Q[mc::choose(D.dof <= 3 || mc::thorough() ? 4 : 3, "q")];
        } else {
            int mode = mc::choose(mc::thorough() ? 4 : 3, "pattern");
            if (mode == 0) { int i = mc::choose(D.dof, "i"), j = mc::choose(D.dof, "j"); v(i) += Q[1 + mc::choose(3, "qi")]; v(j) -= 0.4; }
            else if (mode == 1) { int s = mc::choose(D.dof, "shift"); for (int i = 0; i < D.dof; ++i) v(i) = Q[(i + s) % 4] + 0.05 * i; }
            else if (mode == 2) { for (int i = 0; i < D.dof; ++i) v(i) = 0.31 * (i + 1); }
            else { int i = mc::choose(D.dof, "i"), j = mc::choose(D.dof, "j"), l = mc::choose(D.dof, "l"); v(i) += 0.7; v(j) -= 1.9; v(l) += 2.3; }
        }
        int p = mc::choose(t == 0 && placements == 2 ? 2 : 5, "base");
        M4 g = tf(t == 0 && placements == 2 ? 4 - p : p);
        int ov = mc::choose(t == 0 && placements == 2 ? 2 : 3, "overload");
        if (t == 0 && placements == 2 && ov == 1) ov = 3;   // earlier rigid placement
        std::string vs;
        for (int i = 0; i < D.dof; ++i) vs += mc::fmt(" %g", v(i));
        mc::say(mc::fmt("place by overload %d at base pose %d joints%s", ov, p, vs.c_str()));
        static std::map<std::string, std::unique_ptr<hrm::ParseURDF>> parsed;
        auto& pp = parsed[file];
        if (!pp) pp = std::make_unique<hrm::ParseURDF>(file);
        if (ov == 0) r.robotTF(file, g, v);
        else if (ov == 1) r.robotTF(*pp, g, v);
        else if (ov == 2) r.robotTF(hrm::ParseURDF(pp->getKDLTree()), g, v);
        else r.robotTF(hrm::SE3Transform(g));
        mc::step();
        MC_CHECK((pose(r.getBase()) - g).cwiseAbs().maxCoeff() < 1e-9, "base", "base not at the given pose");
        mc::Hash h;
        h.u(uint64_t(k)).u(uint64_t(p)).u(uint64_t(off)).u(uint64_t(ov == 3));
        for (int i = 0; i < D.dof; ++i) h.d(v(i));
        mc::state(h);
        for (int i = 0; i < nb; ++i) {
            M4 want = ov == 3 ? M4(g * rel[size_t(i)]) : M4(g * D.fk("body" + std::to_string(i + 1), v) * rel[size_t(i)]);
            double e = (pose(r.getLinks().at(size_t(i))) - want).cwiseAbs().maxCoeff();
            mc::maxi("link-error", e);
            MC_CHECK(e < 1e-7, "link", "%s: link %d is %.3g away from its place", file.c_str(), i, e);
        }
        for (int i = 0; i < nb; ++i) {   // never changed by a placement
            M4 T = r.getTF().at(size_t(i));
            MC_CHECK((T - rel[size_t(i)]).cwiseAbs().maxCoeff() < 1e-12, "offset", "offset of link %d changed", i);
            MC_CHECK(std::fabs(r.getLinks().at(size_t(i)).getSemiAxis().at(0) - (1 + 0.1 * i)) < 1e-12, "shape", "shape of link %d changed", i);
        }
        MC_CHECK(int(r.getNumLinks()) == nb, "count", "links");
    }
    mc::outcome(mc::fmt("bodies %d dof %d", nb, D.dof));
}
int main(int argc, char** argv) { return mc::run(argc, argv, body, mc::Options{5, 20}); }
