// A second reading of robot descriptions (URDF) with forward kinematics, and synthetic descriptions.
#pragma once
#include "hrmgeo.hpp"
#include <fstream>
#include <map>
#include <memory>
#include <string>
#include <tinyxml2.h>
#include <unistd.h>
#include <vector>
namespace urdf {
using namespace geo;
using M4 = Eigen::Matrix4d;
static const double PI_ = 3.14159265358979323846;
// ---- the oracle's own reading of a description
struct Desc {
    struct J { std::string name, type, parent, child; M4 origin; V3 axis; };
    std::vector<J> joints;
    std::string root;
    std::map<std::string, int> q;   // joint name -> index in the joint vector
    int dof = 0;
    static std::vector<double> nums(const char* s) {
        std::vector<double> v;
        if (!s) return v;
        char* e;
        for (const char* p = s;; p = e) { double d = std::strtod(p, &e); if (e == p) break; v.push_back(d); }
        return v;
    }
    void order(const std::string& link) {   // depth first, children by joint name
        std::map<std::string, const J*> ch;
        for (auto& j : joints) if (j.parent == link) ch[j.name] = &j;
        for (auto& c : ch) {
            if (c.second->type != "fixed") q[c.first] = dof++;
            order(c.second->child);
        }
    }
    explicit Desc(const std::string& file) {
        tinyxml2::XMLDocument d;
        if (d.LoadFile(file.c_str()) != tinyxml2::XML_SUCCESS) abort();
        std::map<std::string, int> isChild;
        auto* r = d.FirstChildElement("robot");
        for (auto* e = r->FirstChildElement("joint"); e; e = e->NextSiblingElement("joint")) {
            J j;
            j.name = e->Attribute("name"); j.type = e->Attribute("type");
            j.parent = e->FirstChildElement("parent")->Attribute("link");
            j.child = e->FirstChildElement("child")->Attribute("link");
            j.origin = M4::Identity(); j.axis = V3(1, 0, 0);
            if (auto* o = e->FirstChildElement("origin")) {
                auto x = nums(o->Attribute("xyz")), a = nums(o->Attribute("rpy"));
                if (a.size() == 3) j.origin.topLeftCorner(3, 3) = rotAA(V3(0, 0, 1), a[2]) * rotAA(V3(0, 1, 0), a[1]) * rotAA(V3(1, 0, 0), a[0]);
                if (x.size() == 3) for (int i = 0; i < 3; ++i) j.origin(i, 3) = x[size_t(i)];
            }
            if (auto* o = e->FirstChildElement("axis")) { auto x = nums(o->Attribute("xyz")); j.axis = V3(x[0], x[1], x[2]).normalized(); }
            isChild[j.child] = 1;
            joints.push_back(j);
        }
        for (auto* e = r->FirstChildElement("link"); e; e = e->NextSiblingElement("link"))
            if (!isChild.count(e->Attribute("name"))) root = e->Attribute("name");
        order(root);
    }
    M4 fk(const std::string& link, const Eigen::VectorXd& v) const {
        if (link == root) return M4::Identity();
        for (auto& j : joints) if (j.child == link) {
            M4 m = M4::Identity();
            if (j.type == "revolute" || j.type == "continuous") m.topLeftCorner(3, 3) = rotAA(j.axis, v(q.at(j.name)));
            else if (j.type == "prismatic") m.topRightCorner(3, 1) = v(q.at(j.name)) * j.axis;
            return fk(j.parent, v) * j.origin * m;
        }
        abort();
    }
    int bodies() const { int n = 0; for (;;) { bool f = false; for (auto& j : joints) if (j.child == "body" + std::to_string(n + 1)) f = true; if (!f) return n; ++n; } }
};
// ---- synthetic descriptions: (parent, type, rpy, xyz, axis, joint name) per body
struct B { int parent; const char *type, *rpy, *xyz, *axis, *jn; };
static const std::vector<std::vector<B>> SYN = {
    {{0, "revolute", "0 0 0", "1 2 3", "0 0 1", "j1"}},
    {{0, "revolute", "0.4 -1.1 2", "1 2 3", "0 1 0", "j1"}, {1, "revolute", "1 0 0", "0 0 5", "1 0 0", "j2"}},
    {{0, "continuous", "0 0 1.5", "1 0 0", "1 1 0", "jz"}, {0, "revolute", "0 0.5 0", "-1 0 2", "0 1 1", "ja"}},             // order by joint name
    {{0, "prismatic", "0 0 0.3", "1 0 0", "0 1 0", "j1"}, {1, "revolute", "0 0 0", "0 2 0", "0 0 -1", "j2"}},
    {{0, "fixed", "0.3 0.2 0.1", "4 0 0", "1 0 0", "j1"}, {1, "revolute", "0 0 0", "0 2 0", "0 0 1", "j2"}},
    {{0, "revolute", "0 0 0", "4 0 0", "0 0 1", "b"}, {1, "fixed", "0 -0.9 0", "0 2 0", "0 0 1", "c"}, {1, "revolute", "0 0 0.2", "1 1 1", "1 0 0", "a"}},
    {{0, "revolute", "0 0 0", "0 4 0", "0 0 1", "c1"}, {0, "revolute", "0.1 0 0", "0 -4 0", "0 1 0", "a1"}, {1, "revolute", "0 0 0", "2 0 0", "1 0 0", "c2"}, {2, "prismatic", "0 0 0", "2 0 1", "1 2 2", "a2"}},
    {{2, "revolute", "0 0 0", "0 4 0", "0 0 1", "j1"}, {0, "revolute", "0.1 0 0", "0 -4 0", "0 1 0", "j2"}},               // body1 hangs on body2
    {{0, "revolute", "0 0 0", "0 0 0", "0 0 1", "j1"}, {1, "revolute", "0 0 0", "0 0 0", "0 1 0", "j2"}},
    {{0, "continuous", "0 0 1.5", "1 0 0", "0 0 1", "jz"}, {0, "revolute", "0 0.5 0", "-1 0 2", "0 -1 0", "ja"}, {1, "revolute", "0 0.2 0", "3 0 0", "1 0 0", "jb"}},
};
inline std::string synFile(size_t k) {
    std::string n = "./syn" + std::to_string(k) + "." + std::to_string(getpid()) + ".urdf";
    static std::map<std::string, bool> done;
    if (!done[n]) {
        std::ofstream o(n);
        o << "<?xml version=\"1.0\"?>\n<robot name=\"syn\">\n<link name=\"base\"/>\n";
        for (size_t i = 0; i < SYN[k].size(); ++i) o << "<link name=\"body" << i + 1 << "\"/>\n";
        for (size_t i = 0; i < SYN[k].size(); ++i) {
            auto& b = SYN[k][i];
            o << "<joint name=\"" << b.jn << "\" type=\"" << b.type << "\"><parent link=\"" << (b.parent ? "body" + std::to_string(b.parent) : std::string("base"))
              << "\"/><child link=\"body" << i + 1 << "\"/><origin rpy=\"" << b.rpy << "\" xyz=\"" << b.xyz << "\"/><axis xyz=\"" << b.axis
              << "\"/><limit effort=\"1\" lower=\"-9\" upper=\"9\" velocity=\"1\"/></joint>\n";
        }
        o << "</robot>\n";
        o.close();
        done[n] = true;
    }
    return n;
}
inline M4 tf(int k) {
    static const double A[][7] = {{0, 0, 1, 0, 0, 0, 0}, {1, 2, -1, 2.2, 3, -7, 5}, {0, 1, 0, PI_, -1.5, 0.25, 0}, {1, 0, 0, -PI_ / 2, 12, 4, -9}, {-1, 1, 3, 5.5, -40, 31, 2}};
    M4 g = M4::Identity();
    g.topLeftCorner(3, 3) = rotAA(V3(A[k][0], A[k][1], A[k][2]), A[k][3]);
    for (int i = 0; i < 3; ++i) g(i, 3) = A[k][4 + i];
    return g;
}
inline M4 pose(const hrm::SuperQuadrics& s) {
    M4 g = M4::Identity();
    g.topLeftCorner(3, 3) = rotOf(s.getQuaternion());
    for (int i = 0; i < 3; ++i) g(i, 3) = s.getPosition().at(size_t(i));
    return g;
}
}  // namespace urdf
