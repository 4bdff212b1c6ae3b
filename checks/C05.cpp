// C05: the Python demo module, run as a coprocess, in lockstep with the C++ library.
#include "mc.hpp"
#include "hrmgeo.hpp"
#include "urdf.hpp"
#include "hrm/config.h"
#include "hrm/datastructure/MultiBodyTree3D.h"
#include <csignal>
#include <fcntl.h>
#include <sys/wait.h>
using namespace geo;
using Eigen::Quaterniond;
using M4 = Eigen::Matrix4d;
using M3 = Eigen::Matrix3d;
struct Py {
    FILE *to = nullptr, *from = nullptr;
    pid_t pid = 0;
    char* buf = nullptr; size_t cap = 0;
    Py() {
        int a[2], b[2];
        if (pipe2(a, O_CLOEXEC) || pipe2(b, O_CLOEXEC)) abort();
        std::string here = __FILE__, srv = here.substr(0, here.rfind('/')) + "/../lib/py_server.py", mod = std::string(RESOURCES_PATH) + "/../demo/python";
        pid = fork();
        if (pid == 0) {
            dup2(a[0], 0); dup2(b[1], 1);
            setenv("MPLBACKEND", "Agg", 1); setenv("PYTHONDONTWRITEBYTECODE", "1", 1); setenv("MPLCONFIGDIR", "./mpl", 1);
            for (auto v : {"OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS"}) setenv(v, "1", 1);
            execl("/opt/hrm/venv/bin/python", "/opt/hrm/venv/bin/python", srv.c_str(), mod.c_str(), (char*)nullptr);
            _exit(127);
        }
        close(a[0]); close(b[1]);
        to = fdopen(a[1], "w"); from = fdopen(b[0], "r");
        signal(SIGPIPE, SIG_IGN);
    }
    std::vector<double> ask(const std::string& s) {
        fprintf(to, "%s\n", s.c_str());
        fflush(to);
        ssize_t n = getline(&buf, &cap, from);
        if (n <= 0) mc::fail("python", "the Python process ended");
        std::vector<double> v;
        if (!strncmp(buf, "ERR", 3)) mc::fail("python-error", mc::fmt("%.40s...: %.160s", s.c_str(), buf));
        if (!strncmp(buf, "ok", 2)) return v;
        char* e;
        for (char* p = buf;; p = e) { double d = strtod(p, &e); if (e == p) break; v.push_back(d); }
        return v;
    }
};
static Py& py() { static Py p; return p; }
static std::string num(const std::vector<double>& v) { std::string s; for (double x : v) s += mc::fmt(" %.17g", x); return s; }
static std::vector<double> rec(const hrm::SuperQuadrics& s) {
    std::vector<double> v;
    for (double x : s.getSemiAxis()) v.push_back(x);
    for (double x : s.getEpsilon()) v.push_back(x);
    for (double x : s.getPosition()) v.push_back(x);
    auto q = s.getQuaternion();
    for (double x : {q.w(), q.x(), q.y(), q.z()}) v.push_back(x);
    return v;
}
static std::string sqs(const hrm::SuperQuadrics& s) { return num(rec(s)) + mc::fmt(" %d", int(s.getNumParam())); }
static Quaterniond quat(int k) {
    static const double A[][4] = {{0, 0, 1, 0}, {1, 1, 0, 0.9}, {0, 1, 1, 2.2}, {1, 2, 3, 3.1}, {1, 0, 0, 1.5707963267948966}, {-1, 2, 0.5, -1.3}, {0, 0, 1, 3.14159265358979}, {1, 1, 1, 2.0943951}};
    auto& a = A[k % 8];
    Quaterniond q(Eigen::AngleAxisd(a[3], V3(a[0], a[1], a[2]).normalized()));
    return k >= 8 ? Quaterniond(-q.w(), -q.x(), -q.y(), -q.z()) : q;
}
static V3 pos(int k) { static const double P[][3] = {{0, 0, 0}, {1, -2, 3.5}, {-120.25, 14, 7}, {0.001, 30, -4}}; return V3(P[k % 4][0], P[k % 4][1], P[k % 4][2]); }
static double sp(double x, double p) { return x < 0 ? -std::pow(-x, p) : x > 0 ? std::pow(x, p) : 0; }
/// how far two samplings whose parameters differ by a rounding of pi may lie apart at grid point (i: eta, j: omega)
static double slack(const hrm::SuperQuadrics& s, int i, int j) {
    const double PI = 3.14159265358979323846;
    int n = int(s.getNumParam());
    double eta = -PI / 2 - 1e-6 + (PI + 2e-6) * i / (n - 1), om = -PI - 1e-6 + (2 * PI + 2e-6) * j / (n - 1);
    double e1 = s.getEpsilon()[0], e2 = s.getEpsilon()[1], D = 2e-7, worst = 0;
    auto& a = s.getSemiAxis();
    V3 c;
    for (int k = 0; k < 25; ++k) {
        double u = eta + D * (k % 5 - 2) / 2, v = om + D * (k / 5 - 2) / 2;
        V3 p(a[0] * sp(std::cos(u), e1) * sp(std::cos(v), e2), a[1] * sp(std::cos(u), e1) * sp(std::sin(v), e2), a[2] * sp(std::sin(u), e1));
        if (!k) c = p;
        worst = std::max(worst, (p - c).norm());
    }
    return worst;
}
static void samePoints(const hrm::SuperQuadrics& s, const double* p, const std::string& what) {
    int n = int(s.getNumParam());
    auto X = s.getOriginShape();
    double ext = s.getSemiAxis()[0] + s.getSemiAxis()[1] + s.getSemiAxis()[2] + 1e-3 * V3(s.getPosition()[0], s.getPosition()[1], s.getPosition()[2]).norm();
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) {
        int k = i * n + j;
        double d = std::sqrt(std::pow(p[k] - X(0, k), 2) + std::pow(p[n * n + k] - X(1, k), 2) + std::pow(p[2 * n * n + k] - X(2, k), 2));
        mc::eval();
        if (d < 1e-7 * ext) continue;
        double t = 1e-7 * ext + 2 * slack(s, i, j);
        mc::maxi("difference/tolerance", d / t);
        MC_CHECK(d <= t, "points", "%s: point %d,%d of %d: Python (%g,%g,%g), library (%g,%g,%g), tolerance %g", what.c_str(), i, j, n, p[k], p[n * n + k], p[2 * n * n + k], X(0, k), X(1, k), X(2, k), t);
    }
}
static void points() {
    static const double AX[][3] = {{1, 1, 1}, {5, 3, 2}, {0.2, 7, 1.5}, {40, 0.5, 12}}, E[] = {1, 0.3, 0.1, 1.6, 0.7, 2};
    static const int N[] = {20, 5, 2, 9, 3, 30};
    auto& a = mc::pick(AX, "axes");
    double e1 = E[mc::choose(mc::thorough() ? 6 : 5, "eps1")], e2 = E[mc::choose(mc::thorough() ? 6 : 5, "eps2")];
    int n = N[mc::choose(mc::thorough() ? 6 : 5, "num")], q = mc::choose(mc::thorough() ? 16 : 10, "quat"), t = mc::choose(mc::thorough() ? 4 : 3, "pos");
    if (!mc::thorough()) mc::assume(n < 9 || (q + t) % 4 == 0);
    V3 p = pos(t);
    hrm::SuperQuadrics s({a[0], a[1], a[2]}, {e1, e2}, {p.x(), p.y(), p.z()}, quat(q), hrm::Index(n));
    auto v = py().ask("sq" + sqs(s));
    mc::step();
    std::string what = mc::fmt("axes %g,%g,%g exponents %g,%g orientation %d", a[0], a[1], a[2], e1, e2, q);
    MC_CHECK(v.size() == size_t(6 * n * n), "count", "%s: %zu numbers for %d points", what.c_str(), v.size(), n * n);
    samePoints(s, v.data(), what);
    for (int k = 0; k < 3 * n * n; ++k) MC_CHECK(v[size_t(k)] == v[size_t(3 * n * n + k)], "surf", "%s: get_surf differs from get_points", what.c_str());
    mc::state(mc::Hash().d(a[0]).d(e1).d(e2).u(uint64_t(n * 64 + q * 4 + t)));
    mc::outcome("points");
}
static M4 gOf(const Quaterniond& q, const V3& p) { M4 g = M4::Identity(); g.topLeftCorner(3, 3) = q.toRotationMatrix(); g.topRightCorner(3, 1) = p; return g; }
static void samePoses(hrm::MultiBodyTree3D& r, const std::vector<double>& v, const std::string& what) {
    auto B = r.getBodyShapes();
    MC_CHECK(v.size() == 12 * B.size(), "count", "%s: %zu numbers for %zu bodies", what.c_str(), v.size(), B.size());
    for (size_t i = 0; i < B.size(); ++i) {
        M3 R = B[i].getQuaternion().normalized().toRotationMatrix();
        V3 p(B[i].getPosition()[0], B[i].getPosition()[1], B[i].getPosition()[2]);
        double d = 0;
        for (int k = 0; k < 9; ++k) d = std::max(d, std::fabs(v[12 * i + size_t(k)] - R(k / 3, k % 3)));
        for (int k = 0; k < 3; ++k) d = std::max(d, std::fabs(v[12 * i + 9 + size_t(k)] - p(k)) / (1 + 0.1 * p.norm()));
        mc::eval();
        MC_CHECK(d < 1e-7, "pose", "%s: body %zu: Python at (%g,%g,%g), library at (%g,%g,%g), largest difference %g", what.c_str(), i, v[12 * i + 9], v[12 * i + 10], v[12 * i + 11], p.x(), p.y(), p.z(), d);
    }
}
static hrm::SuperQuadrics part(int i, int set) {
    V3 p = i ? V3(1.5 * i, 0.3 - i, 0.7 * (i % 2)) : pos(set);
    return hrm::SuperQuadrics({2 + 0.5 * i, 1.0, 0.6 + 0.2 * i}, {1, i == 2 ? 0.5 : 1}, {p.x(), p.y(), p.z()}, quat((3 * i + 5 * set) % 16), 20);
}
/// creates robot `id` in both worlds; returns what was done
static std::string create(const char* id, hrm::MultiBodyTree3D& r, const std::vector<hrm::SuperQuadrics>& b, const std::string& urdf, int how) {
    for (size_t i = 1; i < b.size(); ++i) r.addBody(b[i]);
    if (how == 2) {
        std::string s;
        for (auto& x : b) s += num(rec(x));
        py().ask(std::string("gen ") + id + " " + urdf + s);
    } else {
        py().ask(std::string("new ") + id + mc::fmt(" %d ", int(b.size()) - 1) + urdf + sqs(b[0]));
        for (size_t k = 1; k < b.size(); ++k) { size_t i = how ? b.size() - k : k; py().ask(std::string("body ") + id + mc::fmt(" %d", int(i) - 1) + sqs(b[i])); }
    }
    return how == 2 ? "generated from a table" : how ? "bodies added last to first" : "bodies added in order";
}
static std::vector<double> flat(const M4& g) { std::vector<double> v; for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) v.push_back(g(i, j)); return v; }
static std::vector<double> place(const char* id, const Quaterniond& q, const V3& p, const std::vector<double>& joints, int how) {
    if (how == 0) { auto v = flat(gOf(q, p)); v.insert(v.end(), joints.begin(), joints.end()); return py().ask(std::string("tf ") + id + num(v)); }
    std::vector<double> v{p.x(), p.y(), p.z(), q.w(), q.x(), q.y(), q.z()};
    v.insert(v.end(), joints.begin(), joints.end());
    return py().ask(std::string("pose ") + id + num(v));
}
static void rigid() {
    int nb = 1 + mc::choose(4, "bodies"), set = mc::choose(mc::thorough() ? 3 : 2, "set"), how = mc::choose(3, "how");
    std::vector<hrm::SuperQuadrics> A, B;
    for (int i = 0; i < nb; ++i) A.push_back(part(i, set));
    for (int i = 0; i < (nb + 1) / 2 + 1; ++i) B.push_back(part(i + 1, set + 1));
    hrm::MultiBodyTree3D ra(A[0]), rb(B[0]);
    std::string what = create("a", ra, A, "-", how);
    create("b", rb, B, "-", 2 - how);
    samePoses(ra, py().ask("get a"), what + ", not placed yet");
    int n = mc::thorough() ? 4 : 3;
    for (int t = 0; t < n; ++t) {
        int k = mc::choose(t == 0 ? 5 : mc::thorough() ? 3 : 2, "pose") + 3 * t, who = mc::choose(2, "robot"), ov = mc::choose(2, "call");
        Quaterniond q = quat((2 * k + 7 * t) % 16);
        V3 p = pos(k) + V3(t, 0, 0);
        hrm::MultiBodyTree3D& r = who ? rb : ra;
        r.robotTF(hrm::SE3Transform(gOf(q, p)));
        auto v = place(who ? "b" : "a", q, p, {}, ov);
        what += mc::fmt(", %s placed by %s at %d", who ? "second robot" : "robot", ov ? "configuration" : "matrix", k);
        mc::step();
        samePoses(r, v, what);
        mc::state(mc::Hash().u(uint64_t(nb * 16 + set * 4 + how)).u(uint64_t(k * 4 + who * 2 + ov)).u(uint64_t(t)));
    }
    samePoses(ra, py().ask("get a"), what + ": first robot");
    samePoses(rb, py().ask("get b"), what + ": second robot");
    if (nb < 4) {
        auto S = ra.getBodyShapes();
        int i = mc::choose(nb, "body");
        auto v = py().ask(mc::fmt("points a %d", i));
        MC_CHECK(v.size() == 1200, "count", "%s: %zu numbers", what.c_str(), v.size());
        samePoints(S[size_t(i)], v.data(), what + mc::fmt(": points of body %d", i));
    }
    mc::outcome("rigid");
}
static void articulated() {
    static const std::vector<int> SY{0, 1, 2, 3, 4, 5, 6, 7};
    int nd = int(urdf::SYN.size()) + 2, k = mc::choose(nd, "description");
    if (k < 10) mc::assume(k != 2 && k != 6);   // the toolbox turns the frame of a link whose joint axis is oblique
    std::string file = k < int(urdf::SYN.size()) ? urdf::synFile(size_t(k)) : std::string(RESOURCES_PATH "/3D/urdf/") + (k == int(urdf::SYN.size()) ? "snake" : "tree") + ".urdf";
    { char* c = realpath(file.c_str(), nullptr); if (c) file = c; free(c); }
    urdf::Desc D(file);
    int nb = D.bodies(), set = mc::choose(2, "set"), how = mc::choose(3, "how");
    std::vector<hrm::SuperQuadrics> A;
    for (int i = 0; i <= nb; ++i) A.push_back(part(i, set));
    hrm::MultiBodyTree3D r(A[0]);
    std::string what = mc::fmt("description %d, ", k) + create("a", r, A, file, how);
    hrm::ParseURDF kdl(file);
    static const double Q[] = {0, 0.7, -1.9, 3.5};
    int n = mc::thorough() ? 3 : 2;
    for (int t = 0; t < n; ++t) {
        std::vector<double> j(size_t(D.dof));
        int pat = mc::choose(3 + std::min(D.dof, 3), "joints");
        for (int i = 0; i < D.dof; ++i) j[size_t(i)] = pat == 0 ? 0 : pat == 1 ? 0.31 * (i + 1) : pat == 2 ? Q[(i + t) % 4] + 0.05 * i : i % 3 == pat - 3 ? Q[1 + (i + t) % 3] : 0;
        int b = mc::choose(t ? 2 : 4, "base") + 2 * t, ov = mc::choose(2, "call");
        Quaterniond q = quat((3 * b + 1) % 16);
        V3 p = pos(b);
        r.robotTF(kdl, gOf(q, p), Eigen::Map<Eigen::VectorXd>(j.data(), D.dof));
        auto v = place("a", q, p, j, ov);
        what += mc::fmt(", placed by %s at %d with joints%s", ov ? "configuration" : "matrix", b, num(j).c_str());
        mc::step();
        samePoses(r, v, what);
        mc::state(mc::Hash().u(uint64_t(k * 8 + set * 4 + how)).u(uint64_t(b * 2 + ov)).u(uint64_t(pat)).u(uint64_t(t)));
    }
    mc::outcome("articulated");
}
static void body() {
    int md = mc::choose(3, "mode"); switch (md) {
        case 0: points(); break;
        case 1: rigid(); break;
        default: articulated();
    }
}
int main(int argc, char** argv) { mc::Options o; o.splitDepth = 4; return mc::run(argc, argv, body, o); }
