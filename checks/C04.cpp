// C04: stored graphs and paths against the oracle's reading of the files, over histories of stores.
#include "mc.hpp"
#include "hrm/config.h"
#include "hrm/test/util/DisplayPlanningData.h"
#include <cmath>
#include <dirent.h>
#include <fstream>
#include <map>
#include <sstream>
#include <sys/stat.h>
#include <unistd.h>
using Rows = std::vector<std::vector<double>>;
static const double VAL[] = {0, -1, 52.25, 1e-7, 123.456789, -98765.4321, 1e6, 1.0 / 3, -2.718281828, 3.14159265};
static Rows rows(int n, int w, int salt) {
    Rows r;
    for (int i = 0; i < n; ++i) { r.emplace_back(); for (int j = 0; j < w; ++j) r.back().push_back(VAL[(i * 7 + j * 3 + salt) % 10]); }
    return r;
}
static std::map<std::string, std::string> files() {
    std::map<std::string, std::string> m;
    DIR* d = opendir(SOLUTION_DETAILS_PATH);
    if (!d) return m;
    while (auto* e = readdir(d)) {
        std::string n = e->d_name;
        if (n == "." || n == "..") continue;
        std::ifstream in(std::string(SOLUTION_DETAILS_PATH) + "/" + n, std::ios::binary);
        std::stringstream s; s << in.rdbuf();
        m[n] = s.str();
    }
    closedir(d);
    return m;
}
/// one record per line; a trailing comma is no field
static std::vector<std::vector<std::string>> read(const std::string& t) {
    std::vector<std::vector<std::string>> out;
    std::stringstream ss(t);
    std::string l;
    while (std::getline(ss, l)) {
        out.emplace_back();
        std::stringstream ls(l);
        std::string f;
        while (std::getline(ls, f, ',')) out.back().push_back(f);
    }
    return out;
}
static bool close(double a, double b) { return std::fabs(a - b) <= 6e-6 * std::fabs(b) + 1e-300; }
static void judgeRows(const std::string& text, const Rows& want, const std::string& what) {
    auto g = read(text);
    MC_CHECK(g.size() == want.size(), "lines", "%s: %zu lines for %zu items", what.c_str(), g.size(), want.size());
    for (size_t i = 0; i < want.size(); ++i) {
        MC_CHECK(g[i].size() == want[i].size(), "fields", "%s: line %zu has %zu fields for %zu coordinates", what.c_str(), i, g[i].size(), want[i].size());
        for (size_t j = 0; j < want[i].size(); ++j) {
            char* e; double v = std::strtod(g[i][j].c_str(), &e);
            MC_CHECK(e != g[i][j].c_str() && *e == 0 && close(v, want[i][j]), "value", "%s: line %zu field %zu is \"%s\" instead of %.9g", what.c_str(), i, j, g[i][j].c_str(), want[i][j]);
        }
    }
}
static void body() {
    static pid_t mine = 0;
    if (mine != getpid()) {   // a result directory per worker
        mine = getpid();
        std::string d = "./w" + std::to_string(mine);
        ::mkdir(d.c_str(), 0700);
        if (::chdir(d.c_str())) abort();
        ::mkdir("./mcresult", 0700); ::mkdir("./mcresult/details", 0700); ::mkdir("./mcresult/benchmark", 0700);
    }
    for (auto& f : files()) ::unlink((std::string(SOLUTION_DETAILS_PATH) + "/" + f.first).c_str());
    static const std::vector<std::string> SUF{"2D", "3D", "prob_3D"};
    int ops = mc::thorough() ? 4 : 3;
    std::map<std::string, std::string> model;
    std::string hist;
    for (int k = 0; k < ops; ++k) {
        if (k && !mc::flip("more")) break;
        bool graph = mc::flip("graph");
        const std::string& suf = SUF[size_t(mc::choose(k ? 2 : 3, "suffix"))];
        int w = suf == "2D" ? 3 : 7 + 3 * mc::choose(k ? 1 : 2, "joints");
        static const int N[] = {0, 1, 4, 11};
        int n = N[mc::choose(k >= 2 ? 2 : k ? 3 : 4, "items")], salt = mc::choose(k ? 1 : mc::thorough() ? 3 : 2, "values");
        if (k >= 2) n *= 4;
        else if (!k && n == 11 && salt) n = 257;
        std::vector<std::string> touched;
        if (graph) {
            hrm::Graph g;
            g.vertex = rows(n, w, salt);
            int pat = k >= 2 ? 2 : mc::choose(3, "edges");   // none, a chain, all pairs with one doubled and reversed
            if (pat == 1) for (int i = 1; i < n; ++i) g.edge.push_back(std::make_pair(hrm::Index(i - 1), hrm::Index(i)));
            if (pat == 2) { for (int i = 0; i < n; ++i) for (int j = n > 11 ? std::max(0, i - 2) : 0; j < i; ++j) g.edge.push_back(std::make_pair(hrm::Index(i), hrm::Index(j))); if (!g.edge.empty()) g.edge.push_back(g.edge.front()), g.edge.push_back(std::make_pair(g.edge.front().second, hrm::Index(1234567))); }
            g.weight.assign(g.edge.size(), 1.5);
            hrm::storeGraphInfo(g, suf);
            mc::step();
            hist += mc::fmt("graph of %d vertices and %zu edges as %s; ", n, g.edge.size(), suf.c_str());
            auto f = files();
            touched = {"vertex_" + suf + ".csv", "edge_" + suf + ".csv"};
            MC_CHECK(f.count(touched[0]) && f.count(touched[1]), "missing", "%s: no vertex or edge file", hist.c_str());
            judgeRows(f[touched[0]], g.vertex, hist + "vertices");
            auto e = read(f[touched[1]]);
            MC_CHECK(e.size() == g.edge.size(), "edge-lines", "%s: %zu lines for %zu edges", hist.c_str(), e.size(), g.edge.size());
            for (size_t i = 0; i < e.size(); ++i) MC_CHECK(e[i].size() == 2 && e[i][0] == std::to_string(g.edge[i].first) && e[i][1] == std::to_string(g.edge[i].second), "edge", "%s: line %zu is not edge %zu-%zu", hist.c_str(), i, size_t(g.edge[i].first), size_t(g.edge[i].second));
        } else {
            hrm::SolutionPathInfo p;
            p.solvedPath = rows(n, w, salt);
            p.interpolatedPath = rows(mc::flip("interpolated") ? 3 * n : 0, w, salt + 1);
            int ids = n > 1 ? mc::choose(2, "ids") ? n - 2 : n : n;
            for (int i = 0; i < ids; ++i) p.PathId.push_back(hrm::Index((i * 7919 + salt) % 1300000));
            p.cost = n ? 3.25 : INFINITY;
            hrm::storePathInfo(p, suf);
            mc::step();
            hist += mc::fmt("path of %d states as %s; ", n, suf.c_str());
            auto f = files();
            touched = {"path_id_" + suf + ".csv", "solution_path_" + suf + ".csv", "interpolated_path_" + suf + ".csv"};
            for (auto& t : touched) MC_CHECK(f.count(t), "missing", "%s: no file %s", hist.c_str(), t.c_str());
            judgeRows(f[touched[1]], p.solvedPath, hist + "solution path");
            judgeRows(f[touched[2]], p.interpolatedPath, hist + "interpolated path");
            auto e = read(f[touched[0]]);
            size_t got = 0;
            for (auto& l : e) for (auto& x : l) { MC_CHECK(got < p.PathId.size() && x == std::to_string(p.PathId[got]), "path-id", "%s: path index %zu is \"%s\"", hist.c_str(), got, x.c_str()); ++got; }
            MC_CHECK(got == p.PathId.size(), "path-ids", "%s: %zu path indices instead of %zu", hist.c_str(), got, p.PathId.size());
        }
        auto f = files();
        for (auto& t : touched) model[t] = f[t];
        MC_CHECK(f == model, "others", "%s: files of another name changed, appeared or vanished", hist.c_str());
        mc::state(mc::Hash().s(hist));
    }
    mc::outcome("stored");
}
int main(int argc, char** argv) { return mc::run(argc, argv, body); }
