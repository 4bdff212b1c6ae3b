// the oracle's own reading of the shipped scene files
#pragma once
#include <cstdlib>
#include <fstream>
#include <sstream>
#include <string>
#include <vector>
namespace csv {
inline std::vector<std::vector<double>> read(const std::string& f) {
    std::ifstream in(f);
    std::vector<std::vector<double>> out;
    std::string line;
    while (std::getline(in, line)) {
        if (line.empty() || line[0] == '#' || line[0] == '\r') continue;
        std::vector<double> r;
        std::stringstream ss(line);
        std::string t;
        while (std::getline(ss, t, ',')) { char* e; double d = std::strtod(t.c_str(), &e); if (e != t.c_str()) r.push_back(d); }
        if (!r.empty()) out.push_back(r);
    }
    return out;
}
}  // namespace csv
