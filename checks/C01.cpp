// C01: every small numeric CSV text against the oracle's own reading of it.
#include "mc.hpp"
#include "hrm/util/Parse2dCsvFile.h"
#include <cstring>
#include <fstream>
#include <unistd.h>
using Rec = std::vector<std::vector<double>>;
struct Tok { const char* t; double v; };
static const Tok TK[] = {{"0", 0}, {"-1.5", -1.5}, {"2e-3", 2e-3}, {" 7", 7}, {"0.1000000000000000055", 0.1}, {"1.7976931348623157e308", 1.7976931348623157e308},
                         {"-123456789.123456789", -123456789.123456789}, {".25", .25}, {"+3", 3}, {"4 ", 4}, {"1E5", 1e5}, {"3.4028236e38", 3.4028236e38}, {"-0", -0.0}, {"1e-30", 1e-30}};
static std::string name() { static std::string n = "./c01." + std::to_string(getpid()) + ".csv"; return n; }
static void judge(const std::string& text, const Rec& want) {
    { std::ofstream o(name(), std::ios::binary); o << text; }
    Rec got;
    try { got = hrm::parse2DCsvFile(name()); } catch (const std::exception& e) { mc::fail("exception", mc::fmt("reading \"%s\" throws %s", text.c_str(), e.what())); }
    mc::step();
    mc::state(mc::Hash().s(text));
    std::string esc;
    for (char c : text) esc += c == '\n' ? std::string("\\n") : c == '\r' ? std::string("\\r") : std::string(1, c);
    MC_CHECK(got.size() == want.size(), "records", "\"%s\" is read as %zu records instead of %zu", esc.c_str(), got.size(), want.size());
    for (size_t i = 0; i < want.size(); ++i) {
        MC_CHECK(got[i].size() == want[i].size(), "fields", "\"%s\": record %zu has %zu fields instead of %zu", esc.c_str(), i, got[i].size(), want[i].size());
        for (size_t j = 0; j < want[i].size(); ++j)
            MC_CHECK(std::memcmp(&got[i][j], &want[i][j], 8) == 0, "value", "\"%s\": record %zu field %zu is %.17g instead of %.17g", esc.c_str(), i, j, got[i][j], want[i][j]);
    }
}
static void body() {
    int mode = mc::choose(4, "mode");
    if (mode == 0) {   // all lines: every token alone, in pairs and in triples, with and without a trailing comma
        int n = 1 + mc::choose(mc::thorough() ? 4 : 3, "fields");
        std::string t;
        Rec w(1);
        int k = n == 4 ? 6 : int(sizeof TK / sizeof *TK);
        for (int i = 0; i < n; ++i) { auto& x = TK[mc::choose(k, "token")]; t += std::string(i ? "," : "") + x.t; w[0].push_back(x.v); }
        for (const char* end : {"", "\n", ",", ",\n", "\r\n", ",\r\n"}) {
            if (std::strstr(end, ",\r")) continue;   // (a carriage return is no field)
            judge(t + end, w);
        }
        mc::outcome("line");
    } else if (mode == 1) {   // all files of up to 5 (6) lines
        int n = mc::choose(mc::thorough() ? 7 : 6, "lines");
        std::string t;
        Rec w;
        bool crlf = mc::flip("crlf");
        for (int i = 0; i < n; ++i) {
            if (i) t += crlf ? "\r\n" : "\n";
            switch (mc::choose(6, "line")) {
                case 0: t += "1,2"; w.push_back({1, 2}); break;
                case 1: t += "-3.5"; w.push_back({-3.5}); break;
                case 2: t += "# 8,9"; break;
                case 3: t += "#"; break;
                case 4: break;   // blank
                default: t += "4,5e2,6,"; w.push_back({4, 500, 6}); if (crlf) { t.pop_back(); } break;
            }
        }
        if (n && mc::flip("final-newline")) t += crlf ? "\r\n" : "\n";
        judge(t, w);
        mc::outcome("file");
    } else if (mode == 2) {   // long lines and files: lengths around buffer sizes
        static const int L[] = {1, 100, 127, 128, 129, 1000, 4095, 4096, 4097, 8192};
        int fields = mc::pick(L, "fields"), rows = mc::choose(3, "rows") + 1;
        std::string t;
        Rec w;
        for (int r = 0; r < rows; ++r) {
            w.emplace_back();
            for (int i = 0; i < fields; ++i) { double v = 0.001 * (i * 7919 % 100003) - 17 + r; t += mc::fmt("%s%.17g", i ? "," : "", v); w.back().push_back(v); }
            t += "\n";
        }
        judge(t, w);
        mc::outcome("long");
    } else {   // missing files are reported, also between successful reads
        static const char* N[] = {"./no-such-file.csv", "./no-such-dir/x.csv", "", "/proc/self/no-such"};
        for (int i = 0; i < 3; ++i) {
            int k = mc::choose(5, "file");
            if (k == 4) { judge("1,2\n3,4", {{1, 2}, {3, 4}}); continue; }
            bool thrown = false;
            size_t n = 0;
            try { n = hrm::parse2DCsvFile(N[k]).size(); } catch (const std::exception&) { thrown = true; }
            mc::step();
            MC_CHECK(thrown, "missing", "reading \"%s\" is not reported as an error but gives %zu records", N[k], n);
        }
        mc::outcome("missing");
    }
    ::unlink(name().c_str());
}
int main(int argc, char** argv) { return mc::run(argc, argv, body); }
