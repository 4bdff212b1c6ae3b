// Stateless bounded-exhaustive explorer ("model checker") for harnesses that drive the real /repo code.
//
// A harness is one function body() that asks choose(n)/pick(v) for every nondeterministic decision: an
// argument, the next operation of a history, or an answer of the environment (clock, random source).
// run() enumerates EVERY choice sequence depth first, sharded over forked workers. Each worker publishes the
// choices it is executing in shared memory, so a crash, an abort or a hang is attributed to an exact sequence
// and exploration resumes right after it.
#pragma once
#include <algorithm>
#include <chrono>
#include <cmath>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <exception>
#include <fstream>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <fcntl.h>
#include <unistd.h>
#include <unordered_map>
#include <unordered_set>
#include <vector>

namespace mc {

struct Fail : std::exception {
    std::string key, msg;
    Fail(std::string k, std::string m) : key(std::move(k)), msg(std::move(m)) {}
    const char* what() const noexcept override { return msg.c_str(); }
};
struct Skip {};      // this execution belongs to another shard
struct Prune {};     // this execution is outside the space (assumption not met)

const int MAXD = 256;
const int RING = 64;
struct Shared {
    volatile int depth;
    volatile int choice[MAXD];
    volatile int arity[MAXD];
    volatile uint64_t beat;   // executions started
    volatile int running;
    // the last executions of this worker, so that a failure which needs what they left behind can be replayed
    volatile int ringN;
    volatile int ringLen[RING];
    volatile int ring[RING][MAXD];
};

struct State {
    std::vector<int> prefix;          // choices to replay
    std::vector<int> cur, ar;         // choices made in this execution
    std::vector<std::string> trace;   // human readable
    Shared* sh = nullptr;
    int shard = 0, nshards = 1, splitDepth = 1;
    bool replay = false;
    std::string tier = "quick";
    uint64_t executions = 0, transitions = 0, pruned = 0, choicePoints = 0, validated = 0, evaluations = 0;
    std::unordered_set<uint64_t> states;
    std::map<std::string, uint64_t> outcomes;
    std::map<std::string, uint64_t> metrics;
    std::map<std::string, double> maxima;
    std::vector<std::string> samples;
    struct F { uint64_t count = 0; std::string msg; std::vector<int> choices; std::vector<std::string> trace; std::string context, origin; };
    std::map<std::string, F> fails;
    std::vector<int> start;           // where this worker began
};
inline State& S() { static State s; return s; }

inline bool thorough() { return S().tier == "thorough"; }

inline std::string fmt(const char* f, ...) {
    char buf[4096];
    va_list ap;
    va_start(ap, f);
    vsnprintf(buf, sizeof buf, f, ap);
    va_end(ap);
    return buf;
}

/// One nondeterministic decision with n alternatives.
inline int choose(int n, const char* label = "") {
    State& s = S();
    if (n <= 0) { fprintf(stderr, "mc: choose(%d) %s\n", n, label); _exit(97); }
    size_t d = s.cur.size();
    if (d >= size_t(MAXD)) { fprintf(stderr, "mc: depth bound\n"); _exit(97); }
    int c = 0;
    if (d < s.prefix.size()) {
        c = s.prefix[d];
        if (c >= n) {   // divergence while replaying a prefix: nondeterminism we do not own
            fprintf(stderr, "mc: replay divergence at depth %zu (%s): choice %d of %d\n", d, label, c, n);
            _exit(98);
        }
    }
    s.cur.push_back(c);
    s.ar.push_back(n);
    s.choicePoints++;
    if (s.sh) { s.sh->choice[d] = c; s.sh->arity[d] = n; s.sh->depth = int(d) + 1; }
    if (*label) s.trace.push_back(std::string(label) + "=" + std::to_string(c));
    if (!s.replay && s.nshards > 1 && int(d) + 1 == s.splitDepth) {
        uint64_t h = 1469598103934665603ull;
        for (int x : s.cur) { h ^= uint64_t(x) + 0x9e37; h *= 1099511628211ull; h ^= h >> 29; }
        if (int(h % uint64_t(s.nshards)) != s.shard) throw Skip();
    }
    return c;
}
template <class T> const T& pick(const std::vector<T>& v, const char* label = "") {
    return v[size_t(choose(int(v.size()), label))];
}
template <class T, size_t N> const T& pick(const T (&v)[N], const char* label = "") {
    return v[choose(int(N), label)];
}
inline bool flip(const char* label = "") { return choose(2, label) == 1; }
inline void say(const std::string& t) { S().trace.push_back(t); }
inline void assume(bool b) { if (!b) throw Prune(); }
/// one operation of the implementation performed in lockstep with the reference
inline void step(uint64_t n = 1) { S().transitions += n; }
/// one comparison of the implementation with the oracle
inline void eval(uint64_t n = 1) { S().evaluations += n; }
inline void outcome(const std::string& o) { S().outcomes[o]++; }
inline void metric(const std::string& m, uint64_t n = 1) { S().metrics[m] += n; }
inline void maxi(const std::string& m, double v) { auto& x = S().maxima[m]; if (!(v <= x)) x = v; }

struct Hash {
    uint64_t h = 1469598103934665603ull;
    Hash& u(uint64_t x) { for (int i = 0; i < 8; ++i) { h ^= (x >> (8 * i)) & 255; h *= 1099511628211ull; } return *this; }
    Hash& d(double x) {   // rounded so that representation noise does not create states
        if (std::isnan(x)) return u(0x7ff8);
        if (std::isinf(x)) return u(x > 0 ? 1 : 2);
        double r = std::round(x * 1e6);
        if (r == 0) r = 0;
        uint64_t b;
        memcpy(&b, &r, 8);
        return u(b);
    }
    Hash& s(const std::string& t) { for (char c : t) { h ^= (unsigned char)c; h *= 1099511628211ull; } return u(t.size()); }
    Hash& v(const std::vector<double>& x) { for (double y : x) d(y); return u(x.size()); }
};
/// a distinct state (canonical hash) of the system under exploration
inline void state(const Hash& h) { S().states.insert(h.h); }

inline void fail(const std::string& key, const std::string& msg) { throw Fail(key, msg); }
inline void check(bool ok, const std::string& key, const std::string& msg) {
    S().evaluations++;
    if (!ok) throw Fail(key, msg);
}
#define MC_CHECK(cond, key, ...) do { ::mc::S().evaluations++; if (!(cond)) throw ::mc::Fail((key), ::mc::fmt(__VA_ARGS__)); } while (0)
inline std::string joined(const std::vector<int>& v) { std::string o; for (int x : v) { if (!o.empty()) o += ','; o += std::to_string(x); } return o.empty() ? "," : o; }
/// the executions this worker ran before, oldest first, separated by blanks
inline std::string ringStr(const Shared* sh) {
    std::string o;
    if (!sh) return o;
    int n = sh->ringN, from = n > RING ? n - RING : 0;
    for (int i = from; i < n; ++i) {
        std::vector<int> v;
        for (int k = 0; k < sh->ringLen[i % RING]; ++k) v.push_back((int)sh->ring[i % RING][k]);
        if (!o.empty()) o += ' ';
        o += joined(v);
    }
    return o;
}
inline std::string originStr(int shard, int nshards, const std::vector<int>& start) { return std::to_string(shard) + " " + std::to_string(nshards) + " " + joined(start); }
/// records a failure without ending the execution (one execution may show several findings)
inline void soft(const std::string& key, const std::string& msg) {
    State& s = S();
    auto& f = s.fails[key];
    if (f.count++ == 0) { f.msg = msg; f.choices = s.cur; f.trace = s.trace; f.context = ringStr(s.sh); f.origin = originStr(s.shard, s.nshards, s.start); }
}

inline std::string jesc(const std::string& s) {
    std::string o;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += char(c); }
        else if (c == '\n') o += "\\n";
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
        else o += char(c);
    }
    return o;
}
inline std::string traceStr(const std::vector<std::string>& t) {
    std::string o;
    for (auto& x : t) { if (!o.empty()) o += "; "; o += x; }
    return o;
}

struct Options {
    int splitDepth = 2;
    double hangLimit = 60;        // seconds for one execution; the longest on the unchanged tree is in the maxima (execution_s)
    int maxHangs = 3;             // a few executions that do not end settle it: the exploration stops there
    uint64_t maxFailKinds = 60;
    int maxCrashes = 40;
    double wallCap = 0;           // 0 = none; a hit is reported (wall_capped)
};

inline bool nextPrefix(std::vector<int>& c, const std::vector<int>& a) {
    for (int i = int(c.size()) - 1; i >= 0; --i)
        if (c[size_t(i)] + 1 < a[size_t(i)]) { c.resize(size_t(i) + 1); c[size_t(i)]++; return true; }
    return false;
}

inline void one(const std::function<void()>& body) {
    State& s = S();
    s.cur.clear(); s.ar.clear(); s.trace.clear();
    bool skipped = false;
    if (s.sh) { s.sh->depth = 0; s.sh->beat = s.sh->beat + 1; s.sh->running = 1; }
    try {
        body();
        if (!s.replay && s.nshards > 1 && int(s.cur.size()) < s.splitDepth && s.shard != 0) throw Skip();
        s.executions++; s.validated++;
        if (s.samples.size() < 3 || (s.executions & (s.executions - 1)) == 0) {
            if (s.samples.size() < 12) s.samples.push_back(traceStr(s.trace));
        }
    } catch (Skip&) {
        skipped = true;
    } catch (Prune&) {
        s.pruned++;
    } catch (Fail& f) {
        s.executions++;
        auto& r = s.fails[f.key];
        if (r.count++ == 0) { r.msg = f.msg; r.choices = s.cur; r.trace = s.trace; r.context = ringStr(s.sh); r.origin = originStr(s.shard, s.nshards, s.start); }
    } catch (std::exception& e) {
        s.executions++;
        auto& r = s.fails[std::string("exception")];
        if (r.count++ == 0) { r.msg = std::string("uncaught exception: ") + e.what(); r.choices = s.cur; r.trace = s.trace; r.context = ringStr(s.sh); r.origin = originStr(s.shard, s.nshards, s.start); }
    } catch (...) {
        s.executions++;
        auto& r = s.fails[std::string("exception")];
        if (r.count++ == 0) { r.msg = "uncaught non-standard exception"; r.choices = s.cur; r.trace = s.trace; r.context = ringStr(s.sh); r.origin = originStr(s.shard, s.nshards, s.start); }
    }
    if (s.sh && !skipped) {
        int i = s.sh->ringN % RING;
        for (size_t k = 0; k < s.cur.size(); ++k) s.sh->ring[i][k] = s.cur[k];
        s.sh->ringLen[i] = int(s.cur.size());
        s.sh->ringN = s.sh->ringN + 1;
    }
    if (s.sh) s.sh->running = 0;
}

inline void dump(const std::string& path, bool done, const std::vector<int>& resume) {
    State& s = S();
    std::string tmp = path + ".tmp";
    FILE* f = fopen(tmp.c_str(), "w");
    fprintf(f, "done %d\nexecutions %llu\ntransitions %llu\npruned %llu\nvalidated %llu\nevaluations %llu\nchoicepoints %llu\n", int(done),
            (unsigned long long)s.executions, (unsigned long long)s.transitions, (unsigned long long)s.pruned,
            (unsigned long long)s.validated, (unsigned long long)s.evaluations, (unsigned long long)s.choicePoints);
    (void)resume;
    for (auto& o : s.outcomes) fprintf(f, "outcome %llu %s\n", (unsigned long long)o.second, o.first.c_str());
    for (auto& o : s.metrics) fprintf(f, "metric %llu %s\n", (unsigned long long)o.second, o.first.c_str());
    for (auto& o : s.maxima) fprintf(f, "max %.17g %s\n", o.second, o.first.c_str());
    for (auto& o : s.samples) fprintf(f, "sample %s\n", jesc(o).c_str());
    for (auto& o : s.fails) {
        fprintf(f, "fail %llu %s\n", (unsigned long long)o.second.count, jesc(o.first).c_str());
        fprintf(f, "fmsg %s\n", jesc(o.second.msg).c_str());
        fprintf(f, "ftrace %s\n", jesc(traceStr(o.second.trace)).c_str());
        fprintf(f, "fcontext %s\nforigin %s\n", o.second.context.c_str(), o.second.origin.c_str());
        fprintf(f, "fchoices");
        for (int c : o.second.choices) fprintf(f, " %d", c);
        fprintf(f, "\n");
    }
    for (uint64_t h : s.states) fprintf(f, "h %llx\n", (unsigned long long)h);
    fclose(f);
    rename(tmp.c_str(), path.c_str());
}

/// argv: --out FILE --tier T --workers N | --replay c,c,c,...
inline int run(int argc, char** argv, const std::function<void()>& body, Options opt = {}) {
    State& s = S();
    std::string out = "/dev/stdout", replay, scratch, ctxFile;
    int workers = 8;
    bool isReplay = false, quiet = false;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        if (a == "--out") out = argv[++i];
        else if (a == "--tier") s.tier = argv[++i];
        else if (a == "--workers") workers = atoi(argv[++i]);
        else if (a == "--replay") { isReplay = true; replay = argv[++i]; }
        else if (a == "--context") ctxFile = argv[++i];
        else if (a == "--scratch") scratch = argv[++i];
        else if (a == "--quiet") quiet = true;
        else if (a == "--wall") opt.wallCap = atof(argv[++i]);
    }
    if (scratch.empty()) {
        char t[] = "/tmp/mcXXXXXX";
        scratch = mkdtemp(t);
    }
    (void)quiet;
    if (isReplay) {
        s.replay = true;
        auto parse = [](const std::string& t) { std::vector<int> v; std::stringstream ss(t); std::string tok; while (getline(ss, tok, ',')) if (!tok.empty()) v.push_back(atoi(tok.c_str())); return v; };
        const std::vector<int> target = parse(replay);
        if (!ctxFile.empty()) {   // first what the worker had run before, in this same process
            std::ifstream in(ctxFile);
            std::string kind, line;
            in >> kind; getline(in, line);
            std::stringstream ls(line);
            if (kind == "context") { std::string e; while (ls >> e) { s.prefix = parse(e); one(body); } }
            else {
                std::string st;
                ls >> s.shard >> s.nshards >> st;
                s.splitDepth = opt.splitDepth; s.replay = false;
                s.prefix = parse(st);
                while (s.prefix != target) {
                    one(body);
                    std::vector<int> c = s.cur, a = s.ar;
                    if (c == target || !nextPrefix(c, a)) break;
                    // a prefix stands for the sequence that continues it with zeros
                    std::vector<int> z = c;
                    while (z.size() < target.size()) z.push_back(0);
                    s.prefix = c;
                    if (z == target) break;
                }
                s.replay = true; s.nshards = 1;
            }
            s.fails.clear();
        }
        s.prefix = target;
        alarm(unsigned(opt.hangLimit) + 5);
        one(body);
        for (auto& f : s.fails)
            fprintf(stderr, "REPLAY-FAIL key=%s msg=%s\ntrace: %s\n", f.first.c_str(), f.second.msg.c_str(), traceStr(f.second.trace).c_str());
        if (s.fails.empty()) fprintf(stderr, "REPLAY-PASS trace: %s\n", traceStr(s.trace).c_str());
        dump(out, true, {});
        return s.fails.empty() ? 0 : 1;
    }
    struct W { std::vector<int> start; pid_t pid = -1; Shared* sh; int id; int part = 0; std::string err; uint64_t lastBeat = 0; double lastT = 0; int crashes = 0; bool fin = false; bool capped = false; };
    std::vector<W> ws{size_t(workers)};
    std::vector<std::string> parts;
    std::map<std::string, State::F> crashFails;
    auto now = [] { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return double(t.tv_sec) + 1e-9 * double(t.tv_nsec); };
    double t0 = now();
    auto launch = [&](W& w, const std::vector<int>& start) {
        std::string part = scratch + "/part" + std::to_string(w.id) + "_" + std::to_string(w.part++);
        parts.push_back(part);
        w.err = part + ".err";
        w.start = start;
        w.lastBeat = 0; w.lastT = now();
        w.sh->running = 0;
        fflush(stdout); fflush(stderr);
        pid_t p = fork();
        if (p == 0) {
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            int fd = open(w.err.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
            dup2(fd, 1); dup2(fd, 2);
            s.sh = w.sh; s.shard = w.id; s.nshards = workers; s.splitDepth = opt.splitDepth;
            s.prefix = start; s.start = start;
            s.sh->ringN = 0;
            bool more = true, capped = false;
            uint64_t n = 0;
            double last = now(), before = last;
            size_t kinds = 0;
            while (more) {
                one(body);
                double after = now();
                maxi("execution_s", after - before);
                before = after;
                if (s.fails.size() != kinds) { kinds = s.fails.size(); dump(part, false, {}); }
                std::vector<int> c = s.cur, a = s.ar;
                more = nextPrefix(c, a);
                s.prefix = c;
                if (s.fails.size() > opt.maxFailKinds) { capped = true; break; }
                if ((++n & 63) == 0) {
                    double t = now();
                    if (t - last > 5) { dump(part, false, {}); last = t; }
                    if (ftell(stdout) > (8 << 20)) { if (ftruncate(1, 0)) {} lseek(1, 0, SEEK_SET); }
                }
            }
            if (capped) s.metrics["capped"]++;
            dump(part, true, {});
            _exit(0);
        }
        w.pid = p;
    };
    for (int i = 0; i < workers; ++i) {
        ws[size_t(i)].id = i;
        ws[size_t(i)].sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        launch(ws[size_t(i)], {});
    }
    int live = workers;
    bool internal = false;
    int hangs = 0;
    while (live > 0) {
        const bool late = opt.wallCap > 0 && now() - t0 > opt.wallCap;
        if (late || hangs >= opt.maxHangs) {
            for (auto& w : ws) if (!w.fin) { int st; kill(w.pid, SIGKILL); waitpid(w.pid, &st, 0); w.fin = true; live--; }
            metric("capped");
            if (late) metric("wall_capped");
            break;
        }
        for (auto& w : ws) {
            if (w.fin) continue;
            int st;
            pid_t r = waitpid(w.pid, &st, WNOHANG);
            bool hang = false;
            if (r == 0) {
                if (w.sh->beat != w.lastBeat) { w.lastBeat = w.sh->beat; w.lastT = now(); continue; }
                else if (w.sh->running && now() - w.lastT > opt.hangLimit) {
                    kill(w.pid, SIGKILL);
                    waitpid(w.pid, &st, 0);
                    hang = true;
                    hangs++;
                } else continue;
            }
            if (!hang && WIFEXITED(st) && WEXITSTATUS(st) == 0) { w.fin = true; live--; continue; }
            if (!hang && WIFEXITED(st) && (WEXITSTATUS(st) == 97 || WEXITSTATUS(st) == 98)) {
                std::ifstream e(w.err); std::stringstream b; b << e.rdbuf();
                fprintf(stderr, "mc: internal error in worker: %s\n", b.str().c_str());
                internal = true; w.fin = true; live--; continue;
            }
            // crash / hang: attribute to the published choices
            std::vector<int> c, a;
            for (int d = 0; d < w.sh->depth; ++d) { c.push_back(int(w.sh->choice[d])); a.push_back(int(w.sh->arity[d])); }
            std::string key = hang ? "hang" : "crash", tail;
            {
                std::ifstream e(w.err); std::stringstream b; b << e.rdbuf();
                tail = b.str();
                size_t p = tail.find("ERROR: AddressSanitizer");
                if (p == std::string::npos) p = tail.find("runtime error:");
                if (p == std::string::npos) p = tail.find("EIGEN-ASSERT");
                if (p == std::string::npos) p = tail.find("Assertion");
                if (p != std::string::npos) tail = tail.substr(p > 120 ? p - 120 : 0, 700);
                else if (tail.size() > 700) tail = tail.substr(tail.size() - 700);
            }
            auto& f = crashFails[key];
            if (f.count++ == 0) { f.msg = (hang ? std::string("no progress within the execution limit") : fmt("worker died (status 0x%x)", st)) + ": " + tail; f.choices = c; f.context = ringStr(w.sh); f.origin = originStr(w.id, workers, w.start); }
            metric("crashed_executions");
            w.crashes++;
            std::vector<int> nx = c;
            if (w.crashes > opt.maxCrashes) { w.fin = true; w.capped = true; live--; metric("capped"); continue; }
            if (!nextPrefix(nx, a)) { w.fin = true; live--; continue; }
            launch(w, nx);
        }
        usleep(2000);
    }
    // merge
    FILE* fo = fopen(out.c_str(), "w");
    uint64_t ex = 0, tr = 0, pr = 0, va = 0, ev = 0, cp = 0;
    std::map<std::string, uint64_t> outc, met;
    std::map<std::string, double> mx;
    std::vector<std::string> samples;
    std::map<std::string, State::F> fails;
    std::unordered_set<std::string> hashes;
    for (auto& kv : S().metrics) met[kv.first] += kv.second;
    for (auto& p : parts) {
        std::ifstream in(p);
        std::string line, curKey;
        State::F cur;
        while (getline(in, line)) {
            std::istringstream is(line);
            std::string k;
            is >> k;
            auto rest = [&] { std::string r; getline(is, r); return r.empty() ? r : r.substr(1); };
            if (k == "executions") { uint64_t x; is >> x; ex += x; }
            else if (k == "transitions") { uint64_t x; is >> x; tr += x; }
            else if (k == "pruned") { uint64_t x; is >> x; pr += x; }
            else if (k == "validated") { uint64_t x; is >> x; va += x; }
            else if (k == "evaluations") { uint64_t x; is >> x; ev += x; }
            else if (k == "choicepoints") { uint64_t x; is >> x; cp += x; }
            else if (k == "outcome") { uint64_t x; is >> x; outc[rest()] += x; }
            else if (k == "metric") { uint64_t x; is >> x; met[rest()] += x; }
            else if (k == "max") { double x; is >> x; auto n = rest(); if (!mx.count(n) || !(x <= mx[n])) mx[n] = x; }
            else if (k == "sample") { if (samples.size() < 12) samples.push_back(rest()); }
            else if (k == "h") { std::string x; is >> x; hashes.insert(x); }
            else if (k == "fail") { uint64_t x; is >> x; curKey = rest(); cur = {}; cur.count = x; }
            else if (k == "fmsg") cur.msg = rest();
            else if (k == "ftrace") cur.trace = {rest()};
            else if (k == "fcontext") cur.context = rest();
            else if (k == "forigin") cur.origin = rest();
            else if (k == "fchoices") {
                int c;
                while (is >> c) cur.choices.push_back(c);
                auto& f = fails[curKey];
                bool better = f.count == 0 || cur.choices.size() < f.choices.size() ||
                              (cur.choices.size() == f.choices.size() && cur.choices < f.choices);
                uint64_t n = f.count + cur.count;
                if (better) f = cur;
                f.count = n;
            }
        }
    }
    fprintf(fo, "{\"executions\":%llu,\"transitions\":%llu,\"pruned\":%llu,\"validated\":%llu,\"evaluations\":%llu,\"choice_points\":%llu,\"states\":%zu,\"internal_error\":%s,\n",
            (unsigned long long)ex, (unsigned long long)tr, (unsigned long long)pr, (unsigned long long)va, (unsigned long long)ev, (unsigned long long)cp, hashes.size(), internal ? "true" : "false");
    auto obj = [&](const char* n, auto& m, const char* f) {
        fprintf(fo, "\"%s\":{", n);
        bool first = true;
        for (auto& o : m) { fprintf(fo, "%s\"%s\":", first ? "" : ",", jesc(o.first).c_str()); fprintf(fo, f, o.second); first = false; }
        fprintf(fo, "},\n");
    };
    obj("outcomes", outc, "%lu");
    obj("metrics", met, "%lu");
    for (auto& m : mx) if (!std::isfinite(m.second)) m.second = 1e308;
    obj("maxima", mx, "%.6g");
    fprintf(fo, "\"samples\":[");
    for (size_t i = 0; i < samples.size(); ++i) fprintf(fo, "%s\"%s\"", i ? "," : "", samples[i].c_str());
    fprintf(fo, "],\n\"fails\":[");
    bool first = true;
    auto pf = [&](const std::string& k, const State::F& f, bool esc) {
        fprintf(fo, "%s\n{\"key\":\"%s\",\"count\":%llu,\"msg\":\"%s\",\"trace\":\"%s\",\"context\":\"%s\",\"origin\":\"%s\",\"choices\":[", first ? "" : ",", esc ? jesc(k).c_str() : k.c_str(), (unsigned long long)f.count,
                esc ? jesc(f.msg).c_str() : f.msg.c_str(), f.trace.empty() ? "" : f.trace[0].c_str(), f.context.c_str(), f.origin.c_str());
        for (size_t i = 0; i < f.choices.size(); ++i) fprintf(fo, "%s%d", i ? "," : "", f.choices[i]);
        fprintf(fo, "]}");
        first = false;
    };
    for (auto& f : fails) pf(f.first, f.second, false);
    for (auto& f : crashFails) pf(f.first, f.second, true);
    fprintf(fo, "]}\n");
    fclose(fo);
    for (auto& p : parts) { unlink(p.c_str()); unlink((p + ".err").c_str()); unlink((p + ".tmp").c_str()); }
    return internal ? 3 : 0;
}
}  // namespace mc
