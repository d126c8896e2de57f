// Tiny bounded-exhaustive exploration driver.
//  * every check is a set of "suites"; a suite enumerates its finite space and calls mc::run_case for every element;
//  * the space is split over worker processes by case index; a crash, failed assertion, hang or memory blow-up of the
//    code under test on one case is attributed to that case (the parent reads the worker's current case index);
//  * nothing is sampled: every index is executed by exactly one worker.
#pragma once
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <signal.h>
#include <fcntl.h>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

namespace mc {
struct Violation : std::exception {
    std::string msg;
    explicit Violation(std::string m) : msg(std::move(m)) {}
    const char* what() const noexcept override { return msg.c_str(); }
};
[[noreturn]] inline void fail(const std::string& m) { throw Violation(m); }
inline void require(bool b, const char* m) { if (!b) throw Violation(m); }
template<typename F> inline void require_f(bool b, F&& f) { if (!b) throw Violation(f()); }

struct Slot { // one per worker, in shared memory
    volatile uint64_t index;
    volatile int suite;
    volatile int in_case;
    volatile int finished;
    volatile int done_suites;
};
constexpr int MAXW = 64;
struct Shared { Slot w[MAXW]; };

struct State {
    bool thorough = false;
    int shard = 0, nshards = 1;
    int suite_id = -1;
    std::string suite;
    uint64_t index = 0;           // running index of the current suite
    bool replay = false;
    int replay_suite = -1;
    uint64_t replay_index = 0;
    bool describe_only = false;
    std::set<std::pair<int, uint64_t>> skip; // cases that killed a worker before
    std::map<std::string, uint64_t> counters;
    std::vector<std::string> samples;
    struct V { int suite; uint64_t index; std::string suite_name, desc, msg; };
    std::vector<V> violations; std::string file; // where this worker writes its result
    size_t max_violations = 3;
    Shared* shared = nullptr;
    int start_suite = 0; uint64_t start_index = 0; // resume point after a worker died
};
inline void write_worker(const std::string& path);
inline State& st() { static State s; return s; }
inline bool thorough() { return st().thorough; }
inline void count(const char* name, uint64_t n = 1) { st().counters[name] += n; }

inline uint64_t mix(uint64_t x) { x += 0x9E3779B97F4A7C15ull; x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull; x = (x ^ (x >> 27)) * 0x94D049BB133111EBull; return x ^ (x >> 31); }

struct StopShard {};

// next(): advance to the next element of the space; true if this worker owns it.
inline bool next() {
    State& s = st();
    uint64_t i = s.index++;
    if (s.replay) return s.suite_id == s.replay_suite && i == s.replay_index;
    if (s.nshards > 1 && mix(i) % s.nshards != (uint64_t)s.shard) return false;
    if (s.suite_id == s.start_suite && i < s.start_index) return false;
    if (!s.skip.empty() && s.skip.count({s.suite_id, i})) return false;
    return true;
}
// exec(): run one element (after next() returned true).
struct CaseRef { void* d; std::string (*describe)(void*); void* b; void (*body)(void*); }; // type-erased, keeps the instantiations small
[[gnu::noinline]] inline void exec_ref(const CaseRef& c) {
    auto describe = [&] { return c.describe(c.d); };
    auto body = [&] { c.body(c.b); };
    State& s = st();
    uint64_t i = s.index - 1;
    if (s.replay) {
        std::cout << "case " << s.suite << ":" << i << "\n" << describe() << std::endl;
        if (s.describe_only) throw StopShard{};
    }
    Slot* slot = s.shared ? &s.shared->w[s.shard] : nullptr;
    if (slot) { slot->suite = s.suite_id; slot->index = i; slot->in_case = 1; }
    s.counters["evaluations"]++;
    if (s.samples.size() < 2) s.samples.push_back(s.suite + ":" + std::to_string(i) + " " + describe());
    auto record = [&](const std::string& msg) {
        s.violations.push_back({s.suite_id, i, s.suite, describe(), msg});
        if (s.replay) std::cout << "VIOLATED: " << msg << std::endl;
        if (!s.file.empty()) write_worker(s.file); // not lost if the exploration is stopped later
        if (s.violations.size() >= s.max_violations) throw StopShard{};
    };
    try { body(); }
    catch (const StopShard&) { throw; }
    catch (const Violation& v) { record(v.msg); }
    catch (const std::exception& e) { record(std::string("unexpected exception: ") + e.what()); }
    if (slot) slot->in_case = 0;
    if (s.replay) throw StopShard{};
}
template<typename D, typename F>
inline void exec(D&& describe, F&& body) {
    using DT = std::remove_reference_t<D>; using FT = std::remove_reference_t<F>;
    exec_ref({(void*)&describe, [](void* p) -> std::string { return (*(DT*)p)(); }, (void*)&body, [](void* p) { (*(FT*)p)(); }});
}
template<typename D, typename F>
inline void run_case(D&& describe, F&& body) { if (next()) exec(describe, body); }

struct Suite { std::string name; std::function<void()> fn; };
struct Check { std::string property; std::string rule; std::vector<std::string> assumptions; std::vector<Suite> suites; std::string bounds_quick, bounds_thorough; };

inline std::string jesc(const std::string& s) {
    std::string r;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += (char)c; }
        else if (c == '\n') r += "\\n";
        else if (c == '\t') r += "\\t";
        else if (c < 0x20) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
        else r += (char)c;
    }
    return r;
}

inline void write_worker(const std::string& path) {
    State& s = st();
    std::ofstream o(path);
    for (auto& [k, v] : s.counters) o << "C " << k << " " << v << "\n";
    for (auto& x : s.samples) { std::string t = x; for (auto& c : t) if (c == '\n') c = ' '; o << "S " << t << "\n"; }
    for (auto& v : s.violations) {
        auto one = [](std::string t) { std::string r; for (char c : t) { if (c == '\n') r += "\\n"; else r += c; } return r; };
        o << "V " << v.suite << " " << v.index << " " << v.suite_name << "\n" << one(v.desc) << "\n" << one(v.msg) << "\n";
    }
    o.close();
}
inline std::string unone(const std::string& t) { std::string r; for (size_t i = 0; i < t.size(); ++i) { if (t[i] == '\\' && i + 1 < t.size() && t[i+1] == 'n') { r += '\n'; ++i; } else r += t[i]; } return r; }

inline double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
inline double cpu_of(pid_t p) { clockid_t c; if (clock_getcpuclockid(p, &c)) return -1; timespec t; if (clock_gettime(c, &t)) return -1; return t.tv_sec + t.tv_nsec * 1e-9; }

inline int run_suites(const Check& c) { // in a worker
    State& s = st();
    try {
        for (size_t i = 0; i < c.suites.size(); ++i) {
            if ((int)i < s.start_suite && !s.replay) continue;
            if (s.replay && (int)i != s.replay_suite) continue;
            s.suite_id = i; s.suite = c.suites[i].name; s.index = 0;
            if (const char* only = getenv("MC_ONLY")) if (s.suite.find(only) == std::string::npos) continue;
            c.suites[i].fn();
            s.counters["space:" + s.suite] = s.shard == 0 ? s.index : 0;
        }
    } catch (const StopShard&) {}
    return s.violations.empty() ? 0 : 1;
}

// arguments: --tier quick|thorough --workers N --out FILE (machine-readable result) --scratch DIR | --replay SUITE:INDEX
inline int main_(int argc, char** argv, const Check& c) {
    State& s = st();
    int workers = 8; std::string out, scratch = "/tmp"; double deadline = 1e18, hang = 60; size_t mem_mb = 3000;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto val = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--tier") s.thorough = val() == "thorough";
        else if (a == "--workers") workers = std::stoi(val());
        else if (a == "--out") out = val();
        else if (a == "--scratch") scratch = val();
        else if (a == "--deadline") deadline = std::stod(val());
        else if (a == "--hang") hang = std::stod(val());
        else if (a == "--mem") mem_mb = std::stoul(val());
        else if (a == "--describe") s.describe_only = true;
        else if (a == "--replay") {
            std::string v = val(); auto p = v.rfind(':');
            s.replay = true; s.replay_index = std::stoull(v.substr(p + 1));
            std::string name = v.substr(0, p);
            for (size_t k = 0; k < c.suites.size(); ++k) if (c.suites[k].name == name) s.replay_suite = k;
        }
    }
    if (s.replay) { int r = run_suites(c); std::cout << (r ? "violated" : "held") << std::endl; return r; }
    if (workers > MAXW) workers = MAXW;
    s.shared = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    memset((void*)s.shared, 0, sizeof(Shared));
    double t0 = now();
    std::vector<pid_t> pid(workers, 0);
    std::vector<int> gen(workers, 0);
    std::vector<std::string> files;
    std::vector<std::pair<int, uint64_t>> start(workers, {0, 0});
    struct Crash { int suite; uint64_t index; std::string how; };
    std::vector<Crash> crashes;
    bool timed_out = false, stop = false;
    auto spawn = [&](int w) {
        std::string f = scratch + "/w" + std::to_string(w) + "_" + std::to_string(gen[w]++);
        files.push_back(f); unlink(f.c_str());
        s.shared->w[w].in_case = 0; s.shared->w[w].finished = 0;
        fflush(nullptr);
        pid_t p = fork();
        if (p == 0) {
            s.shard = w; s.nshards = workers;
            s.start_suite = start[w].first; s.start_index = start[w].second;
            if (mem_mb) { rlimit rl{mem_mb << 20, mem_mb << 20}; setrlimit(RLIMIT_AS, &rl); }
            rlimit nc{0, 0}; setrlimit(RLIMIT_CORE, &nc);
            std::string err = f + ".err";
            int fd = open(err.c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0644);
            if (fd >= 0) { dup2(fd, 2); close(fd); }
            int dn = open("/dev/null", O_WRONLY); if (dn >= 0) { dup2(dn, 1); close(dn); }
            s.file = f;
            int r = run_suites(c);
            write_worker(f);
            s.shared->w[w].finished = 1;
            _exit(r);
        }
        pid[w] = p;
    };
    for (int w = 0; w < workers; ++w) spawn(w);
    struct Watch { int suite = -1; uint64_t index = (uint64_t)-1; double cpu = 0; bool killed = false; };
    std::vector<Watch> watch(workers);
    int alive = workers; double slow_cpu = 0; std::string slow_case;
    size_t crash_limit = 4;
    std::map<int, std::string> lasterr;
    while (alive > 0) {
        usleep(20000);
        for (int w = 0; w < workers; ++w) {
            if (!pid[w]) continue;
            int status; pid_t r = waitpid(pid[w], &status, WNOHANG);
            if (r == pid[w]) {
                Slot& sl = s.shared->w[w];
                pid[w] = 0; --alive;
                if (sl.finished) continue;
                // died inside a case
                std::string how = watch[w].killed ? "hang (no progress for a long CPU time)" :
                    WIFSIGNALED(status) ? std::string("killed by signal ") + strsignal(WTERMSIG(status)) : "exited with status " + std::to_string(WEXITSTATUS(status));
                {
                    std::ifstream e(files.size() ? (scratch + "/w" + std::to_string(w) + "_" + std::to_string(gen[w]-1) + ".err") : "");
                    std::string line, txt; int n = 0; while (std::getline(e, line) && n++ < 12) txt += line + "\n";
                    how += "\n" + txt;
                }
                if (stop) continue;
                crashes.push_back({sl.suite, sl.index, how});
                if (crashes.size() < crash_limit) {
                    start[w] = {sl.suite, sl.index + 1};
                    s.skip.insert({sl.suite, sl.index});
                    watch[w] = Watch{};
                    spawn(w); ++alive;
                }
            } else {
                Slot& sl = s.shared->w[w];
                double cpu = cpu_of(pid[w]);
                if (!sl.in_case || sl.suite != watch[w].suite || sl.index != watch[w].index) { watch[w].suite = sl.suite; watch[w].index = sl.index; watch[w].cpu = cpu; }
                else if (cpu - watch[w].cpu > slow_cpu) { slow_cpu = cpu - watch[w].cpu; slow_case = c.suites[sl.suite].name + ":" + std::to_string((unsigned long long)sl.index); }
                if (sl.in_case && sl.suite == watch[w].suite && sl.index == watch[w].index && cpu - watch[w].cpu > hang && !watch[w].killed) { watch[w].killed = true; kill(pid[w], SIGKILL); }
            }
        }
        if (!stop && now() - t0 > deadline) { timed_out = true; stop = true; for (auto p : pid) if (p) kill(p, SIGKILL); }
    }
    // collect
    std::map<std::string, uint64_t> counters; std::vector<std::string> samples; std::vector<State::V> vs;
    for (auto& f : files) {
        std::ifstream i(f); std::string line;
        while (std::getline(i, line)) {
            if (line.size() > 2 && line[0] == 'C') { std::istringstream is(line.substr(2)); std::string k; uint64_t v; is >> k >> v; counters[k] += v; }
            else if (line.size() > 2 && line[0] == 'S') { if (samples.size() < 6) samples.push_back(line.substr(2)); }
            else if (line.size() > 2 && line[0] == 'V') {
                State::V v; std::istringstream is(line.substr(2)); is >> v.suite >> v.index >> v.suite_name;
                std::getline(i, v.desc); std::getline(i, v.msg); v.desc = unone(v.desc); v.msg = unone(v.msg); vs.push_back(v);
            }
        }
    }
    for (auto& cr : crashes) {
        State::V v; v.suite = cr.suite; v.index = cr.index; v.suite_name = c.suites[cr.suite].name; v.msg = "the code under test died: " + cr.how;
        // obtain the description of the case in a throw-away child
        std::string df = scratch + "/desc";
        fflush(nullptr);
        pid_t p = fork();
        if (p == 0) {
            int fd = open(df.c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0644); dup2(fd, 1); close(fd);
            alarm(120);
            s.replay = true; s.describe_only = true; s.replay_suite = cr.suite; s.replay_index = cr.index; s.start_suite = 0; s.start_index = 0;
            run_suites(c); std::cout.flush(); _exit(0);
        }
        int stt; waitpid(p, &stt, 0);
        std::ifstream i(df); std::string line, d; std::getline(i, line); while (std::getline(i, line)) d += line + "\n";
        if (!d.empty() && d.back() == '\n') d.pop_back();
        v.desc = d; vs.push_back(v);
    }
    if (getenv("MC_SLOW")) std::cerr << "slowest case: " << slow_case << " " << slow_cpu << " s\n";
    std::ostringstream o;
    o << "{\"property\":\"" << c.property << "\",\"exhaustive\":" << (timed_out || !vs.empty() ? "false" : "true") << ",\"timed_out\":" << (timed_out ? "true" : "false")
      << ",\"wall_s\":" << now() - t0 << ",\"rule\":\"" << jesc(c.rule) << "\",\"bounds\":\"" << jesc(s.thorough ? c.bounds_thorough : c.bounds_quick) << "\",\"assumptions\":[";
    for (size_t i = 0; i < c.assumptions.size(); ++i) o << (i ? "," : "") << "\"" << jesc(c.assumptions[i]) << "\"";
    o << "],\"counters\":{"; bool f = true;
    for (auto& [k, v] : counters) { o << (f ? "" : ",") << "\"" << jesc(k) << "\":" << v; f = false; }
    o << "},\"samples\":["; f = true;
    for (auto& x : samples) { o << (f ? "" : ",") << "\"" << jesc(x.substr(0, 1500)) << "\""; f = false; }
    o << "],\"violations\":["; f = true;
    for (auto& v : vs) { o << (f ? "" : ",") << "{\"suite\":\"" << jesc(v.suite_name) << "\",\"index\":" << v.index << ",\"case\":\"" << jesc(v.desc) << "\",\"what\":\"" << jesc(v.msg) << "\"}"; f = false; }
    o << "]}";
    if (!out.empty()) { std::ofstream of(out); of << o.str(); } else std::cout << o.str() << std::endl;
    return vs.empty() ? 0 : 1;
}
}
