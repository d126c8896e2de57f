// The command line tool itself (its main function renamed), callable in this process and in a forked one.
#include "parsing/SolverInstanceJsonParser.h"
#include "parsing/Parsing.h"
#include "Verifier.h"
#include "utils/json_stream.h"
#include "cli.h"
#include <sys/wait.h>
#include <sys/resource.h>
#include <fcntl.h>
#include <unistd.h>
#define main pdaaal_main
#include "main.cpp"
#undef main
namespace cli {
static int call(const std::vector<std::string>& args) { std::vector<const char*> a{"pdaaal"}; for (auto& x : args) a.push_back(x.c_str()); int n = (int)a.size(); a.push_back(nullptr); return pdaaal_main(n, a.data()); }
Res inproc(const std::vector<std::string>& args, const std::string& in) {
    std::istringstream is(in); std::ostringstream os, es; Res r;
    auto* a = std::cin.rdbuf(is.rdbuf()); auto* b = std::cout.rdbuf(os.rdbuf()); auto* c = std::cerr.rdbuf(es.rdbuf()); std::cin.clear(); std::cout.clear();
    auto back = [&] { std::cin.rdbuf(a); std::cout.rdbuf(b); std::cerr.rdbuf(c); };
    try { r.rc = call(args); } catch (...) { back(); throw; }
    back(); r.out = os.str(); r.err = es.str(); return r;
}
Res forked(const std::vector<std::string>& args, const std::string& in) {
    Res r; std::string dir = getenv("VF_SCRATCH") ? getenv("VF_SCRATCH") : "/tmp"; std::string base = dir + "/io" + std::to_string(getpid());
    { std::ofstream f(base + ".in", std::ios::binary); f << in; }
    pid_t p = fork();
    if (p == 0) {
        auto to = [](const std::string& n, int fl, int fd) { int x = open(n.c_str(), fl, 0600); if (x < 0 || dup2(x, fd) < 0) _exit(99); close(x); };
        to(base + ".in", O_RDONLY, 0); to(base + ".out", O_WRONLY | O_CREAT | O_TRUNC, 1); to(base + ".err", O_WRONLY | O_CREAT | O_TRUNC, 2);
        struct rlimit l{0, 0}; setrlimit(RLIMIT_CORE, &l); signal(SIGABRT, SIG_DFL); signal(SIGSEGV, SIG_DFL); alarm(15);
        std::cin.clear(); std::ios::sync_with_stdio(true);
        [&]() noexcept { exit(call(args)); }(); // an exception that leaves main ends the process
    }
    int st = 0; waitpid(p, &st, 0);
    auto slurp = [](const std::string& n) { std::ifstream f(n, std::ios::binary); std::stringstream s; s << f.rdbuf(); return s.str(); };
    r.out = slurp(base + ".out"); r.err = slurp(base + ".err"); unlink((base + ".in").c_str()); unlink((base + ".out").c_str()); unlink((base + ".err").c_str());
    if (WIFSIGNALED(st)) r.sig = WTERMSIG(st); else r.rc = WEXITSTATUS(st);
    return r;
}
}
