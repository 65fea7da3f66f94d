// Native back end of sym.h: runs the harness on recorded inputs, against the real code as compiled by the project's compiler.
//   replay CASES [timeout]     CASES: lines "case ID", "p NAME VALUE" (parameter), "i NAME VALUE" (input), "end"
// One line of JSON per case: {"id":..,"result":"ok|check|exception|crash|timeout|assume","msg":..,"obs":[[name,value],..]}
#include "sym.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fstream>
#include <iostream>
#include <map>
#include <string>
#include <typeinfo>
#include <vector>
#include <cxxabi.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <poll.h>
#include <signal.h>
#include <time.h>

extern "C" void harness();
namespace {
std::map<std::string, long> params, inputs;
std::map<std::string, int> count;
int out = 1;
int missing = 0;
std::string esc(const std::string& s) { std::string r; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r; }
std::string obs;
[[noreturn]] void finish(const char* kind, const std::string& msg) {
    std::string s = std::string("\"result\":\"") + kind + "\",\"msg\":\"" + esc(msg) + "\",\"missing\":" + std::to_string(missing) + ",\"obs\":[" + obs + "]";
    if (write(out, s.data(), s.size()) < 0) {}
    _exit(0);
}
}
extern "C" {
const char* __asan_default_options() { return "exitcode=99:abort_on_error=0:detect_leaks=0:allocator_may_return_null=0:max_allocation_size_mb=4096:detect_stack_use_after_return=1"; }
const char* __ubsan_default_options() { return "print_stacktrace=1:halt_on_error=1:exitcode=99"; }
long sym_param(const char* n, long d) { auto i = params.find(n); return i == params.end() ? d : i->second; }
long sym_range(const char* n, long lo, long hi) {
    if (lo > hi) finish("assume", "empty range");
    int k = count[n]++; std::string key = k ? std::string(n) + "#" + std::to_string(k) : n;
    auto i = inputs.find(key); if (i == inputs.end()) { missing++; return lo; }
    if (i->second < lo || i->second > hi) finish("assume", "input " + key + " out of range");
    return i->second;
}
long sym_fork(long v) { return v; }
void sym_assume(int c) { if (!c) finish("assume", ""); }
void sym_check(int c, const char* msg) { if (!c) finish("check", msg); }
void sym_cover(const char*) {}
void sym_observe(const char* n, long v) { obs += (obs.empty() ? "[\"" : ",[\"") + esc(n) + "\"," + std::to_string(v) + "]"; }
void sym_debug(const char*, long) {}
}
namespace std {
template <> template <> int uniform_int_distribution<int>::operator()(mt19937&, const param_type& p) { return sym_range("draw", p.a(), p.b()); }
}
int main(int argc, char** argv) {
    if (argc < 2) return 2;
    double tmo = argc > 2 ? atof(argv[2]) : 10;
    std::ifstream f(argv[1]); std::string w, id, n; long v;
    while (f >> w) {
        if (w == "case") { f >> id; params.clear(); inputs.clear(); }
        else if (w == "p") { f >> n >> v; params[n] = v; }
        else if (w == "i") { f >> n >> v; inputs[n] = v; }
        else if (w == "end") {
            int p[2], q[2]; if (pipe(p) || pipe(q)) return 2; fflush(stdout);
            pid_t c = fork();
            if (c == 0) {
                close(p[0]); close(q[0]); dup2(q[1], 2); out = p[1]; setpgid(0, 0);
                rlimit rl{(rlim_t)tmo + 1, (rlim_t)tmo + 2}; setrlimit(RLIMIT_CPU, &rl); rlimit core{0, 0}; setrlimit(RLIMIT_CORE, &core);
                try { harness(); }
                catch (const std::exception& e) { int st; char* d = abi::__cxa_demangle(typeid(e).name(), 0, 0, &st); finish("exception", std::string(d ? d : "?") + ": " + e.what()); }
                catch (...) { finish("exception", "not a std::exception"); }
                finish("ok", "");
            }
            close(p[1]); close(q[1]); std::string res, er; timespec t0, t1; clock_gettime(CLOCK_MONOTONIC, &t0); bool late = false, po = true, qo = true;
            while (po || qo) {
                pollfd fd[2] = {{po ? p[0] : -1, POLLIN, 0}, {qo ? q[0] : -1, POLLIN, 0}}; poll(fd, 2, 200); char b[4096]; ssize_t k;
                if (fd[0].revents) { if ((k = read(p[0], b, sizeof b)) > 0) res.append(b, k); else po = false; }
                if (fd[1].revents) { if ((k = read(q[0], b, sizeof b)) > 0) { if (er.size() < 20000) er.append(b, k); } else qo = false; }
                clock_gettime(CLOCK_MONOTONIC, &t1); if (!late && t1.tv_sec - t0.tv_sec + (t1.tv_nsec - t0.tv_nsec) * 1e-9 > tmo) { late = true; kill(c, SIGKILL); }
            }
            close(p[0]); close(q[0]); int st = 0; waitpid(c, &st, 0);
            if (late || (WIFSIGNALED(st) && WTERMSIG(st) == SIGXCPU)) res = "\"result\":\"timeout\",\"msg\":\"\",\"missing\":0,\"obs\":[]";
            else if (res.empty()) {
                std::string m; size_t k = er.find("runtime error: "); if (k == er.npos) k = er.find("ERROR: AddressSanitizer"); if (k == er.npos) k = er.find("Assertion"); if (k == er.npos) k = 0; m = er.substr(k, er.find('\n', k) - k);
                size_t fr = 0; while ((fr = er.find("\n    #", fr)) != er.npos) { size_t e = er.find('\n', fr + 1); std::string l = er.substr(fr + 1, e - fr - 1); fr = e == er.npos ? e : e; if (l.find("/sources/") != l.npos) { m += " at " + l.substr(l.find(" in ") + 4); break; } if (e == er.npos) break; }
                res = "\"result\":\"crash\",\"msg\":\"" + esc((WIFSIGNALED(st) ? "signal " + std::to_string(WTERMSIG(st)) + " " : "exit " + std::to_string(WEXITSTATUS(st)) + " ") + m) + "\",\"missing\":0,\"obs\":[]";
            }
            printf("{\"id\":\"%s\",%s}\n", id.c_str(), res.c_str()); fflush(stdout);
        }
    }
}
