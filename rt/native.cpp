// Native side of the harness interface: replays one recorded assignment of the symbolic inputs.
// usage: replay <entry> <inputs>     inputs: lines "<name> <bits> <value>"; "param <name> <value>"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <map>
#include <deque>
#include <fstream>
#include <iostream>
#include <sstream>
#include <mutex>
#include <dlfcn.h>
#include <unistd.h>
#include "sym.h"
static std::map<std::string, std::deque<std::uint64_t>> g_in; static std::map<std::string, std::int64_t> g_param; static std::mutex g_m;
static FILE* g_out;
static std::uint64_t next(const std::string& n) {
    std::lock_guard<std::mutex> l(g_m); auto& q = g_in[n];
    if (q.empty()) { fprintf(g_out, "NOINPUT %s\n", n.c_str()); return 0; }
    auto v = q.front(); q.pop_front(); return v;
}
static void finish(int c) { fflush(g_out); _exit(c); }
extern "C" {
std::uint64_t sym_int(const char* n, unsigned bits) { auto v = next(n); return bits >= 64 ? v : v & ((1ull << bits) - 1); }
void sym_bytes(void* p, std::size_t n, const char* nm) { for (std::size_t i = 0; i < n; i++) ((unsigned char*)p)[i] = (unsigned char)next(nm); }
void sym_assume(int c) { if (!c) { fprintf(g_out, "ASSUME-FALSE\n"); finish(77); } }
void sym_check(int c, const char* m) { if (!c) { fprintf(g_out, "CHECK-FAIL %s\n", m); finish(42); } }
void sym_reach(const char*) {}
void sym_observe(const char* l, const void* p, std::size_t n) { std::lock_guard<std::mutex> k(g_m); fprintf(g_out, "OBS %s ", l); for (std::size_t i = 0; i < n; i++) fprintf(g_out, "%02x", ((const unsigned char*)p)[i]); fputc('\n', g_out); }
std::uint64_t sym_concrete(std::uint64_t v) { return v; }
std::int64_t sym_param(const char* n, std::int64_t d) { auto it = g_param.find(n); return it == g_param.end() ? d : it->second; }
void sym_note(const char* s) { fprintf(g_out, "NOTE %s\n", s); }
void sym_trace(const char* s, std::uint64_t v) { fprintf(stderr, "trace %s %lld\n", s, (long long)v); }
static std::recursive_mutex g_env;
void sym_env(int on) { if (on) g_env.lock(); else g_env.unlock(); }
int sym_is_symbolic(std::uint64_t) { return 0; }
void sym_kill() { fprintf(g_out, "KILL\n"); finish(0); }
void sym_fail(const char* k, const char* m) { fprintf(g_out, "CHECK-FAIL %s: %s\n", k, m); finish(42); }
void sym_unsupported(const char* m) { fprintf(g_out, "UNSUPPORTED %s\n", m); finish(78); }
static std::string g_con[3];
std::string* rt_console_p(int fd) { return &g_con[fd]; }
}
std::string& rt_console(int fd) __asm__("rt_console");
std::string& rt_console(int fd) { return g_con[fd]; }
#include "file.inl"
// ---- in-memory files, as in env.cpp; harnesses may replace them
#define WEAK __attribute__((weak))
extern "C" {
struct rt_file { std::string* data; bool append; unsigned long pos; };
static std::deque<rt_file> g_fds;
std::map<std::string, std::string>& rt_fs() { static std::map<std::string, std::string> fs; return fs; }
WEAK int rt_file_open(const char* path, int mode) {
    auto& fs = rt_fs(); bool in = mode & 8, out = mode & 16, app = mode & 1, trunc = mode & 32;
    if (!out && !app && !fs.count(path)) return -1;
    std::string& d = fs[path]; if ((out && !app && !in) || trunc) d.clear();
    g_fds.push_back(rt_file{&d, app, 0}); return (int)g_fds.size() - 1;
}
WEAK long rt_file_write(int fd, const char* p, long n) { rt_file& f = g_fds[fd]; if (f.append) f.pos = f.data->size(); f.data->replace(f.pos, n, p, n); f.pos += n; return n; }
WEAK long rt_file_read(int fd, char* p, long n) { rt_file& f = g_fds[fd]; long k = 0; while (k < n && f.pos < f.data->size()) p[k++] = (*f.data)[f.pos++]; return k; }
WEAK int rt_file_close(int) { return 0; }
}
struct conbuf : std::streambuf {
    int fd; conbuf(int fd) : fd(fd) {}
    std::streamsize xsputn(const char* p, std::streamsize n) override { std::lock_guard<std::mutex> l(g_m); g_con[fd].append(p, n); return n; }
    int_type overflow(int_type c) override { if (c != EOF) { std::lock_guard<std::mutex> l(g_m); g_con[fd].push_back((char)c); } return c == EOF ? 0 : c; }
};
extern "C" int main(int argc, char** argv) {
    g_out = fdopen(dup(1), "w");
    FILE* in = fopen(argv[2], "r"); if (!in) finish(79); static char buf[4096];   // not ifstream: files are modelled
    while (fgets(buf, sizeof buf, in)) {
        std::istringstream is(buf); std::string n; is >> n;
        if (n == "param") { std::int64_t v; is >> n >> v; g_param[n] = v; } else if (n.size()) { unsigned b; std::uint64_t v; is >> b >> v; g_in[n].push_back(v); }
    }
    std::cout.rdbuf(new conbuf(1)); std::cerr.rdbuf(new conbuf(2));
    auto f = (void (*)())dlsym(RTLD_DEFAULT, argv[1]); if (!f) { fprintf(g_out, "no entry\n"); finish(79); }
    f();
    fprintf(g_out, "END\n"); finish(0);
}
