#include "rec.hpp"
#include "cfg.hpp"
#include "vfs.hpp"
#include "net.hpp"
#include <pthread.h>
#include <blackhole/formatter/json.hpp>
#include <blackhole/formatter/string.hpp>
#include <blackhole/formatter/tskv.hpp>
#include <blackhole/handler.hpp>
#include <blackhole/handler/blocking.hpp>
#include <blackhole/logger.hpp>
#include <blackhole/registry.hpp>
#include <blackhole/root.hpp>
#include <blackhole/severity.hpp>
#include <blackhole/sink.hpp>
#include <blackhole/sink/console.hpp>
#include <blackhole/sink/file.hpp>
#include <blackhole/termcolor.hpp>
#include "sink/socket/tcp.hpp"
// everything that reaches the terminal, in order, whatever the descriptor
static std::string g_term; static bool g_tty;
extern "C" void rt_console_write(int, const char* p, long n) { sym_call c; g_term.append(p, n); }
extern "C" int isatty(int) noexcept { return g_tty; }
std::chrono::system_clock::time_point std::chrono::system_clock::now() noexcept { return time_point(duration(1500000000123456789ll)); }
extern "C" pid_t getpid() noexcept { return 4242; }
extern "C" long syscall(long, ...) noexcept { return 777; }
struct job { sink_t* s; logger_t* l; int id; unsigned n; std::string text[4], line[4]; };
static void* work(void* v) {
    job& j = *(job*)v; for (unsigned i = 0; i < j.n; i++) { std::string t = j.text[i]; if (j.l) { attribute_list al{{"k", view_t(j.id)}}; attribute_pack p{al}; lazy_message_t lm{string_view(t.data(), t.size()), [&]() -> string_view { return string_view(t.data(), t.size()); }}; j.l->log(severity_t(j.id), lm, p); } else { rec r(t.data(), t.size()); r.sev = j.id; record_t rr = r.make(); j.s->emit(rr, string_view(t.data(), t.size())); } } return nullptr; }
static void fill(job& j, int id, unsigned n, unsigned len) { j.id = id; j.n = n; for (unsigned i = 0; i < n; i++) { j.text[i] = std::string(1, (char)('A' + id)) + (char)('0' + i) + std::string(len, '.'); if (len) sym_bytes(&j.text[i][2], len, "b"); for (unsigned k = 2; k < 2 + len; k++) sym_assume(j.text[i][k] != '\n'); j.text[i] += std::string((std::size_t)sym_param("pad", 0), (char)('a' + id)); j.line[i] = j.text[i] + "\n"; } }
// the lines are there, each whole and once, every job's in order; out may be spread over several pieces (files)
static void whole(const std::vector<std::string>& out, job* js, unsigned nj) {
    unsigned next[4] = {}; for (auto& o : out) { std::size_t p = 0; while (p < o.size()) { bool hit = false; for (unsigned k = 0; k < nj && !hit; k++) { job& j = js[k]; if (next[k] >= j.n) continue; const std::string& l = j.line[next[k]]; if (o.size() - p >= l.size() && sym_concrete(o.compare(p, l.size(), l) == 0)) { hit = true; next[k]++; p += l.size(); } } CHECKM(hit, "each line contiguous with its terminator, in its thread's order"); if (!hit) return; } }
    for (unsigned k = 0; k < nj; k++) CHECKM(next[k] == js[k].n, "every line"); }
static void go(job* js, unsigned nj) { pthread_t t[4]; for (unsigned k = 1; k < nj; k++) pthread_create(&t[k], nullptr, work, &js[k]); work(&js[0]); for (unsigned k = 1; k < nj; k++) pthread_join(t[k], nullptr); }
static const char* P = "/v/app.log";
// one file sink
HARNESS c19_file() {
    unsigned nj = 2 + sym_choice("more", (unsigned)sym_param("more", 2)), n = (unsigned)sym_param("n", 2); bool rotate = sym_bool("rotate"); unsigned every = sym_choice("every", 3); if (nj > 2) n = 1; builder<sink::file_t> b(P); if (rotate) b.rotate_checking_stat(); if (every) b.flush_every(every); auto s = std::move(b).build(); job js[4]; for (unsigned k = 0; k < nj; k++) { fill(js[k], (int)k, n, 1); js[k].s = s.get(); js[k].l = nullptr; } go(js, nj);
    if (every == 1) whole({vfs::at(P)->data}, js, nj); s.reset(); whole({vfs::at(P)->data}, js, nj); CHECKM(vfs::opens == 1 && vfs::live() == 0 && vfs::bad_io == 0, "one stream"); sym_reach(nj > 2 ? "three" : "two"); }
// the file is replaced or removed while two threads write
static void* mover(void* p) { sym_call c; bool again = *(bool*)p; vfs::dir.erase(P); if (again) vfs::dir[P] = vfs::make(); return nullptr; }
HARNESS c19_rotate() {
    bool again = sym_bool("replace"); unsigned every = sym_choice("every", 2); builder<sink::file_t> b(P); b.rotate_checking_stat(); if (every) b.flush_every(every); auto s = std::move(b).build(); job js[2]; for (unsigned k = 0; k < 2; k++) { fill(js[k], (int)k, (unsigned)sym_param("n", 1) , 1); js[k].s = s.get(); js[k].l = nullptr; } { job one; fill(one, 2, 1, 0); one.line[0] = "C0\n"; one.s = s.get(); one.l = nullptr; work(&one); }
    pthread_t t; pthread_create(&t, nullptr, mover, &again); go(js, 2); pthread_join(t, nullptr); s.reset(); std::vector<std::string> out; for (auto n : vfs::all) out.push_back(n->data); CHECKM(out[0].compare(0, 3, "C0\n") == 0, "the earlier line"); out[0].erase(0, 3); unsigned total = 0; for (auto& o : out) total += (unsigned)o.size(); unsigned want = 0; for (auto& j : js) for (unsigned i = 0; i < j.n; i++) want += (unsigned)j.line[i].size(); CHECKM(total == want, "nothing lost or doubled"); whole(out, js, 2); CHECKM(vfs::live() == 0 && vfs::bad_io == 0, "streams closed"); sym_reach(out.size() > 1 && out.back().size() ? "moved" : "kept"); }
// several console sinks on one terminal
static std::unique_ptr<sink_t> console(unsigned how) { builder<sink::console_t> b; if (how == 1) b.stderr(); else if (how == 2) { auto c = cfg("{\"type\":\"console\"}"); return registry::configured()->sink("console")(c->config()); } else b.stdout(); b.colorize(severity_t(1), termcolor_t::red()); b.colorize(severity_t(0), termcolor_t::blue()); return std::move(b).build(); }
HARNESS c19_console() {
    g_tty = sym_bool("tty"); bool shared = sym_bool("shared"); unsigned h0 = sym_choice("how0", 3), h1 = shared ? h0 : sym_choice("how1", 3), n = (unsigned)sym_param("n", 2); auto a = console(h0), b = shared ? nullptr : console(h1); job js[2]; for (unsigned k = 0; k < 2; k++) { fill(js[k], (int)k, n, 1); js[k].s = k && !shared ? b.get() : a.get(); js[k].l = nullptr; if (g_tty && (k && !shared ? h1 : h0) != 2) for (unsigned i = 0; i < n; i++) js[k].line[i] = std::string(k ? "\033[31m" : "\033[34m") + js[k].text[i] + "\033[0m\n"; } g_term.clear(); go(js, 2); whole({g_term}, js, 2); sym_reach(g_tty ? "coloured" : "plain"); }
// whole pipelines: two threads logging through one logger, every formatter
HARNESS c19_pipeline() {
    unsigned f = sym_choice("formatter", 3); bool file = sym_bool("file"); std::unique_ptr<formatter_t> fm; if (f == 0) fm = builder<formatter::string_t>("{severity:d} [{message}] {k} {timestamp:{%Y-%m-%d %H:%M:%S.%f}s} {timestamp:{%d.%m.%Y}l} {process:s}").build(); else if (f == 1) fm = builder<formatter::json_t>().route("/a", {"severity"}).route("/b").unique().timestamp("%Y-%m-%d %H:%M:%S").build(); else { builder<formatter::tskv_t> tb; tb.create("tskv_format", "x").timestamp("local", "%Y-%m-%d", false).rename("k", "q"); fm = std::move(tb).build(); }
    struct cut : formatter_t { std::unique_ptr<formatter_t> in; unsigned f; void format(const record_t& r, writer_t& w) override { in->format(r, w); } }; std::unique_ptr<sink_t> s; if (file) { builder<sink::file_t> b(P); s = std::move(b).build(); } else s = console(0); 
    std::unique_ptr<handler_t> h = builder<handler::blocking_t>().set(std::move(fm)).add(std::move(s)).build(); std::vector<std::unique_ptr<handler_t>> hs; hs.push_back(std::move(h)); std::unique_ptr<root_logger_t> l(new root_logger_t(std::move(hs))); job js[2]; for (unsigned k = 0; k < 2; k++) { fill(js[k], (int)k, (unsigned)sym_param("n", 1), 0); js[k].l = l.get(); js[k].s = nullptr; } g_term.clear(); go(js, 2); l.reset(); std::string out = file ? vfs::at(P)->data : g_term; if (file) CHECKM(g_term.empty(), "no error was reported");
    unsigned next[2] = {}; std::size_t p = 0; while (p < out.size()) { std::size_t e = out.find('\n', p); CHECKM(e != std::string::npos, "terminated"); std::string x = out.substr(p, e - p); p = e + 1; bool hit = false; for (unsigned k = 0; k < 2 && !hit; k++) if (next[k] < js[k].n) { std::string K = std::string(1, (char)('0' + k)), t = js[k].text[next[k]]; if (f == 0) { std::string w = K + " [" + t + "] " + K + " 2017-07-14 02:40:00.123456 14.07.2017 "; hit = x.compare(0, w.size(), w) == 0 && x.size() > w.size() && x.find('[', 3) == std::string::npos; } else if (f == 1) hit = x.size() > 20 && x[0] == '{' && x.back() == '}' && x.find("\"message\":\"" + t + "\"") != std::string::npos && x.find("\"k\":" + K) != std::string::npos && x.find("{", 1) != x.rfind("{") && x.find("\"severity\":" + K) != std::string::npos && x.find("\"timestamp\":\"2017-07-14 02:40:00\"") != std::string::npos; if (f == 2 && !hit) { std::size_t q = x.find("\ttid="), r2 = x.find("\tmessage="); hit = q != std::string::npos && r2 != std::string::npos && x.substr(0, q) == "tskv\ttskv_format=x\tlocal=2017-07-14\ttimestamp=2017-07-14 02:40:00 +0000\tseverity=" + K + "\tpid=4242" && x.substr(r2) == "\tmessage=" + t + "\tq=" + K; } if (hit) next[k]++; } CHECKM(hit, "one record per line, whole"); }
    CHECKM(next[0] == js[0].n && next[1] == js[1].n, "every record"); sym_reach(file ? "file" : "console"); }

// one TCP sink, the kernel taking pieces
HARNESS c19_tcp() {
    unsigned nj = 2 + sym_choice("more", (unsigned)sym_param("more", 2)), n = nj > 2 ? 1 : (unsigned)sym_param("n", 2); net::splits = (unsigned)sym_param("splits", 2); bool started = sym_bool("started"); sink::socket::tcp_t s("h.example", 2003); job js[4]; for (unsigned k = 0; k < nj; k++) { fill(js[k], (int)k, n, 1); js[k].s = &s; js[k].l = nullptr; for (unsigned i = 0; i < n; i++) js[k].text[i] = js[k].line[i]; } if (started) { rec r("", 0); record_t rr = r.make(); s.emit(rr, string_view("", 0)); } go(js, nj);
    CHECKM(net::all.size() == 1 && net::connects == 1 && net::bad == 0, "one connection"); whole({net::all[0]->sent}, js, nj); sym_reach(nj > 2 ? "three" : "two"); }
