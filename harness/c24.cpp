#include "rec.hpp"
#include "stub.hpp"
#include "cfg.hpp"
#include "vfs.hpp"
#include <blackhole/factory.hpp>
#include <blackhole/filter.hpp>
#include <blackhole/filter/severity.hpp>
#include <blackhole/formatter.hpp>
#include <blackhole/formatter/json.hpp>
#include <blackhole/formatter/string.hpp>
#include <blackhole/formatter/tskv.hpp>
#include <blackhole/handler.hpp>
#include <blackhole/handler/blocking.hpp>
#include <blackhole/logger.hpp>
#include <blackhole/registry.hpp>
#include <blackhole/root.hpp>
#include <blackhole/sink.hpp>
#include <blackhole/sink/console.hpp>
#include <blackhole/sink/file.hpp>
extern std::string& rt_console(int) __asm__("rt_console");
extern "C" int isatty(int) noexcept { return 0; }
extern "C" long time(long* t) noexcept { if (t) *t = 1000; return 1000; }
namespace std { namespace chrono { inline namespace _V2 { system_clock::time_point system_clock::now() noexcept { return time_point(nanoseconds(1234567890123456789ll)); } } } }
struct treecfg {};
namespace blackhole { inline namespace v1 { namespace config {
struct treefactory : factory_t { stub n; treefactory(const tree& t) : n(t) {} const node_t& config() const noexcept override { return n; } };
template<> struct factory_traits<treecfg> { static std::unique_ptr<factory_t> construct(const tree& t) { return std::unique_ptr<factory_t>(new treefactory(t)); } };
} } }
// components which only say that they were used
struct ev { char what; long id; std::string text; }; static std::vector<ev> evs;
static long id_of(const config::node_t& n) { auto i = n["id"].to_sint64(); return i ? *i : -1; }
struct tform : formatter_t { char k; long id; tform(char k, long id) : k(k), id(id) {} void format(const record_t& r, writer_t& w) override { evs.push_back({k, id, ""}); w.write("{}", r.message()); w.write("{}", std::string(1, k)); } };
struct tsink : sink_t { char k; long id; tsink(char k, long id) : k(k), id(id) {} void emit(const record_t&, const string_view& m) override { evs.push_back({k, id, std::string(m.data(), m.size())}); } };
struct thand : handler_t { char k; long id; thand(char k, long id) : k(k), id(id) {} void handle(const record_t& r) override { evs.push_back({k, id, std::string(r.message().data(), r.message().size())}); } };
static int built;
#define FACT(B, T, K, NAME, N) struct N : factory<B> { const char* type() const noexcept override { return NAME; } std::unique_ptr<B> from(const config::node_t& n) const override { built++; return std::unique_ptr<B>(new T(K, id_of(n))); } };
FACT(formatter_t, tform, 'f', "fo", fo_f) FACT(formatter_t, tform, 'g', "go", go_f) FACT(sink_t, tsink, 's', "si", si_f) FACT(sink_t, tsink, 't', "ti", ti_f) FACT(handler_t, thand, 'h', "ha", ha_f)
static std::unique_ptr<registry_t> reg_custom(bool full) {
    auto r = full ? registry::configured() : registry::empty(); r->add(std::shared_ptr<factory<formatter_t>>(new fo_f)); r->add(std::shared_ptr<factory<formatter_t>>(new go_f)); r->add(std::shared_ptr<factory<sink_t>>(new si_f)); r->add(std::shared_ptr<factory<sink_t>>(new ti_f)); r->add(std::shared_ptr<factory<handler_t>>(new ha_f)); return r;
}
// any shape of handlers and sinks, each with an arbitrary identity: built in order, once, and used in order
HARNESS c24_shape() {
    int maxh = (int)sym_param("handlers", 2), maxs = (int)sym_param("sinks", 2); tree root = t_obj(); put(root, "other", t_arr()).m.clear(); tree& list = put(root, "root", t_arr()); std::vector<ev> want; int comps = 0; std::string msg = "m";
    int nh = (int)sym_range("nh", 0, maxh); list.m.reserve(8);
    for (int h = 0; h < nh; h++) {
        tree& o = put(list, "", t_obj()); o.m.reserve(8); int kind = (int)sym_choice("kind", 3);
        if (kind == 2) { put(o, "type", t_str("ha")); std::int64_t id = (std::int64_t)sym_int("hid", 64); put(o, "id", t_int(id)); want.push_back({'h', (long)id, msg}); comps++; continue; }
        if (kind == 1) put(o, "type", t_str("blocking"));
        bool second = sym_choice("fk", 2); std::int64_t fid = (std::int64_t)sym_int("fid", 64); tree f = t_obj(); put(f, "type", t_str(second ? "go" : "fo")); put(f, "id", t_int(fid)); put(o, "formatter", f); want.push_back({second ? 'g' : 'f', (long)fid, ""}); comps++;
        int ns = (int)sym_range("ns", 0, maxs + 1) - 1; if (ns < 0) continue; tree& sl = put(o, "sinks", t_arr());
        for (int s = 0; s < ns; s++) { bool sk = sym_choice("sk", 2); std::int64_t sid = (std::int64_t)sym_int("sid", 64); tree so = t_obj(); put(so, "type", t_str(sk ? "ti" : "si")); put(so, "id", t_int(sid)); put(sl, "", so); want.push_back({sk ? 't' : 's', (long)sid, msg + (second ? 'g' : 'f')}); comps++; }
    }
    built = 0; evs.clear(); auto reg = reg_custom(true); auto b = reg->builder<treecfg>(root); CHECKM(built == 0, "nothing is built before it is asked for"); auto log = b.build("root"); CHECKM(built == comps, "each component is built exactly once"); CHECKM(evs.empty(), "building uses nothing");
    for (int k = 0; k < 2; k++) { evs.clear(); log.log((int)sym_int("sev", 32), string_view(msg.data(), msg.size())); CHECKM(evs.size() == want.size(), "every handler, formatter and sink listed is used once");
        for (std::size_t i = 0; i < want.size(); i++) { CHECKM(evs[i].what == want[i].what, "in the order they are listed"); CHECKM(evs[i].id == want[i].id, "each component gets its own node"); CHECKM(same(evs[i].text, want[i].text), "each is given what it should"); } }
    auto log2 = b.build("other"); evs.clear(); log2.log(0, "m"); CHECKM(evs.empty(), "a logger without handlers"); auto log3 = b.build("root"); CHECKM(built == 2 * comps, "loggers do not share components"); long n = (long)want.size(); sym_observe("n", &n, sizeof n); sym_reach(nh ? "handlers" : "none");
}
// names of any component and of the logger: known ones build, any other raises naming the problem
static const char* const PLACE[] = {"logger", "handler", "formatter", "sink", "filter", "wrapped", "rotate", "overflow"};
HARNESS c24_names() {
    int place = (int)sym_choice("place", 8); int len = (int)sym_range("len", 0, (int)sym_param("len", 3)); std::string name(len, 0); if (len) sym_bytes(&name[0], len, "n");
    std::string n[8] = {"root", "blocking", "fo", "si", "severity", "si", "stat", "drop"}; n[place] = name; tree root = t_obj(); tree& list = put(root, "root", t_arr()); tree h = t_obj(); put(h, "type", t_str(n[1])); tree f = t_obj(); put(f, "type", t_str(n[2])); put(h, "formatter", f); tree sinks = t_arr();
    if (place == 3) { tree s = t_obj(); put(s, "type", t_str(n[3])); put(sinks, "", s); }
    if (place == 4) { tree s = t_obj(); put(s, "type", t_str("console")); tree fi = t_obj(); put(fi, "type", t_str(n[4])); put(fi, "threshold", t_int(2)); put(s, "filter", fi); put(sinks, "", s); }
    if (place == 5 || place == 7) { tree s = t_obj(); put(s, "type", t_str("asynchronous")); tree w = t_obj(); put(w, "type", t_str(n[5])); put(s, "sink", w); put(s, "factor", t_int(64)); put(s, "overflow", t_str(n[7])); put(sinks, "", s); }   // a factor out of range stops it before a thread starts
    if (place == 6) { tree s = t_obj(); put(s, "type", t_str("file")); put(s, "path", t_str("/x")); tree r = t_obj(); put(r, "type", t_str(n[6])); put(s, "rotate", r); put(sinks, "", s); }
    put(h, "sinks", sinks); put(list, "", h);
    static const char* const OK[8][16] = {{"root"}, {"blocking", "ha"}, {"fo", "go", "json", "tskv"}, {"si", "ti", "null", "console", "syslog"}, {"severity"}, {}, {"stat"}, {}};
    static const char* const SKIP[8][16] = {{}, {}, {"string"}, {"file", "tcp", "udp", "asynchronous"}, {}, {"si", "ti", "null", "console", "syslog", "file", "tcp", "udp", "asynchronous"}, {}, {"drop", "wait"}};
    for (auto s : SKIP[place]) if (s) sym_assume(!same_v(name, s)); bool known = false; for (auto s : OK[place]) if (s) known |= same_v(name, s);
    auto reg = reg_custom(true); bool threw = false; std::string what; try { auto log = reg->builder<treecfg>(root).build(n[0]); evs.clear(); log.log(0, "m"); } catch (const std::exception& e) { threw = true; what = e.what(); }
    if (sym_concrete(known)) { CHECKM(!threw, "a registered name builds"); sym_reach("known"); return; } CHECKM(threw, "an unknown name raises"); CHECKM(!what.empty(), "saying why"); sym_reach("unknown"); sym_reach(PLACE[place]); observe("what", what);
    bool nul = false; for (char c : name) nul |= c == 0; bool found = nul; if ((int)what.size() >= len) for (std::size_t i = 0; i + len <= what.size(); i++) { bool eq = true; for (int k = 0; k < len; k++) eq &= what[i + k] == name[k]; found |= eq; } CHECKM(found, "the message names what is unknown");
}
HARNESS c24_empty() { int len = (int)sym_param("len", 3); std::string name(len, 0); sym_bytes(&name[0], len, "n"); auto reg = registry::empty(); int w = (int)sym_choice("w", 4); bool threw = false; try { if (w == 0) reg->sink(name); else if (w == 1) reg->filter(name); else if (w == 2) reg->handler(name); else reg->formatter(name); } catch (const std::exception&) { threw = true; } CHECKM(threw, "an empty registry knows nothing"); sym_reach("done"); }
// every option of every component, absent and with a value of each kind
struct opt { const char* before; const char* after; const char* ok; };   // ok: one letter per value of V, '+' accepted, '-' refused, '?' left open
static const char* const V[] = {nullptr, "true", "-7", "5", "99999", "1.5", "\"x\"", "\"5\"", "\"10MB\"", "[]", "[\"p\"]", "[5]", "{}", "{\"q\":\"p\"}", "{\"q\":5}", "null", "18446744073709551615", "-99999999999"};
#define FORM(x) "{\"root\":[{\"formatter\":{" x
#define SINK(x) "{\"root\":[{\"formatter\":{\"type\":\"fo\"},\"sinks\":[{" x
static const opt O[] = {
    //                                                                                absent true -7 5 99999 1.5 "x" "5" "10MB" [] ["p"] [5] {} {s} {i} null max -big
    {"{\"root\":[{\"formatter\":{\"type\":\"fo\"},\"type\":", "}]}",                                      "+-----" "---" "------" "---"},
    {"{\"root\":[{\"sinks\":[],\"formatter\":", "}]}",                                                    "------" "---" "------" "---"},
    {"{\"root\":[{\"formatter\":{\"type\":\"fo\"},\"sinks\":", "}]}",                                     "+-----" "---" "+-----" "---"},
    {"{\"root\":[{\"formatter\":{\"type\":\"fo\"},\"sinks\":[{\"a\":1},{\"type\":", "}]}]}",              "------" "---" "------" "---"},
    {"{\"root\":", "}",                                                                                   "------" "---" "+-----" "---"},
    {FORM("\"type\":\"string\",\"pattern\":"), "}}]}",                                                    "------" "+++" "------" "---"},
    {FORM("\"type\":\"string\",\"pattern\":\"x\",\"sevmap\":"), "}}]}",                                   "+-----" "---" "++----" "---"},
    {FORM("\"type\":\"json\",\"unique\":"), "}}]}",                                                       "++----" "---" "------" "---"},
    {FORM("\"type\":\"json\",\"newline\":"), "}}]}",                                                      "++----" "---" "------" "---"},
    {FORM("\"type\":\"json\",\"mapping\":"), "}}]}",                                                      "+-----" "---" "---++-" "---"},
    {FORM("\"type\":\"json\",\"formatting\":"), "}}]}",                                                   "+-----" "---" "---+?-" "---"},
    {FORM("\"type\":\"json\",\"routing\":"), "}}]}",                                                      "+-----" "---" "---+?-" "---"},
    {FORM("\"type\":\"json\",\"routing\":{\"/a\":"), "}}}]}",                                             "+-----" "???" "++----" "---"},
    {FORM("\"type\":\"json\",\"mutate\":"), "}}]}",                                                       "+-----" "---" "---+--" "---"},
    {FORM("\"type\":\"json\",\"mutate\":{\"timestamp\":"), "}}}]}",                                       "+-----" "+++" "------" "---"},
    {FORM("\"type\":\"json\",\"mutate\":{\"severity\":"), "}}}]}",                                        "+-----" "---" "++----" "---"},
    {FORM("\"type\":\"tskv\",\"create\":"), "}}]}",                                                       "+-----" "---" "---++-" "---"},
    {FORM("\"type\":\"tskv\",\"rename\":"), "}}]}",                                                       "+-----" "---" "---++-" "---"},
    {FORM("\"type\":\"tskv\",\"remove\":"), "}}]}",                                                       "+-----" "---" "++----" "---"},
    {FORM("\"type\":\"tskv\",\"mutate\":"), "}}]}",                                                       "+-----" "---" "---+--" "---"},
    {FORM("\"type\":\"tskv\",\"mutate\":{\"timestamp\":{\"strftime\":"), "}}}}]}",                        "------" "+++" "------" "---"},
    {FORM("\"type\":\"tskv\",\"mutate\":{\"timestamp\":{\"strftime\":\"x\",\"gmtime\":"), "}}}}]}",       "++----" "---" "------" "---"},
    {SINK("\"type\":\"console\",\"filter\":"), "}]}]}",                                                   "+-----" "---" "------" "---"},
    {SINK("\"type\":\"console\",\"filter\":{\"type\":"), "}}]}]}",                                        "------" "---" "------" "---"},
    {SINK("\"type\":\"console\",\"filter\":{\"type\":\"severity\",\"threshold\":"), "}}]}]}",             "--+++-" "---" "------" "--+"},
    {SINK("\"type\":\"file\",\"path\":"), "}]}]}",                                                        "------" "+++" "------" "---"},
    {SINK("\"type\":\"file\",\"path\":\"/f\",\"flush\":"), "}]}]}",                                       "+--++-" "-++" "------" "-+-"},
    {SINK("\"type\":\"file\",\"path\":\"/f\",\"rotate\":"), "}]}]}",                                      "+-----" "---" "------" "---"},
    {SINK("\"type\":\"file\",\"path\":\"/f\",\"rotate\":{\"type\":"), "}}]}]}",                           "------" "---" "------" "---"},
    {SINK("\"type\":\"syslog\",\"priorities\":"), "}]}]}",                                                "+-----" "---" "+-+---" "---"},
    {SINK("\"type\":\"syslog\",\"priorities\":[1,"), "]}]}]}",                                            "+-+++-" "---" "------" "---"},
    {SINK("\"type\":\"asynchronous\",\"factor\":2,\"overflow\":\"drop\",\"sink\":"), "}]}]}",            "------" "---" "------" "---"},
    {SINK("\"type\":\"asynchronous\",\"sink\":{\"type\":\"si\"},\"overflow\":\"drop\",\"factor\":"), "}]}]}", "---?--" "---" "------" "---"},
    {SINK("\"type\":\"asynchronous\",\"sink\":{\"type\":\"si\"},\"factor\":2,\"overflow\":"), "}]}]}",   "------" "---" "------" "---"},
};
static std::string drop_key(std::string s) { std::size_t q = s.rfind('"', s.size() - 3); s.resize(q); if (!s.empty() && s.back() == ',') s.pop_back(); return s; }
HARNESS c24_kinds() {
    const int N = sizeof O / sizeof *O; int o = (int)sym_choice("o", N), v = (int)sym_choice("v", sizeof V / sizeof *V); char want = O[o].ok[v]; std::string text = O[o].before; if (V[v]) text += V[v]; else if (text.back() == ':') text = drop_key(text); else text.pop_back(); text += O[o].after; if (want == '?') return;
    auto reg = reg_custom(true); bool threw = false; std::string what; try { std::istringstream in(text); auto log = reg->builder<config::json_t>(in).build("root"); } catch (const std::exception& e) { threw = true; what = e.what(); }
    std::string why = (threw ? "refused: " : "accepted: ") + text + (threw ? " with " + what : ""); CHECKM(threw == (want == '-'), why.c_str()); CHECKM(!threw || !what.empty(), "with a reason"); sym_reach(threw ? "refused" : "accepted");
}
// priorities of a configured syslog sink and data sizes in the file sink, for every integer
HARNESS c24_numbers() {
    int w = (int)sym_choice("w", 2); std::int64_t v = (std::int64_t)sym_int("v", 64); tree root = t_obj(); tree h = t_obj(), f = t_obj(), s = t_obj(), sl = t_arr(), pr = t_arr(); put(f, "type", t_str("fo"));
    if (w == 0) { put(s, "type", t_str("syslog")); put(pr, "", t_int(v)); put(s, "priorities", pr); } else { put(s, "type", t_str("file")); put(s, "path", t_str("/f")); put(s, "flush", t_int(v)); }
    put(sl, "", s); put(h, "formatter", f); put(h, "sinks", sl); tree rl = t_arr(); put(rl, "", h); put(root, "root", rl); auto reg = reg_custom(true); bool threw = false; try { auto log = reg->builder<treecfg>(root).build("root"); } catch (const std::exception&) { threw = true; }
    bool ok = w == 0 ? v >= -2147483648ll && v <= 2147483647ll : v >= 0; if (sym_concrete(ok)) sym_reach("accepted"); else sym_reach("refused"); CHECKM(threw == !ok, "numbers out of the option's range raise");
}
// configured pipelines against hand-built ones, on any record
static std::string files() { std::string out; for (auto& q : vfs::dir) out += "|" + q.first + ":" + q.second->data; return out; }
static std::string shot(std::unique_ptr<root_logger_t> log, int sev, const std::string& msg, const std::vector<std::pair<std::string, std::int64_t>>& at) {
    rt_console(1).clear(); rt_console(2).clear(); vfs::dir.clear(); attribute_list al; for (auto& a : at) al.emplace_back(string_view(a.first.data(), a.first.size()), attribute::view_t(a.second)); attribute_pack p{al};
    log->log(sev, string_view(msg.data(), msg.size()), p); std::string out = "1:" + rt_console(1) + "|2:" + rt_console(2) + "|now" + files(); log.reset(); return out + "|end" + files();
}
struct from_t : sink_t { int thr; std::unique_ptr<sink_t> s; from_t(int t, std::unique_ptr<sink_t> s) : thr(t), s(std::move(s)) {} void emit(const record_t& r, const string_view& m) override { if (r.severity() >= thr) s->emit(r, m); } };
struct pline { const char* json; int fmt; bool console; int thr; bool file, file2; };
static const pline P[] = {
    {R"({"root":[{"type":"blocking","formatter":{"type":"string","pattern":"{severity:s}|{severity:d}, {message} [{...}]"},"sinks":[{"type":"console"}]}]})", 0, true, -1, false, false},
    {R"({"root":[{"formatter":{"type":"string","pattern":"<{severity:>4s}> {message:_<5} {...:{{name}={value}:p}{,:s}s}","sevmap":["D","INFO"]},"sinks":[{"type":"file","path":"/a","flush":1},{"type":"console","filter":{"type":"severity","threshold":1}}]}]})", 1, true, 1, true, false},
    {R"({"root":[{"formatter":{"type":"json","newline":true,"unique":true,"mapping":{"message":"m","k":"K"},"routing":{"":["message","severity"],"/rest":"*"},"mutate":{"severity":["D","I","W"]}},"sinks":[{"type":"file","path":"/a","flush":"1B"},{"type":"file","path":"/b","rotate":{"type":"stat"}}]}]})", 2, false, -1, true, true},
    {R"({"root":[{"formatter":{"type":"tskv","create":{"tskv_format":"x"},"remove":["process","pid"],"rename":{"message":"text"},"mutate":{"timestamp":{"strftime":"%Y"}}},"sinks":[{"type":"null"},{"type":"file","path":"/b"},{"type":"console"}]}]})", 3, true, -1, false, true},
};
static std::unique_ptr<formatter_t> hand_fmt(int k) {
    if (k == 0) return builder<formatter::string_t>("{severity:s}|{severity:d}, {message} [{...}]").build();
    if (k == 1) return builder<formatter::string_t>("<{severity:>4s}> {message:_<5} {...:{{name}={value}:p}{,:s}s}").mapping([](int s, const std::string& spec, writer_t& w) { if (s == 0) w.write(spec, "D"); else if (s == 1) w.write(spec, "INFO"); else w.write(spec, s); }).build();
    if (k == 2) return builder<formatter::json_t>().newline().unique().rename("message", "m").rename("k", "K").route("", {"message", "severity"}).route("/rest").severity({"D", "I", "W"}).build();
    return builder<formatter::tskv_t>().create("tskv_format", "x").remove("process").remove("pid").rename("message", "text").timestamp("timestamp", "%Y").build();
}
HARNESS c24_pipeline() {
    int k = (int)sym_param("pipe", 0); const pline& p = P[k]; auto reg = registry::configured(); std::istringstream in(p.json); auto hb = builder<handler::blocking_t>().set(hand_fmt(p.fmt)); auto fs = [&](const char* n, bool st) { auto b = builder<sink::file_t>(n); if (n[1] == 'a') { if (k == 1) b.flush_every(std::size_t(1)); else b.flush_every(bytes_t(1)); } if (st) b.rotate_checking_stat(); return std::move(b).build(); };
    if (p.file) hb.add(fs("/a", false)); if (p.file2) hb.add(fs("/b", k == 2)); if (p.console) { if (p.thr < 0) hb.add(builder<sink::console_t>().build()); else hb.add(std::unique_ptr<sink_t>(new from_t(p.thr, builder<sink::console_t>().build()))); }
    std::vector<std::unique_ptr<handler_t>> hs; hs.push_back(std::move(hb).build());
    int sev = (int)sym_range("sev", 0, 4) - 1; int n = (int)sym_range("n", 0, (int)sym_param("len", 2)); std::string m(n, 0); if (n) sym_bytes(&m[0], n, "m"); for (char c : m) sym_assume(c != 0 || k != 1);
    std::vector<std::pair<std::string, std::int64_t>> at; int na = (int)sym_range("na", 0, 2); static const char* const K[] = {"k", "j", "k"}; for (int i = 0; i < na; i++) at.emplace_back(K[sym_choice("key", 2)], i + 1);
    std::string a = shot(std::unique_ptr<root_logger_t>(new root_logger_t(reg->builder<config::json_t>(in).build("root"))), sev, m, at), b = shot(std::unique_ptr<root_logger_t>(new root_logger_t(std::move(hs))), sev, m, at); CHECKM(same(a, b), "the configured logger behaves as the hand-built one"); if (k < 2) observe("out", a); sym_reach("done");
}
