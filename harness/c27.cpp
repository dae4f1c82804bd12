#include "rec.hpp"
#include "cfg.hpp"
#include <boost/optional/optional.hpp>
#include <blackhole/filter.hpp>
#include <blackhole/filter/severity.hpp>
#include <blackhole/registry.hpp>
#include <blackhole/sink.hpp>
#include <blackhole/sink/console.hpp>
extern std::string& rt_console(int) __asm__("rt_console");
extern "C" int isatty(int) noexcept { return 0; }
// a configuration node standing for {"type": "severity", "threshold": <integer>}
struct num_node : config::node_t {
    std::int64_t v; int kind;   // 0 the object, 1 the number, 2 the type
    num_node(std::int64_t v, int k) : v(v), kind(k) {}
    bool is_bool() const noexcept override { return false; } bool is_sint64() const noexcept override { return kind == 1; } bool is_uint64() const noexcept override { return kind == 1 && v >= 0; } bool is_double() const noexcept override { return false; }
    bool is_string() const noexcept override { return kind == 2; } bool is_vector() const noexcept override { return false; } bool is_object() const noexcept override { return kind == 0; }
    bool to_bool() const override { throw std::runtime_error("kind"); } std::int64_t to_sint64() const override { if (kind != 1) throw std::runtime_error("kind"); return v; }
    std::uint64_t to_uint64() const override { if (kind != 1 || v < 0) throw std::runtime_error("kind"); return (std::uint64_t)v; }
    double to_double() const override { throw std::runtime_error("kind"); } std::string to_string() const override { if (kind != 2) throw std::runtime_error("kind"); return "severity"; }
    void each(const each_function&) const override {} void each_map(const member_function&) const override {}
    config::option<config::node_t> operator[](const std::size_t&) const override { return config::option<config::node_t>(); }
    config::option<config::node_t> operator[](const std::string& k) const override {
        if (kind == 0 && k == "threshold") return config::make_option<num_node>(v, 1); if (kind == 0 && k == "type") return config::make_option<num_node>(v, 2); if (kind == 0 && k == "filter") return config::make_option<num_node>(v, 0);
        return config::option<config::node_t>(); }
};
static void verdict(filter_t& f, int sev, std::int64_t thr) {
    rec r("m", 1); r.sev = sev; record_t rr = r.make(); filter_t::action_t a = f.filter(rr); bool accepted = a != filter_t::action_t::deny;
    CHECKM(accepted == ((std::int64_t)sev >= thr), "accepted if and only if the severity is at least the threshold"); if (sym_concrete(accepted)) sym_reach("accepted"); else sym_reach("rejected"); sym_observe("v", &accepted, 1);
}
// every severity, every 64-bit threshold, directly and through the registry
HARNESS c27_filter() {
    std::int64_t thr = (std::int64_t)sym_int("thr", 64); int sev = (int)sym_int("sev", 32); num_node n(thr, 0); std::unique_ptr<filter_t> f;
    if (sym_bool("registry")) { auto reg = registry::configured(); f = reg->filter("severity")(n); } else f = factory<filter::severity_t>().from(n);
    verdict(*f, sev, thr); int sev2 = (int)sym_int("sev2", 32); verdict(*f, sev2, thr);
}
// thresholds written in a JSON document
HARNESS c27_json() {
    static const std::int64_t T[] = {0, 1, -1, 3, 4, 2147483647ll, -2147483648ll, 2147483648ll, -2147483649ll, 4294967296ll, 4294967299ll, -4294967295ll, 9223372036854775807ll, -9223372036854775807ll - 1};
    std::int64_t thr = T[sym_choice("t", 14)]; int sev = (int)sym_int("sev", 32); auto c = cfg("{\"type\":\"severity\",\"threshold\":" + dec(thr) + "}"); auto f = factory<filter::severity_t>().from(c->config()); verdict(*f, sev, thr);
}
HARNESS c27_digits() {   // three arbitrary characters: a number, or an error
    std::string d(3, '0'); sym_bytes(&d[0], 3, "d"); for (char& c : d) sym_assume(c == '-' || (c >= '0' && c <= '9') || c == ' ');
    std::unique_ptr<filter_t> f; try { auto c = cfg("{\"threshold\":" + d + "}"); f = factory<filter::severity_t>().from(c->config()); } catch (const std::exception&) { sym_reach("malformed"); return; }
    long v = 0; bool neg = false; for (char c : d) { if (c == '-') neg = true; else if (c != ' ') v = v * 10 + (c - '0'); } if (neg) v = -v; verdict(*f, (int)sym_int("sev", 32), v);
}
HARNESS c27_missing() {
    static const char* const D[] = {"{}", "{\"type\":\"severity\"}", "{\"threshold\":\"3\"}", "{\"threshold\":1.5}", "{\"threshold\":true}", "{\"threshold\":null}", "{\"threshold\":[3]}", "{\"threshold\":18446744073709551615}", "{\"Threshold\":3}", "[3]"};
    auto c = cfg(D[sym_choice("d", 10)]); bool threw = false; try { factory<filter::severity_t>().from(c->config()); } catch (const std::exception&) { threw = true; } CHECKM(threw, "a filter without a usable threshold is refused"); sym_reach("refused");
}
// the console sink's own filter
HARNESS c27_console() {
    std::int64_t thr = (std::int64_t)sym_int("thr", 64); int sev = (int)sym_int("sev", 32); num_node n(thr, 0); auto reg = registry::configured(); auto s = reg->sink("console")(n);
    rec r("m", 1); r.sev = sev; record_t rr = r.make(); rt_console(1).clear(); rt_console(2).clear(); s->emit(rr, string_view("hello", 5)); bool ok = (std::int64_t)sev >= thr;
    if (sym_concrete(ok)) { CHECKM(same(rt_console(1), "hello\n"), "an accepted record is written"); sym_reach("accepted"); } else { CHECKM(rt_console(1).empty(), "a rejected record writes nothing"); sym_reach("rejected"); } CHECKM(rt_console(2).empty(), "nothing on the other stream"); observe("out", rt_console(1));
}
