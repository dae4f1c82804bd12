#include "rec.hpp"
#include "cfg.hpp"
#include "stub.hpp"
#include "net.hpp"
#include <blackhole/registry.hpp>
#include <blackhole/sink.hpp>
#include "sink/socket/tcp.hpp"
#include "sink/socket/udp.hpp"
static std::unique_ptr<sink_t> from(const char* type, const tree& t) { stub s(t); return registry::configured()->sink(type)(s); }
static tree conf(const std::string& host, unsigned port) { tree t; put(t, "host", t_str(host)); put(t, "port", t_uint(port)); return t; }
static bool emit(sink_t& s, const char* p, std::size_t n) { rec r("another", 7); record_t rr = r.make(); try { s.emit(rr, string_view(p, n)); return true; } catch (const std::exception&) { return false; } }
static bool dead(const net::sock* s) { return s->failed || !s->connected; }
// every history of emits with every placement of faults and every split
HARNESS c20_tcp() {
    net::faults = (unsigned)sym_param("faults", 2); net::splits = (unsigned)sym_param("splits", 2); net::addresses = 1 + sym_choice("addresses", 2); net::v6 = sym_bool("v6"); unsigned how = sym_choice("how", 2), N = (unsigned)sym_param("n", 3), L = (unsigned)sym_param("len", 3);
    std::unique_ptr<sink_t> s; if (how) s = from("tcp", conf("h.example", 2003)); else s.reset(new sink::socket::tcp_t("h.example", 2003)); CHECKM(net::connects == 0 && net::all.empty(), "nothing is connected before the first record");
    std::vector<std::string> want; bool any = false, threw = false, reused = false;     // per socket: what it must have received
    for (unsigned i = 0; i < N; i++) {
        unsigned n = sym_choice("n", L + 1); block m("m", n); std::size_t sockets = net::all.size(); net::sock* cur = nullptr; for (auto x : net::all) if (x->open && !dead(x)) cur = x; unsigned was = cur ? (unsigned)cur->sent.size() : 0, resolves = net::resolves, hard = net::hard, unresolved = net::unresolved, attempts = net::attempts; bool ok = emit(*s, m.p, m.n); any |= ok; threw |= !ok;
        net::sock* now = nullptr; unsigned alive = 0; for (auto x : net::all) if (x->open && !dead(x)) { now = x; alive++; } CHECKM(alive <= 1 && net::live() == alive, "failed connections are closed, one remains at most");
        if (ok) { CHECKM(now != nullptr, "a live connection"); CHECKM(!cur || now == cur, "a working connection is kept"); if (!now) return; want.resize(net::all.size()); std::size_t k = 0; while (net::all[k] != now) k++; want[k] += m.str(); if (cur) reused = true; }
        else { CHECKM(net::hard > hard, "fails only when something failed"); if (cur) { CHECKM(cur->failed, "only a failed connection makes it fail"); std::size_t k = 0; while (net::all[k] != cur) k++; want.resize(net::all.size()); } }
        if (cur && cur->failed) { CHECKM(!ok, "a write error surfaces"); CHECKM(cur->sent.size() - was < (n ? n : 1), "not all was accepted"); CHECKM(same(cur->sent.substr(was), m.str().substr(0, cur->sent.size() - was)), "only a prefix of the message"); std::size_t k = 0; while (net::all[k] != cur) k++; want.resize(net::all.size()); want[k] = cur->sent; }
        if (!cur) { CHECKM(net::resolves == resolves + 1, "a new connection starts from the name"); CHECKM(net::node == "h.example" && net::service == "2003", "the configured endpoint");
            want.resize(net::all.size()); for (std::size_t k = sockets; k < net::all.size(); k++) { net::sock* x = net::all[k]; CHECKM(!x->connected || (x->to.port == 2003 && x->to.last >= 1 && x->to.last <= net::addresses), "to a resolved address"); if (x->connected && x->failed) { CHECKM(!ok, "a write error surfaces"); CHECKM(x->sent.size() < n && same(x->sent, m.str().substr(0, x->sent.size())), "only a prefix"); want[k] = x->sent; } } if (ok && net::hard > hard) sym_reach("other");
            bool wrote = false; for (std::size_t k = sockets; k < net::all.size(); k++) wrote |= net::all[k]->connected; CHECKM(net::unresolved > unresolved || wrote || net::attempts - attempts >= net::addresses, "gives up only after every address was tried"); }
        else CHECKM(net::resolves == resolves, "no reconnection while it works");
        for (std::size_t k = 0; k < net::all.size(); k++) CHECKM(same(net::all[k]->sent, want[k]), "exactly the messages, in order"); }
    s.reset(); CHECKM(net::live() == 0 && net::bad == 0, "every socket closed and none misused"); sym_reach(any ? threw ? "recovered" : "delivered" : "failed"); if (reused) sym_reach("reused"); }
HARNESS c20_large() {   // more than one system call takes at once
    net::splits = (unsigned)sym_param("splits", 3); std::size_t n = (std::size_t[]){65535, 65536, 65537, 140000}[sym_choice("size", 4)]; std::string big(n, 'x'); for (std::size_t i = 0; i < n; i += 1000) big[i] = (char)('0' + i / 1000 % 10); big[0] = (char)sym_int("b", 8); big[n - 1] = (char)sym_int("e", 8); auto s = from("tcp", conf("h", 1)); CHECK(emit(*s, big.data(), n)); CHECK(emit(*s, "ok", 2)); CHECK(net::all.size() == 1); CHECK(same(net::all[0]->sent, big + "ok")); s.reset(); CHECK(net::bad == 0); sym_reach("done"); }
HARNESS c20_udp() {
    net::faults = (unsigned)sym_param("faults", 2); net::addresses = 1 + sym_choice("addresses", 2); net::v6 = sym_bool("v6"); unsigned how = sym_choice("how", 2); std::unique_ptr<sink_t> s; bool ok = true; try { if (how) s = from("udp", conf("h.example", 2003)); else s.reset(new sink::socket::udp_t("h.example", 2003)); } catch (const std::exception&) { ok = false; }
    CHECKM(ok == (net::hard == 0), "fails exactly when the name or the socket does"); CHECKM(net::node == "h.example" && net::service == "2003", "the configured endpoint"); if (!ok) { CHECK(net::live() == 0); sym_reach("refused"); return; }
    for (unsigned i = 0, N = (unsigned)sym_param("n", 3); i < N; i++) { unsigned n = sym_choice("n", (unsigned)sym_param("len", 3) + 1); block m("m", n); unsigned hard = net::hard, had = (unsigned)net::dgrams.size(); bool sent = emit(*s, m.p, m.n); CHECKM(sent == (net::hard == hard), "an error surfaces, and only an error"); CHECKM(net::dgrams.size() == had + sent, "one datagram per message"); if (sent) { auto& d = net::dgrams.back(); CHECKM(same(d.data, m.str()), "exactly the message"); CHECKM(d.to.port == 2003 && d.to.last == 1, "to the configured endpoint"); sym_reach("sent"); } else sym_reach("failed"); }
    CHECK(net::connects == 0); s.reset(); CHECKM(net::live() == 0 && net::bad == 0, "closed"); sym_reach("done"); }
HARNESS c20_udp_large() { std::size_t n = (std::size_t[]){1472, 65507, 65508, 70000}[sym_choice("size", 4)]; std::string big(n, 'x'); big[0] = (char)sym_int("b", 8); big[n - 1] = (char)sym_int("e", 8); auto s = from("udp", conf("h", 1)); bool ok = emit(*s, big.data(), n); CHECKM(ok == (n <= 65507), "what does not fit a datagram is an error"); if (ok) { CHECK(net::dgrams.size() == 1 && same(net::dgrams[0].data, big)); } else CHECK(net::dgrams.empty()); CHECK(emit(*s, "ok", 2)); CHECK(net::dgrams.back().data == "ok"); sym_reach(ok ? "fits" : "too large"); }
// every port value
HARNESS c20_port() {
    bool udp = sym_bool("udp"); tree t; std::uint64_t port = sym_int("port", 64); put(t, "host", t_str("h.example")); put(t, "port", t_uint(port)); std::unique_ptr<sink_t> s; bool ok = true; try { s = from(udp ? "udp" : "tcp", t); } catch (const std::exception&) { ok = false; } CHECKM(ok == (port <= 65535), "accepts exactly 0 to 65535"); if (!ok) { CHECK(net::resolves == 0); sym_reach("rejected"); return; } CHECK(emit(*s, "hello", 5)); CHECKM(is_dec_u32(net::service.data(), net::service.size(), (std::uint32_t)port), "the port, in decimal"); if (udp) { CHECK(net::dgrams.size() == 1 && net::dgrams[0].to.port == port); } else { CHECK(net::all.size() == 1 && net::all[0]->to.port == port); CHECK(static_cast<sink::socket::tcp_t&>(*s).port() == port); } sym_reach("accepted"); }
HARNESS c20_config() {
    bool udp = sym_bool("udp"); unsigned h = sym_choice("host", 6), p = sym_choice("port", 7); tree t; block name("name", 1 + sym_choice("len", 3)); for (unsigned i = 0; i < name.n; i++) sym_assume(name.p[i] != 0); bool good = h == 0 && p <= 1;
    if (h == 0) put(t, "host", t_str(name.str())); else if (h == 1) put(t, "host", t_int(7)); else if (h == 2) put(t, "host", t_bool(true)); else if (h == 3) put(t, "host", t_obj()); else if (h == 4) put(t, "host", t_arr());
    std::int64_t v = 0; if (p == 0) put(t, "port", t_uint(20030)); else if (p == 1) { v = (std::int64_t)sym_int("v", 64); sym_assume(v >= 0 && v <= 65535); put(t, "port", t_int(v)); } else if (p == 2) { v = (std::int64_t)sym_int("v", 64); sym_assume(v < 0 || v > 65535); put(t, "port", t_int(v)); } else if (p == 3) put(t, "port", t_str("2003")); else if (p == 4) put(t, "port", t_bool(true)); else if (p == 5) put(t, "port", t_obj());
    std::unique_ptr<sink_t> s; bool ok = true; try { s = from(udp ? "udp" : "tcp", t); } catch (const std::exception&) { ok = false; } CHECKM(ok == good, "host and port are required and typed"); if (!ok) { CHECK(net::resolves == 0 && net::all.empty()); sym_reach("rejected"); return; } CHECK(emit(*s, "x", 1)); CHECKM(same(net::node, name.str()), "the configured host"); sym_reach("accepted"); }
