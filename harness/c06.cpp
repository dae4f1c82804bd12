#include "sym.h"
#include "ref.hpp"
#include <stdexcept>
#include <vector>
#include <blackhole/attribute.hpp>
#include <blackhole/attributes.hpp>
#include <blackhole/extensions/writer.hpp>
#include <blackhole/formatter.hpp>
#include <blackhole/formatter/string.hpp>
#include <blackhole/record.hpp>
#include "record.hpp"
using namespace blackhole;
std::chrono::system_clock::time_point std::chrono::system_clock::now() noexcept { return time_point(duration(1500000000123456789ll)); }
static std::string bytes(const char* n, unsigned k) { std::string s(k, 0); sym_bytes(&s[0], k, n); return s; }
// Independent reading of a pattern made of literal text, doubled braces and bare "{message}" placeholders.
// 0: not of that form; 1: the pattern renders as out.
static int reference(const std::string& p, const std::string& msg, std::string& out) {
    std::size_t i = 0, n = p.size(); static const char M[] = "{message}";
    while (i < n) {
        char c = p[i];
        if (c == '{') {
            if (i + 1 < n && p[i + 1] == '{') { out.push_back('{'); i += 2; continue; }
            for (std::size_t k = 0; k < 9; k++) if (i + k >= n || p[i + k] != M[k]) return 0;
            out += msg; i += 9;
        } else if (c == '}') { if (i + 1 < n && p[i + 1] == '}') { out.push_back('}'); i += 2; } else return 0; }
        else { out.push_back(c); i++; }
    }
    return 1;
}
static std::string render(formatter_t& f, bool& threw) {
    attribute_list al{{"a", attribute::view_t(1)}}; attribute_pack pack{al}; string_view m("MSG"); record_t r(severity_t(3), m, pack); r.activate(m);
    writer_t w; threw = false; try { f.format(r, w); } catch (const std::exception&) { threw = true; } return str_v(w.result());
}
// compile; accepted patterns are also rendered once, which must yield text or a standard exception
static bool g_obs = true;
// strftime's own flags and widths are outside the model of the C library
static void no_flags(const std::string& m) { for (std::size_t i = 0; i + 1 < m.size(); i++) if (sym_is_symbolic((unsigned char)m[i]) || m[i] == '%') if (m[i] == '%') for (const char* f = "EO_-0^#+123456789"; *f; f++) sym_assume(m[i + 1] != *f); }
static void judge(const std::string& p) {
    if (p.find("timestamp") != std::string::npos) no_flags(p);
    std::unique_ptr<formatter_t> f; std::string out;
    try { f = builder<formatter::string_t>(p).build(); } catch (const std::exception& e) { CHECKM(e.what() != nullptr && e.what()[0] != 0, "the error says what is wrong"); sym_reach("rejected"); }
    int ref = reference(p, "MSG", out);
    if (!f) { CHECKM(!ref, "a well-formed pattern of literals, doubled braces and {message} is accepted"); observe("r", "rejected"); return; }
    sym_reach("accepted"); bool threw; std::string got = render(*f, threw);
    if (ref) { CHECKM(!threw && same(got, out), "literal text is preserved and doubled braces stand for single ones"); sym_reach("literal"); }
    if (g_obs) observe("r", threw ? std::string("throws") : got);
}
HARNESS c06_any() { judge(bytes("p", sym_choice("n", (unsigned)sym_param("max", 4) + 1))); }
// literal text before, between and after placeholders
HARNESS c06_literals() {
    unsigned k = (unsigned)sym_param("k", 2); std::string p = bytes("a", sym_choice("na", k + 1)) + "{message}" + bytes("b", sym_choice("nb", k + 1)) + "{message}" + bytes("c", sym_choice("nc", k + 1)); judge(p);
}
// every kind of placeholder followed by a specification of arbitrary bytes, closed or not
static const char* const NAMES[] = {"message", "process", "thread", "severity", "timestamp", "...", "a", "zz"};
HARNESS c06_spec() {
    unsigned w = sym_choice("name", 8); g_obs = w != 1 && w != 2; unsigned k = (unsigned)sym_param("k", 3); std::string p = "{"; p += NAMES[w];
    unsigned n = sym_choice("n", k + 1); p += ':'; std::string b = bytes("s", n); p += b; for (unsigned i = 0; i + 1 < n; i++) sym_assume(!(b[i] >= '0' && b[i] <= '9' && b[i + 1] >= '0' && b[i + 1] <= '9'));   // widths of one digit here, longer ones below
    if (sym_bool("close")) p += '}'; if (sym_bool("tail")) p += "!"; judge(p);
}
HARNESS c06_name() { std::string p = "x{"; p += bytes("n", sym_choice("n", 3)); if (sym_bool("close")) p += '}'; judge(p); }
// nested specifications: timestamp patterns, leftover pattern and separator, optional defaults
static const char* const HEAD[] = {"{timestamp:{", "{timestamp:{%Y", "{...:{", "{...:{{name}", "{...:{{name}={value}:p}", "{...:{{value:", "{...:{:s}", "{a:{", "{a:{12", "{zz:{7:default}", "{zz:{1.5:default}"};
static const char* const TAIL[] = {"", "}", "}s}", ":p}s}", ":s}s}", ":p}{,:s}s}", ":default}s}", ":default}>9d}"};
HARNESS c06_nested() {
    unsigned h = sym_choice("head", sizeof HEAD / sizeof *HEAD), t = sym_choice("tail", sizeof TAIL / sizeof *TAIL), k = (unsigned)sym_param("k", 1);
    std::string m = bytes("m", sym_choice("n", k + 1));
    judge(HEAD[h] + m + TAIL[t]);
}
static const char* const W[] = {"10", "64", "500", "501", "1000", "2147483648", "4294967306", "99999999999999999999999"};
HARNESS c06_width() { unsigned w = sym_choice("name", 8); g_obs = w != 1 && w != 2; std::string p = "{"; p += NAMES[w]; p += ':'; p += bytes("s", sym_choice("pre", 3)); p += W[sym_choice("w", 8)]; p += bytes("t", sym_choice("post", 2)); p += '}';
    for (std::size_t i = 0; i + 1 < p.size(); i++) if (i < 14) sym_assume(!sym_is_symbolic((unsigned char)p[i]) || p[i] < '0' || p[i] > '9'); judge(p); }
// specifications nested too deep for a narrow counter, and literal texts as long
HARNESS c06_deep() {
    static const unsigned N[] = {0, 1, 3, 126, 127, 128, 129, 254, 255, 256, 257, 258}; unsigned w = sym_choice("name", 9), n = N[sym_choice("n", 12)]; std::string p; bool balanced = sym_bool("balanced"); unsigned c = balanced ? n + 1 : n - sym_choice("missing", 2); sym_assume(c <= n + 1);
    if (w == 8) { std::string m = bytes("m", 2); judge(m.substr(0, 1) + std::string(n, 'x') + m.substr(1)); return; } g_obs = w != 1 && w != 2;
    p = std::string("{") + NAMES[w] + ":" + std::string(n, '{') + std::string(c, '}'); std::unique_ptr<formatter_t> f; try { f = builder<formatter::string_t>(p).build(); } catch (const std::exception&) {} CHECKM(balanced || !f, "a specification that is not closed is rejected"); judge(p + "tail"); }
