#include "rec.hpp"
#include "json.hpp"
#include "tskv.hpp"
#include <time.h>
#include <unistd.h>
#include <blackhole/formatter/json.hpp>
#include <blackhole/formatter/string.hpp>
#include <blackhole/formatter/tskv.hpp>
extern "C" pid_t getpid() noexcept { return 4242; }
extern "C" long syscall(long, ...) noexcept { return 777; }
// local time is three and a half hours ahead, with a name of its own; mktime normalises its argument as the standard allows
static time_t from_civil(const struct tm* t) { long y = t->tm_year + 1900l, m = t->tm_mon + 1; y -= m <= 2; long era = y / 400, yoe = y - era * 400, doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + t->tm_mday - 1, doe = yoe * 365 + yoe / 4 - yoe / 100 + doy; return (era * 146097 + doe - 719468) * 86400 + t->tm_hour * 3600l + t->tm_min * 60 + t->tm_sec; }
extern "C" struct tm* localtime_r(const time_t* t, struct tm* o) noexcept { time_t s = *t + 12600; gmtime_r(&s, o); o->tm_gmtoff = 12600; o->tm_zone = "LOC"; o->tm_isdst = 1; return o; }
extern "C" time_t mktime(struct tm* t) noexcept { time_t r = from_civil(t) - 12600; t->tm_hour = 1; t->tm_min = 2; t->tm_sec = 3; t->tm_mday = 4; t->tm_mon = 5; t->tm_year = 6; t->tm_wday = 0; t->tm_yday = 7; t->tm_isdst = 1; t->tm_gmtoff = 12600; t->tm_zone = "LOC"; return r; }
static int dd(const std::string& s, std::size_t i, std::size_t n) { int v = 0; for (std::size_t k = 0; k < n; k++) { CHECKM((unsigned char)(s[i + k] - '0') < 10, "digits"); v = v * 10 + (s[i + k] - '0'); } return v; }
static bool leap(int y) { return (y % 4 == 0 && y % 100 != 0) || y % 400 == 0; }
static std::unique_ptr<formatter_t> str(const std::string& p) { return builder<formatter::string_t>(p).build(); }
// "YYYY-mm-dd HH:MM:SS.ffffff" is exactly that instant
static void instant(const std::string& s, std::int64_t days, unsigned sod, unsigned us) {
    CHECKM(s.size() == 26 && s[4] == '-' && s[7] == '-' && s[10] == ' ' && s[13] == ':' && s[16] == ':' && s[19] == '.', "layout"); int y = dd(s, 0, 4), m = dd(s, 5, 2), d = dd(s, 8, 2); CHECKM(m >= 1 && m <= 12, "a month");
    static const unsigned char LEN[] = {0, 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}; m = (int)sym_concrete(m); CHECKM(d >= 1 && d <= LEN[m] + (m == 2 && leap(y)), "a day of that month");
    int h = dd(s, 11, 2), mi = dd(s, 14, 2), se = dd(s, 17, 2); CHECKM(h < 24 && mi < 60 && se < 60, "a time of day"); CHECKM((unsigned)(h * 3600 + mi * 60 + se) == sod, "the instant's time of day"); CHECKM((unsigned)dd(s, 20, 6) == us, "the instant's microseconds");
    static const int CUM[] = {0, 0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334}; int p = y - 1; std::int64_t n = 365 * p + p / 4 - p / 100 + p / 400 + CUM[m] + (m > 2 && leap(y)) + d - 1 - 719162; CHECKM(n == days, "the instant's date");
}
// every day from 1970 on, in windows of 256 days
HARNESS c10_days() {
    unsigned from = (unsigned)sym_param("from", 0), to = (unsigned)sym_param("to", 200), step = (unsigned)sym_param("step", 1), w = (unsigned)sym_concrete(sym_range("window", 0, (to - from) / step)) * step + from; std::int64_t days = (std::int64_t)w * 256 + (std::int64_t)sym_int("day", 8); unsigned sod = w & 1 ? 86399 : 0, us = w & 1 ? 999999 : 0;
    rec r("m", 1); r.ts = (days * 86400 + sod) * 1000000000ll + us * 1000ll; instant(fmt_with(*str("{timestamp}"), r), days, sod, us); sym_reach("done");
}
// every second of some days (also the weekday and the day of the year), every microsecond of some seconds
static const unsigned DAYS[] = {0, 58, 789, 790, 11016, 17361, 19782, 47540};
HARNESS c10_seconds() { unsigned sod = (unsigned)sym_range("sod", 0, 86399); std::int64_t days = DAYS[sym_choice("day", 8)]; rec r("m", 1); r.ts = (days * 86400 + sod) * 1000000000ll; instant(fmt_with(*str("{timestamp:s}"), r), days, sod, 0); sym_reach("done"); }
HARNESS c10_micro() { unsigned k = sym_choice("combo", (unsigned)sym_param("combos", 2)), us = (unsigned)sym_range("us", 0, (unsigned)sym_param("usmax", 999999)), ns = k & 1 ? 999 : 0; std::int64_t days = DAYS[k & 2 ? 0 : 7]; unsigned sod = k & 1 ? 86399 : 0; rec r("m", 1); r.ts = (days * 86400 + sod) * 1000000000ll + us * 1000ll + ns; unsigned how = sym_choice("how", (unsigned)sym_param("hows", 3)); std::string s;
    if (how == 0) s = fmt_with(*str("{timestamp:{%Y-%m-%d %H:%M:%S.%f}s}"), r); else if (how == 1) { builder<formatter::json_t> b; b.timestamp("%Y-%m-%d %H:%M:%S.%f"); s = member(document(fmt_with(*std::move(b).build(), r), false), "timestamp").s; } else { builder<formatter::tskv_t> b; b.timestamp("timestamp", "%Y-%m-%d %H:%M:%S.%f"); auto l = line(fmt_with(*std::move(b).build(), r)); s = l[0].v; } instant(s, days, sod, us); sym_reach("done"); }
// week day and day of the year
HARNESS c10_week() { unsigned w = (unsigned)sym_concrete(sym_range("window", 0, (unsigned)sym_param("to", 60))); std::int64_t days = (std::int64_t)w * 256 + (std::int64_t)sym_int("day", 8); rec r("m", 1); r.ts = days * 86400000000000ll; std::string s = fmt_with(*str("{timestamp:{%Y %u %w %j}s}"), r); CHECKM(s.size() == 12 && s[4] == ' ' && s[6] == ' ' && s[8] == ' ', "layout"); int y = dd(s, 0, 4), p = y - 1; std::int64_t jan1 = 365 * p + p / 4 - p / 100 + p / 400 - 719162; CHECKM(dd(s, 7, 1) == (days + 4) % 7, "day of the week"); CHECKM(dd(s, 5, 1) == (days + 3) % 7 + 1, "day of the week from Monday"); CHECKM(dd(s, 9, 3) == days - jan1 + 1, "day of the year"); sym_reach("done"); }
// numeric form
HARNESS c10_numeric() { static const std::int64_t B[] = {0, 999950, 1000000000000000ll - 50, 1500000000000000ll, 4102444799999900ll, 9223372036854675ll}; std::int64_t us = B[sym_choice("base", 6)] + (std::int64_t)sym_range("us", 0, 99), ns = sym_bool("ns") ? 999 : 0; sym_assume(us <= 9223372036854774ll); rec r("m", 1); r.ts = us * 1000 + ns; unsigned how = sym_choice("how", 3); std::string s;
    if (how == 0) s = fmt_with(*str("{timestamp:d}"), r); else if (how == 1) { s = fmt_with(*str("{timestamp:>20d}"), r); CHECKM(s.size() == 20, "padded"); while (s.size() && s[0] == ' ') s.erase(0, 1); } else s = member(document(fmt_with(*builder<formatter::json_t>().build(), r), false), "timestamp").s; CHECKM(is_dec(s.data(), s.size(), us), "microseconds since the epoch"); sym_reach("done"); }
// directives: the reference cuts the pattern at %f and %s and asks the C library for the rest
static std::string lib(const std::string& p, const struct tm& t) { if (p.empty()) return p; std::string q = p + "!", b(64 + 64 * q.size(), 0); struct tm c = t; std::size_t n = strftime(&b[0], b.size(), q.c_str(), &c); b.resize(n ? n - 1 : 0); return b; }
static std::string reference(const std::string& p, time_t t, unsigned us, bool local) {
    struct tm tm; if (local) localtime_r(&t, &tm); else gmtime_r(&t, &tm); std::string o, seg; for (std::size_t i = 0; i < p.size(); i++) { if (p[i] != '%' || i + 1 == p.size()) { seg += p[i]; continue; } char c = p[++i]; if (c == 'f') { o += lib(seg, tm); seg.clear(); std::string d = dec_u(us); o += std::string(6 - d.size(), '0') + d; } else if (c == 's') { o += lib(seg, tm); seg.clear(); struct tm u = tm; o += dec(mktime(&u)); } else { seg += '%'; seg += c; } } return o + lib(seg, tm);
}
static void no_flags(const std::string& m) { for (std::size_t i = 0; i + 1 < m.size(); i++) if (sym_is_symbolic((unsigned char)m[i]) || m[i] == '%') if (m[i] == '%') for (const char* f = "EO_-0^#+123456789"; *f; f++) sym_assume(m[i + 1] != *f); }
static std::string through(unsigned how, const std::string& p, rec& r, bool local) {
    if (how == 0) { auto f = str("{timestamp:{" + p + "}" + (local ? "l}" : "s}")); return fmt_with(*f, r); } if (how == 1) { builder<formatter::json_t> b; b.timestamp(p); return member(document(fmt_with(*std::move(b).build(), r), false), "timestamp").s; } builder<formatter::tskv_t> b; b.timestamp("timestamp", p, !local); auto l = line(fmt_with(*std::move(b).build(), r)); return l[0].v;
}
static const std::int64_t TS[] = {1500000000123456000ll, 951782399999999000ll, 0};
HARNESS c10_directives() {   // arbitrary short patterns
    unsigned how = sym_choice("how", 3), n = sym_choice("n", (unsigned)sym_param("max", 3)) + 1; bool local = how != 1 && sym_bool("local"); std::string p(n, 0); sym_bytes(&p[0], n, "p"); for (char c : p) sym_assume(c != 0); if (how == 0) for (char c : p) sym_assume(c != '{' && c != '}'); no_flags(p); std::int64_t t = TS[sym_choice("t", (unsigned)sym_param("instants", 2))];
    rec r("m", 1); r.ts = t; std::string got = through(how, p, r, local); CHECKM(same(got, reference(p, t / 1000000000, (unsigned)(t / 1000 % 1000000), local)), "the directives mean what strftime says"); sym_reach(local ? "local" : "utc"); observe("out", got);
}
HARNESS c10_sequences() {   // several directives in a row, %f and %s between them, escaped percent signs
    static const char* const D[] = {"%f", "%s", "%%", "%Y", "%H", "%d", "x", "%z", "%Z", "%%f", "%%s", "%j"}; unsigned how = sym_choice("how", 3), n = (unsigned)sym_param("k", 3), kinds = (unsigned)sym_param("kinds", 12); bool local = how != 1 && sym_bool("local"); std::string p; for (unsigned i = 0; i < n; i++) p += D[sym_choice("d", kinds)]; rec r("m", 1); r.ts = TS[0]; std::string got = through(how, p, r, local); CHECKM(same(got, reference(p, 1500000000, 123456, local)), "the directives mean what strftime says"); sym_reach(local ? "local" : "utc"); observe("out", got);
}
// long patterns and surrounding text
HARNESS c10_long() {
    static const unsigned N[] = {1000, 1021, 1022, 1023, 1024, 1025, 2047, 2048, 5000}; unsigned n = N[sym_choice("n", 9)], how = sym_choice("how", 3), kind = sym_choice("kind", 4); char a = (char)sym_int("a", 8), z = (char)sym_int("z", 8); for (char c : {a, z}) sym_assume(c != 0 && c != '%' && c != '{' && c != '}'); std::string p; if (kind == 0) { p = std::string(n, 'x'); p[0] = a; p[n - 1] = z; } else if (kind == 1) { p = "%f" + std::string(n, 'x') + "%Y%f"; p[2] = a; } else if (kind == 2) { while (p.size() < n) p += "%Y"; } else { p = std::string(n, 'x') + "%s" + std::string(n, 'y'); }
    rec r("m", 1); r.ts = TS[0]; std::string got = through(how, p, r, false); CHECKM(same(got, reference(p, 1500000000, 123456, false)), "long patterns are rendered whole"); sym_reach("done");
}
HARNESS c10_around() {   // the rest of the line is not disturbed
    unsigned k = sym_choice("kind", 4); block m("m", 2); rec r(m.p, 2); r.ts = TS[0]; static const char* const P[] = {"a{message}b{timestamp}c{message}d", "{timestamp:{%%}s}{message}{timestamp:{%Y}>6s}|", "[{timestamp:{%f}<8s}]{message}", "{timestamp:{%Y}s}{timestamp:{%m}l}{timestamp:d}{message}"}; std::string got = fmt_with(*str(P[k]), r), M = m.str(), e[] = {"a" + M + "b2017-07-14 02:40:00.123456c" + M + "d", "%" + M + "  2017|", "[123456  ]" + M, "2017071500000000123456" + M}; CHECKM(same(got, e[k]), "the whole line"); sym_reach("done"); observe("out", got);
}
// one render after another: by the same formatter or by different ones, of the same instant, of the same second, of others; UTC, local and both at once
HARNESS c10_twice() {
    unsigned rounds = (unsigned)sym_param("rounds", 2), kinds = (unsigned)sym_param("kinds", 7), times = (unsigned)sym_param("times", 5); static const std::string P = "%d %H:%M:%S.%f %Z %s"; static const std::int64_t T[] = {1500000000123456000ll, 1500000000999999000ll, 1500000001000000000ll, 951782399999999000ll, 1500003600123456000ll};
    std::unique_ptr<formatter_t> f[7]; f[0] = str("{timestamp:{" + P + "}s}"); f[1] = str("{timestamp:{" + P + "}l}"); f[2] = str("{timestamp:{" + P + "}s}|{timestamp:{" + P + "}l}"); f[3] = str("{timestamp:{" + P + "}l}|{timestamp:{" + P + "}s}");
    { builder<formatter::tskv_t> b; b.timestamp("timestamp", P, true); f[4] = std::move(b).build(); } { builder<formatter::tskv_t> b; b.timestamp("timestamp", P, false); f[5] = std::move(b).build(); } { builder<formatter::json_t> b; b.timestamp(P); f[6] = std::move(b).build(); }
    for (unsigned i = 0; i < rounds; i++) {
        unsigned k = sym_choice("formatter", kinds), w = sym_choice("instant", times); std::int64_t us = T[w] / 1000; time_t sec = us / 1000000; unsigned frac = (unsigned)(us % 1000000); std::string u = reference(P, sec, frac, false), l = reference(P, sec, frac, true), want = k == 0 || k == 4 || k == 6 ? u : k == 1 || k == 5 ? l : k == 2 ? u + "|" + l : l + "|" + u;
        rec r("m", 1); r.ts = T[w]; std::string got = fmt_with(*f[k], r); if (k == 4 || k == 5) got = line(got)[0].v; else if (k == 6) got = member(document(got, false), "timestamp").s; CHECKM(same(got, want), "each rendering is that of its own record, whatever was rendered before"); if (i) sym_reach("again"); observe("out", got);
    }
}
