#include "sym.h"
#include "ref.hpp"
#include <blackhole/extensions/format.hpp>
#include <blackhole/extensions/writer.hpp>
#include <string>
namespace fmt = blackhole::fmt;
// ---- independent reading of one replacement field's specification: [[fill]align][sign][#][0][width][.precision][type]
struct spec { char fill = ' ', align = 0, sign = 0, type = 0; bool hash = false, zero = false; long width = 0, prec = -1; bool bad = false; };
enum kind { KINT, KUINT, KSTR, KCHAR, KBOOL, KPTR, KDBL };
static bool isal(char c) { return c == '<' || c == '>' || c == '^' || c == '='; }
static spec parse(const std::string& t) {
    spec s; std::size_t i = 0, n = t.size(); auto at = [&](std::size_t k) -> char { return k < n ? t[k] : 0; };
    if (n > 1 && isal(t[1]) && t[0] != '}') { if (t[0] == '{') { s.bad = true; return s; } s.fill = t[0]; s.align = t[1]; i = 2; } else if (isal(at(0))) { s.align = t[0]; i = 1; }
    if (at(i) == '+' || at(i) == '-' || at(i) == ' ') s.sign = t[i++];
    if (at(i) == '#') { s.hash = true; i++; } if (at(i) == '0') { s.zero = true; i++; }
    while (at(i) >= '0' && at(i) <= '9') { s.width = s.width * 10 + (t[i++] - '0'); if (s.width > 2147483647l) { s.bad = true; return s; } }
    if (at(i) == '.') { i++; if (!(at(i) >= '0' && at(i) <= '9')) { s.bad = true; return s; } s.prec = 0; while (at(i) >= '0' && at(i) <= '9') { s.prec = s.prec * 10 + (t[i++] - '0'); if (s.prec > 2147483647l) { s.bad = true; return s; } } }
    if (i < n) s.type = t[i++]; if (i != n) s.bad = true; return s;
}
static std::string padded(const std::string& body, std::size_t signlen, const spec& s, char dflt) {
    if ((long)body.size() >= s.width) return body; std::size_t p = s.width - body.size(); char al = s.zero ? '=' : s.align ? s.align : dflt; char f = s.zero ? '0' : s.fill;
    switch (al) { case '<': return body + std::string(p, f); case '^': return std::string(p / 2, f) + body + std::string(p - p / 2, f); case '=': return body.substr(0, signlen) + std::string(p, f) + body.substr(signlen); default: return std::string(p, f) + body; }
}
static std::string radix(std::uint64_t v, unsigned b, bool up) { std::string r; do { r.insert(r.begin(), (up ? "0123456789ABCDEF" : "0123456789abcdef")[v % b]); v /= b; } while (v); return r; }
// text for a value of the given kind, or bad
static std::string render(spec s, kind k, long iv, const std::string& sv, bool& bad) {
    bad = s.bad; if (bad) return ""; bool num = k == KINT || k == KUINT || k == KBOOL || k == KCHAR || k == KDBL;
    if (!num && (s.sign || s.hash || s.zero || s.align == '=')) { bad = true; return ""; } if (k == KUINT && s.sign) { bad = true; return ""; }
    if (k != KSTR && k != KDBL && s.prec >= 0) { bad = true; return ""; }
    if (k == KSTR) { if (s.type && s.type != 's') { bad = true; return ""; } std::string b = sv; if (s.prec >= 0 && (std::size_t)s.prec < b.size()) b.resize(s.prec); return padded(b, 0, s, '<'); }
    std::string sg = iv < 0 ? "-" : s.sign == '+' ? "+" : s.sign == ' ' ? " " : ""; std::uint64_t m = iv < 0 ? 0 - (std::uint64_t)iv : (std::uint64_t)iv; std::string d;
    switch (s.type) { case 0: case 'd': d = radix(m, 10, false); break; case 'x': case 'X': if (s.hash) sg += s.type == 'x' ? "0x" : "0X"; d = radix(m, 16, s.type == 'X'); break; case 'b': case 'B': if (s.hash) sg += s.type == 'b' ? "0b" : "0B"; d = radix(m, 2, false); break; case 'o': if (s.hash) sg += "0"; d = radix(m, 8, false); break; default: bad = true; return ""; }
    return padded(sg + d, sg.size(), s, '>');
}
template<class T> static std::string run(const std::string& f, const T& v, bool& threw) { fmt::MemoryWriter w; threw = false; try { w.write(f.c_str(), v); } catch (const fmt::FormatError& e) { threw = true; CHECKM(e.what()[0] != 0, "the error says what is wrong"); } return w.str(); }
static std::string bytes(const char* n, unsigned k) { std::string s(k, 0); sym_bytes(&s[0], k, n); for (char& c : s) sym_assume(c != 0); return s; }
// fill, alignment, width over a string with arbitrary content
HARNESS c08_string() {
    block v("v", sym_choice("n", (unsigned)sym_param("len", 3) + 1)); static const char AL[] = {0, '<', '>', '^'}; char al = AL[sym_choice("align", 4)], fill = ' '; unsigned width = sym_choice("width", (unsigned)sym_param("width", 7) + 1); int prec = (int)sym_choice("prec", 4) - 1;
    std::string f = "{:"; if (al && sym_bool("fill")) { fill = (char)sym_int("fillc", 8); sym_assume(fill != 0 && fill != '{' && fill != '}'); f += fill; } if (al) f += al; if (width) f += dec_u(width); if (prec >= 0) f += "." + dec_u(prec); if (sym_bool("s")) f += 's'; f += '}';
    bool threw; std::string got = run(f, fmt::StringRef(v.p, v.n), threw); spec s; s.fill = fill; s.align = al; s.width = width; s.prec = prec; bool bad; std::string want = render(s, KSTR, 0, v.str(), bad); CHECKM(!threw, "accepted"); CHECKM(same(got, want), "padded with the fill on the sides the alignment demands, or unchanged"); observe("s", got); sym_reach(got.size() > v.n ? "padded" : "unchanged");
}
// any specification bytes, for every kind of argument
HARNESS c08_spec() {
    kind k = (kind)sym_choice("kind", 6); std::string t = bytes("t", sym_choice("n", (unsigned)sym_param("spec", 3) + 1)); for (char c : t) sym_assume(c != '{' && c != '}'); for (std::size_t i = 0; i + 1 < t.size(); i++) sym_assume(!(t[i] >= '1' && t[i] <= '9' && t[i + 1] >= '0' && t[i + 1] <= '9'));
    std::string f = "<{:" + t + "}>"; spec s = parse(t); bool threw = false, bad = false, skip = false; std::string got, want; if (s.type == 'n') skip = true; if (s.zero && s.align) skip = true;   // locale-dependent; the interplay of '0' with an explicit alignment is not specified
    switch (k) {
    case KINT: { int v = sym_bool("neg") ? -37 : 37; got = run(f, v, threw); want = render(s, k, v, "", bad); break; }
    case KUINT: got = run(f, 4000000000u, threw); want = render(s, k, 4000000000l, "", bad); break;
    case KSTR: got = run(f, "ab", threw); want = render(s, k, 0, "ab", bad); break;
    case KCHAR: { got = run(f, 'q', threw); if (!s.type || s.type == 'c') { s.type = 0; bad = s.bad || s.prec >= 0 || s.zero || s.align == '=' || s.sign || s.hash; if (s.zero || s.hash || s.sign) skip = true; want = bad ? "" : padded("q", 0, s, '<'); } else want = render(s, k, 'q', "", bad); break; }
    case KBOOL: { bool v = sym_bool("b"); got = run(f, v, threw); if (!s.type) { if (s.sign || s.hash || s.zero || s.align == '=') skip = true; bad = s.bad || s.prec >= 0; want = bad ? "" : padded(v ? "true" : "false", 0, s, '<'); } else want = render(s, k, v, "", bad); break; }
    default: { got = run(f, (const void*)0x1f2e, threw); if (s.align == '=' || s.zero || s.sign || s.hash) skip = true; bad = s.bad || s.prec >= 0 || (s.type && s.type != 'p'); want = bad ? "" : padded("0x1f2e", 0, s, '>'); } }
    if (!skip) { if (bad) { CHECKM(threw, "a malformed specification raises a format error"); sym_reach("refused"); } else { CHECKM(!threw, "a well-formed specification is accepted"); CHECKM(same(got, "<" + want + ">"), "the value's text, padded as specified"); sym_reach("rendered"); } }
    observe("s", threw ? std::string("error") : got);
}
// doubles by representative
HARNESS c08_double() {
    static const double V[] = {1.5, -1.5, 0.0, -0.0, 1e300, -2.25e-7, 123456789.0, 1.0 / 0.0 * 1, -1.0 / 0.0, __builtin_nan("")}; static const char* const G[] = {"1.5", "1.5", "0", "0", "1e+300", "2.25e-07", "1.23457e+08", "inf", "inf", "nan"}; static const char* const F2[] = {"1.50", "1.50", "0.00", "0.00", nullptr, "0.00", "123456789.00", "inf", "inf", "nan"};
    unsigned k = sym_choice("v", 10); static const char AL[] = {0, '<', '>', '^', '='}; char al = AL[sym_choice("align", 5)], fill = ' '; static const char SG[] = {0, '+', ' '}; char sg = SG[sym_choice("sign", 3)]; bool f2 = sym_bool("fixed"); sym_assume(!f2 || F2[k]); bool zero = !al && sym_bool("zero"); static const unsigned W[] = {0, 3, 4, 5, 9, 16}; unsigned width = W[sym_choice("width", 6)];
    std::string f = "{:"; if (al && sym_bool("fill")) { fill = '*'; f += fill; } if (al) f += al; if (sg) f += sg; if (zero) f += '0'; if (width) f += dec_u(width); if (f2) f += ".2f"; f += '}'; bool threw; std::string got = run(f, V[k], threw);
    bool neg = k == 1 || k == 3 || k == 5 || k == 8; std::string sign = neg ? "-" : sg == '+' ? "+" : sg == ' ' ? " " : ""; spec s; s.align = al; s.fill = fill; s.width = width; s.zero = zero; CHECKM(!threw, "accepted"); std::string want = padded(sign + (f2 ? F2[k] : G[k]), sign.size(), s, k >= 7 ? '<' : '>');
    CHECKM(same(got, want) || (k >= 7 && !al && !zero && same(got, padded(sign + (f2 ? F2[k] : G[k]), sign.size(), s, '>'))), "the number, padded as specified"); observe("s", got); sym_reach("done");
}
// whole format strings of arbitrary bytes: either text or a format error
HARNESS c08_pattern() {
    std::string f = bytes("f", sym_choice("n", (unsigned)sym_param("max", 4) + 1)); for (std::size_t i = 0; i + 1 < f.size(); i++) sym_assume(!(f[i] >= '1' && f[i] <= '9' && f[i + 1] >= '0' && f[i + 1] <= '9'));
    fmt::MemoryWriter w; bool threw = false; try { w.write(f.c_str(), 7, "xy"); } catch (const fmt::FormatError& e) { threw = true; CHECKM(e.what()[0] != 0, "the error says what is wrong"); } std::string got = w.str();
    // reference for literals, doubled braces and bare placeholders
    std::string x; int mode = 0, st = 1; unsigned next = 0; static const char* const A[] = {"7", "xy"}; std::size_t i = 0, n = f.size();
    while (i < n && st == 1) { char c = f[i]; if (c == '{') { if (i + 1 < n && f[i + 1] == '{') { x += '{'; i += 2; } else if (i + 1 < n && f[i + 1] == '}') { if (mode == 2 || next > 1) st = 0; else { x += A[next++]; mode = 1; i += 2; } } else if (i + 2 < n && (f[i + 1] == '0' || f[i + 1] == '1') && f[i + 2] == '}') { if (mode == 1) st = 0; else { x += A[f[i + 1] - '0']; mode = 2; i += 3; } } else st = i + 1 == n ? 0 : 2; }
        else if (c == '}') { if (i + 1 < n && f[i + 1] == '}') { x += '}'; i += 2; } else st = 0; } else { x += c; i++; } }
    if (st == 1) { CHECKM(!threw && same(got, x), "literals, doubled braces and placeholders"); sym_reach("rendered"); } else if (st == 0) { CHECKM(threw, "a malformed pattern raises a format error"); sym_reach("refused"); } else sym_reach("other"); observe("s", threw ? std::string("error") : got);
}
// growing past the inline buffer (500 bytes) in any sequence of writes
HARNESS c08_grow() {
    fmt::MemoryWriter w; std::string want; unsigned ops = (unsigned)sym_param("ops", 3); static const unsigned N[] = {0, 1, 250, 498, 499, 500, 501, 1200}; unsigned nn = (unsigned)sym_param("sizes", 8);
    for (unsigned i = 0; i < ops; i++) { unsigned k = sym_choice("op", 8); unsigned n = N[sym_choice("n", nn)];
        switch (k) { case 0: { block b(std::string(n, char('a' + i))); if (n) { sym_bytes(b.p, 1, "first"); sym_bytes(b.p + n - 1, 1, "last"); } w << fmt::StringRef(b.p, b.n); want += b.str(); break; } case 1: { std::string f = "{:>" + dec_u(n) + "}"; sym_assume(n != 0); w.write(f.c_str(), -123456 - (int)i); std::string d = "-" + dec_u(123456 + i); want += (d.size() < n ? std::string(n - d.size(), ' ') : std::string()) + d; break; }
            case 2: { char c = (char)sym_int("c", 8); w << c; want += c; sym_assume(n == 0); break; } case 3: { std::string f = std::string(n, 'z') + "{}|{:x}"; w.write(f.c_str(), fmt::StringRef(want.data(), want.size()), 0xbeefu); want = want + std::string(n, 'z') + want + "|beef"; break; }
            case 4: { sym_assume(n != 0); std::string f = "{:*^" + dec_u(n) + "}"; w.write(f.c_str(), "mid"); std::size_t p = n > 3 ? n - 3 : 0; want += std::string(p / 2, '*') + "mid" + std::string(p - p / 2, '*'); break; } case 6: case 7: { sym_assume(n != 0); bool neg = sym_bool("neg"); std::string f = std::string(k == 6 ? "{:*^" : "{:*<") + dec_u(n) + "}", t = neg ? "-2.5" : "2.5"; w.write(f.c_str(), neg ? -2.5 : 2.5); std::size_t p = n > t.size() ? n - t.size() : 0, l = k == 6 ? p / 2 : 0; want += std::string(l, '*') + t + std::string(p - l, '*'); break; } default: { sym_assume(n != 0 && n < 600); std::string f = "{:0>" + dec_u(n) + ".1f}"; w.write(f.c_str(), 2.5); want += (n > 3 ? std::string(n - 3, '0') : std::string()) + "2.5"; } }
        CHECKM(w.size() == want.size(), "size"); CHECKM(same(w.data(), w.size(), want.data(), want.size()), "every byte written so far is preserved, in order"); if (want.size() > 500) sym_reach("grown"); }
    CHECKM(same(w.c_str(), want.size(), want.data(), want.size()) && w.c_str()[want.size()] == 0, "C string view of the result"); std::string moved; { fmt::MemoryWriter m(std::move(w)); moved = m.str(); } CHECKM(same(moved, want), "content survives a move"); std::size_t z = want.size(); sym_observe("size", &z, sizeof z);
}
// nested widths and precisions
HARNESS c08_nested() {
    unsigned which = sym_choice("which", 4); long long wv = (long long)sym_int("w", 64); bool small = wv >= 0 && wv <= 12; bool prec = which & 1; std::string v = "abcd"; std::string f = prec ? "[{:.{}}]" : "[{:>{}}]"; if (which & 2) f = prec ? "[{0:.{1}}]" : "[{0:>{1}}]";
    if (sym_concrete(wv > 12 && wv <= 2147483647ll)) { sym_assume(wv <= 0 || prec); } fmt::MemoryWriter w; bool threw = false; if (prec && wv > 12 && wv <= 2147483647ll) small = true; try { w.write(f.c_str(), v.c_str(), wv); } catch (const fmt::FormatError&) { threw = true; }
    if (sym_concrete(small)) { CHECKM(!threw, "a width or precision in range is accepted"); std::string want; if (prec) want = sym_concrete(wv < 4) ? v.substr(0, sym_concrete(wv)) : v; else { std::size_t n = sym_concrete(wv); want = (n > 4 ? std::string(n - 4, ' ') : std::string()) + v; } CHECKM(same(w.str(), "[" + want + "]"), "width or precision taken from the argument"); sym_reach("ok"); } else { CHECKM(threw, "negative or too large widths and precisions are format errors"); sym_reach("refused"); }
}
// several replacement fields in one pattern: automatic numbering, manual indices and names, also inside widths and precisions
HARNESS c08_fields() {
    // what each field refers to: 'a' next argument, '0'.. that argument, 'n' the named one, '!' malformed; in the order they are taken; then its effect
    struct fld { const char* text; const char* refs; unsigned how; }; static const fld F[] = {{"{}", "a", 0}, {"{0}", "0", 0}, {"{1}", "1", 0}, {"{2}", "2", 0}, {"{:>3}", "a", 1}, {"{1:x}", "1", 2}, {"{:{}}", "aa", 3}, {"{0:{1}}", "01", 3}, {"{key}", "n", 0}, {"{other}", "!", 0}, {"{4}", "!", 0}, {"{:{0}}", "a0", 3}, {"{0:{}}", "0a", 3}, {"{key:>3}", "n", 1}, {"{0:{key}}", "0n", 3}, {"{{", "", 4}, {"{-1}", "!", 0}, {"{99999999999}", "!", 0}, {"{0 }", "!", 0}, {"{3}", "3", 0}, {"{4294967296}", "!", 0}, {"{65536}", "!", 0}};
    unsigned n = (unsigned)sym_param("fields", 3), kinds = (unsigned)sym_param("kinds", 15); static const int A[] = {5, 11, 3, 8}; std::string f, x; int mode = 0; unsigned next = 0; bool bad = false, open = false; 
    for (unsigned i = 0; i < n; i++) {
        const fld& d = F[sym_choice("field", kinds)]; f += d.text; f += '|'; int v[2] = {0, 0}; unsigned k = 0;
        for (const char* r = d.refs; *r && !bad; r++) { if (*r == 'n' || *r == '!') { if (mode == 1) open = true; mode = 2; if (*r == '!') bad = true; else v[k++] = 8; } else if (*r == 'a') { if (mode == 2 || next > 3) bad = true; else { mode = 1; v[k++] = A[next++]; } } else { if (mode == 1) bad = true; else { mode = 2; v[k++] = A[*r - '0']; } } }
        if (bad) continue; std::string t = d.how == 2 ? radix((unsigned)v[0], 16, false) : d.how == 4 ? "{" : dec(v[0]); std::size_t w = d.how == 1 ? 3 : d.how == 3 ? (std::size_t)v[1] : 0; if (t.size() < w) t = std::string(w - t.size(), ' ') + t; x += t + "|";
    }
    fmt::MemoryWriter w; bool threw = false; try { w.write(f.c_str(), A[0], (long)A[1], (short)A[2], fmt::arg("key", A[3])); } catch (const fmt::FormatError& e) { threw = true; CHECKM(e.what()[0] != 0, "the error says what is wrong"); }
    if (bad) { CHECKM(threw, "a pattern referring to an argument that is not there, or mixing automatic and manual numbering, raises a format error"); sym_reach("refused"); } else if (!open) { CHECKM(!threw, "a well-formed pattern is accepted"); CHECKM(same(w.str(), x), "each field shows the argument it refers to"); sym_reach("rendered"); } observe("s", threw ? std::string("error") : w.str());
}
// more arguments than fit the packed representation
HARNESS c08_many() {
    unsigned i = sym_choice("i", 22), j = sym_choice("j", 22); bool far = sym_bool("auto"); std::string f = far ? "" : "{" + dec_u(i) + "}|{" + dec_u(j) + "}"; if (far) { sym_assume(j == 0); for (unsigned k = 0; k <= i; k++) f += "{}|"; } std::string want; bool bad = false; auto text = [&](unsigned k) { if (k >= 20) bad = true; return k % 4 == 0 ? "s" + dec_u(k) : k % 4 == 1 ? dec_u(k) : k % 4 == 2 ? std::string(1, char('a' + k)) : dec((long)k * -10000000000l); };
    if (far) { for (unsigned k = 0; k <= i; k++) want += text(k) + "|"; } else want = text(i) + "|" + text(j); fmt::MemoryWriter w; bool threw = false;
    try { w.write(f.c_str(), "s0", 1, 'c', -30000000000l, "s4", 5u, 'g', -70000000000l, "s8", 9ull, 'k', -110000000000l, "s12", (short)13, 'o', -150000000000l, "s16", 17l, 's', -190000000000l); } catch (const fmt::FormatError&) { threw = true; }
    if (bad) { CHECKM(threw, "there is no such argument"); sym_reach("refused"); } else { CHECKM(!threw && same(w.str(), want), "each field shows the argument it refers to"); sym_reach("rendered"); } observe("s", threw ? std::string("error") : w.str());
}
