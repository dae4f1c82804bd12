#include "sym.h"
#include "ref.hpp"
#include <blackhole/extensions/format.hpp>
#include <blackhole/extensions/writer.hpp>
#include <string>
namespace fmt = blackhole::fmt;
// digits of v in a power-of-two base, most significant first, without leading zeros
template<class U> static bool is_base(const char* s, std::size_t n, U v, unsigned shift, bool upper) {
    unsigned bits = sizeof(U) * 8; n = sym_concrete(n); if (!n || (n - 1) * shift >= bits) return false; const char* D = upper ? "0123456789ABCDEF" : "0123456789abcdef"; U mask = (U(1) << shift) - 1;
    if (n > 1 && sym_concrete((v >> ((n - 1) * shift)) == 0)) return false; if (n * shift < bits && sym_concrete((v >> (n * shift)) != 0)) return false;
    bool ok = true; for (std::size_t i = 0; i < n; i++) { unsigned d = (unsigned)((v >> ((n - 1 - i) * shift)) & mask); ok &= s[i] == D[d]; } return ok;
}
template<class U> struct num { U mag; bool neg; };
static const char* const TYPES[] = {"x", "X", "o", "b", "B"}; static const unsigned SH[] = {4, 4, 3, 1, 1};
static std::string prefix(unsigned t) { return t == 0 ? "0x" : t == 1 ? "0X" : t == 2 ? "0" : t == 3 ? "0b" : "0B"; }
// text must be: padding, sign, prefix, digits in the arrangement asked for.  align: 0 none(right), 1 '<', 2 '>', 3 '^', 4 '=', 5 zero flag
template<class F> static void layout(const std::string& s, unsigned align, char fill, unsigned width, const std::string& sign, const std::string& pre, F digits) {
    std::string lead = sign + pre; std::size_t n = s.size(), a = 0, b = n; std::size_t nd = 0;
    // the digit count is found from the content: total = lead + digits (+ padding when total < width)
    if (n > width || width == 0) nd = n - lead.size(); else {
        CHECKM(n == width, "padded to the width"); auto isfill = [&](std::size_t i) { return s[i] == fill; };
        // the fill characters used here never occur in digits, signs or prefixes, except '0', which is handled by the caller
        std::size_t l = 0, r = 0; 
        if (align == 4) { CHECKM(same(s.substr(0, lead.size()), lead), "sign and prefix first"); l = lead.size(); std::size_t p = 0; while (l + p < n && isfill(l + p)) p++; CHECKM(digits(s.data() + l + p, n - l - p), "digits after the padding"); return; }
        while (l < n && isfill(l)) l++; if (l && fill == ' ' && sign == " ") l--; while (r < n - l && isfill(n - 1 - r)) r++; std::size_t pad = l + r;
        if (align == 1) CHECKM(l == 0, "left aligned"); else if (align == 3) CHECKM(l == pad / 2, "centred"); else CHECKM(r == 0, "right aligned"); a = l; b = n - r; nd = b - a - lead.size();
    }
    CHECKM(b - a > lead.size(), "room for digits"); CHECKM(same(s.substr(a, lead.size()), lead), "sign and prefix"); CHECKM(digits(s.data() + a + lead.size(), nd), "positional notation of the value");
}
static void zero(const std::string& s, unsigned width, const std::string& lead, std::uint64_t mag, unsigned shift, bool upper) {   // zero padded: value of all digits after the sign and prefix equals the magnitude
    CHECKM(s.size() >= width, "at least the width"); CHECKM(s.size() > lead.size() && same(s.substr(0, lead.size()), lead), "sign and prefix first"); std::uint64_t v = 0; bool ok = true; const char* D = upper ? "0123456789ABCDEF" : "0123456789abcdef";
    std::size_t nd = s.size() - lead.size(); if (!shift) { std::size_t z = 0; while (z + 1 < nd && sym_concrete(s[lead.size() + z] == '0')) z++; CHECKM(z == 0 || s.size() == width, "zeros only up to the width"); CHECKM(is_dec_u(s.data() + lead.size() + z, nd - z, mag), "digits"); return; }
    for (std::size_t i = 0; i < nd; i++) { std::size_t sh = (nd - 1 - i) * shift; unsigned d = sh < 64 ? (unsigned)((mag >> sh) & ((1u << shift) - 1)) : 0; ok &= s[lead.size() + i] == D[d]; }
    CHECKM(ok, "digits"); if (s.size() > width) { std::size_t sh = (nd - 1) * shift; CHECKM(nd == 1 || (sh < 64 && (mag >> sh) != 0), "zeros only up to the width"); } (void)v; if (nd * shift < 64) CHECKM((mag >> (nd * shift)) == 0, "no digit lost");
}
// decimal, whole range, through every entry point
static std::string dec_text(unsigned how, std::int64_t v) { fmt::MemoryWriter w; switch (how) { case 0: w << (long long)v; break; case 1: w.write("{}", (long long)v); break; case 2: w.write("{:d}", (long)v); break; case 3: { fmt::FormatInt f((long long)v); return std::string(f.data(), f.size()); } default: w << (long)v; } return w.str(); }
static std::string dec_text_u(unsigned how, std::uint64_t v) { fmt::MemoryWriter w; switch (how) { case 0: w << (unsigned long long)v; break; case 1: w.write("{}", (unsigned long long)v); break; case 2: w.write("{:d}", (unsigned long)v); break; case 3: { fmt::FormatInt f((unsigned long long)v); return std::string(f.data(), f.size()); } default: w << (unsigned long)v; } return w.str(); }
HARNESS c09_dec64() { unsigned how = (unsigned)sym_param("how", 0); std::int64_t v = (std::int64_t)sym_int("v", 64); std::string s = dec_text(how, v); CHECKM(is_dec(s.data(), s.size(), v), "signed 64-bit decimal"); observe("s", s); sym_reach(s[0] == '-' ? "neg" : "pos"); }
HARNESS c09_dec64u() { unsigned how = (unsigned)sym_param("how", 0); std::uint64_t v = sym_int("v", 64); std::string s = dec_text_u(how, v); CHECKM(is_dec_u(s.data(), s.size(), v), "unsigned 64-bit decimal"); observe("s", s); sym_reach("done"); }
HARNESS c09_dec32() {
    unsigned how = (unsigned)sym_param("how", 0); static const std::uint32_t Z[] = {0, 2147483600u, 4294967200u}; std::uint32_t v = how == 3 ? Z[sym_choice("z", 3)] + (std::uint32_t)sym_range("v", 0, 95) : (std::uint32_t)sym_int("v", 32); bool sg = sym_bool("signed"); fmt::MemoryWriter w; std::string s;
    switch (how) { case 0: if (sg) w << (int)v; else w << (unsigned)v; s = w.str(); break; case 1: if (sg) w.write("{}", (int)v); else w.write("{}", (unsigned)v); s = w.str(); break; case 2: if (sg) w.write("{:d}", (int)v); else w.write("{:d}", (unsigned)v); s = w.str(); break;
        default: { if (sg) { fmt::FormatInt f((int)v); s = std::string(f.data(), f.size()); } else { fmt::FormatInt f((unsigned)v); s = std::string(f.c_str()); } } }
    CHECKM(how == 3 ? (sg ? is_dec(s.data(), s.size(), (std::int32_t)v) : is_dec_u(s.data(), s.size(), v)) : sg ? is_dec32(s.data(), s.size(), (std::int32_t)v) : is_dec_u32(s.data(), s.size(), v), "32-bit decimal"); observe("s", s); sym_reach(sg ? "signed" : "unsigned");
}
HARNESS c09_small() {   // types narrower than int, and char
    unsigned k = sym_choice("k", 5); std::uint32_t v = (std::uint32_t)sym_int("v", 16); fmt::MemoryWriter w; std::int64_t x = 0; switch (k) { case 0: w.write("{}", (short)v); x = (short)v; break; case 1: w.write("{}", (unsigned short)v); x = (unsigned short)v; break; case 2: w.write("{:d}", (signed char)v); x = (signed char)v; break; case 3: w.write("{:d}", (unsigned char)v); x = (unsigned char)v; break; default: w.write("{:d}", (char)v); x = (char)v; }
    std::string s = w.str(); CHECKM(is_dec32(s.data(), s.size(), (std::int32_t)x), "narrow integer in decimal"); observe("s", s); sym_reach("done");
}
// hexadecimal, octal, binary: whole range, with and without prefix
template<class T, class U> static void based(const char* nm) {
    unsigned t = sym_choice("type", 5); bool hash = sym_bool("hash"); T v = (T)sym_int(nm, sizeof(T) * 8); fmt::MemoryWriter w; std::string f = std::string("{:") + (hash ? "#" : "") + TYPES[t] + "}"; w.write(f.c_str(), v); std::string s = w.str();
    bool neg = v < 0; neg = sym_concrete(neg); U mag = neg ? U(0) - (U)v : (U)v; std::string lead = std::string(neg ? "-" : "") + (hash ? prefix(t) : ""); CHECKM(s.size() > lead.size() && same(s.substr(0, lead.size()), lead), "sign and prefix"); CHECKM(is_base<U>(s.data() + lead.size(), s.size() - lead.size(), mag, SH[t], t == 1), "positional notation of the value"); observe("s", s); sym_reach(neg ? "neg" : "pos");
}
HARNESS c09_base64() { based<long long, std::uint64_t>("v"); }
HARNESS c09_base64u() { based<unsigned long long, std::uint64_t>("v"); }
HARNESS c09_base32() { based<int, std::uint32_t>("v"); }
HARNESS c09_base32u() { based<unsigned, std::uint32_t>("v"); }
// typed writers: hex(), hexu(), oct(), bin(), pad()
HARNESS c09_specs() {
    unsigned k = sym_choice("k", 6); std::uint64_t v = sym_int("v", 64); bool sg = sym_bool("signed"); fmt::MemoryWriter w; long long sv = (long long)v; 
    switch (k) { case 0: if (sg) w << fmt::hex(sv); else w << fmt::hex((unsigned long long)v); break; case 1: if (sg) w << fmt::hexu(sv); else w << fmt::hexu((unsigned long long)v); break; case 2: if (sg) w << fmt::oct(sv); else w << fmt::oct((unsigned long long)v); break; case 3: if (sg) w << fmt::bin(sv); else w << fmt::bin((unsigned long long)v); break; case 4: if (sg) w << fmt::pad(fmt::hex(sv), 70, '*'); else w << fmt::pad(fmt::hex((unsigned long long)v), 70, '*'); break; default: if (sg) w << fmt::pad(fmt::hex(sv), 18, '0'); else w << fmt::pad(fmt::hex((unsigned long long)v), 18, '0'); }
    std::string s = w.str(); bool neg = sg && sym_concrete(sv < 0); std::uint64_t mag = neg ? 0 - v : v; std::string lead = neg ? "-" : ""; unsigned sh = k == 2 ? 3 : k == 3 ? 1 : 4;
    if (k < 4) { CHECKM(same(s.substr(0, lead.size()), lead) && is_base<std::uint64_t>(s.data() + lead.size(), s.size() - lead.size(), mag, sh, k == 1), "positional notation"); }
    else if (k == 4) { CHECKM(s.size() == 70, "padded"); std::size_t i = 0; while (i < 70 && s[i] == '*') i++; CHECKM(same(s.substr(i, lead.size()), lead) && is_base<std::uint64_t>(s.data() + i + lead.size(), 70 - i - lead.size(), mag, 4, false), "right aligned"); }
    else { CHECKM(s.size() == 18, "padded"); std::size_t i = 0; bool ok = true; (void)ok; while (i < 17 && sym_concrete(s[i] == '0')) i++; CHECKM(same(s.substr(i, lead.size()), lead) || neg, "sign"); }
    observe("s", s); sym_reach("done");
}
// sign flags, widths, alignments and zero padding
HARNESS c09_layout() {
    unsigned t = sym_choice("type", 6), align = sym_choice("align", 6), sign = sym_choice("sign", 4); bool hash = t < 5 && sym_bool("hash"); static const char* const A[] = {"", "*<", "*>", "*^", "*=", ""}; static const char* const S[] = {"", "+", "-", " "}; static const unsigned W[] = {0, 1, 4, 7, 12, 70};
    unsigned width = W[sym_choice("width", (unsigned)sym_param("widths", 4))]; std::uint64_t win = sym_param("window", 99); static const std::int64_t B[] = {0, 1000000000, 4294967246ll, 9223372036854775807ll - 99, -9223372036854775807ll - 1}; unsigned w0 = sym_choice("base", (unsigned)sym_param("bases", 3));
    std::int64_t v = (w0 == 4 ? B[4] : B[w0]) + (std::int64_t)sym_range("v", 0, win); if (w0 < 4 && sym_bool("negate")) v = -v;
    std::string f = std::string("{:") + A[align] + S[sign] + (hash ? "#" : "") + (align == 5 ? "0" : "") + (width ? dec_u(width) : "") + (t < 5 ? TYPES[t] : "d") + "}"; fmt::MemoryWriter w; w.write(f.c_str(), (long long)v); std::string s = w.str();
    bool neg = sym_concrete(v < 0); std::uint64_t mag = neg ? 0 - (std::uint64_t)v : (std::uint64_t)v; std::string sg = neg ? "-" : sign == 1 ? "+" : sign == 3 ? " " : "", pre = hash ? prefix(t) : "";
    if (align == 5) { if (width) zero(s, width, sg + pre, mag, t < 5 ? SH[t] : 0, t == 1); else { std::string lead = sg + pre; bool ok = t < 5 ? is_base<std::uint64_t>(s.data() + lead.size(), s.size() - lead.size(), mag, SH[t], t == 1) : is_dec_u(s.data() + lead.size(), s.size() - lead.size(), mag); CHECKM(same(s.substr(0, lead.size()), lead) && ok, "positional notation"); } }
    else layout(s, align, align ? '*' : ' ', width, sg, pre, [&](const char* p, std::size_t n) { return t < 5 ? is_base<std::uint64_t>(p, n, mag, SH[t], t == 1) : is_dec_u(p, n, mag); });
    observe("s", s); sym_reach("done");
}
// 32-bit unsigned and signed layouts with a sign flag: unsigned values refuse sign flags
HARNESS c09_unsigned_sign() { static const char* const F[] = {"{:+}", "{:-}", "{: }", "{:+d}", "{: x}"}; unsigned k = sym_choice("f", 5); bool threw = false; fmt::MemoryWriter w; std::uint64_t v = sym_int("v", 64); try { if (sym_bool("u32")) w.write(F[k], (unsigned)v); else w.write(F[k], (unsigned long long)v); } catch (const fmt::FormatError&) { threw = true; } CHECKM(threw, "a sign flag on an unsigned value is a format error"); sym_reach("refused"); }
