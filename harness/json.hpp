// An independent JSON reader (RFC 8259) used as the oracle; bytes above 127 are passed through unchanged.
#pragma once
#include <memory>
#include <string>
#include <utility>
#include <vector>
struct jv {
    char t = 0;                                  // o a s n t f 0
    std::string s;                               // string contents, or the number's text
    std::vector<std::pair<std::string, jv>> m;   // members (elements have empty names)
    const jv* get(const std::string& k) const { const jv* r = nullptr; for (auto& p : m) if (same(p.first, k)) { if (r) return nullptr; r = &p.second; } return r; }
    std::size_t count(const std::string& k) const { std::size_t n = 0; for (auto& p : m) if (same(p.first, k)) n++; return n; }
};
struct jparser {
    const char* p; std::size_t n, i = 0; bool ok = true; unsigned depth = 0;
    jparser(const std::string& s) : p(s.data()), n(s.size()) {}
    bool eat(char c) { if (i < n && p[i] == c) { i++; return true; } return false; }
    void ws() { while (i < n && (p[i] == ' ' || p[i] == '\t' || p[i] == '\n' || p[i] == '\r')) i++; }
    bool word(const char* w) { for (; *w; w++) if (!eat(*w)) return ok = false; return true; }
    static int hx(unsigned char c) { if (c >= '0' && c <= '9') return c - '0'; if (c >= 'a' && c <= 'f') return c - 'a' + 10; if (c >= 'A' && c <= 'F') return c - 'A' + 10; return -1; }
    unsigned hex4() { unsigned v = 0; for (int k = 0; k < 4; k++) { int d = i < n ? hx((unsigned char)p[i]) : -1; if (d < 0) { ok = false; return 0; } v = v * 16 + d; i++; } return v; }
    void utf8(std::string& o, unsigned c) { if (c < 0x80) o.push_back((char)c); else if (c < 0x800) { o.push_back((char)(0xc0 | c >> 6)); o.push_back((char)(0x80 | (c & 63))); } else if (c < 0x10000) { o.push_back((char)(0xe0 | c >> 12)); o.push_back((char)(0x80 | (c >> 6 & 63))); o.push_back((char)(0x80 | (c & 63))); } else { o.push_back((char)(0xf0 | c >> 18)); o.push_back((char)(0x80 | (c >> 12 & 63))); o.push_back((char)(0x80 | (c >> 6 & 63))); o.push_back((char)(0x80 | (c & 63))); } }
    std::string str() {
        std::string o; if (!eat('"')) { ok = false; return o; }
        while (ok) {
            if (i >= n) { ok = false; break; } char c = p[i++];
            if (c == '"') return o;
            if ((unsigned char)c < 0x20) { ok = false; break; }
            if (c != '\\') { o.push_back(c); continue; }
            if (i >= n) { ok = false; break; } c = p[i++];
            if (c == '"' || c == '\\' || c == '/') o.push_back(c); else if (c == 'b') o.push_back('\b'); else if (c == 'f') o.push_back('\f'); else if (c == 'n') o.push_back('\n'); else if (c == 'r') o.push_back('\r'); else if (c == 't') o.push_back('\t');
            else if (c == 'u') { unsigned u = hex4(); if (u >= 0xd800 && u < 0xdc00) { if (!eat('\\') || !eat('u')) { ok = false; break; } unsigned l = hex4(); if (l < 0xdc00 || l > 0xdfff) { ok = false; break; } u = 0x10000 + ((u - 0xd800) << 10) + (l - 0xdc00); } else if (u >= 0xdc00 && u < 0xe000) ok = false; utf8(o, u); }
            else ok = false;
        }
        return o;
    }
    bool digits() { std::size_t k = i; while (i < n && p[i] >= '0' && p[i] <= '9') i++; return i > k; }
    jv value() {
        jv v; if (!ok || ++depth > 40) { ok = false; return v; } ws(); if (i >= n) { ok = false; return v; } char c = p[i];
        if (c == '{') { v.t = 'o'; i++; ws(); if (!eat('}')) for (;;) { ws(); std::string k = str(); ws(); if (!ok || !eat(':')) { ok = false; return v; } v.m.emplace_back(k, value()); ws(); if (!ok) return v; if (eat(',')) continue; if (eat('}')) break; ok = false; return v; } }
        else if (c == '[') { v.t = 'a'; i++; ws(); if (!eat(']')) for (;;) { v.m.emplace_back(std::string(), value()); ws(); if (!ok) return v; if (eat(',')) continue; if (eat(']')) break; ok = false; return v; } }
        else if (c == '"') { v.t = 's'; v.s = str(); } else if (c == 't') { v.t = 't'; word("true"); } else if (c == 'f') { v.t = 'f'; word("false"); } else if (c == 'n') { v.t = '0'; word("null"); }
        else { v.t = 'n'; std::size_t b = i; eat('-'); if (!eat('0')) ok &= digits(); if (eat('.')) ok &= digits(); if (eat('e') || eat('E')) { if (!eat('+')) eat('-'); ok &= digits(); } v.s.assign(p + b, i - b); }
        depth--; return v;
    }
};
// the whole text is exactly one JSON object, optionally followed by one newline
static inline jv document(const std::string& text, bool newline) {
    std::string t = text; if (newline) { CHECKM(!t.empty() && t[t.size() - 1] == '\n', "a newline ends the record"); t.resize(t.size() - 1); } jparser p(t); jv v = p.value(); CHECKM(p.ok, "syntactically valid JSON"); CHECKM(p.i == p.n, "nothing after the document"); CHECKM(v.t == 'o', "one JSON object"); return v;
}
static inline const jv& member(const jv& o, const std::string& k) { CHECKM(o.t == 'o', "an object"); CHECKM(o.count(k) == 1, "present exactly once"); static jv none; const jv* r = o.get(k); return r ? *r : none; }
static inline void is_str(const jv& v, const std::string& s) { CHECKM(v.t == 's', "a string"); CHECKM(same(v.s, s), "the original bytes"); }
static inline void is_num(const jv& v, std::int64_t x) { CHECKM(v.t == 'n', "a number"); CHECKM(is_dec(v.s.data(), v.s.size(), x), "the exact integer"); }
static inline void is_unum(const jv& v, std::uint64_t x) { CHECKM(v.t == 'n', "a number"); CHECKM(is_dec_u(v.s.data(), v.s.size(), x), "the exact integer"); }
