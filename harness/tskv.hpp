// An independent TSKV reader used as the oracle.
#pragma once
struct kv { std::string k, v; };
static inline bool unesc(const std::string& s, bool key, std::string& o) {
    for (std::size_t i = 0; i < s.size(); i++) {
        if (s[i] != '\\') { o.push_back(s[i]); continue; } if (++i >= s.size()) return false; char c = s[i];
        if (c == 'a') o.push_back('\a'); else if (c == 'b') o.push_back('\b'); else if (c == 't') o.push_back('\t'); else if (c == 'n') o.push_back('\n'); else if (c == 'v') o.push_back('\v'); else if (c == 'f') o.push_back('\f'); else if (c == 'r') o.push_back('\r'); else if (c == 'e') o.push_back('\x1b'); else if (c == '0') o.push_back('\0'); else if (c == '\\') o.push_back('\\'); else if (c == '=' && key) o.push_back('='); else return false;
    } return true;
}
// one line: the tag, then tab-separated fields, each split at its first unescaped '='
static inline std::vector<kv> line(const std::string& t) {
    std::vector<kv> r; std::vector<std::string> f(1); for (char c : t) { CHECKM(c != '\n', "one line"); CHECKM(c != '\0', "no raw NUL"); if (c == '\t') f.emplace_back(); else f.back().push_back(c); } CHECKM(same(f[0], "tskv"), "the format tag");
    for (std::size_t i = 1; i < f.size(); i++) { std::size_t e = std::string::npos; for (std::size_t j = 0; j < f[i].size(); j++) { if (f[i][j] == '\\') { j++; continue; } if (f[i][j] == '=') { e = j; break; } } CHECKM(e != std::string::npos, "a field has a key and a value"); if (e == std::string::npos) continue; kv x; CHECKM(unesc(f[i].substr(0, e), true, x.k), "known escapes in the key"); CHECKM(unesc(f[i].substr(e + 1), false, x.v), "known escapes in the value"); r.push_back(x); }
    return r;
}
struct expected { std::string k, v; int kind = 0; std::int64_t n = 0; };   // kind 0 text, 1 decimal, 2 shown
static inline bool match(const kv& a, const expected& e) { if (!same(a.k, e.k)) return false; if (e.kind == 1) return is_dec(a.v.data(), a.v.size(), e.n); if (e.kind == 2) return a.v.size() > 2 && a.v[0] == '<' && a.v[a.v.size() - 1] == '>' && is_dec(a.v.data() + 1, a.v.size() - 2, e.n); return same(a.v, e.v); }
// the fields are exactly the expected ones, in any order
static inline bool exactly(const std::vector<kv>& a, const std::vector<expected>& e) { if (a.size() != e.size()) return false; std::vector<char> used(a.size(), 0); for (auto& x : e) { bool hit = false; for (std::size_t i = 0; i < a.size() && !hit; i++) if (!used[i] && match(a[i], x)) used[i] = 1, hit = true; if (!hit) return false; } return true; }
