// Reference helpers shared by harnesses (written independently of the library).
#pragma once
#include <cstdint>
#include <cstring>
#include <string>
// text -> value comparison: true when s is exactly the canonical decimal of v
static inline bool is_dec_u(const char* s, std::size_t n, std::uint64_t v) {
    n = sym_concrete(n); if (n == 0 || n > 20) return false;
    // canonical length: 10^(n-1) <= v < 10^n
    std::uint64_t p = 1; for (std::size_t i = 1; i < n; i++) p *= 10;
    if (n > 1 && sym_concrete(v < p)) return false;   // sym_concrete: a branch, also after optimisation
    if (n < 20 && sym_concrete(v >= p * 10)) return false;
    // digit by digit from the right, in pairs: v = ... (v / 100^k) % 100 ...
    bool ok = true; std::uint64_t w = 1;
    for (std::size_t k = 0; 2 * k < n; k++, w *= 100) {
        unsigned two = (unsigned)((v / w) % 100); ok &= s[n - 1 - 2 * k] == char('0' + two % 10);
        if (2 * k + 1 < n) ok &= s[n - 2 - 2 * k] == char('0' + two / 10); else ok &= two < 10;
    }
    return ok;
}
static inline bool is_dec(const char* s, std::size_t n, std::int64_t v) {
    if (v < 0) return n > 1 && s[0] == '-' && is_dec_u(s + 1, n - 1, 0 - (std::uint64_t)v);
    return is_dec_u(s, n, (std::uint64_t)v);
}
static inline bool is_dec_u32(const char* s, std::size_t n, std::uint32_t v) {   // the same in 32-bit arithmetic
    n = sym_concrete(n); if (n == 0 || n > 10) return false;
    std::uint32_t p = 1; for (std::size_t i = 1; i < n; i++) p *= 10;
    if (n > 1 && sym_concrete(v < p)) return false;
    if (n < 10 && sym_concrete(v >= p * 10)) return false;
    bool ok = true; std::uint32_t w = 1;
    for (std::size_t k = 0; 2 * k < n; k++, w *= 100) {
        unsigned two = (v / w) % 100; ok &= s[n - 1 - 2 * k] == char('0' + two % 10);
        if (2 * k + 1 < n) ok &= s[n - 2 - 2 * k] == char('0' + two / 10); else ok &= two < 10;
    }
    return ok;
}
static inline bool is_dec32(const char* s, std::size_t n, std::int32_t v) {
    if (v < 0) return n > 1 && s[0] == '-' && is_dec_u32(s + 1, n - 1, 0 - (std::uint32_t)v);
    return is_dec_u32(s, n, (std::uint32_t)v);
}
static inline std::string dec_u(std::uint64_t v) { char b[24]; int n = 24; do { b[--n] = char('0' + v % 10); v /= 10; } while (v); return std::string(b + n, 24 - n); }
static inline std::string dec(std::int64_t v) { return v < 0 ? "-" + dec_u(0 - (std::uint64_t)v) : dec_u((std::uint64_t)v); }
// a block of exactly n bytes on the heap (no terminator), so that any access outside is a memory error
struct block {
    char* p; std::size_t n;
    block(const char* name, std::size_t n) : p(new char[n]), n(n) { sym_bytes(p, n, name); }
    explicit block(const std::string& s) : p(new char[s.size()]), n(s.size()) { memcpy(p, s.data(), n); }
    block(const block&) = delete; ~block() { delete[] p; } std::string str() const { return std::string(p, n); }
    void free_now() { delete[] p; p = nullptr; }
};
static inline bool same(const char* a, std::size_t n, const char* b, std::size_t m) { return n == m && (n == 0 || memcmp(a, b, n) == 0); }
static inline bool same(const std::string& a, const std::string& b) { return same(a.data(), a.size(), b.data(), b.size()); }
template<class V> static inline bool same_v(const V& v, const std::string& b) { return same(v.data(), v.size(), b.data(), b.size()); }
static inline void observe(const char* l, const std::string& s) { sym_observe(l, s.data(), s.size()); }
template<class V> static inline std::string str_v(const V& v) { return v.size() ? std::string(v.data(), v.size()) : std::string(); }
