// Harness interface: the same source runs under the symbolic executor (symex provides these functions)
// and natively (native.cpp provides them from a recorded list of input values).
#pragma once
#include <cstddef>
#include <cstdint>
extern "C" {
std::uint64_t sym_int(const char* name, unsigned bits);
void sym_bytes(void* p, std::size_t n, const char* name);
void sym_assume(int c);
void sym_check(int c, const char* msg);
void sym_reach(const char* label);
void sym_observe(const char* label, const void* p, std::size_t n);
std::uint64_t sym_concrete(std::uint64_t v);
std::int64_t sym_param(const char* name, std::int64_t dflt);
void sym_note(const char* s);
void sym_env(int on);      // encloses one modelled system call: atomic, not a data race by itself
void sym_trace(const char* s, std::uint64_t v);
int sym_is_symbolic(std::uint64_t v);
[[noreturn]] void sym_kill();
[[noreturn]] void sym_fail(const char* kind, const char* msg);
[[noreturn]] void sym_unsupported(const char* msg);
}
#define HARNESS extern "C" __attribute__((used, noinline)) void
#define STR2(x) #x
#define STR1(x) STR2(x)
#define CHECK(c) sym_check((c) ? 1 : 0, #c)
#define CHECKM(c, m) sym_check((c) ? 1 : 0, m)
static inline std::uint64_t sym_range(const char* n, std::uint64_t lo, std::uint64_t hi) {  // inclusive
    unsigned b = 1; while (b < 64 && (hi >> b)) b++;   // as narrow as possible: the width bounds the expression's range
    std::uint64_t v = sym_int(n, b); sym_assume(v >= lo && v <= hi); return v;
}
static inline unsigned sym_choice(const char* n, unsigned k) {   // concrete value in [0, k), all explored
    std::uint64_t v = sym_int(n, 8); sym_assume(v < k); return (unsigned)sym_concrete(v);
}
struct sym_call { sym_call() { sym_env(1); } ~sym_call() { sym_env(0); } };
static inline bool sym_bool(const char* n) { return sym_choice(n, 2) != 0; }
