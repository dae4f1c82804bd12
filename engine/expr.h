// Hash-consed bit-vector expressions with simplification.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <string>
#include <vector>
#include <unordered_map>
#include <unordered_set>
#include <map>
#include <set>
#include <bitset>
#include <memory>
#include <algorithm>
#include <z3.h>

typedef unsigned __int128 u128;
typedef __int128 i128;

enum Op : uint8_t { CONST, VAR, ADD, SUB, MUL, UDIV, SDIV, UREM, SREM, AND, OR, XOR, SHL, LSHR, ASHR,
                    EQ, ULT, ULE, SLT, SLE, ZEXT, SEXT, EXTRACT, CONCAT, ITE };

typedef std::vector<uint32_t> VarSet;
typedef std::bitset<256> TT;

struct Expr {
    Op op; uint16_t w; uint32_t aux;  // aux: extract offset / var id
    u128 c;
    const Expr *a, *b, *d;
    uint32_t id, h;
    const VarSet* vs;
    u128 lo, hi;              // unsigned range
    bool hasDiv, anyDiv;      // unsigned division by a constant / any division inside
    mutable uint64_t stamp; mutable u128 val;
    mutable uint64_t mark;
    mutable Z3_ast z;
    mutable TT* tt;           // truth table when width 1 and exactly one variable of <= 8 bits
    bool isC() const { return op == CONST; }
};
typedef const Expr* E;

struct VarInfo { std::string name; unsigned w; E e; };
extern std::vector<VarInfo> g_vars;

static inline u128 mask(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
static inline i128 sx(u128 v, unsigned w) {
    if (w >= 128) return (i128)v;
    u128 s = (u128)1 << (w - 1); v &= mask(w);
    return (i128)((v ^ s) - s);
}

E mkConst(u128 v, unsigned w);
E mkVar(const std::string& name, unsigned w);
E mkBin(Op op, E a, E b);
E mkNot(E a);            // width 1 boolean not
E mkZext(E a, unsigned w);
E mkSext(E a, unsigned w);
E mkExtract(E a, unsigned off, unsigned w);
E mkConcat(E hi, E lo);
E mkIte(E c, E a, E b);
static inline E mkTrue() { return mkConst(1, 1); }
static inline E mkFalse() { return mkConst(0, 1); }
static inline E mkAnd(E a, E b) { return mkBin(AND, a, b); }
static inline E mkOr(E a, E b) { return mkBin(OR, a, b); }
static inline E mkEq(E a, E b) { return mkBin(EQ, a, b); }
u128 evalConcreteBin(Op op, u128 x, u128 y, unsigned w, bool& ok);
// Evaluation under an assignment (indexed by variable id, missing = 0); `stamp` identifies the assignment.
u128 evalExpr(E e, const std::vector<uint64_t>& asg, uint64_t stamp);
uint64_t freshStamp();
const TT* truthTable(E e);  // null unless single var w<=8 and width 1
std::string exprStr(E e, int depth = 6);
uint32_t exprCount();
