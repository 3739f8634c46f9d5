// Hash-consed bit-vector expressions with aggressive local simplification.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstring>
#include <string>
#include <vector>
#include <memory>
#include <unordered_map>

typedef uint8_t u8; typedef uint16_t u16; typedef uint32_t u32; typedef uint64_t u64; typedef int64_t i64;
typedef unsigned __int128 u128; typedef __int128 i128;

enum Op : u8 {
  CONST, VAR, ADD, SUB, MUL, UDIV, UREM, SDIV, SREM, AND, OR, XOR, SHL, LSHR, ASHR,
  EQ, ULT, ULE, SLT, SLE, ITE, CONCAT, EXTRACT, ZEXT, SEXT, READ
};

struct Table { std::vector<u128> v; u64 h; u32 id; u32 lo; }; // valid for indices lo .. v.size()-1; the path condition of whoever uses it excludes others

struct Expr {
  Op op; u8 w; u16 depth; u32 id; u64 hash;
  u128 val;                 // CONST: value; EXTRACT: low bit; VAR: index
  const Expr *a, *b, *c;    // operands (READ: a = index)
  const Table *tab;
  u128 umin, umax;          // unsigned range
  u128 kz, ko;              // bits known to be zero / one
  i64 sup;                  // -1: no variable, -2: several, else the variable
  mutable u32 stamp; mutable u128 ev;
  bool isConst() const { return op == CONST; }
};
typedef const Expr *E;

struct VarInfo { u32 w; u64 lo, hi; std::string name; E expr; };
extern std::vector<VarInfo> gVars;
extern u64 gExprCount;

static inline u128 maskw(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }

E mkConst(u128 v, unsigned w);
E mkVar(unsigned w, u64 lo, u64 hi, const std::string &name);
E mkAdd(E a, E b); E mkSub(E a, E b); E mkMul(E a, E b);
E mkUDiv(E a, E b); E mkURem(E a, E b); E mkSDiv(E a, E b); E mkSRem(E a, E b);
E mkAnd(E a, E b); E mkOr(E a, E b); E mkXor(E a, E b); E mkNot(E a);
E mkShl(E a, E b); E mkLShr(E a, E b); E mkAShr(E a, E b);
E mkEq(E a, E b); E mkUlt(E a, E b); E mkUle(E a, E b); E mkSlt(E a, E b); E mkSle(E a, E b);
E mkIte(E c, E a, E b);
E mkConcat(E hi, E lo); E mkExtract(E a, unsigned lo, unsigned w);
E mkZExt(E a, unsigned w); E mkSExt(E a, unsigned w);
E mkRead(const std::vector<u128> &tab, E idx, unsigned w, size_t lo = 0); // tab indexed by idx (lo <= idx < tab.size() guaranteed)
E mkBin(Op op, E a, E b);

struct Model { std::vector<u64> v; u64 get(u32 i) const { return i < v.size() ? v[i] : gVars[i].lo; } };
u128 evalExpr(E e, const Model &m);
void evalReset();                        // next evalExpr call uses a fresh memo (new model)
u128 evalExprCont(E e, const Model &m);  // keeps memo
u128 evalOne(E e, u32 var, u64 value);   // expression whose only variable is var
const std::vector<u32> &supportOf(E e);
std::string exprStr(E e, int depth = 6);
