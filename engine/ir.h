// Textual LLVM IR: index of a module and on-demand parsing of function bodies and initialisers.
#pragma once
#include "expr.h"
#include <string_view>

struct Type {
  enum K { VOID, INT, PTR, FLT, DBL, ARR, VEC, STRUCT, LABEL, META, OPAQUE } k;
  unsigned w = 0; u64 n = 0; Type *el = nullptr; std::vector<Type *> f; bool packed = false;
  u64 size = 0, align = 1; std::vector<u64> off;
  struct Slot { u64 off; unsigned w; };
  std::vector<Slot> flat; bool flatDone = false;
  const std::vector<Slot> &slots();
  bool isFP() const { return k == FLT || k == DBL || ((k == VEC) && el->isFP()); }
};

struct SVal { u64 v; E e; };
static inline SVal sv(u64 v) { return SVal{v, nullptr}; }
static inline SVal svE(E e) { if (e->isConst() && e->w <= 64) return SVal{(u64)e->val, nullptr}; return SVal{0, e}; }
static inline E toE(const SVal &s, unsigned w) { return s.e ? s.e : mkConst(s.v, w); }

enum IOp : u8 { I_ADD, I_SUB, I_MUL, I_UDIV, I_UREM, I_SDIV, I_SREM, I_AND, I_OR, I_XOR, I_SHL, I_LSHR, I_ASHR,
  I_FADD, I_FSUB, I_FMUL, I_FDIV, I_FREM, I_FNEG, I_ICMP, I_FCMP, I_TRUNC, I_ZEXT, I_SEXT, I_BITCAST, I_FPCAST,
  I_UITOFP, I_SITOFP, I_FPTOUI, I_FPTOSI, I_COPY, I_SELECT, I_PHI, I_BR, I_CONDBR, I_SWITCH, I_RET, I_UNREACHABLE,
  I_ALLOCA, I_LOAD, I_STORE, I_GEP, I_CALL, I_EXTRACTVALUE, I_INSERTVALUE, I_EXTRACTELEMENT, I_INSERTELEMENT,
  I_SHUFFLE, I_ATOMICRMW, I_CMPXCHG, I_NOP, I_LANDINGPAD, I_RESUME, I_UNKNOWN };
enum Pred : u8 { P_EQ, P_NE, P_UGT, P_UGE, P_ULT, P_ULE, P_SGT, P_SGE, P_SLT, P_SLE,
  F_OEQ, F_OGT, F_OGE, F_OLT, F_OLE, F_ONE, F_ORD, F_UEQ, F_UGT, F_UGE, F_ULT, F_ULE, F_UNE, F_UNO, F_TRUE, F_FALSE };

struct Func;
struct Inst {
  IOp op; u8 pred = 0; u16 w = 0; u32 dst = 0, n = 0; int a = 0, b = 0, c = 0;
  Type *ty = nullptr, *ty2 = nullptr;
  std::vector<i64> ex;      // phi: (pred block, opnd)*; switch: (value lo, block)*; gep: (opnd, width, scale)*; call: (opnd, n, w)*
  i64 imm = 0;              // gep constant offset; br targets etc
  int t0 = -1, t1 = -1;     // branch targets / invoke destinations
  Func *callee = nullptr;   // direct call
  u8 intrin = 0; u8 flag = 0;
  std::string *text = nullptr;
};
struct Block { u32 first, end, nphi; };
struct Func {
  u32 id; std::string name; bool defined = false; u64 off = 0; // file offset of the define/declare line
  bool parsed = false; Type *ret = nullptr; std::vector<Type *> params; u32 nslots = 0;
  std::vector<Inst> code; std::vector<Block> blocks; std::vector<SVal> consts;
  std::vector<u32> paramSlot; int handler = -1; u64 calls = 0; bool pattern = false, tabulate = false;
};
struct Global { u32 id; std::string name; bool constant = false, ext = false, tls = false; u64 off = 0; Type *ty = nullptr; bool parsed = false; };

// "symbol" = function or global; address = (index+1) << 32
struct Sym { bool isFunc; u32 idx; };
struct Module {
  std::string text; std::vector<Func *> funcs; std::vector<Global *> globals; std::vector<Sym> syms;
  std::unordered_map<std::string, u32> symByName; std::unordered_map<std::string, Type *> named; std::unordered_map<std::string, u64> namedOff;
  std::unordered_map<std::string, std::string> aliases;
  void load(const std::string &path);
  Func *func(const std::string &n);
  u64 addrOf(const std::string &n);
  void parseFunc(Func *f);
  // parse a global's initialiser into bytes; pointers are concrete addresses
  void parseGlobal(Global *g, std::vector<u8> &bytes);
};
extern Module M;
struct EngineLimit { std::string msg; };
extern bool gExecuting;
[[noreturn]] void die(const char *fmt, ...);
static inline u64 symAddr(u32 i) { return ((u64)i + 1) << 32; }
