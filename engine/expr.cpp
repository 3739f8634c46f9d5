#include "expr.h"
#include <algorithm>
#include <cstdio>
#include <unordered_set>

std::vector<VarInfo> gVars;
u64 gExprCount = 0;

static inline u64 mix(u64 h, u64 x) { h ^= x + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdULL; h ^= h >> 32; return h; }

// ---- hash-cons table ----
static std::vector<const Expr *> HT(1 << 16, nullptr);
static u64 HTn = 0;
static char *arena = nullptr, *arenaEnd = nullptr;
static Expr *allocExpr() {
  if (arena + sizeof(Expr) > arenaEnd) { size_t n = sizeof(Expr) * 16384; arena = (char *)aligned_alloc(16, (n + 15) & ~15ull); arenaEnd = arena + n; }
  Expr *e = (Expr *)arena; arena += sizeof(Expr); return e;
}
static inline int bitlen(u128 x) { u64 h = x >> 64; if (h) return 128 - __builtin_clzll(h); u64 l = (u64)x; return l ? 64 - __builtin_clzll(l) : 0; }
static inline int ctz128(u128 x) { u64 l = (u64)x; if (l) return __builtin_ctzll(l); u64 h = x >> 64; return h ? 64 + __builtin_ctzll(h) : 128; }
static inline i128 sext128(u128 v, unsigned w) { if (w >= 128) return (i128)v; u128 s = (u128)1 << (w - 1); return (i128)((v ^ s) - s); }

static void analyse(Expr *e) {
  u128 m = maskw(e->w);
  u128 lo = 0, hi = m, kz = ~m, ko = 0;
  E a = e->a, b = e->b, c = e->c;
  switch (e->op) {
    case CONST: lo = hi = e->val; kz = ~e->val; ko = e->val; break;
    case VAR: lo = gVars[(u64)e->val].lo; hi = gVars[(u64)e->val].hi; break;
    case ADD: {
      u128 l = a->umin + b->umin, h = a->umax + b->umax;
      if (e->w < 128) { if (h <= m) lo = l, hi = h; else if (l > m && (h >> e->w) == (l >> e->w)) { lo = l & m; hi = h & m; } }
      else if (h >= a->umax) lo = l, hi = h;
      int t = std::min(ctz128(~(a->kz | a->ko)), ctz128(~(b->kz | b->ko))); // low known bits
      if (t > 0) { u128 tm = maskw(std::min(t, (int)e->w)); u128 s = (a->ko + b->ko) & tm; ko |= s; kz |= tm & ~s; }
      break; }
    case SUB:
      if (a->umin >= b->umax) { lo = a->umin - b->umax; hi = a->umax - b->umin; }
      { int t = std::min(ctz128(~(a->kz | a->ko)), ctz128(~(b->kz | b->ko)));
        if (t > 0) { u128 tm = maskw(std::min(t, (int)e->w)); u128 s = (a->ko - b->ko) & tm; ko |= s; kz |= tm & ~s; } }
      break;
    case MUL: {
      if (bitlen(a->umax) + bitlen(b->umax) <= (int)e->w) { lo = a->umin * b->umin; hi = a->umax * b->umax; }
      int t = ctz128(~a->kz) + ctz128(~b->kz); if (t > (int)e->w) t = e->w; if (t > 0) kz |= maskw(t);
      break; }
    case UDIV: if (b->umin > 0) { lo = a->umin / b->umax; hi = a->umax / b->umin; } break;
    case UREM: if (b->umin > 0) { hi = b->umax - 1; if (a->umax < hi) hi = a->umax; lo = 0; if (a->umax < b->umin) lo = a->umin; } break;
    case AND: kz |= a->kz | b->kz; ko = a->ko & b->ko; hi = std::min(a->umax, b->umax); break;
    case OR: kz |= a->kz & b->kz; ko = a->ko | b->ko; lo = std::max(a->umin, b->umin); break;
    case XOR: kz |= (a->kz & b->kz) | (a->ko & b->ko); ko = (a->kz & b->ko) | (a->ko & b->kz); break;
    case EQ: case ULT: case ULE: case SLT: case SLE: break;
    case ITE: lo = std::min(b->umin, c->umin); hi = std::max(b->umax, c->umax); kz |= b->kz & c->kz; ko = b->ko & c->ko; break;
    case CONCAT: lo = (a->umin << b->w) | b->umin; hi = (a->umax << b->w) | b->umax; 
      kz |= (a->kz << b->w) | (b->kz & maskw(b->w)); ko = (a->ko << b->w) | b->ko; break;
    case EXTRACT: { unsigned l = (unsigned)e->val; kz |= (a->kz >> l); if (l) kz |= 0; ko = (a->ko >> l) & m;
      kz = ~m | ((a->kz >> l) & m);
      if ((a->umax >> l) <= m) { lo = a->umin >> l; hi = a->umax >> l; }
      break; }
    case ZEXT: lo = a->umin; hi = a->umax; kz |= a->kz; ko = a->ko; break;
    case SEXT: {
      u128 am = maskw(a->w), sb = (u128)1 << (a->w - 1);
      if (a->umax < sb) { lo = a->umin; hi = a->umax; }
      else if (a->umin >= sb) { lo = (a->umin | ~am) & m; hi = (a->umax | ~am) & m; }
      kz |= a->kz & am; ko = a->ko & am;
      if (a->kz & sb) kz |= ~am; else { kz &= ~(m & ~am); if (a->ko & sb) ko |= m & ~am; }
      break; }
    case LSHR: hi = a->umax; if (b->umin < 128) hi = a->umax >> (unsigned)b->umin; break;
    case SHL: { int t = ctz128(~a->kz) ; if (t > (int)e->w) t = e->w; if (t > 0) kz |= maskw(t); break; }
    case ASHR: break;
    case READ: { bool f = true; u128 z = ~(u128)0, o = ~(u128)0; u64 l = std::max((u64)a->umin, (u64)e->tab->lo), h = (u64)std::min<u128>(a->umax, e->tab->v.size() - 1);
      for (u64 i = l; i <= h; i++) { u128 x = e->tab->v[i]; if (f) { lo = hi = x; f = false; } else { lo = std::min(lo, x); hi = std::max(hi, x); } z &= ~x; o &= x; }
      kz |= z; ko = o; break; }
    default: break;
  }
  // combine
  u128 l2 = ko & m, h2 = m & ~kz; if (lo < l2) lo = l2; if (hi > h2) hi = h2;
  int bl = bitlen(hi); kz |= ~maskw(bl);
  if (lo == hi) { ko = lo; kz = ~lo; }
  e->umin = lo; e->umax = hi; e->kz = kz; e->ko = ko;
  // support
  i64 s = -1;
  if (e->op == VAR) s = (i64)e->val;
  else for (E k : {a, b, c}) if (k && k->sup != -1) { if (s == -1) s = k->sup; else if (s != k->sup) s = -2; }
  e->sup = s;
}

static E intern(Op op, unsigned w, E a, E b, E c, u128 val, const Table *t) {
  u64 h = mix(op * 131 + w, (u64)val); h = mix(h, (u64)(val >> 64));
  h = mix(h, a ? a->id + 1 : 0); h = mix(h, b ? b->id + 1 : 0); h = mix(h, c ? c->id + 1 : 0); if (t) h = mix(h, t->id);
  u64 m = HT.size() - 1, i = h & m;
  for (; HT[i]; i = (i + 1) & m) { E x = HT[i]; if (x->hash == h && x->op == op && x->w == w && x->a == a && x->b == b && x->c == c && x->val == val && x->tab == t) return x; }
  Expr *e = allocExpr(); e->op = op; e->w = w; e->a = a; e->b = b; e->c = c; e->val = val; e->tab = t; e->hash = h; e->id = gExprCount++; e->stamp = 0; e->ev = 0;
  unsigned d = 0; for (E k : {a, b, c}) if (k && k->depth > d) d = k->depth; e->depth = d < 60000 ? d + 1 : d;
  analyse(e);
  if (op != CONST && e->umin == e->umax) { // value forced: cache as constant
    // keep node out of the table, return the constant
    gExprCount--; arena -= sizeof(Expr); return mkConst(e->umin, w);
  }
  HT[i] = e; HTn++;
  if (HTn * 2 > HT.size()) { std::vector<const Expr *> n(HT.size() * 2, nullptr); u64 nm = n.size() - 1; for (E x : HT) if (x) { u64 j = x->hash & nm; while (n[j]) j = (j + 1) & nm; n[j] = x; } HT.swap(n); }
  return e;
}

E mkConst(u128 v, unsigned w) {
  v &= maskw(w);
  static E small[129][256];
  if (v < 256) { E &s = small[w][(u64)v]; if (!s) s = intern(CONST, w, 0, 0, 0, v, 0); return s; }
  return intern(CONST, w, 0, 0, 0, v, 0);
}
E mkVar(unsigned w, u64 lo, u64 hi, const std::string &name) {
  VarInfo vi; vi.w = w; vi.lo = lo; vi.hi = hi; vi.name = name; vi.expr = 0; gVars.push_back(vi);
  E e = intern(VAR, w, 0, 0, 0, gVars.size() - 1, 0); gVars.back().expr = e; return e;
}
static bool isC(E e, u128 v) { return e->op == CONST && e->val == (v & maskw(e->w)); }

// ITE with constant leaves (bounded depth): distribute cheap operations over it
static bool constIte(E e, int d = 6) { if (e->isConst()) return true; if (e->op != ITE || d == 0) return false; return constIte(e->b, d - 1) && constIte(e->c, d - 1); }
static bool cheapIte(E e) { return e->op == ITE && constIte(e); }

static u128 foldBin(Op op, u128 x, u128 y, unsigned w) {
  u128 m = maskw(w);
  switch (op) {
    case ADD: return (x + y) & m; case SUB: return (x - y) & m; case MUL: return (x * y) & m;
    case UDIV: return y ? x / y : m; case UREM: return y ? x % y : x;
    case SDIV: { i128 a = sext128(x, w), b = sext128(y, w); if (!b) return a < 0 ? 1 : m; if (b == -1) return (u128)(-a) & m; return (u128)(a / b) & m; }
    case SREM: { i128 a = sext128(x, w), b = sext128(y, w); if (!b) return x; if (b == -1) return 0; return (u128)(a % b) & m; }
    case AND: return x & y; case OR: return x | y; case XOR: return x ^ y;
    case SHL: return y >= w ? 0 : (x << (unsigned)y) & m; case LSHR: return y >= w ? 0 : x >> (unsigned)y;
    case ASHR: { i128 a = sext128(x, w); return (u128)(a >> (unsigned)(y >= w ? w - 1 : y)) & m; }
    case EQ: return x == y; case ULT: return x < y; case ULE: return x <= y;
    case SLT: return sext128(x, w) < sext128(y, w); case SLE: return sext128(x, w) <= sext128(y, w);
    default: return 0;
  }
}
E mkBin(Op op, E a, E b) {
  switch (op) {
    case ADD: return mkAdd(a, b); case SUB: return mkSub(a, b); case MUL: return mkMul(a, b);
    case UDIV: return mkUDiv(a, b); case UREM: return mkURem(a, b); case SDIV: return mkSDiv(a, b); case SREM: return mkSRem(a, b);
    case AND: return mkAnd(a, b); case OR: return mkOr(a, b); case XOR: return mkXor(a, b);
    case SHL: return mkShl(a, b); case LSHR: return mkLShr(a, b); case ASHR: return mkAShr(a, b);
    case EQ: return mkEq(a, b); case ULT: return mkUlt(a, b); case ULE: return mkUle(a, b); case SLT: return mkSlt(a, b); case SLE: return mkSle(a, b);
    default: fprintf(stderr, "mkBin\n"); abort();
  }
}
// returns non-null if op could be folded over constants / const-leaf ITEs / READ tables
static E preBin(Op op, E a, E b) {
  unsigned w = a->w, rw = (op >= EQ && op <= SLE) ? 1 : w;
  if (a->isConst() && b->isConst()) return mkConst(foldBin(op, a->val, b->val, w), rw);
  if (b->isConst() && cheapIte(a)) return mkIte(a->a, mkBin(op, a->b, b), mkBin(op, a->c, b));
  if (a->isConst() && cheapIte(b)) return mkIte(b->a, mkBin(op, a, b->b), mkBin(op, a, b->c));
  if (b->isConst() && a->op == READ) { std::vector<u128> t(a->tab->v.size()); for (size_t i = 0; i < t.size(); i++) t[i] = foldBin(op, a->tab->v[i], b->val, w); return mkRead(t, a->a, rw, a->tab->lo); }
  if (a->isConst() && b->op == READ) { std::vector<u128> t(b->tab->v.size()); for (size_t i = 0; i < t.size(); i++) t[i] = foldBin(op, a->val, b->tab->v[i], w); return mkRead(t, b->a, rw, b->tab->lo); }
  if (a->op == READ && b->op == READ && a->a == b->a) { size_t n = std::min(a->tab->v.size(), b->tab->v.size()), lo = std::max(a->tab->lo, b->tab->lo); if (lo < n) { std::vector<u128> t(n); for (size_t i = lo; i < n; i++) t[i] = foldBin(op, a->tab->v[i], b->tab->v[i], w); return mkRead(t, a->a, rw, lo); } }
  // table against its own index: f(x) op x
  { E r = a->op == READ ? a : b->op == READ ? b : nullptr, o = r == a ? b : a; E z = o; while (z->op == ZEXT) z = z->a; if (r && z == r->a) { size_t n = r->tab->v.size(); std::vector<u128> t(n); for (size_t i = r->tab->lo; i < n; i++) t[i] = r == a ? foldBin(op, r->tab->v[i], i, w) : foldBin(op, i, r->tab->v[i], w); return mkRead(t, r->a, rw, r->tab->lo); } }
  if (a->op == ITE && b->op == ITE && a->a == b->a && constIte(a) && constIte(b)) return mkIte(a->a, mkBin(op, a->b, b->b), mkBin(op, a->c, b->c));
  return nullptr;
}
// number of low bits that can be non-zero
static unsigned activeBits(E e) { return bitlen(e->umax); }
static E narrowTo(E e, unsigned w) { return mkExtract(e, 0, w); }

// arithmetic of a value below 256 with a constant: a table over the byte, so that digits taken apart and put together again fold away
static E byteTable(Op op, E a, E b) {
  if (!b->isConst() || !b->val || a->umax > 255 || a->op == READ || (op == MUL && a->w < 8)) return nullptr;
  std::vector<u128> t((size_t)a->umax + 1, 0); for (size_t i = 0; i < t.size(); i++) t[i] = foldBin(op, i, b->val, a->w);
  return mkRead(t, narrowTo(a, std::min<unsigned>(8, a->w)), a->w, (size_t)a->umin);
}
E mkAdd(E a, E b) {
  if (E r = preBin(ADD, a, b)) return r;
  if (a->isConst()) std::swap(a, b);
  if (b->isConst()) {
    if (b->val == 0) return a;
    if (a->op == ADD && a->b->isConst()) return mkAdd(a->a, mkConst(a->b->val + b->val, a->w));
    if (a->op == SUB && a->a->isConst()) return mkSub(mkConst(a->a->val + b->val, a->w), a->b);
    if ((b->val & ~a->kz) == 0) return mkOr(a, b); // disjoint bits
    { // known low bits: add them up at once and carry into the rest
      u128 kn = a->kz | a->ko; unsigned n = 0; while (n < a->w && (kn >> n & 1)) n++;
      if (n > 0 && n < a->w) { u128 mn = maskw(n), s = (a->ko & mn) + (b->val & mn); return mkConcat(mkAdd(mkExtract(a, n, a->w - n), mkConst((b->val >> n) + (s >> n), a->w - n)), mkConst(s & mn, n)); }
    }
  } else {
    if ((~a->kz & ~b->kz & maskw(a->w)) == 0) return mkOr(a, b);
    if (a->op == SUB && a->b == b) return a->a;
    if (b->op == SUB && b->b == a) return b->a;
    if (a->op == ADD && a->b->isConst()) return mkAdd(mkAdd(a->a, b), a->b);
    if (b->op == ADD && b->b->isConst()) return mkAdd(mkAdd(a, b->a), b->b);
    if (a->id > b->id) std::swap(a, b);
  }
  // narrow when the sum provably fits in fewer bits
  { u128 h = a->umax + b->umax; if (h >= a->umax) { unsigned n = bitlen(h); if (n + 8 <= a->w && n >= 1) { unsigned k = n <= 8 ? 8 : n <= 16 ? 16 : n <= 32 ? 32 : n <= 64 ? 64 : 128; if (k < a->w) return mkZExt(mkAdd(narrowTo(a, k), narrowTo(b, k)), a->w); } } }
  return intern(ADD, a->w, a, b, 0, 0, 0);
}
E mkSub(E a, E b) {
  if (E r = preBin(SUB, a, b)) return r;
  if (a == b) return mkConst(0, a->w);
  if (b->isConst()) return mkAdd(a, mkConst(-(i128)b->val, a->w));
  if (a->op == ADD && a->b == b) return a->a;
  if (a->op == ADD && a->a == b) return a->b;
  if (b->op == SUB) return mkAdd(mkSub(a, b->a), b->b); // a-(x-y) = a-x+y
  if (a->op == ADD && a->b->isConst() && b->op == ADD && b->b->isConst()) return mkAdd(mkSub(a->a, b->a), mkConst(a->b->val - b->b->val, a->w));
  if (a->op == ADD && a->b->isConst()) return mkAdd(mkSub(a->a, b), a->b);
  if (b->op == ADD && b->b->isConst()) return mkSub(mkSub(a, b->b), b->a);
  if (a->isConst() && a->val == maskw(a->w)) return mkXor(b, a);
  if (a->w > 8 && a->umin >= b->umax) { unsigned n = bitlen(a->umax); unsigned k = n <= 8 ? 8 : n <= 16 ? 16 : n <= 32 ? 32 : n <= 64 ? 64 : 128; if (k < a->w) return mkZExt(mkSub(narrowTo(a, k), narrowTo(b, k)), a->w); }
  return intern(SUB, a->w, a, b, 0, 0, 0);
}
E mkMul(E a, E b) {
  if (E r = preBin(MUL, a, b)) return r;
  if (a->isConst()) std::swap(a, b);
  if (b->isConst()) {
    if (b->val == 0) return b;
    if (b->val == 1) return a;
    if ((b->val & (b->val - 1)) == 0) return mkShl(a, mkConst(ctz128(b->val), a->w));
  }
  if (E r = byteTable(MUL, a, b)) return r;
  unsigned n = bitlen(a->umax) + bitlen(b->umax);
  if (n < a->w && n >= 1) return mkZExt(mkMul(narrowTo(a, n), narrowTo(b, n)), a->w);
  if (!b->isConst() && a->id > b->id) std::swap(a, b);
  return intern(MUL, a->w, a, b, 0, 0, 0);
}
E mkUDiv(E a, E b) {
  if (E r = preBin(UDIV, a, b)) return r;
  if (b->isConst() && b->val) {
    if (b->val == 1) return a;
    if ((b->val & (b->val - 1)) == 0) return mkLShr(a, mkConst(ctz128(b->val), a->w));
  }
  if (b->umin > a->umax) return mkConst(0, a->w);
  if (E r = byteTable(UDIV, a, b)) return r;
  unsigned n = std::max(activeBits(a), activeBits(b));
  if (n < a->w && n >= 1 && b->umin > 0) return mkZExt(mkUDiv(narrowTo(a, n), narrowTo(b, n)), a->w);
  return intern(UDIV, a->w, a, b, 0, 0, 0);
}
E mkURem(E a, E b) {
  if (E r = preBin(UREM, a, b)) return r;
  if (b->isConst() && b->val) {
    if (b->val == 1) return mkConst(0, a->w);
    if ((b->val & (b->val - 1)) == 0) return mkAnd(a, mkConst(b->val - 1, a->w));
  }
  if (b->umin > a->umax) return a;
  if (E r = byteTable(UREM, a, b)) return r;
  unsigned n = std::max(activeBits(a), activeBits(b));
  if (n < a->w && n >= 1 && b->umin > 0) return mkZExt(mkURem(narrowTo(a, n), narrowTo(b, n)), a->w);
  return intern(UREM, a->w, a, b, 0, 0, 0);
}
E mkSDiv(E a, E b) {
  if (E r = preBin(SDIV, a, b)) return r;
  u128 sb = (u128)1 << (a->w - 1);
  if (a->umax < sb && b->umax < sb && b->umin > 0) return mkUDiv(a, b);
  return intern(SDIV, a->w, a, b, 0, 0, 0);
}
E mkSRem(E a, E b) {
  if (E r = preBin(SREM, a, b)) return r;
  u128 sb = (u128)1 << (a->w - 1);
  if (a->umax < sb && b->umax < sb && b->umin > 0) return mkURem(a, b);
  return intern(SREM, a->w, a, b, 0, 0, 0);
}
// view of a bit-vector as concatenation: segments of known zeros / other
static bool segLike(E e) { return e->op == CONCAT || e->op == ZEXT || e->isConst(); }
static void segBounds(E e, unsigned base, std::vector<unsigned> &out) {
  if (e->op == CONCAT) { segBounds(e->b, base, out); out.push_back(base + e->b->w); segBounds(e->a, base + e->b->w, out); }
  else if (e->op == ZEXT) { segBounds(e->a, base, out); out.push_back(base + e->a->w); }
}
// bitwise operation on concat-shaped operands, segment by segment
static E segBitwise(Op op, E a, E b) {
  if (!(segLike(a) && segLike(b)) || (a->isConst() && b->isConst())) return nullptr;
  std::vector<unsigned> s; segBounds(a, 0, s); segBounds(b, 0, s);
  // constants: add boundaries at runs
  for (E k : {a, b}) if (k->isConst()) { if (op == XOR || op == OR || op == AND) { u128 v = k->val; for (unsigned i = 1; i < k->w; i++) if (((v >> i) & 1) != ((v >> (i - 1)) & 1)) s.push_back(i); } }
  std::sort(s.begin(), s.end()); s.erase(std::unique(s.begin(), s.end()), s.end());
  while (!s.empty() && s.back() >= a->w) s.pop_back();
  if (s.empty() || s.size() > 40) return nullptr;
  s.push_back(a->w);
  unsigned p = 0; E r = nullptr;
  for (unsigned q : s) { E x = mkExtract(a, p, q - p), y = mkExtract(b, p, q - p); E z = mkBin(op, x, y); r = r ? mkConcat(z, r) : z; p = q; }
  return r;
}
E mkNot(E a) { return mkXor(a, mkConst(maskw(a->w), a->w)); }
E mkAnd(E a, E b) {
  if (a == b) return a;
  if (E r = preBin(AND, a, b)) return r;
  if (a->isConst()) std::swap(a, b);
  u128 m = maskw(a->w);
  if ((a->kz | b->kz) == ~(u128)0) return mkConst(0, a->w);
  if (b->isConst()) {
    u128 v = b->val;
    if (((~v & m) & ~a->kz) == 0) return a;           // clears nothing
    u128 eff = v & ~a->kz;                              // bits that matter
    if (eff == 0) return mkConst(0, a->w);
    if (a->op == AND && a->b->isConst()) return mkAnd(a->a, mkConst(a->b->val & v, a->w));
    // contiguous mask -> extract
    int l = ctz128(eff), h = bitlen(eff);
    u128 cm = maskw(h) & ~maskw(l);
    if ((cm & ~v & ~a->kz) == 0) { // all possibly-set bits in [l,h) pass
      E x = mkExtract(a, l, h - l);
      if (l) x = mkConcat(x, mkConst(0, l));
      return mkZExt(x, a->w);
    }
    if (E r = segBitwise(AND, a, b)) return r;
  } else {
    if (a->w == 1) {
      // x & !x
      if (a->op == XOR && isC(a->b, 1) && a->a == b) return mkConst(0, 1);
      if (b->op == XOR && isC(b->b, 1) && b->a == a) return mkConst(0, 1);
      if (a->op == AND && (a->a == b || a->b == b)) return a;
      if (b->op == AND && (b->a == a || b->b == a)) return b;
    }
    if (E r = segBitwise(AND, a, b)) return r;
    // mask out known-zero high part
    unsigned n = std::min(activeBits(a), activeBits(b));
    if (n >= 1 && n < a->w) return mkZExt(mkAnd(narrowTo(a, n), narrowTo(b, n)), a->w);
    if (a->id > b->id) std::swap(a, b);
  }
  return intern(AND, a->w, a, b, 0, 0, 0);
}
E mkOr(E a, E b) {
  if (a == b) return a;
  if (E r = preBin(OR, a, b)) return r;
  if (a->isConst()) std::swap(a, b);
  if (isC(b, 0)) return a;
  if (b->isConst() && b->val == maskw(b->w)) return b;
  if (b->isConst() && (b->val & ~a->ko) == 0) return a;
  if (a->w == 1) {
    if (a->op == XOR && isC(a->b, 1) && a->a == b) return mkConst(1, 1);
    if (b->op == XOR && isC(b->b, 1) && b->a == a) return mkConst(1, 1);
    if (a->op == OR && (a->a == b || a->b == b)) return a;
    if (b->op == OR && (b->a == a || b->b == a)) return b;
    // canonical form: !( !a & !b ) is not used; keep OR
  }
  if (E r = segBitwise(OR, a, b)) return r;
  if (!b->isConst() || true) {
    unsigned n = std::max(activeBits(a), activeBits(b));
    if (n >= 1 && n < a->w) return mkZExt(mkOr(narrowTo(a, n), narrowTo(b, n)), a->w);
    // disjoint halves: pick a split point where one side is entirely zero
    u128 ua = ~a->kz & maskw(a->w), ub = ~b->kz & maskw(a->w);
    if ((ua & ub) == 0) {
      int la = ctz128(ua), lb = ctz128(ub), ha = bitlen(ua), hb = bitlen(ub);
      if (ha <= lb) return mkConcat(mkExtract(b, lb, a->w - lb), mkExtract(a, 0, lb));
      if (hb <= la) return mkConcat(mkExtract(a, la, a->w - la), mkExtract(b, 0, la));
    }
  }
  if (!b->isConst() && a->id > b->id) std::swap(a, b);
  return intern(OR, a->w, a, b, 0, 0, 0);
}
E mkXor(E a, E b) {
  if (a == b) return mkConst(0, a->w);
  if (E r = preBin(XOR, a, b)) return r;
  if (a->isConst()) std::swap(a, b);
  if (isC(b, 0)) return a;
  if (b->isConst()) {
    if (a->op == XOR && a->b->isConst()) return mkXor(a->a, mkConst(a->b->val ^ b->val, a->w));
    if (a->w == 1) { // negation
      if (a->op == ULT) return mkUle(a->b, a->a);
      if (a->op == ULE) return mkUlt(a->b, a->a);
      if (a->op == SLT) return mkSle(a->b, a->a);
      if (a->op == SLE) return mkSlt(a->b, a->a);
      if (a->op == ITE && (a->b->isConst() || a->c->isConst())) return mkIte(a->a, mkXor(a->b, b), mkXor(a->c, b));
    }
  } else {
    if (a->op == XOR && a->b == b) return a->a;
    if (a->op == XOR && a->a == b) return a->b;
    if (b->op == XOR && b->b == a) return b->a;
    if (b->op == XOR && b->a == a) return b->b;
    if (a->op == XOR && a->b->isConst()) return mkXor(mkXor(a->a, b), a->b);
    if (b->op == XOR && b->b->isConst()) return mkXor(mkXor(a, b->a), b->b);
  }
  if (E r = segBitwise(XOR, a, b)) return r;
  unsigned n = std::max(activeBits(a), activeBits(b));
  if (n >= 1 && n < a->w) return mkZExt(mkXor(narrowTo(a, n), narrowTo(b, n)), a->w);
  if (!b->isConst() && a->id > b->id) std::swap(a, b);
  return intern(XOR, a->w, a, b, 0, 0, 0);
}
E mkShl(E a, E b) {
  if (E r = preBin(SHL, a, b)) return r;
  if (b->isConst()) {
    if (b->val == 0) return a; if (b->val >= a->w) return mkConst(0, a->w);
    unsigned k = (unsigned)b->val; return mkConcat(mkExtract(a, 0, a->w - k), mkConst(0, k));
  }
  if (isC(a, 0)) return a;
  return intern(SHL, a->w, a, b, 0, 0, 0);
}
E mkLShr(E a, E b) {
  if (E r = preBin(LSHR, a, b)) return r;
  if (b->isConst()) {
    if (b->val == 0) return a; if (b->val >= a->w) return mkConst(0, a->w);
    unsigned k = (unsigned)b->val; return mkZExt(mkExtract(a, k, a->w - k), a->w);
  }
  if (isC(a, 0)) return a;
  return intern(LSHR, a->w, a, b, 0, 0, 0);
}
E mkAShr(E a, E b) {
  if (E r = preBin(ASHR, a, b)) return r;
  if (a->kz & ((u128)1 << (a->w - 1))) return mkLShr(a, b);
  if (b->isConst()) {
    if (b->val == 0) return a; unsigned k = b->val >= a->w ? a->w - 1 : (unsigned)b->val;
    return mkSExt(mkExtract(a, k, a->w - k), a->w);
  }
  return intern(ASHR, a->w, a, b, 0, 0, 0);
}
E mkEq(E a, E b) {
  if (a == b) return mkConst(1, 1);
  if (E r = preBin(EQ, a, b)) return r;
  if (a->isConst()) std::swap(a, b);
  if (a->umax < b->umin || b->umax < a->umin) return mkConst(0, 1);
  if ((a->ko & b->kz) || (a->kz & b->ko)) return mkConst(0, 1);
  if (b->isConst()) {
    u128 v = b->val;
    if (a->w == 1) return v ? a : mkNot(a);
    if (a->op == ZEXT) return mkEq(a->a, mkConst(v, a->a->w)); // range check above covers overflow
    if (a->op == SEXT) { if (((u128)sext128(v & maskw(a->a->w), a->a->w) & maskw(a->w)) != v) return mkConst(0, 1); return mkEq(a->a, mkConst(v, a->a->w)); }
    if (a->op == ADD && a->b->isConst()) return mkEq(a->a, mkConst(v - a->b->val, a->w));
    if (a->op == SUB && a->a->isConst()) return mkEq(a->b, mkConst(a->a->val - v, a->w));
    if (a->op == SUB && v == 0) return mkEq(a->a, a->b);
    if (a->op == XOR && a->b->isConst()) return mkEq(a->a, mkConst(v ^ a->b->val, a->w));
    if (a->op == XOR && v == 0) return mkEq(a->a, a->b);
    if (a->op == CONCAT) return mkAnd(mkEq(a->a, mkConst(v >> a->b->w, a->a->w)), mkEq(a->b, mkConst(v, a->b->w)));
    if (a->op == ITE && (a->b->isConst() || a->c->isConst())) return mkIte(a->a, mkEq(a->b, b), mkEq(a->c, b));
    if (a->op == OR && v == 0) return mkAnd(mkEq(a->a, b), mkEq(a->b, b));
    if (a->op == AND && a->b->isConst() && (v & ~a->b->val)) return mkConst(0, 1);
    // UDIV(x,c)==v  -> v*c <= x < (v+1)*c
    if (a->op == UDIV && a->b->isConst() && a->b->val && a->w <= 64) { u128 c = a->b->val; u128 lo = v * c, hi = lo + c - 1; u128 m = maskw(a->w); if (lo > m) return mkConst(0, 1); E r = mkUle(mkConst(lo, a->w), a->a); if (hi < m) r = mkAnd(r, mkUle(a->a, mkConst(hi, a->w))); return r; }
  } else {
    if (a->op == ZEXT && b->op == ZEXT) {
      if (a->a->w == b->a->w) return mkEq(a->a, b->a);
      unsigned n = std::max(a->a->w, b->a->w); return mkEq(mkZExt(a->a, n), mkZExt(b->a, n));
    }
    if (a->op == SEXT && b->op == SEXT && a->a->w == b->a->w) return mkEq(a->a, b->a);
    if (a->op == ADD && a->b->isConst() && b->op == ADD && b->b->isConst()) return mkEq(a->a, mkAdd(b->a, mkConst(b->b->val - a->b->val, a->w)));
    if (a->op == ADD && a->b->isConst() && a->a == b) return mkConst(0, 1);
    if (b->op == ADD && b->b->isConst() && b->a == a) return mkConst(0, 1);
    if (a->op == CONCAT && b->op == CONCAT && a->b->w == b->b->w) return mkAnd(mkEq(a->a, b->a), mkEq(a->b, b->b));
    if ((a->op == CONCAT || a->op == ZEXT) && (b->op == CONCAT || b->op == ZEXT)) {
      unsigned k = (a->op == CONCAT) ? a->b->w : a->a->w; 
      if (k < a->w) return mkAnd(mkEq(mkExtract(a, k, a->w - k), mkExtract(b, k, a->w - k)), mkEq(mkExtract(a, 0, k), mkExtract(b, 0, k)));
    }
    if (a->op == ITE && b->op == ITE && a->a == b->a) return mkIte(a->a, mkEq(a->b, b->b), mkEq(a->c, b->c));
    if (a->op == ITE && (a->b == b)) return mkOr(a->a, mkEq(a->c, b));
    if (a->op == ITE && (a->c == b)) return mkOr(mkNot(a->a), mkEq(a->b, b));
    if (b->op == ITE && (b->b == a)) return mkOr(b->a, mkEq(b->c, a));
    if (b->op == ITE && (b->c == a)) return mkOr(mkNot(b->a), mkEq(b->b, a));
    unsigned n = std::max(activeBits(a), activeBits(b));
    if (n < a->w && n >= 1) return mkEq(narrowTo(a, n), narrowTo(b, n));
    // common known low/high bits
    if (a->id > b->id) std::swap(a, b);
  }
  if (a->w == 1 && !b->isConst()) { return mkNot(mkXor(a, b)); }
  return intern(EQ, 1, a, b, 0, 0, 0);
}
// comparison of values with equal high or known low parts
static E cmpParts(E a, E b, bool strict) {
  auto cmp = [](E x, E y, bool st) { return st ? mkUlt(x, y) : mkUle(x, y); };
  unsigned w = a->w;
  if (a->op == CONCAT && b->op == CONCAT) {
    if (a->a == b->a) return cmp(a->b, b->b, strict);
    if (a->b == b->b) return cmp(a->a, b->a, strict);
  }
  u128 ka = a->kz | a->ko, kb = b->kz | b->ko, same = (a->kz & b->kz) | (a->ko & b->ko);
  unsigned n = 0; while (n < w && (same >> (w - 1 - n) & 1)) n++;
  if (n && n < w) return cmp(mkExtract(a, 0, w - n), mkExtract(b, 0, w - n), strict);
  unsigned t = 0; while (t < w && (ka & kb) >> t & 1) t++;
  if (t && t < w) { u128 x = a->ko & maskw(t), y = b->ko & maskw(t); return cmp(mkExtract(a, t, w - t), mkExtract(b, t, w - t), strict ? !(x < y) : !(x <= y)); }
  return nullptr;
}
E mkUlt(E a, E b) {
  if (a == b) return mkConst(0, 1);
  if (E r = preBin(ULT, a, b)) return r;
  if (a->umax < b->umin) return mkConst(1, 1);
  if (a->umin >= b->umax) return mkConst(0, 1);
  if (a->w == 1) return mkAnd(mkNot(a), b);
  if (b->isConst()) {
    if (b->val == 1) return mkEq(a, mkConst(0, a->w));
    if (a->umin + 1 == b->val) return mkEq(a, mkConst(a->umin, a->w));
    if (a->op == ZEXT) return mkUlt(a->a, mkConst(b->val, a->a->w));
  }
  if (a->isConst()) {
    if (a->val == 0) return mkNot(mkEq(b, a));
    if (a->val + 1 == b->umax) return mkEq(b, mkConst(b->umax, b->w));
    if (b->op == ZEXT) return mkUlt(mkConst(a->val, b->a->w), b->a);
  }
  unsigned n = std::max(activeBits(a), activeBits(b));
  if (n < a->w && n >= 1) return mkUlt(narrowTo(a, n), narrowTo(b, n));
  // common low zero parts: compare upper parts
  { int t = std::min(ctz128(~a->kz), ctz128(~b->kz)); if (t > 0 && t < (int)a->w) return mkUlt(mkExtract(a, t, a->w - t), mkExtract(b, t, b->w - t)); }
  if (E r = cmpParts(a, b, true)) return r;
  return intern(ULT, 1, a, b, 0, 0, 0);
}
E mkUle(E a, E b) {
  if (a == b) return mkConst(1, 1);
  if (E r = preBin(ULE, a, b)) return r;
  if (a->umax <= b->umin) return mkConst(1, 1);
  if (a->umin > b->umax) return mkConst(0, 1);
  if (b->isConst()) return b->val == maskw(b->w) ? mkConst(1, 1) : mkUlt(a, mkConst(b->val + 1, b->w));
  if (a->isConst()) return a->val == 0 ? mkConst(1, 1) : mkUlt(mkConst(a->val - 1, a->w), b);
  if (a->w == 1) return mkOr(mkNot(a), b);
  unsigned n = std::max(activeBits(a), activeBits(b));
  if (n < a->w && n >= 1) return mkUle(narrowTo(a, n), narrowTo(b, n));
  { int t = std::min(ctz128(~a->kz), ctz128(~b->kz)); if (t > 0 && t < (int)a->w) return mkUle(mkExtract(a, t, a->w - t), mkExtract(b, t, b->w - t)); }
  if (E r = cmpParts(a, b, false)) return r;
  return intern(ULE, 1, a, b, 0, 0, 0);
}
static bool signZero(E a) { return (a->kz >> (a->w - 1)) & 1; }
static bool signOne(E a) { return (a->ko >> (a->w - 1)) & 1; }
E mkSlt(E a, E b) {
  if (a == b) return mkConst(0, 1);
  if (E r = preBin(SLT, a, b)) return r;
  if (signZero(a) && signZero(b)) return mkUlt(a, b);
  if (signOne(a) && signOne(b)) return mkUlt(a, b);
  if (signZero(a) && signOne(b)) return mkConst(0, 1);
  if (signOne(a) && signZero(b)) return mkConst(1, 1);
  if (isC(b, 0)) return mkExtract(a, a->w - 1, 1);
  if (a->isConst() && a->val == maskw(a->w)) return mkNot(mkExtract(b, b->w - 1, 1));
  if (a->op == SEXT && b->op == SEXT && a->a->w == b->a->w) return mkSlt(a->a, b->a);
  return intern(SLT, 1, a, b, 0, 0, 0);
}
E mkSle(E a, E b) {
  if (a == b) return mkConst(1, 1);
  if (E r = preBin(SLE, a, b)) return r;
  if (signZero(a) && signZero(b)) return mkUle(a, b);
  if (signOne(a) && signOne(b)) return mkUle(a, b);
  if (signZero(a) && signOne(b)) return mkConst(0, 1);
  if (signOne(a) && signZero(b)) return mkConst(1, 1);
  u128 smax = maskw(a->w) >> 1;
  if (b->isConst()) return b->val == smax ? mkConst(1, 1) : mkSlt(a, mkConst(b->val + 1, b->w));
  if (a->isConst()) return a->val == smax + 1 ? mkConst(1, 1) : mkSlt(mkConst(a->val - 1, a->w), b);
  if (a->op == SEXT && b->op == SEXT && a->a->w == b->a->w) return mkSle(a->a, b->a);
  return intern(SLE, 1, a, b, 0, 0, 0);
}
E mkIte(E c, E a, E b) {
  if (c->isConst()) return c->val ? a : b;
  if (a == b) return a;
  if (c->op == XOR && isC(c->b, 1)) return mkIte(c->a, b, a);
  if (a->w == 1) {
    if (isC(a, 1) && isC(b, 0)) return c;
    if (isC(a, 0) && isC(b, 1)) return mkNot(c);
    if (isC(b, 0)) return mkAnd(c, a);
    if (isC(a, 1)) return mkOr(c, b);
    if (isC(a, 0)) return mkAnd(mkNot(c), b);
    if (isC(b, 1)) return mkOr(mkNot(c), a);
  }
  if (a->op == ITE && a->a == c) return mkIte(c, a->b, b);
  if (b->op == ITE && b->a == c) return mkIte(c, a, b->c);
  if (b->op == ITE && b->b == a) return mkIte(mkOr(c, b->a), a, b->c);
  if (a->op == ITE && a->c == b) return mkIte(mkAnd(c, a->a), a->b, b);
  if (a->op == ZEXT && b->op == ZEXT && a->a->w == b->a->w) return mkZExt(mkIte(c, a->a, b->a), a->w);
  // narrow constants
  { u128 h = std::max(a->umax, b->umax); unsigned n = bitlen(h); if (n < 1) n = 1; if (n + 7 < a->w && !(a->isConst() && b->isConst()) && !(cheapIte(a) && cheapIte(b)) && (a->op == ZEXT || a->isConst()) && (b->op == ZEXT || b->isConst())) { unsigned k = std::max(a->op == ZEXT ? (unsigned)a->a->w : (unsigned)1, b->op == ZEXT ? (unsigned)b->a->w : 1u); if (k < n) k = n; if (k < a->w) return mkZExt(mkIte(c, mkExtract(a, 0, k), mkExtract(b, 0, k)), a->w); } }
  return intern(ITE, a->w, c, a, b, 0, 0);
}
E mkConcat(E hi, E lo) {
  unsigned w = hi->w + lo->w;
  if (hi->isConst() && lo->isConst()) return mkConst((hi->val << lo->w) | lo->val, w);
  if (isC(hi, 0)) return mkZExt(lo, w);
  if (lo->op == CONCAT && hi->isConst() && lo->a->isConst()) return mkConcat(mkConcat(hi, lo->a), lo->b);
  if (hi->op == CONCAT && lo->isConst() && hi->b->isConst()) return mkConcat(hi->a, mkConcat(hi->b, lo));
  // adjacent extracts
  if (hi->op == EXTRACT && lo->op == EXTRACT && hi->a == lo->a && hi->val == lo->val + lo->w) return mkExtract(hi->a, (unsigned)lo->val, w);
  if (hi->op == EXTRACT && lo == hi->a && 0) return lo;
  if (hi->op == EXTRACT && lo->op == CONCAT && lo->a->op == EXTRACT && lo->a->a == hi->a && hi->val == lo->a->val + lo->a->w) return mkConcat(mkExtract(hi->a, (unsigned)lo->a->val, hi->w + lo->a->w), lo->b);
  // whole variable low part: lo is full-width operand of hi's source impossible
  if (hi->op == ZEXT) return mkZExt(mkConcat(hi->a, lo), w);
  if (lo->op == ZEXT) { // hi . 0..0 . x  -> keep as concat with explicit zero
    return intern(CONCAT, w, hi, lo, 0, 0, 0);
  }
  if (hi->op == CONCAT) return mkConcat(hi->a, mkConcat(hi->b, lo)); // right-nested
  if (hi->op == ITE && lo->op == ITE && hi->a == lo->a) return mkIte(hi->a, mkConcat(hi->b, lo->b), mkConcat(hi->c, lo->c));
  // table / ite with constants
  if (lo->isConst() && hi->op == READ) { std::vector<u128> t(hi->tab->v); for (auto &x : t) x = (x << lo->w) | lo->val; return mkRead(t, hi->a, w, hi->tab->lo); }
  if (lo->isConst() && cheapIte(hi)) return mkIte(hi->a, mkConcat(hi->b, lo), mkConcat(hi->c, lo));
  if (hi->isConst() && cheapIte(lo)) return mkIte(lo->a, mkConcat(hi, lo->b), mkConcat(hi, lo->c));
  return intern(CONCAT, w, hi, lo, 0, 0, 0);
}
static E mkExtract1(E a, unsigned lo, unsigned w);
struct XKey { E a; u32 k; bool operator==(const XKey &o) const { return a == o.a && k == o.k; } };
struct XHash { size_t operator()(const XKey &x) const { return (size_t)(x.a->hash ^ (x.k * 0x9e3779b97f4a7c15ULL)); } };
static std::unordered_map<XKey, E, XHash> xcache;
E mkExtract(E a, unsigned lo, unsigned w) {
  if (lo == 0 && w == a->w) return a;
  switch (a->op) {
    case AND: case OR: case XOR: case ITE: case ADD: case SUB: case MUL: case READ: {
      XKey k{a, lo * 256 + w}; auto it = xcache.find(k); if (it != xcache.end()) return it->second;
      E r = mkExtract1(a, lo, w); xcache[k] = r; return r; }
    default: return mkExtract1(a, lo, w);
  }
}
static E mkExtract1(E a, unsigned lo, unsigned w) {
  u128 m = maskw(w);
  if (a->isConst()) return mkConst(a->val >> lo, w);
  { u128 kz = (a->kz >> lo) & m, ko = (a->ko >> lo) & m; if ((kz | ko) == m) return mkConst(ko, w); }
  switch (a->op) {
    case EXTRACT: return mkExtract(a->a, lo + (unsigned)a->val, w);
    case ZEXT: if (lo >= a->a->w) return mkConst(0, w); if (lo + w <= a->a->w) return mkExtract(a->a, lo, w); return mkZExt(mkExtract(a->a, lo, a->a->w - lo), w);
    case SEXT: if (lo + w <= a->a->w) return mkExtract(a->a, lo, w); if (lo < a->a->w) return mkSExt(mkExtract(a->a, lo, a->a->w - lo), w); return mkSExt(mkExtract(a->a, a->a->w - 1, 1), w);
    case CONCAT: { unsigned k = a->b->w; if (lo >= k) return mkExtract(a->a, lo - k, w); if (lo + w <= k) return mkExtract(a->b, lo, w); return mkConcat(mkExtract(a->a, 0, lo + w - k), mkExtract(a->b, lo, k - lo)); }
    case AND: case OR: case XOR: return mkBin(a->op, mkExtract(a->a, lo, w), mkExtract(a->b, lo, w));
    case ITE: return mkIte(a->a, mkExtract(a->b, lo, w), mkExtract(a->c, lo, w));
    case ADD: case SUB: case MUL: if (lo == 0) return mkBin(a->op, mkExtract(a->a, 0, w), mkExtract(a->b, 0, w)); break;
    case SHL: if (lo == 0 && 0) break; break;
    case READ: { std::vector<u128> t(a->tab->v); for (auto &x : t) x = (x >> lo) & m; return mkRead(t, a->a, w, a->tab->lo); }
    default: break;
  }
  return intern(EXTRACT, w, a, 0, 0, lo, 0);
}
E mkZExt(E a, unsigned w) {
  if (w == a->w) return a;
  if (a->isConst()) return mkConst(a->val, w);
  if (a->op == ZEXT) return mkZExt(a->a, w);
  if (a->op == READ) { return mkRead(a->tab->v, a->a, w, a->tab->lo); }
  if (cheapIte(a)) return mkIte(a->a, mkZExt(a->b, w), mkZExt(a->c, w));
  // strip known-zero top part so that shapes are canonical
  { unsigned n = bitlen(a->umax); if (n < 1) n = 1; if (n < a->w && a->op == CONCAT) { E x = mkExtract(a, 0, n); if (x->isConst()) return mkConst(x->val, w); return mkZExt(x, w); } }
  return intern(ZEXT, w, a, 0, 0, 0, 0);
}
E mkSExt(E a, unsigned w) {
  if (w == a->w) return a;
  if (a->isConst()) return mkConst((u128)sext128(a->val, a->w), w);
  if (signZero(a)) return mkZExt(a, w);
  if (a->op == SEXT) return mkSExt(a->a, w);
  if (a->op == READ) { std::vector<u128> t(a->tab->v); for (auto &x : t) x = (u128)sext128(x, a->w) & maskw(w); return mkRead(t, a->a, w, a->tab->lo); }
  if (cheapIte(a)) return mkIte(a->a, mkSExt(a->b, w), mkSExt(a->c, w));
  if (a->w == 1) return mkIte(a, mkConst(maskw(w), w), mkConst(0, w));
  return intern(SEXT, w, a, 0, 0, 0, 0);
}
static std::unordered_map<u64, std::vector<Table *>> tabs;
static u32 ntabs = 1;
E mkRead(const std::vector<u128> &t0, E idx, unsigned w, size_t dlo) {
  if (idx->isConst()) return mkConst(t0[(size_t)idx->val], w);
  if (idx->op == ZEXT) return mkRead(t0, idx->a, w, dlo);
  size_t l = std::max((size_t)idx->umin, dlo), h = (size_t)std::min<u128>(idx->umax, t0.size() - 1);
  if (l > h) return mkConst(0, w); // unreachable
  bool same = true; for (size_t i = l + 1; i <= h; i++) if (t0[i] != t0[l]) { same = false; break; }
  if (same) return mkConst(t0[l], w);
  if (idx->op == READ) { // compose; indices leading outside the table's domain cannot occur
    size_t n = idx->tab->v.size(), il = idx->tab->lo; std::vector<u128> t(n, 0); std::vector<char> ok(n, 0);
    for (size_t i = il; i < n; i++) { u128 j = idx->tab->v[i]; if (j >= dlo && j < t0.size()) { t[i] = t0[(size_t)j]; ok[i] = 1; } }
    while (il < n && !ok[il]) il++; while (n > il && !ok[n - 1]) n--; if (il >= n) return mkConst(0, w);
    for (size_t i = il + 1; i < n; i++) if (!ok[i]) t[i] = t[i - 1];
    t.resize(n); return mkRead(t, idx->a, w, il);
  }
  if (cheapIte(idx)) return mkIte(idx->a, mkRead(t0, idx->b, w, dlo), mkRead(t0, idx->c, w, dlo));
  // affine with slope one?
  if (idx->w <= w) { bool aff = true; u128 c = (t0[l] - l) & maskw(w); for (size_t i = l; i <= h; i++) if (t0[i] != ((i + c) & maskw(w))) { aff = false; break; } if (aff) return mkAdd(mkZExt(idx, w), mkConst(c, w)); }
  else { bool ident = true; for (size_t i = l; i <= h; i++) if (t0[i] != i) { ident = false; break; } if (ident) return mkExtract(idx, 0, w); }
  if (w == 1) { // boolean table that is a single comparison
    size_t f = l; while (f <= h && t0[f] == t0[l]) f++;
    size_t g = f; while (g <= h && t0[g] == t0[f]) g++;
    if (g > h) { E r = mkUlt(idx, mkConst(f, idx->w)); return t0[l] ? r : mkNot(r); }
    size_t k = g; while (k <= h && t0[k] == t0[g]) k++;
    if (k > h) { E r = mkAnd(mkUle(mkConst(f, idx->w), idx), mkUlt(idx, mkConst(g, idx->w))); return t0[l] ? mkNot(r) : r; }
  }
  u64 hh = mix(w, l); std::vector<u128> t(h + 1, 0); for (size_t i = l; i <= h; i++) t[i] = t0[i];
  for (size_t i = 0; i <= h; i++) hh = mix(mix(hh, (u64)t[i]), (u64)(t[i] >> 64));
  const Table *tt = nullptr;
  for (Table *x : tabs[hh]) if (x->v == t && x->lo == l) { tt = x; break; }
  if (!tt) { Table *x = new Table(); x->v = t; x->h = hh; x->id = ntabs++; x->lo = l; tabs[hh].push_back(x); tt = x; }
  return intern(READ, w, idx, 0, 0, 0, tt);
}

// ---- evaluation ----
static u32 gStamp = 1;
void evalReset() { gStamp++; }
u128 evalExprCont(E e, const Model &m) {
  if (e->op == CONST) return e->val;
  if (e->stamp == gStamp) return e->ev;
  u128 r;
  switch (e->op) {
    case VAR: r = m.get((u32)e->val); break;
    case ITE: r = evalExprCont(e->a, m) ? evalExprCont(e->b, m) : evalExprCont(e->c, m); break;
    case CONCAT: r = (evalExprCont(e->a, m) << e->b->w) | evalExprCont(e->b, m); break;
    case EXTRACT: r = (evalExprCont(e->a, m) >> (unsigned)e->val) & maskw(e->w); break;
    case ZEXT: r = evalExprCont(e->a, m); break;
    case SEXT: r = (u128)sext128(evalExprCont(e->a, m), e->a->w) & maskw(e->w); break;
    case READ: { u128 i = evalExprCont(e->a, m); r = i < e->tab->v.size() ? e->tab->v[(size_t)i] : 0; break; }
    case AND: { u128 x = evalExprCont(e->a, m); r = x ? x & evalExprCont(e->b, m) : 0; break; }
    default: r = foldBin(e->op, evalExprCont(e->a, m), evalExprCont(e->b, m), e->a->w); break;
  }
  e->stamp = gStamp; e->ev = r; return r;
}
u128 evalExpr(E e, const Model &m) { evalReset(); return evalExprCont(e, m); }
static Model oneM;
u128 evalOne(E e, u32 var, u64 value) { if (oneM.v.size() < gVars.size()) oneM.v.resize(gVars.size(), 0); oneM.v[var] = value; evalReset(); return evalExprCont(e, oneM); }

static std::unordered_map<E, std::vector<u32>> supCache;
const std::vector<u32> &supportOf(E e) {
  auto it = supCache.find(e); if (it != supCache.end()) return it->second;
  std::unordered_set<E> seen; std::vector<E> st{e}; std::vector<u32> r;
  while (!st.empty()) { E x = st.back(); st.pop_back(); if (!seen.insert(x).second || x->sup == -1) continue; if (x->sup >= 0) { r.push_back((u32)x->sup); continue; } for (E k : {x->a, x->b, x->c}) if (k) st.push_back(k); }
  std::sort(r.begin(), r.end()); r.erase(std::unique(r.begin(), r.end()), r.end());
  return supCache[e] = r;
}
static const char *opn[] = {"const", "var", "+", "-", "*", "/u", "%u", "/s", "%s", "&", "|", "^", "<<", ">>u", ">>s", "==", "<u", "<=u", "<s", "<=s", "ite", "concat", "extract", "zext", "sext", "read"};
std::string exprStr(E e, int d) {
  char buf[64];
  if (e->isConst()) { snprintf(buf, 64, "0x%llx:%d", (unsigned long long)e->val, e->w); return buf; }
  if (e->op == VAR) { return gVars[(size_t)e->val].name; }
  if (d == 0) return "...";
  std::string s = "("; s += opn[e->op]; if (e->op == EXTRACT) { snprintf(buf, 64, "[%d+%d]", (int)e->val, e->w); s += buf; } if (e->op == ZEXT || e->op == SEXT) { snprintf(buf, 64, "%d", e->w); s += buf; }
  for (E k : {e->a, e->b, e->c}) if (k) s += " " + exprStr(k, d - 1); return s + ")";
}
