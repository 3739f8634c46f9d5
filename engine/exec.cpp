// symex: symbolic execution of an LLVM module.
#include "ir.h"
#include "solver.h"
#include <algorithm>
#include <bitset>
#include <chrono>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <map>
#include <memory>
#include <set>
#include <fcntl.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <unistd.h>
#include <unistd.h>
#include <unordered_set>

typedef std::bitset<256> Dom;
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

// ---------------------------------------------------------------- memory
struct SB { E e; u32 k; };               // byte k of expression e (e == null: concrete)
struct Obj { int rc = 1; u32 size = 0; u32 nsym = 0; bool ro = false; std::vector<u8> d; std::vector<SB> s; };
struct Chunk { int rc = 1; Obj *o[64] = {}; };
static void relObj(Obj *o) { if (o && --o->rc == 0) delete o; }
static void relChunk(Chunk *c) { if (c && --c->rc == 0) { for (Obj *o : c->o) relObj(o); delete c; } }
struct Mem {
  std::vector<Chunk *> ch;
  Mem() {}
  Mem(const Mem &m) : ch(m.ch) { for (Chunk *c : ch) if (c) c->rc++; }
  Mem &operator=(const Mem &m) = delete;
  ~Mem() { for (Chunk *c : ch) relChunk(c); }
  Obj *get(u32 i) const { u32 c = i >> 6; return c < ch.size() && ch[c] ? ch[c]->o[i & 63] : nullptr; }
  Obj **slot(u32 i) { u32 c = i >> 6; if (c >= ch.size()) ch.resize(c + 1, nullptr); Chunk *&k = ch[c]; if (!k) k = new Chunk; else if (k->rc > 1) { Chunk *n = new Chunk; for (int j = 0; j < 64; j++) { n->o[j] = k->o[j]; if (n->o[j]) n->o[j]->rc++; } k->rc--; k = n; } return &k->o[i & 63]; }
  Obj *writable(u32 i) { Obj **p = slot(i); if (*p && (*p)->rc > 1) { Obj *n = new Obj(**p); n->rc = 1; (*p)->rc--; *p = n; } return *p; }
  void set(u32 i, Obj *o) { Obj **p = slot(i); relObj(*p); *p = o; }
};
static const u32 STACK0 = 0x40000000u;

enum FrameKind : u8 { FK_NORMAL, FK_RUN, FK_CATCH };
struct Frame { Func *f; u32 ip = 0, blk = 0; std::vector<SVal> regs; i64 retDst = -1; u32 retN = 0; int contBlk = -1; u32 sp = 0; FrameKind kind = FK_NORMAL; u64 aux = 0; };
struct Input { int var; u64 val; const char *kind; };
struct State {
  std::vector<Frame> st; Mem heap, stk; u32 heapNext = 0, sp = 0; std::vector<u32> freeIds;
  std::vector<E> pc; std::unordered_map<u32, u8> known; std::unordered_map<u32, u128> eqm; std::unordered_map<u32, std::pair<u128, u128>> rng; /* values an expression can take here */
  std::vector<std::pair<u32, Dom>> doms; std::vector<u32> entangled; // sorted
  std::vector<std::pair<u32, std::pair<u8, u8>>> fixed; std::shared_ptr<std::unordered_map<E, E>> refined; // bits of small variables that the path condition fixes (which, value), and rewritten expressions
  Model model; std::vector<Input> inputs; u32 nSym = 0;
  std::vector<SVal> out, err; std::vector<std::vector<SVal>> notes; std::set<std::string> covers; u64 steps = 0; u64 hashK = 0, colour = 0, head = 0, headEnd = 0; u32 tlsErrno = 0; bool capture = false; u32 depth = 0;
};

static std::vector<State *> worklist;
static std::vector<Obj *> pristine; static u32 nSyms;
static std::map<u64, u32> varKey;
struct Stats { u64 paths = 0, pruned = 0, checks = 0, checksStatic = 0, checksSolver = 0, forks = 0, steps = 0, runs = 0, unknownBranches = 0, aborted = 0, merged = 0; std::map<std::string, u64> covers; } gS;
static std::string slotsFile; static int slotCount = 1, slotFd = -1, mySlot = -1; static double deadline = 0; static u64 baseExprs = 0; static u64 splits = 0; static std::vector<int> kids;
static std::string outFile, harnessName, dumpDir; static double timeLimit = 1e9, startT; static u64 stepLimit = 150000000ull; static int shardI = 0, shardN = 1; static std::vector<u64> params; static u64 maxPaths = ~0ull;
static bool verbose = false; static std::vector<std::string> samples; static u64 seed = 1; static u64 sampleSeen = 0;
static std::string abortReason; static bool trace_ = false;
static std::unordered_map<u32, u64> funcSeen;

static std::string demangle(const std::string &m) { // readable path of a v0-mangled name: its identifiers joined
  std::string r; for (size_t i = 2; i < m.size();) { if (isdigit((unsigned char)m[i])) { if (i > 2 && (m[i - 1] == 's' )) { while (i < m.size() && m[i] != '_') i++; continue; } size_t n = 0, j = i; while (j < m.size() && isdigit((unsigned char)m[j])) n = n * 10 + (m[j++] - '0'); if (j < m.size() && m[j] == '_') j++; if (n == 0 || j + n > m.size()) { i++; continue; } std::string id = m.substr(j, n); if (!r.empty()) r += "::"; r += id; i = j + n; } else if (m[i] == 'C' && i + 1 < m.size() && m[i + 1] == 's') { while (i < m.size() && m[i] != '_') i++; } else i++; } return r.empty() ? m : r; }
static std::string jesc(const std::string &s) { std::string r; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c == '\n') r += "\\n"; else if (c < 32 || c >= 127) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r; }

// ---------------------------------------------------------------- domains and decisions
static std::unordered_map<E, Dom> truthCache;
static bool smallVar(u32 v) { return gVars[v].hi - gVars[v].lo < 256; }
static const Dom &truthOf(E c) { auto it = truthCache.find(c); if (it != truthCache.end()) return it->second; u32 v = (u32)c->sup; Dom d; u64 n = gVars[v].hi - gVars[v].lo + 1; for (u64 i = 0; i < n; i++) if (evalOne(c, v, gVars[v].lo + i)) d[i] = 1; return truthCache[c] = d; }
static Dom fullDom(u32 v) { Dom d; u64 n = gVars[v].hi - gVars[v].lo + 1; for (u64 i = 0; i < n; i++) d[i] = 1; return d; }
static Dom domOf(const State &s, u32 v) { for (auto &p : s.doms) if (p.first == v) return p.second; return fullDom(v); }
static bool isEntangled(const State &s, u32 v) { return std::binary_search(s.entangled.begin(), s.entangled.end(), v); }
struct Rg { u128 lo, hi; };
// values e can take under the path condition, as far as recorded facts tell
static Rg ctxRange(State &s, E e, int d = 8) {
  Rg r{e->umin, e->umax}; if (e->isConst()) return r;
  auto it = s.rng.find(e->id); if (it != s.rng.end()) { r.lo = std::max(r.lo, it->second.first); r.hi = std::min(r.hi, it->second.second); }
  auto meet = [&](u128 l, u128 h) { if (l > r.lo) r.lo = l; if (h < r.hi) r.hi = h; };
  if (e->op == VAR) { if (smallVar((u32)e->val)) { Dom x = domOf(s, (u32)e->val); size_t f = x._Find_first(), l = f; for (size_t i = f; i < 256; i = x._Find_next(i)) l = i; if (f < 256) meet(gVars[(u32)e->val].lo + f, gVars[(u32)e->val].lo + l); } return r; }
  if (d == 0 || (s.rng.empty() && s.doms.empty())) return r;
  u128 m = maskw(e->w);
  switch (e->op) {
    case ZEXT: { Rg x = ctxRange(s, e->a, d - 1); meet(x.lo, x.hi); break; }
    case ADD: { Rg x = ctxRange(s, e->a, d - 1), y = ctxRange(s, e->b, d - 1); u128 h = x.hi + y.hi, l = x.lo + y.lo; if (h >= x.hi && h <= m) meet(l, h); else if (e->w < 128 && l > m && (h >> e->w) == (l >> e->w)) meet(l & m, h & m); break; }
    case SUB: { Rg x = ctxRange(s, e->a, d - 1), y = ctxRange(s, e->b, d - 1); if (x.lo >= y.hi) meet(x.lo - y.hi, x.hi - y.lo); break; }
    case MUL: if (e->b->isConst() && e->b->val && e->w <= 64) { Rg x = ctxRange(s, e->a, d - 1); if (x.hi <= m / e->b->val) meet(x.lo * e->b->val, x.hi * e->b->val); } break;
    case SHL: if (e->b->isConst() && e->b->val < e->w) { Rg x = ctxRange(s, e->a, d - 1); unsigned k = (unsigned)e->b->val; if (x.hi <= (m >> k)) meet(x.lo << k, x.hi << k); } break;
    case LSHR: if (e->b->isConst() && e->b->val < e->w) { Rg x = ctxRange(s, e->a, d - 1); meet(x.lo >> (unsigned)e->b->val, x.hi >> (unsigned)e->b->val); } break;
    case CONCAT: { Rg x = ctxRange(s, e->a, d - 1), y = ctxRange(s, e->b, d - 1); meet((x.lo << e->b->w) | (x.lo == x.hi ? y.lo : e->b->umin), (x.hi << e->b->w) | (x.lo == x.hi ? y.hi : e->b->umax)); break; }
    case EXTRACT: { Rg x = ctxRange(s, e->a, d - 1); if ((x.hi >> (unsigned)e->val) <= m) meet(x.lo >> (unsigned)e->val, x.hi >> (unsigned)e->val); break; }
    case READ: { Rg x = ctxRange(s, e->a, d - 1); size_t l = std::max((size_t)x.lo, (size_t)e->tab->lo), h = (size_t)std::min<u128>(x.hi, e->tab->v.size() - 1); if (l > e->tab->lo || l > e->a->umin || h < e->tab->v.size() - 1) { u128 a = ~(u128)0, b = 0; for (size_t i = l; i <= h; i++) { a = std::min(a, e->tab->v[i]); b = std::max(b, e->tab->v[i]); } if (l <= h) meet(a, b); } break; }
    case ITE: { Rg x = ctxRange(s, e->b, d - 1), y = ctxRange(s, e->c, d - 1); meet(std::min(x.lo, y.lo), std::max(x.hi, y.hi)); break; }
    default: break;
  }
  return r;
}
static void learn(State &s, E c, bool v) {
  if (c->op == XOR && c->b->isConst() && c->w == 1) { learn(s, c->a, !v); return; }
  auto put = [&](E x, u128 lo, u128 hi) { if (x->isConst()) return; auto it = s.rng.find(x->id); if (it == s.rng.end()) s.rng[x->id] = {std::max(lo, x->umin), std::min(hi, x->umax)}; else { it->second.first = std::max(it->second.first, lo); it->second.second = std::min(it->second.second, hi); } };
  const u128 top = ~(u128)0;
  if (c->op == ULT || c->op == ULE) {
    E a = c->a, b = c->b; bool strict = c->op == ULT;
    Rg x = ctxRange(s, a), y = ctxRange(s, b);
    if (v) { if (!strict || y.hi) put(a, 0, strict ? y.hi - 1 : y.hi); put(b, strict ? x.lo + 1 : x.lo, top); }
    else { put(b, 0, strict ? x.hi : x.hi ? x.hi - 1 : 0); put(a, strict ? y.lo : y.lo + 1, top); }
  } else if (c->op == EQ && c->b->isConst()) {
    if (v) put(c->a, c->b->val, c->b->val); else { Rg x = ctxRange(s, c->a); if (c->b->val == x.lo) put(c->a, x.lo + 1, top); else if (c->b->val == x.hi && x.hi) put(c->a, 0, x.hi - 1); }
  }
}
static int knownVal(State &s, E c) {
  if (c->isConst()) return c->val ? 1 : 0;
  auto it = s.known.find(c->id); if (it != s.known.end()) return it->second;
  if (c->op == XOR && c->b->isConst()) { int k = knownVal(s, c->a); if (k >= 0) return !k; }
  else if (c->op == AND) { int x = knownVal(s, c->a); if (x == 0) return 0; int y = knownVal(s, c->b); if (y == 0) return 0; if (x == 1 && y == 1) return 1; }
  else if (c->op == OR) { int x = knownVal(s, c->a); if (x == 1) return 1; int y = knownVal(s, c->b); if (y == 1) return 1; if (x == 0 && y == 0) return 0; }
  if (c->sup >= 0 && smallVar((u32)c->sup)) { Dom d = domOf(s, (u32)c->sup); Dom t = d & truthOf(c); if (t.none()) return 0; if (t == d) return 1; }
  else if (c->op == EQ && c->b->isConst()) { auto e = s.eqm.find(c->a->id); if (e != s.eqm.end()) return e->second == c->b->val; Rg r = ctxRange(s, c->a); if (c->b->val < r.lo || c->b->val > r.hi) return 0; if (r.lo == r.hi) return 1; }
  else if (c->op == ULT) { Rg x = ctxRange(s, c->a), y = ctxRange(s, c->b); if (x.hi < y.lo) return 1; if (x.lo >= y.hi) return 0; }
  else if (c->op == ULE) { Rg x = ctxRange(s, c->a), y = ctxRange(s, c->b); if (x.hi <= y.lo) return 1; if (x.lo > y.hi) return 0; }
  else if (c->op == EQ) { Rg x = ctxRange(s, c->a), y = ctxRange(s, c->b); if (x.hi < y.lo || x.lo > y.hi) return 0; }
  return -1;
}
// the expression with the bits put in that the path condition fixes
static bool noRefine = getenv("SYMEX_NOREFINE");
static E refineR(State &s, E e, std::unordered_map<E, E> &memo) {
  if (e->sup == -1) return e;
  if (e->sup >= 0) { bool hit = false; for (auto &p : s.fixed) if ((i64)p.first == e->sup) hit = true; if (!hit) return e; }
  auto it = memo.find(e); if (it != memo.end()) return it->second;
  E r = e;
  auto go = [&](E x) { return refineR(s, x, memo); };
  switch (e->op) {
    case VAR: for (auto &p : s.fixed) if (p.first == (u32)e->val) { u8 m = p.second.first, v = p.second.second; r = nullptr;
        for (unsigned i = 0; i < e->w;) { unsigned j = i + 1; bool f = i < 8 && (m >> i & 1); while (j < e->w && (j < 8 && (m >> j & 1)) == f) j++; E q = f ? mkConst((v >> i) & maskw(j - i), j - i) : mkExtract(e, i, j - i); r = r ? mkConcat(q, r) : q; i = j; } }
      break;
    case ITE: { E c = go(e->a); if (c->isConst()) r = go(c->val ? e->b : e->c); else { E x = go(e->b), y = go(e->c); if (c != e->a || x != e->b || y != e->c) r = mkIte(c, x, y); } break; }
    case CONCAT: { E x = go(e->a), y = go(e->b); if (x != e->a || y != e->b) r = mkConcat(x, y); break; }
    case EXTRACT: { E x = go(e->a); if (x != e->a) r = mkExtract(x, (unsigned)e->val, e->w); break; }
    case ZEXT: { E x = go(e->a); if (x != e->a) r = mkZExt(x, e->w); break; }
    case SEXT: { E x = go(e->a); if (x != e->a) r = mkSExt(x, e->w); break; }
    case READ: { E x = go(e->a); if (x != e->a) { if (x->isConst() && (x->val < e->tab->lo || x->val >= e->tab->v.size())) r = mkConst(0, e->w); /* cannot occur on this path */ else r = mkRead(e->tab->v, x, e->w, e->tab->lo); } break; }
    case CONST: break;
    default: { E x = go(e->a), y = go(e->b); if (x != e->a || y != e->b) r = mkBin(e->op, x, y); break; }
  }
  return memo[e] = r;
}
static E refine(State &s, E e) { if (s.fixed.empty() || noRefine) return e; if (!s.refined) s.refined = std::make_shared<std::unordered_map<E, E>>(); return refineR(s, e, *s.refined); }
static void fixBits(State &s, u32 v, const Dom &d) {
  size_t i = d._Find_first(); if (i >= 256 || gVars[v].hi > 255) return;
  u8 a = 255, o = 0; for (; i < 256; i = d._Find_next(i)) { u8 x = (u8)(gVars[v].lo + i); a &= x; o |= x; }
  u8 m = a | (u8)~o; m &= (u8)maskw(gVars[v].w > 8 ? 8 : gVars[v].w); u8 val = a & m;
  for (auto &p : s.fixed) if (p.first == v) { if (p.second.first != m) { p.second = {m, val}; s.refined = nullptr; } return; }
  if (m) { s.fixed.push_back({v, {m, val}}); s.refined = nullptr; }
}
// 1 / 0: decided; 2: both possible (other side's model in om); 3: unknown other side
static std::string where(State &s); static double slowLog = getenv("SYMEX_SLOW") ? atof(getenv("SYMEX_SLOW")) : 0;
static int decide(State &s, E c, Model *om) {
  int k = knownVal(s, c); if (k >= 0) return k;
  if (c->sup >= 0 && smallVar((u32)c->sup) && !isEntangled(s, (u32)c->sup)) {
    u32 v = (u32)c->sup; Dom d = domOf(s, v); const Dom &t = truthOf(c); bool cur = t[s.model.get(v) - gVars[v].lo];
    Dom o = cur ? (d & ~t) : (d & t); size_t i = o._Find_first(); *om = s.model; if (om->v.size() < gVars.size()) { size_t n = om->v.size(); om->v.resize(gVars.size()); for (; n < gVars.size(); n++) om->v[n] = gVars[n].lo; } om->v[v] = gVars[v].lo + i; return 2; }
  bool cur = evalExpr(c, s.model) != 0;
  E other = cur ? mkNot(c) : c;
  double q0 = slowLog > 0 ? now() : 0; Res r = solve(s.pc, other, om); if (slowLog > 0 && now() - q0 > slowLog) fprintf(stderr, "[slow %.2fs %s] %s\n   in %s\n", now() - q0, r == Res::SAT ? "sat" : "unsat", exprStr(other, 7).c_str(), where(s).c_str());
  if (r == Res::UNSAT) { s.known[c->id] = cur; return cur; }
  if (r == Res::UNKNOWN) return 3;
  return 2;
}
static void addC(State &s, E c) {
  if (c->isConst()) return;
  if (c->op == AND) { addC(s, c->a); addC(s, c->b); return; }
  auto it = s.known.find(c->id); bool already = it != s.known.end() && it->second == 1 && std::find(s.pc.begin(), s.pc.end(), c) != s.pc.end();
  if (already) return;
  s.known[c->id] = 1; if (!(c->op == XOR && c->b->isConst())) { E n = mkNot(c); s.known[n->id] = 0; } else s.known[c->a->id] = 0;
  s.pc.push_back(c);
  if (c->op == EQ && c->b->isConst()) s.eqm[c->a->id] = c->b->val;
  learn(s, c, true);
  if (c->sup >= 0 && smallVar((u32)c->sup)) { u32 v = (u32)c->sup; Dom d = domOf(s, v) & truthOf(c); bool f = false; for (auto &p : s.doms) if (p.first == v) { p.second = d; f = true; } if (!f) s.doms.push_back({v, d}); fixBits(s, v, d); }
  else { for (u32 v : supportOf(c)) { auto p = std::lower_bound(s.entangled.begin(), s.entangled.end(), v); if (p == s.entangled.end() || *p != v) s.entangled.insert(p, v); } }
}
static bool concreteNow(State &s, E e, u128 *v) { // already determined without a query?
  if (e->isConst()) { *v = e->val; return true; }
  auto it = s.eqm.find(e->id); if (it != s.eqm.end()) { *v = it->second; return true; }
  { Rg r = ctxRange(s, e); if (r.lo == r.hi) { *v = r.lo; return true; } }
  if (e->sup >= 0 && smallVar((u32)e->sup)) { u32 x = (u32)e->sup; Dom d = domOf(s, x); u64 n = d.count(); if (n == 1) { *v = evalOne(e, x, gVars[x].lo + d._Find_first()); return true; }
    if (n <= 16) { bool f = true; u128 w = 0; for (size_t i = d._Find_first(); i < 256; i = d._Find_next(i)) { u128 y = evalOne(e, x, gVars[x].lo + i); if (f) { w = y; f = false; } else if (y != w) return false; } *v = w; return true; } }
  return false;
}

struct Pruned {}; struct PathEnd {};
static void violation(State &s, const Model &m, const std::string &kind, const std::string &msg);

// clone the state as it was before the current instruction; it will re-execute the instruction
static State *forkState(State &s) { gS.forks++; return new State(s); }
// branch on a condition; the current state continues with the returned value
static bool forkLog = getenv("SYMEX_FORKS"); static std::map<std::string, u64> forkAt;
static bool branch(State &s, E c) {
  { int k = knownVal(s, c); if (k >= 0) return k; E o = c; c = refine(s, c); if (c != o) { int k = knownVal(s, c); if (k >= 0) { s.known[o->id] = k; return k; } } }
  Model om; int d = decide(s, c, &om);
  if (d == 0 || d == 1) return d;
  bool cur = evalExpr(c, s.model) != 0;
  if (d == 3) { gS.unknownBranches++; addC(s, cur ? c : mkNot(c)); return cur; }
  if (forkLog) { std::string w; for (size_t i = s.st.size(), n = 0; i-- > 0 && n < 4; n++) w += demangle(s.st[i].f->name) + " < "; forkAt[w]++; }
  State *o = forkState(s); addC(*o, cur ? mkNot(c) : c); o->model = om; o->depth++; worklist.push_back(o);
  addC(s, cur ? c : mkNot(c)); s.depth++;
  return cur;
}
static u64 concretize(State &s, const SVal &x, unsigned w) {
  if (!x.e) return x.v;
  u128 v; if (concreteNow(s, x.e, &v)) return (u64)v;
  for (;;) { u128 mv = evalExpr(x.e, s.model); if (branch(s, mkEq(x.e, mkConst(mv, w)))) return (u64)mv; }
}

// ---------------------------------------------------------------- objects
static Obj *getObj(State &s, u64 id) {
  if (id >= STACK0) return s.stk.get((u32)(id - STACK0));
  if (id == 0) return nullptr;
  Obj *o = s.heap.get((u32)id);
  if (!o && id <= nSyms) {
    Obj *&p = pristine[id]; if (!p) { p = new Obj; Sym y = M.syms[id - 1]; if (y.isFunc) { p->size = 0; p->ro = true; } else { Global *g = M.globals[y.idx]; M.parseGlobal(g, p->d); p->size = p->d.size(); p->ro = g->constant; } }
    return p;
  }
  return o;
}
static Obj *getObjW(State &s, u64 id) {
  if (id >= STACK0) return s.stk.writable((u32)(id - STACK0));
  if (id && id <= nSyms && !s.heap.get((u32)id)) { Obj *p = getObj(s, id); Obj *n = new Obj(*p); n->rc = 1; s.heap.set((u32)id, n); return n; }
  return s.heap.writable((u32)id);
}
static std::string where(State &s) { std::string r; int n = 0; for (size_t i = s.st.size(); i-- > 0 && n < 14; n++) { r += s.st[i].f->name; r += " < "; } return r; }
static u64 allocHeap(State &s, u64 size) { if (size > 1u << 30) violation(s, s.model, "memory", "program keeps allocating memory"); u32 id; if (!s.freeIds.empty()) { id = s.freeIds.back(); s.freeIds.pop_back(); } else id = s.heapNext++; Obj *o = new Obj; o->size = size; o->d.assign(size, 0); s.heap.set(id, o); return (u64)id << 32; }
static void freeHeap(State &s, u64 addr) { if (!addr) return; u32 id = addr >> 32; if ((u32)addr != 0 || !s.heap.get(id)) die("bad free %llx in %s", (unsigned long long)addr, where(s).c_str()); s.heap.set(id, nullptr); s.freeIds.push_back(id); }
[[noreturn]] static void badAccess(State &s, u64 addr, u64 n, const char *what) { die("%s out of bounds: addr %llx size %llu (object size %lld) in %s", what, (unsigned long long)addr, (unsigned long long)n, getObj(s, addr >> 32) ? (long long)getObj(s, addr >> 32)->size : -1ll, where(s).c_str()); }

static E byteE(const Obj *o, u64 i) { if (!o->nsym || !o->s[i].e) return mkConst(o->d[i], 8); return mkExtract(o->s[i].e, o->s[i].k * 8, 8); }
static SVal loadO(const Obj *o, u64 off, unsigned w) {
  unsigned nb = (w + 7) / 8;
  bool sym = false; if (o->nsym) for (unsigned i = 0; i < nb; i++) if (o->s[off + i].e) { sym = true; break; }
  if (!sym) { if (w <= 64) { u64 v = 0; memcpy(&v, &o->d[off], nb); if (w & 7) v &= (u64)maskw(w); return sv(v); } u128 v = 0; memcpy(&v, &o->d[off], nb); return SVal{0, mkConst(v, w)}; }
  E r = nullptr;
  for (unsigned i = 0; i < nb;) {
    const SB &b = o->s[off + i]; E p; unsigned j = i + 1;
    if (b.e) { while (j < nb && o->s[off + j].e == b.e && o->s[off + j].k == b.k + (j - i)) j++; unsigned len = j - i; p = (b.k == 0 && len * 8 == b.e->w) ? b.e : mkExtract(b.e, b.k * 8, len * 8); }
    else { u128 v = o->d[off + i]; while (j < nb && !o->s[off + j].e) { v |= (u128)o->d[off + j] << (8 * (j - i)); j++; } p = mkConst(v, 8 * (j - i)); }
    r = r ? mkConcat(p, r) : p; i = j;
  }
  if (r->w > w) r = mkExtract(r, 0, w);
  return svE(r);
}
static void storeO(Obj *o, u64 off, const SVal &v, unsigned w) {
  unsigned nb = (w + 7) / 8;
  if (!v.e || v.e->isConst()) { u128 x = v.e ? v.e->val : v.v; memcpy(&o->d[off], &x, nb); if (o->nsym) for (unsigned i = 0; i < nb; i++) if (o->s[off + i].e) { o->s[off + i].e = nullptr; o->nsym--; } return; }
  E e = v.e; if (e->w != nb * 8) e = mkZExt(e, nb * 8);
  if (o->s.empty()) o->s.assign(o->size, SB{nullptr, 0});
  for (unsigned i = 0; i < nb; i++) { u128 kz = (e->kz >> (8 * i)) & 0xff, ko = (e->ko >> (8 * i)) & 0xff; SB &b = o->s[off + i]; bool c = (kz | ko) == 0xff && nb == 1; if (c) { if (b.e) { b.e = nullptr; o->nsym--; } o->d[off + i] = (u8)ko; } else { if (!b.e) o->nsym++; b.e = e; b.k = i; } }
}
// collect constant leaves of a pointer-valued ITE tree
static bool leaves(E e, std::vector<std::pair<E, u64>> &out, E cond, int d) {
  if (e->isConst()) { out.push_back({cond, (u64)e->val}); return out.size() <= 16; }
  if (e->op != ITE || d == 0) return false;
  return leaves(e->b, out, mkAnd(cond, e->a), d - 1) && leaves(e->c, out, mkAnd(cond, mkNot(e->a)), d - 1);
}
struct Target { u64 lo, hi, step; }; // candidate addresses lo, lo+step, ..., hi within one object
// determine the object and the range of offsets for a symbolic address (may fork)
static bool resolve(State &s, E a, unsigned nb, Target &t) {
  u128 cv; if (concreteNow(s, a, &cv)) { t = {(u64)cv, (u64)cv, 1}; return true; }
  for (;;) {
    Rg cr = ctxRange(s, a); u64 lo = (u64)cr.lo, hi = (u64)cr.hi;
    int tz = 0; while (tz < 12 && ((a->kz >> tz) & 1 || (a->ko >> tz) & 1)) tz++;
    u64 step = 1ull << tz;
    u64 mv = (u64)evalExpr(a, s.model); u64 id = mv >> 32; Obj *o = getObj(s, id);
    u64 base = id << 32;
    if (!o || (mv & 0xffffffff) + nb > o->size) { // model address is out of bounds: is it an error or pointer arithmetic beyond?
      badAccess(s, mv, nb, "symbolic access"); }
    u64 olo = base, ohi = base + o->size - nb;
    if (lo >= olo && hi <= ohi) { lo += (mv - lo) & (step - 1); hi -= (hi - mv) & (step - 1); t = {lo, hi, step}; return true; }
    E in = mkAnd(mkUle(mkConst(olo, 64), a), mkUle(a, mkConst(ohi, 64)));
    if (branch(s, in)) { t.lo = std::max(lo, olo + ((mv - olo) & (step - 1))); t.hi = std::min(hi, ohi); t.step = step; t.lo += (mv - t.lo) & (step - 1); t.hi -= (t.hi - mv) & (step - 1); return true; }
  }
}
static E iteTree(E idx, const std::vector<E> &v, size_t lo, int bit) {
  size_t n = (size_t)1 << (bit + 1); if (lo >= v.size()) return nullptr;
  if (bit < 0) return v[lo];
  E l = iteTree(idx, v, lo, bit - 1), h = iteTree(idx, v, lo + n / 2, bit - 1);
  if (!h) return l; return mkIte(mkExtract(idx, bit, 1), h, l);
}
static u64 concThreshold = 512;
static bool inConcFunc(State &s) { return s.st.back().f->pattern; }
static SVal loadSym(State &s, E a, unsigned w) {
  unsigned nb = (w + 7) / 8;
  u128 cv; if (concreteNow(s, a, &cv)) { Obj *o = getObj(s, (u64)cv >> 32); if (!o || (u64)(u32)cv + nb > o->size) badAccess(s, (u64)cv, nb, "load"); return loadO(o, (u32)cv, w); }
  // small-domain single variable: tabulate
  if (a->sup >= 0 && smallVar((u32)a->sup)) {
    u32 v = (u32)a->sup; Dom d = domOf(s, v); E ve = gVars[v].expr; bool allC = true, inb = true; std::vector<u128> tab; tab.resize((size_t)gVars[v].hi + 1 <= 4096 ? (size_t)gVars[v].hi + 1 : 0); bool have = false; u128 last = 0; u64 nxt = gVars[v].lo + d._Find_first();
    if (!tab.empty()) {
      for (size_t i = d._Find_first(); i < 256; i = d._Find_next(i)) { u64 ad = (u64)evalOne(a, v, gVars[v].lo + i); Obj *o = getObj(s, ad >> 32); if (!o || (u64)(u32)ad + nb > o->size) { inb = false; break; } SVal x = loadO(o, (u32)ad, w); if (x.e && !x.e->isConst()) { allC = false; break; } u128 xv = x.e ? x.e->val : x.v; if (!have) { have = true; last = xv; } while (nxt < gVars[v].lo + i) tab[(size_t)nxt++] = last; last = xv; nxt = gVars[v].lo + i + 1; tab[(size_t)(gVars[v].lo + i)] = xv; }
      if (allC && inb) { size_t f0 = d._Find_first(), l0 = f0; for (size_t i = f0; i < 256; i = d._Find_next(i)) l0 = i; tab.resize((size_t)gVars[v].lo + l0 + 1); SVal r = svE(mkRead(tab, ve, w, (size_t)gVars[v].lo + f0)); if (r.e && !r.e->isConst() && inConcFunc(s)) { u64 c = concretize(s, r, w); return sv(c); } return r; }
    }
  }
  if (a->op == ITE) { std::vector<std::pair<E, u64>> lv; if (leaves(a, lv, mkConst(1, 1), 12)) { E r = nullptr; bool ok = true; for (auto &p : lv) { Obj *o = getObj(s, p.second >> 32); if (!o || (u64)(u32)p.second + nb > o->size) { ok = false; break; } } if (ok) { for (size_t i = lv.size(); i-- > 0;) { SVal x = loadO(getObj(s, lv[i].second >> 32), (u32)lv[i].second, w); E xe = toE(x, w); r = r ? mkIte(lv[i].first, xe, r) : xe; } return svE(r); } } }
  if (inConcFunc(s)) { u64 ad = concretize(s, SVal{0, a}, 64); Obj *o = getObj(s, ad >> 32); if (!o || (u64)(u32)ad + nb > o->size) badAccess(s, ad, nb, "load"); return loadO(o, (u32)ad, w); }
  Target t; resolve(s, a, nb, t);
  Obj *o = getObj(s, t.lo >> 32); u64 cnt = (t.hi - t.lo) / t.step + 1;
  if (cnt == 1) return loadO(o, (u32)t.lo, w);
  if (cnt > 4096) { u64 ad = concretize(s, SVal{0, a}, 64); return loadO(getObj(s, ad >> 32), (u32)ad, w); }
  int sh = __builtin_ctzll(t.step); E idx = mkSub(a, mkConst(t.lo, 64)); idx = mkLShr(idx, mkConst(sh, 64)); int bits = 1; while ((1ull << bits) < cnt) bits++; idx = mkExtract(idx, 0, bits);
  bool allC = true; std::vector<u128> tab; std::vector<E> ev;
  for (u64 i = 0; i < cnt; i++) { SVal x = loadO(o, (u32)(t.lo + i * t.step), w); if (x.e && !x.e->isConst()) { allC = false; break; } tab.push_back(x.e ? x.e->val : x.v); }
  if (allC) { tab.resize((size_t)1 << bits, tab.back()); return svE(mkRead(tab, idx, w)); }
  for (u64 i = 0; i < cnt; i++) ev.push_back(toE(loadO(o, (u32)(t.lo + i * t.step), w), w));
  return svE(iteTree(idx, ev, 0, bits - 1));
}
static SVal load(State &s, const SVal &a, u64 off, unsigned w) {
  if (!a.e) { u64 ad = a.v + off; Obj *o = getObj(s, ad >> 32); unsigned nb = (w + 7) / 8; if (!o || (u64)(u32)ad + nb > o->size) badAccess(s, ad, nb, "load"); return loadO(o, (u32)ad, w); }
  return loadSym(s, off ? mkAdd(a.e, mkConst(off, 64)) : a.e, w);
}
static void storeC(State &s, u64 ad, const SVal &v, unsigned w) { Obj *o = getObjW(s, ad >> 32); unsigned nb = (w + 7) / 8; if (!o || (u64)(u32)ad + nb > o->size) badAccess(s, ad, nb, "store"); if (o->ro) die("store to constant in %s", where(s).c_str()); storeO(o, (u32)ad, v, w); }
// resolve a store address to a set of (condition, address); performs all forking
static void storeTargets(State &s, E a, unsigned nb, std::vector<std::pair<E, u64>> &out) {
  u128 cv; if (concreteNow(s, a, &cv)) { out.push_back({nullptr, (u64)cv}); return; }
  if (a->op == ITE) { std::vector<std::pair<E, u64>> lv; if (leaves(a, lv, mkConst(1, 1), 12)) { out = lv; return; } }
  if (inConcFunc(s)) { out.push_back({nullptr, concretize(s, SVal{0, a}, 64)}); return; }
  Target t; resolve(s, a, nb, t); u64 cnt = (t.hi - t.lo) / t.step + 1; if (cnt == 1) { out.push_back({nullptr, t.lo}); return; }
  if (cnt > concThreshold) { out.push_back({nullptr, concretize(s, SVal{0, a}, 64)}); return; }
  for (u64 i = 0; i < cnt; i++) { u64 ad = t.lo + i * t.step; E c = mkEq(a, mkConst(ad, 64)); if (c->isConst() && !c->val) continue; out.push_back({c, ad}); }
}
static void store(State &s, const SVal &a, u64 off, const SVal &v, unsigned w) {
  if (!a.e) { storeC(s, a.v + off, v, w); return; }
  std::vector<std::pair<E, u64>> t; storeTargets(s, off ? mkAdd(a.e, mkConst(off, 64)) : a.e, (w + 7) / 8, t);
  for (auto &p : t) { if (!p.first) { storeC(s, p.second, v, w); continue; } Obj *o = getObj(s, p.second >> 32); if (!o || (u64)(u32)p.second + (w + 7) / 8 > o->size) badAccess(s, p.second, (w + 7) / 8, "store"); SVal old = loadO(o, (u32)p.second, w); storeC(s, p.second, svE(mkIte(p.first, toE(v, w), toE(old, w))), w); }
}
static void copyBytes(State &s, u64 d, u64 src, u64 n) {
  if (!n) return; Obj *so = getObj(s, src >> 32); if (!so || (u64)(u32)src + n > so->size) badAccess(s, src, n, "memcpy source");
  so->rc++; Obj *o = getObjW(s, d >> 32); if (!o || (u64)(u32)d + n > o->size) { badAccess(s, d, n, "memcpy dest"); }
  if (o->ro) die("memcpy to constant"); u32 so_ = (u32)src, d_ = (u32)d;
  if (o == so) { memmove(&o->d[d_], &o->d[so_], n); if (o->nsym) { std::vector<SB> t(o->s.begin() + so_, o->s.begin() + so_ + n); for (u64 i = 0; i < n; i++) { SB &b = o->s[d_ + i]; if (b.e && !t[i].e) o->nsym--; if (!b.e && t[i].e) o->nsym++; b = t[i]; } } }
  else { memcpy(&o->d[d_], &so->d[so_], n); if (so->nsym && o->s.empty()) o->s.assign(o->size, SB{nullptr, 0}); if (so->nsym || o->nsym) for (u64 i = 0; i < n; i++) { SB t = so->nsym ? so->s[so_ + i] : SB{nullptr, 0}; SB &b = o->s[d_ + i]; if (b.e && !t.e) o->nsym--; if (!b.e && t.e) o->nsym++; b = t; } }
  relObj(so);
}

// ---------------------------------------------------------------- results
static std::string bytesUnder(const std::vector<SVal> &v, const Model &m) { std::string r; for (auto &b : v) r += (char)(b.e ? (u8)evalExpr(b.e, m) : (u8)b.v); return r; }
static std::string inputsJson(State &s, const Model &m) { std::string r = "["; for (size_t i = 0; i < s.inputs.size(); i++) { if (i) r += ","; char b[32]; snprintf(b, 32, "%llu", (unsigned long long)(s.inputs[i].var >= 0 ? m.get(s.inputs[i].var) : s.inputs[i].val)); r += b; } return r + "]"; }
static void writeResult(const char *status, const std::string &extra) {
  std::map<std::string, u64> fns; u64 nf = 0; for (Func *f : M.funcs) if (f->calls) { nf++; if (f->name.find("7ripcalc") != std::string::npos) fns[f->name] += f->calls; }
  FILE *f = outFile.empty() ? stdout : fopen((outFile + ".tmp").c_str(), "w"); if (!f) { perror("out"); _exit(72); }
  fprintf(f, "{\"harness\":\"%s\",\"status\":\"%s\",\"paths\":%llu,\"pruned\":%llu,\"pending\":%zu,\"forks\":%llu,\"checks\":%llu,\"checks_by_solver\":%llu,\"checks_static\":%llu,\"program_runs\":%llu,\"steps\":%llu,\"unknown\":%llu,", harnessName.c_str(), status, (unsigned long long)gS.paths, (unsigned long long)gS.pruned, worklist.size(), (unsigned long long)gS.forks, (unsigned long long)gS.checks, (unsigned long long)gS.checksSolver, (unsigned long long)gS.checksStatic, (unsigned long long)gS.runs, (unsigned long long)gS.steps, (unsigned long long)gS.unknownBranches);
  fprintf(f, "\"solver\":{\"queries\":%llu,\"sat\":%llu,\"unsat\":%llu,\"unknown\":%llu,\"time_s\":%.3f,\"max_s\":%.3f},\"exprs\":%llu,\"wall_s\":%.3f,\"functions_executed\":%llu,", (unsigned long long)gSolver.queries, (unsigned long long)gSolver.sat, (unsigned long long)gSolver.unsat, (unsigned long long)gSolver.unknown, gSolver.time, gSolver.maxTime, (unsigned long long)(gExprCount - baseExprs), now() - startT, (unsigned long long)nf);
  fprintf(f, "\"vars\":%zu,\"splits\":%llu,\"aborted\":%llu,\"abort_reason\":\"%s\",\"ripcalc_functions\":{", gVars.size(), (unsigned long long)splits, (unsigned long long)gS.aborted, jesc(abortReason).c_str()); bool first = true; for (auto &p : fns) { fprintf(f, "%s\"%s\":%llu", first ? "" : ",", jesc(p.first).c_str(), (unsigned long long)p.second); first = false; }
  fprintf(f, "},\"covers\":{"); first = true; for (auto &p : gS.covers) { fprintf(f, "%s\"%s\":%llu", first ? "" : ",", jesc(p.first).c_str(), (unsigned long long)p.second); first = false; }
  fprintf(f, "},\"samples\":["); first = true; for (auto &x : samples) { fprintf(f, "%s%s", first ? "" : ",", x.c_str()); first = false; }
  fprintf(f, "]%s%s}\n", extra.empty() ? "" : ",", extra.c_str()); if (f != stdout) { fclose(f); rename((outFile + ".tmp").c_str(), outFile.c_str()); }
}
static void violation(State &s, const Model &m, const std::string &kind, const std::string &msg) {
  std::string n; for (auto &x : s.notes) { if (!n.empty()) n += ","; n += "\"" + jesc(bytesUnder(x, m)) + "\""; }
  std::string p; for (size_t i = 0; i < params.size(); i++) { if (i) p += ","; p += std::to_string(params[i]); }
  std::string x = "\"violation\":{\"kind\":\"" + kind + "\",\"message\":\"" + jesc(msg) + "\",\"inputs\":" + inputsJson(s, m) + ",\"params\":[" + p + "],\"notes\":[" + n + "],\"where\":\"" + jesc(where(s)) + "\",\"stdout\":\"" + jesc(bytesUnder(s.out, m)) + "\",\"stderr\":\"" + jesc(bytesUnder(s.err, m)) + "\"}";
  writeResult("violation", x); if (verbose) fprintf(stderr, "VIOLATION %s: %s\n inputs %s\n", kind.c_str(), msg.c_str(), inputsJson(s, m).c_str());
  fflush(stdout); _exit(0);
}
static void pathDone(State &s) {
  gS.paths++; for (auto &c : s.covers) gS.covers[c]++;
  // reservoir of samples
  sampleSeen++; size_t cap = 6; seed = seed * 6364136223846793005ull + 1442695040888963407ull; bool take = samples.size() < cap || (seed >> 33) % sampleSeen < cap;
  if (take) { std::string n; for (auto &x : s.notes) { if (!n.empty()) n += ","; n += "\"" + jesc(bytesUnder(x, s.model)) + "\""; } std::string x = "{\"inputs\":" + inputsJson(s, s.model) + ",\"path_constraints\":" + std::to_string(s.pc.size()) + ",\"notes\":[" + n + "]}"; if (samples.size() < cap) samples.push_back(x); else samples[(seed >> 20) % cap] = x; }
}
static std::string readStr(State &s, u64 p, u64 n) { std::string r; for (u64 i = 0; i < n; i++) { SVal b = load(s, sv(p), i, 8); r += b.e ? (char)evalExpr(b.e, s.model) : (char)b.v; } return r; }
static std::string readCStr(State &s, u64 p) { std::string r; for (u64 i = 0;; i++) { SVal b = load(s, sv(p), i, 8); u8 c = b.e ? (u8)evalExpr(b.e, s.model) : (u8)b.v; if (!c) break; r += (char)c; } return r; }

// ---------------------------------------------------------------- handlers
enum H { H_NONE, H_UNDEF, H_MEMCPY, H_MEMSET, H_CTPOP, H_CTLZ, H_CTTZ, H_BSWAP, H_BITREV, H_FSHL, H_FSHR, H_UADDO, H_USUBO, H_UMULO, H_SADDO, H_SSUBO, H_SMULO, H_UADDS, H_USUBS, H_SADDS, H_SSUBS, H_UMIN, H_UMAX, H_SMIN, H_SMAX, H_UCMP, H_SCMP, H_ABS, H_ADDCARRY, H_SUBBORROW, H_TLS, H_ISCONST, H_TRAP, H_NOPI, H_EXPECT, H_FLOAT1, H_FPTOUISAT, H_FPTOSISAT, H_PSHUFB, H_REDUCE, H_PTRMASK,
  H_BCMP, H_MEMCMP, H_STRLEN, H_MALLOC, H_CALLOC, H_REALLOC, H_FREE, H_PMEMALIGN, H_WRITE, H_WRITEV, H_GETENV, H_ISATTY, H_RET0, H_RETM1, H_ERRNO, H_EXIT, H_ABORT, H_SYSCALL, H_GETRANDOM, H_KEYCREATE, H_SETSPEC, H_SIGALT, H_SYSCONF, H_PANIC, H_HASHONE, H_GETTID,
  H_VF_SYM, H_VF_CHOOSE, H_VF_SHARD, H_VF_ASSUME, H_VF_CHECK, H_VF_COVER, H_VF_CONC, H_VF_ENGINE, H_VF_RUN, H_VF_CATCH, H_VF_NOTE, H_VF_PARAM, H_VF_HASH, H_VF_COLOUR, H_VF_HEAD, H_VF_FAIL };
static int classify(Func *f) {
  const std::string &n = f->name; auto pre = [&](const char *p) { return n.compare(0, strlen(p), p) == 0; };
  if (n.find("rust_begin_unwind") != std::string::npos || n.find("4core9panicking9panic_fmt") != std::string::npos || n.find("4core9panicking18panic_nounwind_fmt") != std::string::npos || n.find("4core9panicking19panic_nounwind_fmt") != std::string::npos) return H_PANIC;
  if (n.find("8hash_one") != std::string::npos) return H_HASHONE;
  if (f->defined) { // C library functions defined in the module are executed, except the verification interface
    static const char *own[] = {"malloc", "calloc", "realloc", "free", "memcmp", "bcmp", "strlen"}; for (auto o : own) if (n == o) goto ext; 
    return H_NONE; }
ext:
  if (pre("llvm.")) {
    static const std::vector<std::pair<const char *, int>> t = {{"llvm.experimental.noalias", H_NOPI}, {"llvm.memcpy.", H_MEMCPY}, {"llvm.memmove.", H_MEMCPY}, {"llvm.memset.", H_MEMSET}, {"llvm.ctpop.", H_CTPOP}, {"llvm.ctlz.", H_CTLZ}, {"llvm.cttz.", H_CTTZ}, {"llvm.bswap.", H_BSWAP}, {"llvm.bitreverse.", H_BITREV}, {"llvm.fshl.", H_FSHL}, {"llvm.fshr.", H_FSHR}, {"llvm.uadd.with", H_UADDO}, {"llvm.usub.with", H_USUBO}, {"llvm.umul.with", H_UMULO}, {"llvm.sadd.with", H_SADDO}, {"llvm.ssub.with", H_SSUBO}, {"llvm.smul.with", H_SMULO}, {"llvm.uadd.sat", H_UADDS}, {"llvm.usub.sat", H_USUBS}, {"llvm.sadd.sat", H_SADDS}, {"llvm.ssub.sat", H_SSUBS}, {"llvm.umin.", H_UMIN}, {"llvm.umax.", H_UMAX}, {"llvm.smin.", H_SMIN}, {"llvm.smax.", H_SMAX}, {"llvm.ucmp.", H_UCMP}, {"llvm.scmp.", H_SCMP}, {"llvm.abs.", H_ABS}, {"llvm.x86.addcarry", H_ADDCARRY}, {"llvm.x86.subborrow", H_SUBBORROW}, {"llvm.threadlocal.address", H_TLS}, {"llvm.is.constant", H_ISCONST}, {"llvm.trap", H_TRAP}, {"llvm.expect", H_EXPECT}, {"llvm.ceil", H_FLOAT1}, {"llvm.floor", H_FLOAT1}, {"llvm.sqrt", H_FLOAT1}, {"llvm.log2", H_FLOAT1}, {"llvm.fabs", H_FLOAT1}, {"llvm.trunc.f", H_FLOAT1}, {"llvm.fptoui.sat", H_FPTOUISAT}, {"llvm.fptosi.sat", H_FPTOSISAT}, {"llvm.x86.ssse3.pshuf.b.128", H_PSHUFB}, {"llvm.vector.reduce.", H_REDUCE}, {"llvm.ptrmask", H_PTRMASK}, {"llvm.x86.sse2.pause", H_NOPI}, {"llvm.stacksave", H_RET0}, {"llvm.stackrestore", H_NOPI}, {"llvm.prefetch", H_NOPI}, {"llvm.va_", H_UNDEF}};
    for (auto &p : t) if (pre(p.first)) return p.second;
    return H_UNDEF;
  }
  static const std::unordered_map<std::string, int> x = {{"bcmp", H_BCMP}, {"memcmp", H_MEMCMP}, {"memcpy", H_MEMCPY}, {"memmove", H_MEMCPY}, {"memset", H_MEMSET}, {"strlen", H_STRLEN}, {"malloc", H_MALLOC}, {"calloc", H_CALLOC}, {"realloc", H_REALLOC}, {"free", H_FREE}, {"posix_memalign", H_PMEMALIGN}, {"write", H_WRITE}, {"writev", H_WRITEV}, {"getenv", H_GETENV}, {"isatty", H_RET0}, {"fcntl", H_RET0}, {"poll", H_RET0}, {"signal", H_RET0}, {"sigaction", H_RET0}, {"sigaltstack", H_RET0}, {"close", H_RET0}, {"munmap", H_RET0}, {"mprotect", H_RET0}, {"mmap64", H_RETM1}, {"__cxa_thread_atexit_impl", H_RET0}, {"pthread_key_create", H_KEYCREATE}, {"pthread_key_delete", H_RET0}, {"pthread_setspecific", H_RET0}, {"pthread_self", H_GETTID}, {"gettid", H_GETTID}, {"pthread_getattr_np", H_RETM1}, {"__errno_location", H_ERRNO}, {"exit", H_EXIT}, {"_exit", H_EXIT}, {"abort", H_ABORT}, {"syscall", H_SYSCALL}, {"getrandom", H_GETRANDOM}, {"sysconf", H_SYSCONF}, {"getauxval", H_RET0}, {"getcwd", H_RET0}, {"_Unwind_Backtrace", H_RET0},
    {"__vf_sym", H_VF_SYM}, {"__vf_choose", H_VF_CHOOSE}, {"__vf_shard", H_VF_SHARD}, {"__vf_assume", H_VF_ASSUME}, {"__vf_check", H_VF_CHECK}, {"__vf_cover", H_VF_COVER}, {"__vf_conc", H_VF_CONC}, {"__vf_engine", H_VF_ENGINE}, {"__vf_run", H_VF_RUN}, {"__vf_catch", H_VF_CATCH}, {"__vf_note", H_VF_NOTE}, {"__vf_param", H_VF_PARAM}, {"__vf_hash", H_VF_HASH}, {"__vf_colour", H_VF_COLOUR}, {"__vf_head", H_VF_HEAD}};
  auto it = x.find(n); return it == x.end() ? H_UNDEF : it->second;
}

static inline SVal getOp(const Frame &fr, int o, unsigned k = 0) { return o >= 0 ? fr.regs[o + k] : fr.f->consts[~o + k]; }
static std::vector<std::string> concPatterns;
static void prepFunc(Func *f) { if (!f->parsed) M.parseFunc(f); if (f->handler < 0) { f->handler = classify(f); for (auto &p : concPatterns) if (f->name.find(p) != std::string::npos) f->pattern = true; f->tabulate = f->name.find("5regex4prog") != std::string::npos && f->name.find("10InstRanges7matches") != std::string::npos; } }

static void pushCall(State &s, Func *f, const std::vector<SVal> &args, i64 retDst, u32 retN, int contBlk, FrameKind k = FK_NORMAL) {
  prepFunc(f); if (!f->defined) die("call to undefined function %s in %s", f->name.c_str(), where(s).c_str());
  if (s.st.size() > 4000) die("stack overflow in %s", where(s).c_str());
  f->calls++;
  s.st.emplace_back(); Frame &fr = s.st.back(); fr.f = f; fr.regs.assign(f->nslots, SVal{0, nullptr}); fr.retDst = retDst; fr.retN = retN; fr.contBlk = contBlk; fr.sp = s.sp; fr.kind = k; fr.blk = 0; fr.ip = f->blocks[0].first;
  size_t ai = 0; for (size_t i = 0; i < f->params.size(); i++) { size_t n = f->params[i]->slots().size(); for (size_t j = 0; j < n && ai < args.size(); j++) fr.regs[f->paramSlot[i] + j] = args[ai++]; }
}
static void gotoBlock(State &s, int b) {
  Frame &fr = s.st.back(); Func *f = fr.f; Block &B = f->blocks[b]; int from = fr.blk;
  if (B.nphi) {
    static std::vector<SVal> tmp; tmp.clear();
    for (u32 i = 0; i < B.nphi; i++) { Inst &I = f->code[B.first + i]; bool ok = false; for (size_t k = 0; k < I.ex.size(); k += 2) if (I.ex[k] == from) { for (u32 j = 0; j < I.n; j++) tmp.push_back(getOp(fr, (int)I.ex[k + 1], j)); ok = true; break; } if (!ok) die("phi in %s", f->name.c_str()); }
    size_t p = 0; for (u32 i = 0; i < B.nphi; i++) { Inst &I = f->code[B.first + i]; for (u32 j = 0; j < I.n; j++) fr.regs[I.dst + j] = tmp[p++]; }
  }
  fr.blk = b; fr.ip = B.first + B.nphi;
}
static void popFrame(State &s) { Frame &fr = s.st.back(); for (u32 i = fr.sp; i < s.sp; i++) s.stk.set(i, nullptr); s.sp = fr.sp; s.st.pop_back(); }
// the program under test ended (exit code or panic): unwind to the frame that started it
static bool unwindTo(State &s, FrameKind k, u64 code, bool panicked) {
  size_t i = s.st.size(); while (i > 0 && s.st[i - 1].kind != k) i--; if (!i) return false;
  while (s.st.size() > i) popFrame(s);
  u64 res = s.st.back().aux; i64 rd = s.st.back().retDst; u32 rn = s.st.back().retN; popFrame(s); Frame &fr = s.st.back();
  if (k == FK_RUN) {
    s.head = s.headEnd = 0;
    // result: {u64 code, u64 panicked, ptr out, u64 outlen, ptr err, u64 errlen}
    auto put = [&](std::vector<SVal> &v) { u64 p = allocHeap(s, v.size() ? v.size() : 1); for (size_t j = 0; j < v.size(); j++) storeC(s, p + j, v[j], 8); return p; };
    u64 o = put(s.out), e = put(s.err); storeC(s, res, sv(code), 64); storeC(s, res + 8, sv(panicked), 64); storeC(s, res + 16, sv(o), 64); storeC(s, res + 24, sv(s.out.size()), 64); storeC(s, res + 32, sv(e), 64); storeC(s, res + 40, sv(s.err.size()), 64);
    std::vector<SVal> n; auto add = [&](const char *t) { for (; *t; t++) n.push_back(sv((u8)*t)); };
    add("exit "); add(std::to_string(code).c_str()); if (panicked) add(" panicked"); add(" stdout: "); size_t lim = 0; for (auto &b : s.out) { if (lim++ > 400) { add("..."); break; } n.push_back(b); } if (!s.err.empty()) { add(" stderr: "); lim = 0; for (auto &b : s.err) { if (lim++ > 160) { add("..."); break; } n.push_back(b); } } if (s.notes.size() < 40) s.notes.push_back(n);
    if (rn) fr.regs[rd] = sv(0);
  } else if (rn) fr.regs[rd] = sv(panicked);
  return true;
}
static void doRet(State &s, const std::vector<SVal> &vals) {
  Frame &fr = s.st.back();
  if (fr.kind == FK_RUN) { unwindTo(s, FK_RUN, 0, false); return; }
  if (fr.kind == FK_CATCH) { unwindTo(s, FK_CATCH, 0, false); return; }
  i64 rd = fr.retDst; u32 rn = fr.retN; int cb = fr.contBlk; popFrame(s);
  if (s.st.empty()) throw PathEnd();
  Frame &c = s.st.back(); for (u32 i = 0; i < rn && i < vals.size(); i++) c.regs[rd + i] = vals[i];
  if (cb >= 0) gotoBlock(s, cb);
}
static E mergeCtpop(E a) { unsigned w = a->w; std::vector<E> v; for (unsigned i = 0; i < w; i++) { E b = mkExtract(a, i, 1); if (b->isConst() && !b->val) continue; v.push_back(mkZExt(b, w < 8 ? 8 : w)); } unsigned rw = w < 8 ? 8 : w; if (v.empty()) return mkConst(0, w); while (v.size() > 1) { std::vector<E> n; for (size_t i = 0; i + 1 < v.size(); i += 2) n.push_back(mkAdd(v[i], v[i + 1])); if (v.size() & 1) n.push_back(v.back()); v.swap(n); } return rw == w ? v[0] : mkExtract(v[0], 0, w); }
static E smulo(E a, E b, E *ov) { unsigned w = a->w; E x = mkMul(mkSExt(a, 2 * w), mkSExt(b, 2 * w)); E r = mkExtract(x, 0, w); *ov = mkNot(mkEq(mkSExt(r, 2 * w), x)); return r; }

// nobody reads more than the first s.head bytes of output: the program ends there, as by a closed pipe
static bool cut(State &s) { if (!s.head || s.out.size() < s.head) return false; s.out.resize(s.head); return unwindTo(s, FK_RUN, 141, false); }
static std::string gEntry;
static bool callHandler(State &s, Func *f, Inst &I, std::vector<SVal> &a, std::vector<u32> &aw) {
  Frame &fr = s.st.back(); // invalidated by pushes
  auto set = [&](const SVal &v, unsigned k = 0) { s.st.back().regs[I.dst + k] = v; };
  auto ex = [&](unsigned i) { return toE(a[i], aw[i]); };
  auto cargs = [&](unsigned i) { return concretize(s, a[i], aw[i]); };
  unsigned n = I.n; (void)fr;
  auto maskV = [&](u64 v, unsigned w) { return w >= 64 ? v : v & ((1ull << w) - 1); };
  switch (f->handler) {
    case H_MEMCPY: { u64 len = cargs(2); if (len) { u64 d = cargs(0), sr = cargs(1); copyBytes(s, d, sr, len); } if (n) set(a[0]); return true; }
    case H_MEMSET: { u64 len = cargs(2); if (len) { u64 d = cargs(0); SVal v = a[1]; if (v.e && aw[1] > 8) v = svE(mkExtract(v.e, 0, 8)); else v.v &= 0xff; Obj *o = getObjW(s, d >> 32); if (!o || (u64)(u32)d + len > o->size) badAccess(s, d, len, "memset"); if (!v.e) { memset(&o->d[(u32)d], (int)v.v, len); if (o->nsym) for (u64 i = 0; i < len; i++) if (o->s[(u32)d + i].e) { o->s[(u32)d + i].e = nullptr; o->nsym--; } } else for (u64 i = 0; i < len; i++) storeO(o, (u32)d + i, v, 8); } if (n) set(a[0]); return true; }
    case H_CTPOP: for (unsigned k = 0; k < n; k++) { unsigned w = aw[k]; if (!a[k].e) set(sv(__builtin_popcountll(a[k].v)), k); else set(svE(mergeCtpop(a[k].e)), k); (void)w; } return true;
    case H_CTLZ: case H_CTTZ: for (unsigned k = 0; k < n; k++) { unsigned w = aw[k]; if (!a[k].e) { u64 v = maskV(a[k].v, w); u64 r = !v ? w : f->handler == H_CTTZ ? __builtin_ctzll(v) : __builtin_clzll(v) - (64 - w); set(sv(r), k); } else { E r = mkConst(w, w); for (unsigned i = 0; i < w; i++) { unsigned b = f->handler == H_CTTZ ? w - 1 - i : i; r = mkIte(mkExtract(a[k].e, b, 1), mkConst(f->handler == H_CTTZ ? b : w - 1 - b, w), r); } set(svE(r), k); } } return true;
    case H_BSWAP: for (unsigned k = 0; k < n; k++) { unsigned w = aw[k]; E e = toE(a[k], w), r = nullptr; for (unsigned i = 0; i < w; i += 8) { E b = mkExtract(e, i, 8); r = r ? mkConcat(r, b) : b; } set(svE(r), k); } return true;
    case H_BITREV: for (unsigned k = 0; k < n; k++) { unsigned w = aw[k]; E e = toE(a[k], w), r = nullptr; for (unsigned i = 0; i < w; i++) { E b = mkExtract(e, i, 1); r = r ? mkConcat(r, b) : b; } set(svE(r), k); } return true;
    case H_FSHL: case H_FSHR: { for (unsigned k = 0; k < n; k++) { unsigned w = aw[k]; E x = toE(a[k], w), y = toE(a[n + k], w), z = toE(a[2 * n + k], w); E sh = mkURem(z, mkConst(w, w)); if (2 * w <= 128) { E c = mkConcat(x, y); E r = f->handler == H_FSHL ? mkExtract(mkShl(c, mkZExt(sh, 2 * w)), w, w) : mkExtract(mkLShr(c, mkZExt(sh, 2 * w)), 0, w); set(svE(r), k); } else die("fshl width"); } return true; }
    case H_UADDO: { E x = ex(0), y = ex(1), r = mkAdd(x, y); E o = (x->umax + y->umax <= maskw(x->w) && x->umax + y->umax >= x->umax) ? mkConst(0, 1) : mkUlt(r, x); set(svE(r)); set(svE(o), 1); return true; }
    case H_USUBO: { E x = ex(0), y = ex(1); set(svE(mkSub(x, y))); set(svE(mkUlt(x, y)), 1); return true; }
    case H_UMULO: { E x = ex(0), y = ex(1); unsigned w = x->w; if (w > 64) die("umulo"); E p = mkMul(mkZExt(x, 2 * w), mkZExt(y, 2 * w)); set(svE(mkMul(x, y))); set(svE(mkNot(mkEq(mkExtract(p, w, w), mkConst(0, w)))), 1); return true; }
    case H_SADDO: case H_SSUBO: { E x = ex(0), y = ex(1); unsigned w = x->w; E p = f->handler == H_SADDO ? mkAdd(mkSExt(x, w + 1), mkSExt(y, w + 1)) : mkSub(mkSExt(x, w + 1), mkSExt(y, w + 1)); E r = f->handler == H_SADDO ? mkAdd(x, y) : mkSub(x, y); set(svE(r)); set(svE(mkXor(mkExtract(p, w, 1), mkExtract(p, w - 1, 1))), 1); return true; }
    case H_SMULO: { E o; E r = smulo(ex(0), ex(1), &o); set(svE(r)); set(svE(o), 1); return true; }
    case H_UADDS: for (unsigned k = 0; k < n; k++) { unsigned w = aw[k]; E x = toE(a[k], w), y = toE(a[n + k], w), r = mkAdd(x, y); set(svE(mkIte(mkUlt(r, x), mkConst(maskw(w), w), r)), k); } return true;
    case H_USUBS: for (unsigned k = 0; k < n; k++) { unsigned w = aw[k]; E x = toE(a[k], w), y = toE(a[n + k], w); set(svE(mkIte(mkUlt(x, y), mkConst(0, w), mkSub(x, y))), k); } return true;
    case H_UMIN: case H_UMAX: case H_SMIN: case H_SMAX: for (unsigned k = 0; k < n; k++) { unsigned w = aw[k]; E x = toE(a[k], w), y = toE(a[n + k], w); bool sg = f->handler == H_SMIN || f->handler == H_SMAX, mn = f->handler == H_UMIN || f->handler == H_SMIN; E c = sg ? mkSlt(x, y) : mkUlt(x, y); { int k = knownVal(s, c); if (k < 0 && knownVal(s, sg ? mkSlt(y, x) : mkUlt(y, x)) == 1) k = 0; if (k >= 0) c = mkConst(k, 1); } set(svE(mn ? mkIte(c, x, y) : mkIte(c, y, x)), k); } return true;
    case H_UCMP: case H_SCMP: for (unsigned k = 0; k < n; k++) { unsigned w = aw[k]; E x = toE(a[k], w), y = toE(a[n + k], w); unsigned rw = I.ty->slots()[0].w; E lt = f->handler == H_SCMP ? mkSlt(x, y) : mkUlt(x, y); set(svE(mkIte(lt, mkConst(maskw(rw), rw), mkIte(mkEq(x, y), mkConst(0, rw), mkConst(1, rw)))), k); } return true;
    case H_ABS: for (unsigned k = 0; k < n; k++) { unsigned w = aw[k]; E x = toE(a[k], w); set(svE(mkIte(mkExtract(x, w - 1, 1), mkSub(mkConst(0, w), x), x)), k); } return true;
    case H_ADDCARRY: { E c = mkZExt(mkNot(mkEq(ex(0), mkConst(0, 8))), 66), x = mkZExt(ex(1), 66), y = mkZExt(ex(2), 66); E r = mkAdd(mkAdd(x, y), c); set(svE(mkZExt(mkExtract(r, 64, 1), 8))); set(svE(mkExtract(r, 0, 64)), 1); return true; }
    case H_SUBBORROW: { E c = mkZExt(mkNot(mkEq(ex(0), mkConst(0, 8))), 66), x = mkZExt(ex(1), 66), y = mkZExt(ex(2), 66); E r = mkSub(mkSub(x, y), c); set(svE(mkZExt(mkExtract(r, 65, 1), 8))); set(svE(mkExtract(r, 0, 64)), 1); return true; }
    case H_TLS: case H_EXPECT: set(a[0]); return true;
    case H_ISCONST: set(sv(0)); return true;
    case H_TRAP: case H_ABORT: if (!unwindTo(s, FK_CATCH, 0, true) && !unwindTo(s, FK_RUN, 134, true)) violation(s, s.model, "abort", "abort reached"); return true;
    case H_NOPI: return true;
    case H_FLOAT1: { u64 b = cargs(0); double d; if (aw[0] == 64) memcpy(&d, &b, 8); else { float g; u32 q = (u32)b; memcpy(&g, &q, 4); d = g; } const std::string &nm = f->name; double r = nm.find("ceil") != std::string::npos ? ceil(d) : nm.find("floor") != std::string::npos ? floor(d) : nm.find("sqrt") != std::string::npos ? sqrt(d) : nm.find("log2") != std::string::npos ? log2(d) : nm.find("fabs") != std::string::npos ? fabs(d) : trunc(d); if (aw[0] == 64) { memcpy(&b, &r, 8); set(sv(b)); } else { float g = (float)r; u32 q; memcpy(&q, &g, 4); set(sv(q)); } return true; }
    case H_FPTOUISAT: { u64 b = cargs(0); double d; if (aw[0] == 64) memcpy(&d, &b, 8); else { float g; u32 q = (u32)b; memcpy(&g, &q, 4); d = g; } unsigned w = I.ty->w; u64 r; if (!(d > 0)) r = 0; else if (d >= ldexp(1.0, w)) r = (u64)maskw(w); else r = (u64)d; set(sv(r)); return true; }
    case H_PSHUFB: { for (unsigned k = 0; k < 16; k++) { SVal m = a[16 + k]; if (m.e) { u64 mv = concretize(s, m, 8); m = sv(mv); } set((m.v & 0x80) ? sv(0) : a[m.v & 15], k); } return true; }
    case H_REDUCE: { const std::string &nm = f->name; E r = ex(0); for (unsigned k = 1; k < a.size(); k++) { E y = ex(k); r = nm.find(".add") != std::string::npos ? mkAdd(r, y) : nm.find(".or.") != std::string::npos ? mkOr(r, y) : nm.find(".and.") != std::string::npos ? mkAnd(r, y) : nm.find(".xor") != std::string::npos ? mkXor(r, y) : nm.find(".umax") != std::string::npos ? mkIte(mkUlt(r, y), y, r) : nm.find(".umin") != std::string::npos ? mkIte(mkUlt(r, y), r, y) : (die("reduce %s", nm.c_str()), r); } set(svE(r)); return true; }
    case H_PTRMASK: set(svE(mkAnd(ex(0), ex(1)))); return true;
    case H_BCMP: case H_MEMCMP: { u64 len = cargs(2); E r = mkConst(0, 32); if (len) { u64 p = cargs(0), q = cargs(1); Obj *x = getObj(s, p >> 32), *y = getObj(s, q >> 32); if (!x || (u64)(u32)p + len > x->size) badAccess(s, p, len, "memcmp"); if (!y || (u64)(u32)q + len > y->size) badAccess(s, q, len, "memcmp");
        if (f->handler == H_BCMP) { E eq = mkConst(1, 1); for (u64 i = len; i-- > 0;) { E b = mkEq(byteE(x, (u32)p + i), byteE(y, (u32)q + i)); eq = mkAnd(b, eq); if (eq->isConst() && !eq->val) break; } r = mkIte(eq, mkConst(0, 32), mkConst(1, 32)); }
        else { u64 i0 = 0; for (; i0 < len; i0++) { E u = byteE(x, (u32)p + i0), v = byteE(y, (u32)q + i0); if (u == v) continue; if (u->isConst() && v->isConst()) break; if (u != v && !(u->isConst() && v->isConst())) { E c = mkEq(u, v); if (c->isConst() && !c->val) break; continue; } }
          u64 e = std::min(len, i0 + 1); for (u64 i = e; i-- > 0;) { E u = byteE(x, (u32)p + i), v = byteE(y, (u32)q + i); r = mkIte(mkEq(u, v), r, mkIte(mkUlt(u, v), mkConst(~0u, 32), mkConst(1, 32))); } } }
      set(svE(r)); return true; }
    case H_STRLEN: { u64 p = cargs(0); Obj *o = getObj(s, p >> 32); if (!o) badAccess(s, p, 1, "strlen"); u64 i = (u32)p; for (; i < o->size; i++) { E b = byteE(o, i); E z = mkEq(b, mkConst(0, 8)); if (z->isConst() ? z->val : branch(s, z)) break; } if (i >= o->size) badAccess(s, p, i, "strlen"); set(sv(i - (u32)p)); return true; }
    case H_MALLOC: { u64 z = cargs(0); set(sv(allocHeap(s, z))); return true; }
    case H_CALLOC: { u64 x = cargs(0), y = cargs(1); set(sv(allocHeap(s, x * y))); return true; }
    case H_PMEMALIGN: { u64 p = cargs(0), z = cargs(2); u64 q = allocHeap(s, z); storeC(s, p, sv(q), 64); set(sv(0)); return true; }
    case H_REALLOC: { u64 p = cargs(0), z = cargs(1); if (!p) { set(sv(allocHeap(s, z))); return true; } Obj *o = getObjW(s, p >> 32); if (!o || (u32)p) die("realloc"); u64 q = allocHeap(s, z); o = getObj(s, p >> 32); u64 m = std::min<u64>(z, o->size); copyBytes(s, q, p, m); freeHeap(s, p); set(sv(q)); return true; }
    case H_FREE: { u64 p = cargs(0); freeHeap(s, p); return true; }
    case H_WRITE: { u64 fd = cargs(0), len = cargs(2), p = len ? cargs(1) : 0; Obj *o = len ? getObj(s, p >> 32) : nullptr; if (len && (!o || (u64)(u32)p + len > o->size)) badAccess(s, p, len, "write"); auto &dst = fd == 2 ? s.err : s.out; for (u64 i = 0; i < len; i++) dst.push_back(svE(byteE(o, (u32)p + i))); if (cut(s)) return true; set(sv(len)); return true; }
    case H_WRITEV: { u64 fd = cargs(0), v = cargs(1), c = cargs(2), tot = 0; for (u64 j = 0; j < c; j++) { u64 p = concretize(s, load(s, sv(v), j * 16, 64), 64), len = concretize(s, load(s, sv(v), j * 16 + 8, 64), 64); if (len) { Obj *o = getObj(s, p >> 32); if (!o || (u64)(u32)p + len > o->size) badAccess(s, p, len, "writev"); auto &dst = fd == 2 ? s.err : s.out; for (u64 i = 0; i < len; i++) dst.push_back(svE(byteE(o, (u32)p + i))); } tot += len; } if (cut(s)) return true; set(sv(tot)); return true; }
    case H_GETENV: { u64 p = cargs(0), v = 0; Obj *o = getObj(s, p >> 32); if (s.colour && o) { static const char name[] = "CLICOLOR_FORCE"; u64 i = 0; for (; i < sizeof name && (u32)p + i < o->size; i++) { E b = byteE(o, (u32)p + i); if (!b->isConst() || b->val != (u8)name[i]) break; } if (i == sizeof name) v = s.colour; } set(sv(v)); return true; }
    case H_RET0: if (n) set(sv(0)); return true;
    case H_RETM1: if (n) set(sv(I.ty->slots()[0].w == 64 ? ~0ull : 0xffffffffull)); return true;
    case H_GETTID: set(sv(1)); return true;
    case H_ERRNO: { if (!s.tlsErrno) { u64 p = allocHeap(s, 4); s.tlsErrno = p >> 32; } set(sv((u64)s.tlsErrno << 32)); return true; }
    case H_SYSCONF: { u64 k = cargs(0); set(sv(k == 30 ? 4096 : 1)); return true; }
    case H_KEYCREATE: { u64 p = cargs(0); storeC(s, p, sv(1), 32); set(sv(0)); return true; }
    case H_GETRANDOM: { u64 p = cargs(0), len = cargs(1); for (u64 i = 0; i < len; i++) storeC(s, p + i, sv(0x5a), 8); set(sv(len)); return true; }
    case H_SYSCALL: { u64 nr = cargs(0); if (nr == 318) { u64 p = cargs(1), len = cargs(2); for (u64 i = 0; i < len; i++) storeC(s, p + i, sv(0x5a), 8); set(sv(len)); return true; } if (nr == 202) { u64 op = a.size() > 2 ? cargs(2) & 0x7f : 0; if (op == 1) { set(sv(0)); return true; } die("futex wait (deadlock) in %s", where(s).c_str()); } set(sv(~0ull)); return true; }
    case H_EXIT: { u64 c = cargs(0); if (!unwindTo(s, FK_RUN, c & 0xff, false)) violation(s, s.model, "exit", "exit called outside a program run"); return true; }
    case H_PANIC: {
      std::string w; for (size_t i = s.st.size(); i-- > 0;) { if (s.st[i].f->name.find("7ripcalc") != std::string::npos) { w = demangle(s.st[i].f->name); break; } }
      bool inCatch = false, inRun = false; for (auto &x : s.st) { if (x.kind == FK_CATCH) inCatch = true; if (x.kind == FK_RUN) inRun = true; }
      std::vector<SVal> nt; for (char c : "panic in " + w) nt.push_back(sv((u8)c)); s.notes.push_back(nt);
      if (inCatch) { unwindTo(s, FK_CATCH, 0, true); return true; }
      if (inRun) { unwindTo(s, FK_RUN, 101, true); return true; }
      violation(s, s.model, "panic", "panic in " + w); return true; }
    case H_HASHONE: set(sv(s.hashK)); return true;
    // ---- verification interface
    case H_VF_SYM: { u64 lo = cargs(0), hi = cargs(1); if (lo == hi) { s.inputs.push_back({-1, lo, "const"}); set(sv(lo)); return true; } unsigned w = 1; while (w < 64 && (hi >> w)) w++; u64 key = s.nSym * 1000003ull + lo * 7919 + hi * 104729; key = key * 64 + w; u32 vi; auto it = varKey.find(key); if (it != varKey.end() && gVars[it->second].lo == lo && gVars[it->second].hi == hi) vi = it->second; else { vi = gVars.size(); mkVar(w, lo, hi, "x" + std::to_string(s.nSym) + "_" + std::to_string(vi)); varKey[key] = vi; } s.nSym++; s.inputs.push_back({(int)vi, 0, "sym"}); if (s.model.v.size() <= vi) { size_t k = s.model.v.size(); s.model.v.resize(vi + 1); for (; k <= vi; k++) s.model.v[k] = gVars[k].lo; } s.model.v[vi] = lo; set(svE(mkZExt(gVars[vi].expr, 64))); return true; }
    case H_VF_CHOOSE: case H_VF_SHARD: { u64 m = cargs(0); if (m == 0) throw Pruned(); u64 first = ~0ull; for (u64 i = 0; i < m; i++) { if (f->handler == H_VF_SHARD && (int)(i % shardN) != shardI) continue; if (first == ~0ull) { first = i; continue; } }
        if (first == ~0ull) throw Pruned();
        for (u64 i = m; i-- > first + 1;) { if (f->handler == H_VF_SHARD && (int)(i % shardN) != shardI) continue; State *o = forkState(s); o->inputs.push_back({-1, i, "choice"}); o->st.back().regs[I.dst] = sv(i); o->st.back().ip++; o->depth++; worklist.push_back(o); }
        s.inputs.push_back({-1, first, "choice"}); set(sv(first)); return true; }
    case H_VF_ASSUME: { E c = mkNot(mkEq(ex(0), mkConst(0, aw[0]))); int k = knownVal(s, c); if (k == 0) throw Pruned(); if (k == 1) return true; Model om; bool cur = evalExpr(c, s.model) != 0; if (!cur) { Res r = solve(s.pc, c, &om); if (r == Res::UNSAT) throw Pruned(); if (r == Res::UNKNOWN) { gS.unknownBranches++; throw Pruned(); } s.model = om; } addC(s, c); return true; }
    case H_VF_CHECK: { gS.checks++; E c = mkNot(mkEq(ex(0), mkConst(0, aw[0]))); u64 p = cargs(1), len = cargs(2); if (c->isConst() ? c->val : knownVal(s, c) == 1) { gS.checksStatic++; return true; }
        c = refine(s, c); if (c->isConst() ? c->val : knownVal(s, c) == 1) { gS.checksStatic++; return true; }
        Model m; bool cur = evalExpr(c, s.model) != 0; if (!cur) violation(s, s.model, "check", readStr(s, p, len)); Res r = solve(s.pc, mkNot(c), &m); if (r == Res::SAT) violation(s, m, "check", readStr(s, p, len)); if (r == Res::UNKNOWN) { gS.unknownBranches++; return true; } gS.checksSolver++; s.known[c->id] = 1; return true; }
    case H_VF_COVER: { u64 p = cargs(0), len = cargs(1); s.covers.insert(readStr(s, p, len)); return true; }
    case H_VF_CONC: { u64 v = cargs(0); set(sv(v)); return true; }
    case H_VF_ENGINE: set(sv(1)); return true;
    case H_VF_PARAM: { u64 k = cargs(0); set(sv(k < params.size() ? params[k] : 0)); return true; }
    case H_VF_COLOUR: { s.colour = cargs(0); return true; }
    case H_VF_HEAD: { s.head = cargs(0); return true; }
    case H_VF_HASH: { s.hashK = cargs(0); return true; }
    case H_VF_NOTE: { u64 p = cargs(0), len = cargs(1); std::vector<SVal> nt; for (u64 i = 0; i < len; i++) nt.push_back(load(s, sv(p), i, 8)); if (s.notes.size() < 40) s.notes.push_back(nt); return true; }
    case H_VF_CATCH: { u64 fp = cargs(0); SVal d = a[1]; u32 si = (fp >> 32) - 1; if (si >= M.syms.size() || !M.syms[si].isFunc) die("catch fn"); Func *g = M.funcs[M.syms[si].idx]; s.st.back().ip++; pushCall(s, g, {d}, I.dst, I.n, -1, FK_CATCH); return true; }
    case H_VF_RUN: { // (fn, argc, argv, result)
        gS.runs++; u64 fp = cargs(0), argc = cargs(1), argv = cargs(2), res = cargs(3); u32 si = (fp >> 32) - 1; Func *g = M.funcs[M.syms[si].idx]; s.out.clear(); s.err.clear();
        // every run is a process of its own: writable globals start from their initial values (compiled regular expressions are kept, as they do not change)
        for (Global *G : M.globals) { u32 id = M.symByName[G->name] + 1; if (!G->constant && s.heap.get(id) && (G->name.find("3std") != std::string::npos || (G->name.find("7console") != std::string::npos && G->name.find("7ripcalc") == std::string::npos) || (G->name.find("7ripcalc") != std::string::npos && G->name.find("_REGEX") == std::string::npos))) s.heap.set(id, nullptr); }
        std::vector<SVal> nt; for (u64 i = 0; i < argc; i++) { u64 p = load(s, sv(argv), i * 8, 64).v; if (i) nt.push_back(sv(' ')); for (u64 j = 0;; j++) { SVal b = load(s, sv(p), j, 8); if (!b.e && !b.v) break; nt.push_back(b); } } if (s.notes.size() < 40) s.notes.push_back(nt);
        s.headEnd = s.head ? s.steps + 30000000 : 0; s.st.back().ip++; pushCall(s, g, {}, I.dst, I.n, -1, FK_RUN); s.st.back().aux = res;
        // run the argv initialiser first (as the dynamic loader would)
        for (Global *G : M.globals) if (G->name.find("ARGV_INIT_ARRAY") != std::string::npos && G->name.find("really_init") == std::string::npos) { Obj *o = getObj(s, (u64)M.symByName[G->name] + 1); if (o->size == 8) { u64 w = 0; memcpy(&w, &o->d[0], 8); u32 k = (w >> 32) - 1; if (k < M.syms.size() && M.syms[k].isFunc) pushCall(s, M.funcs[M.syms[k].idx], {sv(argc), sv(argv), sv(0)}, -1, 0, -1); } }
        return true; }
    case H_UNDEF: die("unhandled external %s in %s", f->name.c_str(), where(s).c_str());
  }
  return false;
}

// ---------------------------------------------------------------- interpreter
static inline u64 msk(unsigned w) { return w >= 64 ? ~0ull : (1ull << w) - 1; }
static inline i64 sx(u64 v, unsigned w) { return w >= 64 ? (i64)v : (i64)(v << (64 - w)) >> (64 - w); }
static double asD(u64 b, unsigned w) { if (w == 64) { double d; memcpy(&d, &b, 8); return d; } float f; u32 q = (u32)b; memcpy(&f, &q, 4); return f; }
static u64 fromD(double d, unsigned w) { u64 b = 0; if (w == 64) memcpy(&b, &d, 8); else { float f = (float)d; u32 q; memcpy(&q, &f, 4); b = q; } return b; }

static SVal binop(State &s, IOp op, const SVal &x, const SVal &y, unsigned w) {
  if (!x.e && !y.e) {
    u64 a = x.v, b = y.v, m = msk(w);
    switch (op) {
      case I_ADD: return sv((a + b) & m); case I_SUB: return sv((a - b) & m); case I_MUL: return sv((a * b) & m);
      case I_UDIV: if (!b) die("udiv 0 in %s", where(s).c_str()); return sv(a / b); case I_UREM: if (!b) die("urem 0"); return sv(a % b);
      case I_SDIV: if (!b) die("sdiv 0"); if (sx(b, w) == -1) return sv((0 - a) & m); return sv((u64)(sx(a, w) / sx(b, w)) & m); case I_SREM: if (!b) die("srem 0"); if (sx(b, w) == -1) return sv(0); return sv((u64)(sx(a, w) % sx(b, w)) & m);
      case I_AND: return sv(a & b); case I_OR: return sv(a | b); case I_XOR: return sv(a ^ b);
      case I_SHL: return sv(b >= w ? 0 : (a << b) & m); case I_LSHR: return sv(b >= w ? 0 : a >> b); case I_ASHR: return sv((u64)(sx(a, w) >> (b >= w ? w - 1 : b)) & m);
      default: break;
    }
  }
  static const Op map[] = {ADD, SUB, MUL, UDIV, UREM, SDIV, SREM, AND, OR, XOR, SHL, LSHR, ASHR};
  return svE(mkBin(map[op], toE(x, w), toE(y, w)));
}
static SVal icmp(u8 p, const SVal &x, const SVal &y, unsigned w) {
  if (!x.e && !y.e) { u64 a = x.v, b = y.v; i64 c = sx(a, w), d = sx(b, w); bool r = false; switch (p) { case P_EQ: r = a == b; break; case P_NE: r = a != b; break; case P_UGT: r = a > b; break; case P_UGE: r = a >= b; break; case P_ULT: r = a < b; break; case P_ULE: r = a <= b; break; case P_SGT: r = c > d; break; case P_SGE: r = c >= d; break; case P_SLT: r = c < d; break; case P_SLE: r = c <= d; break; } return sv(r); }
  E a = toE(x, w), b = toE(y, w); E r = nullptr; switch (p) { case P_EQ: r = mkEq(a, b); break; case P_NE: r = mkNot(mkEq(a, b)); break; case P_UGT: r = mkUlt(b, a); break; case P_UGE: r = mkUle(b, a); break; case P_ULT: r = mkUlt(a, b); break; case P_ULE: r = mkUle(a, b); break; case P_SGT: r = mkSlt(b, a); break; case P_SGE: r = mkSle(b, a); break; case P_SLT: r = mkSlt(a, b); break; case P_SLE: r = mkSle(a, b); break; } return svE(r);
}
static SVal cut(const SVal &x, unsigned w) { if (!x.e) return sv(x.v & msk(w)); return svE(mkExtract(x.e, 0, w)); }
static std::unordered_map<std::string, u64> prof; static bool doProf = false;

// Branches that merely choose a value: the targets lead, at most through blocks of side-effect-free instructions, to one
// block whose phi nodes pick small integers. Both sides are evaluated and the phi nodes become if-then-else terms.
static void step(State &s);
static bool pureBlock(Func *f, int b) {
  Block &B = f->blocks[b]; if (B.nphi || B.end - B.first > 8) return false;
  for (u32 i = B.first; i < B.end; i++) { Inst &I = f->code[i]; if (i + 1 == B.end) return I.op == I_BR; switch (I.op) { case I_ADD: case I_SUB: case I_MUL: case I_AND: case I_OR: case I_XOR: case I_SHL: case I_LSHR: case I_ASHR: case I_ICMP: case I_TRUNC: case I_ZEXT: case I_SEXT: case I_COPY: case I_SELECT: case I_NOP: break; default: return false; } }
  return false;
}
static bool mergeOff = getenv("SYMEX_NOMERGE");
// targets: (condition, block); the last one is taken when no other condition holds
static bool tryMerge(State &s, const std::vector<std::pair<E, int>> &tg) {
  if (mergeOff || inConcFunc(s) || tg.size() < 2 || tg.size() > 6) return false;
  Func *f = s.st.back().f; int from = s.st.back().blk; int cand[2] = {tg[0].second, -1}; if (pureBlock(f, tg[0].second)) cand[1] = f->code[f->blocks[tg[0].second].end - 1].t0;
  for (int j : cand) {
    if (j < 0 || j == from) continue; Block &J = f->blocks[j]; if (!J.nphi) continue;
    std::vector<int> pred; bool ok = true;
    for (auto &t : tg) { if (t.second == j) pred.push_back(from); else if (pureBlock(f, t.second) && f->code[f->blocks[t.second].end - 1].t0 == j) pred.push_back(t.second); else { ok = false; break; } }
    if (!ok) continue;
    for (u32 i = 0; i < J.nphi && ok; i++) { Inst &I = f->code[J.first + i]; if (I.n != 1 || I.ty->k != Type::INT || I.ty->w > 8) ok = false; }
    if (!ok) continue;
    for (int b : pred) if (b != from) { Frame &fr = s.st.back(); fr.ip = f->blocks[b].first; u32 e = f->blocks[b].end - 1; while (s.st.back().ip != e) step(s); }
    Frame &fr = s.st.back(); std::vector<SVal> res;
    for (u32 i = 0; i < J.nphi; i++) {
      Inst &I = f->code[J.first + i]; E r = nullptr;
      for (size_t q = tg.size(); q-- > 0;) { SVal x{0, nullptr}; bool found = false; for (size_t k = 0; k < I.ex.size(); k += 2) if (I.ex[k] == pred[q]) { x = getOp(fr, (int)I.ex[k + 1], 0); found = true; break; } if (!found) die("phi in %s", f->name.c_str()); E e = toE(x, I.ty->w); r = r ? mkIte(tg[q].first, e, r) : e; }
      res.push_back(svE(r));
    }
    for (u32 i = 0; i < J.nphi; i++) fr.regs[f->code[J.first + i].dst] = res[i];
    fr.blk = j; fr.ip = J.first + J.nphi; gS.merged++; return true;
  }
  return false;
}
static void step(State &s) {
  Frame &fr = s.st.back(); Func *f = fr.f; Inst &I = f->code[fr.ip]; s.steps++; gS.steps++;
  auto R = [&](int o, unsigned k = 0) -> SVal { return getOp(fr, o, k); };
  switch (I.op) {
    case I_ADD: case I_SUB: case I_MUL: case I_UDIV: case I_UREM: case I_SDIV: case I_SREM: case I_AND: case I_OR: case I_XOR: case I_SHL: case I_LSHR: case I_ASHR:
      for (u32 k = 0; k < I.n; k++) fr.regs[I.dst + k] = binop(s, I.op, R(I.a, k), R(I.b, k), I.w);
      fr.ip++; return;
    case I_ICMP: for (u32 k = 0; k < I.n; k++) fr.regs[I.dst + k] = icmp(I.pred, R(I.a, k), R(I.b, k), I.w); fr.ip++; return;
    case I_TRUNC: { auto &sl = I.ty->slots(); for (u32 k = 0; k < I.n; k++) fr.regs[I.dst + k] = cut(R(I.a, k), sl[k].w); fr.ip++; return; }
    case I_ZEXT: { auto &sl = I.ty->slots(); for (u32 k = 0; k < I.n; k++) { SVal x = R(I.a, k); fr.regs[I.dst + k] = (x.e || sl[k].w > 64) ? svE(mkZExt(toE(x, I.w), sl[k].w)) : x; } fr.ip++; return; }
    case I_SEXT: { auto &sl = I.ty->slots(); for (u32 k = 0; k < I.n; k++) { SVal x = R(I.a, k); fr.regs[I.dst + k] = (x.e || sl[k].w > 64) ? svE(mkSExt(toE(x, I.w), sl[k].w)) : sv((u64)sx(x.v, I.w) & msk(sl[k].w)); } fr.ip++; return; }
    case I_COPY: for (u32 k = 0; k < I.n; k++) fr.regs[I.dst + k] = R(I.a, k); fr.ip++; return;
    case I_BITCAST: {
      auto &ss = I.ty2->slots(); auto &ds = I.ty->slots();
      if (ss.size() == ds.size()) { for (u32 k = 0; k < I.n; k++) fr.regs[I.dst + k] = R(I.a, k); }
      else if (ss.size() > ds.size()) { unsigned r = ss.size() / ds.size(); std::vector<SVal> res; for (u32 k = 0; k < ds.size(); k++) { bool c = ds[k].w <= 64; for (unsigned j = 0; j < r; j++) if (R(I.a, k * r + j).e) c = false; if (c) { u64 v = 0; for (unsigned j = 0; j < r; j++) v |= R(I.a, k * r + j).v << (j * ss[0].w); res.push_back(sv(v)); } else { E e = nullptr; for (unsigned j = 0; j < r; j++) { E x = toE(R(I.a, k * r + j), ss[0].w); e = e ? mkConcat(x, e) : x; } res.push_back(svE(e)); } } for (u32 k = 0; k < res.size(); k++) fr.regs[I.dst + k] = res[k]; }
      else { unsigned r = ds.size() / ss.size(); std::vector<SVal> res; for (u32 k = 0; k < ss.size(); k++) { SVal x = R(I.a, k); for (unsigned j = 0; j < r; j++) res.push_back(x.e ? svE(mkExtract(x.e, j * ds[0].w, ds[0].w)) : sv((x.v >> (j * ds[0].w)) & msk(ds[0].w))); } for (u32 k = 0; k < res.size(); k++) fr.regs[I.dst + k] = res[k]; }
      fr.ip++; return; }
    case I_SELECT: {
      bool vec = I.ty2->k == Type::VEC; std::vector<SVal> res; auto &sl = I.ty->slots();
      SVal c = R(I.a);
      if (!vec) { if (c.e) { E q = refine(s, c.e); int k = knownVal(s, q); if (k < 0 && I.n == 1 && sl[0].w >= 32) { Model om; k = decide(s, q, &om); } if (k == 0 || k == 1) c = sv(k); } if (!c.e) { int o = c.v ? I.b : I.c; if (I.n == 1) fr.regs[I.dst] = R(o); else { for (u32 k = 0; k < I.n; k++) res.push_back(R(o, k)); for (u32 k = 0; k < I.n; k++) fr.regs[I.dst + k] = res[k]; } } else { for (u32 k = 0; k < I.n; k++) { SVal x = R(I.b, k), y = R(I.c, k); res.push_back((!x.e && !y.e && x.v == y.v) ? x : svE(mkIte(c.e, toE(x, sl[k].w), toE(y, sl[k].w)))); } for (u32 k = 0; k < I.n; k++) fr.regs[I.dst + k] = res[k]; } }
      else { for (u32 k = 0; k < I.n; k++) { SVal ck = R(I.a, k), x = R(I.b, k), y = R(I.c, k); res.push_back(!ck.e ? (ck.v ? x : y) : svE(mkIte(ck.e, toE(x, sl[k].w), toE(y, sl[k].w)))); } for (u32 k = 0; k < I.n; k++) fr.regs[I.dst + k] = res[k]; }
      fr.ip++; return; }
    case I_BR: gotoBlock(s, I.t0); return;
    case I_CONDBR: { SVal c = R(I.a); if (c.e && knownVal(s, c.e) < 0 && tryMerge(s, {{c.e, I.t0}, {nullptr, I.t1}})) return; bool b = c.e ? branch(s, c.e) : c.v; gotoBlock(s, b ? I.t0 : I.t1); return; }
    case I_SWITCH: {
      SVal c = R(I.a); if (c.e) { u128 v; if (concreteNow(s, c.e, &v) && I.w <= 64) c = sv((u64)v); }
      if (!c.e) { for (size_t k = 0; k < I.ex.size(); k += 3) if ((u64)I.ex[k] == c.v && I.ex[k + 1] == 0) { gotoBlock(s, (int)I.ex[k + 2]); return; } gotoBlock(s, I.t0); return; }
      std::vector<std::pair<int, E>> groups; E none = mkConst(1, 1);
      for (size_t k = 0; k < I.ex.size(); k += 3) { E q = mkEq(c.e, mkConst(((u128)(u64)I.ex[k + 1] << 64) | (u64)I.ex[k], I.w)); if (q->isConst() && !q->val) continue; none = mkAnd(none, mkNot(q)); bool f2 = false; for (auto &g : groups) if (g.first == (int)I.ex[k + 2]) { g.second = mkOr(g.second, q); f2 = true; break; } if (!f2) groups.push_back({(int)I.ex[k + 2], q}); }
      { std::vector<std::pair<E, int>> tg; bool sure = false; for (auto &g : groups) { int k = knownVal(s, g.second); if (k == 1) sure = true; if (k != 0) tg.push_back({g.second, g.first}); } if (knownVal(s, none) != 0) tg.push_back({nullptr, I.t0}); if (!sure && tryMerge(s, tg)) return; }
      for (auto &g : groups) if (branch(s, g.second)) { gotoBlock(s, g.first); return; }
      gotoBlock(s, I.t0); return; }
    case I_RET: { std::vector<SVal> v; for (u32 k = 0; k < I.n; k++) v.push_back(R(I.a, k)); doRet(s, v); return; }
    case I_UNREACHABLE: die("unreachable reached in %s", where(s).c_str());
    case I_RESUME: case I_LANDINGPAD: die("unwinding reached in %s", where(s).c_str());
    case I_ALLOCA: { u64 n = concretize(s, R(I.a), 64) * (u64)I.imm; u32 id = s.sp++; Obj *o = new Obj; o->size = n; o->d.assign(n, 0); s.stk.set(id, o); fr.regs[I.dst] = sv((u64)(STACK0 + id) << 32); fr.ip++; return; }
    case I_LOAD: {
      SVal a = R(I.a); auto &sl = I.ty->slots();
      if (I.n == 1) { SVal v = load(s, a, 0, sl[0].w); s.st.back().regs[I.dst] = v; s.st.back().ip++; return; }
      std::vector<SVal> v; for (u32 k = 0; k < I.n; k++) v.push_back(load(s, a, sl[k].off, sl[k].w)); for (u32 k = 0; k < I.n; k++) fr.regs[I.dst + k] = v[k]; fr.ip++; return; }
    case I_STORE: {
      SVal a = R(I.b); auto &sl = I.ty->slots();
      if (a.e && I.n > 1) { u64 c = concretize(s, a, 64); a = sv(c); }
      for (u32 k = 0; k < I.n; k++) store(s, a, sl[k].off, R(I.a, k), sl[k].w);
      fr.ip++; return; }
    case I_GEP: {
      SVal b = R(I.a); bool sym = b.e; u64 v = b.v + I.imm;
      for (size_t k = 0; k < I.ex.size(); k += 3) { SVal x = R((int)I.ex[k]); if (x.e) { sym = true; break; } v += (u64)sx(x.v, I.ex[k + 1]) * (u64)I.ex[k + 2]; }
      if (!sym) { fr.regs[I.dst] = sv(v); fr.ip++; return; }
      E r = mkConst((b.e ? 0 : b.v) + I.imm, 64); E acc = nullptr;
      for (size_t k = 0; k < I.ex.size(); k += 3) { SVal x = R((int)I.ex[k]); E xe = mkSExt(toE(x, I.ex[k + 1]), 64); if (I.ex[k + 1] > 64) xe = mkExtract(toE(x, I.ex[k + 1]), 0, 64); E m = mkMul(xe, mkConst((u64)I.ex[k + 2], 64)); acc = acc ? mkAdd(acc, m) : m; }
      if (b.e) acc = acc ? mkAdd(acc, b.e) : b.e;
      r = acc ? mkAdd(acc, r) : r;
      fr.regs[I.dst] = svE(r); fr.ip++; return; }
    case I_EXTRACTVALUE: for (u32 k = 0; k < I.n; k++) fr.regs[I.dst + k] = R(I.a, I.imm + k); fr.ip++; return;
    case I_INSERTVALUE: { u32 m = I.ty2->slots().size(); std::vector<SVal> v; for (u32 k = 0; k < I.n; k++) v.push_back((k >= I.imm && k < I.imm + m) ? R(I.b, k - I.imm) : R(I.a, k)); for (u32 k = 0; k < I.n; k++) fr.regs[I.dst + k] = v[k]; fr.ip++; return; }
    case I_EXTRACTELEMENT: { u64 x = concretize(s, R(I.b), I.w); fr.regs[I.dst] = R(I.a, x); fr.ip++; return; }
    case I_INSERTELEMENT: { u64 x = concretize(s, R(I.c), I.w); std::vector<SVal> v; for (u32 k = 0; k < I.n; k++) v.push_back(k == x ? R(I.b) : R(I.a, k)); for (u32 k = 0; k < I.n; k++) fr.regs[I.dst + k] = v[k]; fr.ip++; return; }
    case I_SHUFFLE: { u32 m = I.ty2->slots().size(); std::vector<SVal> v; for (u32 k = 0; k < I.n; k++) { u64 x = (u64)I.ex[k]; v.push_back(x < m ? R(I.a, x) : x < 2 * m ? R(I.b, x - m) : sv(0)); } for (u32 k = 0; k < I.n; k++) fr.regs[I.dst + k] = v[k]; fr.ip++; return; }
    case I_ATOMICRMW: { SVal a = R(I.a); SVal o = load(s, a, 0, I.w), v = R(I.b), r; switch (I.imm) { case 0: r = v; break; case 1: r = binop(s, I_ADD, o, v, I.w); break; case 2: r = binop(s, I_SUB, o, v, I.w); break; case 3: r = binop(s, I_AND, o, v, I.w); break; case 4: r = binop(s, I_OR, o, v, I.w); break; case 5: r = binop(s, I_XOR, o, v, I.w); break; default: die("rmw"); } store(s, a, 0, r, I.w); fr.regs[I.dst] = o; fr.ip++; return; }
    case I_CMPXCHG: { SVal a = R(I.a); SVal o = load(s, a, 0, I.w), e = R(I.b); SVal q = icmp(P_EQ, o, e, I.w); bool ok = q.e ? branch(s, q.e) : q.v; if (ok) store(s, a, 0, R(I.c), I.w); fr.regs[I.dst] = o; fr.regs[I.dst + 1] = sv(ok); fr.ip++; return; }
    case I_FADD: case I_FSUB: case I_FMUL: case I_FDIV: case I_FREM: for (u32 k = 0; k < I.n; k++) { double x = asD(concretize(s, R(I.a, k), I.w), I.w), y = asD(concretize(s, R(I.b, k), I.w), I.w); double r = I.op == I_FADD ? x + y : I.op == I_FSUB ? x - y : I.op == I_FMUL ? x * y : I.op == I_FDIV ? x / y : fmod(x, y); fr.regs[I.dst + k] = sv(fromD(r, I.w)); } fr.ip++; return;
    case I_FNEG: fr.regs[I.dst] = sv(fromD(-asD(concretize(s, R(I.a), I.w), I.w), I.w)); fr.ip++; return;
    case I_FCMP: { double x = asD(concretize(s, R(I.a), I.w), I.w), y = asD(concretize(s, R(I.b), I.w), I.w); bool u = std::isnan(x) || std::isnan(y), r = false; switch (I.pred) { case F_OEQ: r = !u && x == y; break; case F_OGT: r = !u && x > y; break; case F_OGE: r = !u && x >= y; break; case F_OLT: r = !u && x < y; break; case F_OLE: r = !u && x <= y; break; case F_ONE: r = !u && x != y; break; case F_ORD: r = !u; break; case F_UEQ: r = u || x == y; break; case F_UGT: r = u || x > y; break; case F_UGE: r = u || x >= y; break; case F_ULT: r = u || x < y; break; case F_ULE: r = u || x <= y; break; case F_UNE: r = u || x != y; break; case F_UNO: r = u; break; case F_TRUE: r = true; break; default: break; } fr.regs[I.dst] = sv(r); fr.ip++; return; }
    case I_UITOFP: { u64 x = concretize(s, R(I.a), I.w); fr.regs[I.dst] = sv(fromD((double)x, I.ty->slots()[0].w)); fr.ip++; return; }
    case I_SITOFP: { u64 x = concretize(s, R(I.a), I.w); fr.regs[I.dst] = sv(fromD((double)sx(x, I.w), I.ty->slots()[0].w)); fr.ip++; return; }
    case I_FPTOUI: { double x = asD(concretize(s, R(I.a), I.w), I.w); fr.regs[I.dst] = sv((u64)x & msk(I.ty->slots()[0].w)); fr.ip++; return; }
    case I_FPTOSI: { double x = asD(concretize(s, R(I.a), I.w), I.w); fr.regs[I.dst] = sv((u64)(i64)x & msk(I.ty->slots()[0].w)); fr.ip++; return; }
    case I_FPCAST: { double x = asD(concretize(s, R(I.a), I.w), I.w); fr.regs[I.dst] = sv(fromD(x, I.ty->slots()[0].w)); fr.ip++; return; }
    case I_CALL: {
      if (I.flag) { // inline assembly: cpuid reports no features, barriers do nothing
        if (I.text->find("cpuid") != std::string::npos) { for (u32 k = 0; k < I.n; k++) fr.regs[I.dst + k] = sv(0); } else if (I.n && I.text->compare(0, 4, " || ") != 0) die("asm %s", I.text->c_str()); else if (I.n) { for (u32 k = 0; k < I.n; k++) fr.regs[I.dst + k] = I.ex.empty() ? sv(0) : R((int)I.ex[0], k); }
        fr.ip++; return; }
      Func *g = I.callee;
      if (!g) { SVal p = R(I.a); u64 v = concretize(s, p, 64); u32 si = (v >> 32) - 1; if ((v >> 32) == 0 || si >= M.syms.size() || !M.syms[si].isFunc || (u32)v) die("bad function pointer %llx in %s", (unsigned long long)v, where(s).c_str()); g = M.funcs[M.syms[si].idx]; }
      if (g->handler < 0) prepFunc(g);
      std::vector<SVal> args; std::vector<u32> aw; args.reserve(I.ex.size() / 3);
      for (size_t k = 0; k < I.ex.size(); k += 3) for (i64 j = 0; j < I.ex[k + 1]; j++) { args.push_back(getOp(s.st.back(), (int)I.ex[k], j)); aw.push_back((u32)I.ex[k + 2]); }
      if (g->handler != H_NONE) {
        g->calls++; size_t depth = s.st.size(); u32 ip0 = s.st.back().ip; int h = g->handler;
        if (!callHandler(s, g, I, args, aw)) die("handler");
        if (h == H_VF_RUN || h == H_VF_CATCH) return; // frames pushed, ip already advanced
        if (s.st.size() == depth && s.st.back().ip == ip0) { if (I.t0 >= 0) gotoBlock(s, I.t0); else s.st.back().ip++; }
        return;
      }
      if (g->blocks.empty()) prepFunc(g);
      if (doProf) prof[g->name]++;
      if (g->tabulate && I.n == 1) { // a side-effect-free function of one character: run it for each value the character can have
        int at = -1; bool one = true; for (size_t k = 0; k < args.size(); k++) if (args[k].e) { if (at >= 0) one = false; at = (int)k; }
        u128 cv; if (at >= 0 && one && concreteNow(s, args[at].e, &cv)) { args[at] = sv((u64)cv); at = -1; }
        if (at >= 0 && one && args[at].e->sup >= 0 && smallVar((u32)args[at].e->sup)) {
          E e = args[at].e; u32 v = (u32)e->sup; Dom d = domOf(s, v); std::vector<u128> tab((size_t)gVars[v].hi + 1, 0); std::map<u64, u64> memo; u64 lo = gVars[v].lo, nxt = lo; u128 last = 0; bool first = true; size_t depth = s.st.size(), wl = worklist.size();
          for (size_t i = d._Find_first(); i < 256; i = d._Find_next(i)) {
            u64 cvl = (u64)evalOne(e, v, lo + i); auto it = memo.find(cvl); u64 r;
            if (it != memo.end()) r = it->second;
            else { args[at] = sv(cvl); u64 ip = s.st.back().ip; pushCall(s, g, args, I.dst, 1, -1); while (s.st.size() > depth) step(s); s.st.back().ip = (u32)ip; SVal x = s.st.back().regs[I.dst]; if (x.e || worklist.size() != wl) die("tabulated function forks"); r = x.v; memo[cvl] = r; }
            if (first) { last = r; first = false; } while (nxt < lo + i) tab[nxt++] = last; last = r; tab[lo + i] = r; nxt = lo + i + 1;
          }
          while (nxt <= gVars[v].hi) tab[nxt++] = last;
          s.st.back().regs[I.dst] = svE(mkRead(tab, gVars[v].expr, g->ret->slots()[0].w, (size_t)lo)); if (I.t0 >= 0) gotoBlock(s, I.t0); else s.st.back().ip++; return;
        }
      }
      int cont = I.t0; i64 rd = I.dst; u32 rn = I.n; if (cont < 0) s.st.back().ip++;
      pushCall(s, g, args, rd, rn, cont); return; }
    case I_NOP: fr.ip++; return;
    case I_PHI: die("phi executed");
    case I_UNKNOWN: die("unsupported instruction: %s", I.text->c_str());
  }
}

static int selftest();
// Worker slots shared by the engine processes of one check: one byte-range lock per slot, released by the system when its holder ends.
static bool lockByte(int i, int cmd, struct flock *out = nullptr) { struct flock l; memset(&l, 0, sizeof l); l.l_type = F_WRLCK; l.l_whence = SEEK_SET; l.l_start = i; l.l_len = 1; int r = fcntl(slotFd, cmd, &l); if (out) *out = l; return r == 0; }
static double wallclock() { struct timeval tv; gettimeofday(&tv, nullptr); return tv.tv_sec + tv.tv_usec * 1e-6; }
static bool overdue() { return now() - startT > timeLimit || (deadline > 0 && wallclock() > deadline); }
static void takeSlot() { for (;;) { for (int i = 0; i < slotCount; i++) if (lockByte(i, F_SETLK)) { mySlot = i; return; } usleep(5000); if (deadline > 0 && wallclock() > deadline) return; } }
static bool freeSlot() { for (int i = 0; i < slotCount; i++) { if (i == mySlot) continue; struct flock l; if (lockByte(i, F_GETLK, &l) && l.l_type == F_UNLCK) return true; } return false; }
// hand half of the open states to a new process
static bool splitWork() {
  pid_t p = fork(); if (p < 0) return false;
  std::vector<State *> mine; bool kid = p == 0; for (size_t i = 0; i < worklist.size(); i++) if (((i & 1) == 1) == kid) mine.push_back(worklist[i]); else delete worklist[i];
  worklist = mine; splits++;
  if (kid) { gS = Stats(); gSolver = SolverStats(); samples.clear(); sampleSeen = 0; kids.clear(); splits = 0; baseExprs = gExprCount; seed = seed * 31 + getpid(); for (Func *f : M.funcs) f->calls = 0; if (!outFile.empty()) { static std::string root = outFile; outFile = root + "." + std::to_string(getpid()) + "-" + std::to_string((long)(now() * 1e6) % 1000000000); } mySlot = -1; takeSlot(); }
  else kids.push_back(p);
  return true;
}
int main(int argc, char **argv) {
  setvbuf(stdout, nullptr, _IOLBF, 1 << 16);
  std::string ir; concPatterns = {"5regex", "12regex_syntax", "12aho_corasick"};
  for (int i = 1; i < argc; i++) { std::string a = argv[i]; auto nx = [&]() { return std::string(argv[++i]); };
    if (a == "--ir") ir = nx(); else if (a == "--entry") harnessName = nx(); else if (a == "--out") outFile = nx(); else if (a == "--time") timeLimit = atof(nx().c_str()); else if (a == "--shard") { std::string v = nx(); sscanf(v.c_str(), "%d/%d", &shardI, &shardN); } else if (a == "--param") params.push_back(strtoull(nx().c_str(), 0, 10)); else if (a == "-v") verbose = true; else if (a == "--query-timeout") gQueryTimeoutMs = atoi(nx().c_str()); else if (a == "--seed") seed = strtoull(nx().c_str(), 0, 10) * 2654435761u + 12345; else if (a == "--dump") { gDumpDir = nx(); gDumpMax = 12; } else if (a == "--selftest") return selftest(); else if (a == "--slots") { slotsFile = nx(); slotCount = atoi(nx().c_str()); } else if (a == "--deadline") deadline = atof(nx().c_str()); else if (a == "--prof") doProf = true; else if (a == "--max-paths") maxPaths = strtoull(nx().c_str(), 0, 10); else if (a == "--steps") stepLimit = strtoull(nx().c_str(), 0, 10); else if (a == "--trace") trace_ = true; else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 64; } }
  startT = now(); M.load(ir); nSyms = M.syms.size(); pristine.assign(nSyms + 2, nullptr);
  if (verbose) fprintf(stderr, "loaded %zu functions, %zu globals in %.2fs\n", M.funcs.size(), M.globals.size(), now() - startT);
  if (!slotsFile.empty()) { slotFd = open(slotsFile.c_str(), O_RDWR | O_CREAT, 0600); if (slotFd < 0) { perror("slots"); return 72; } takeSlot(); startT = now(); }
  Func *e = nullptr; for (Func *f : M.funcs) if (f->name == harnessName || f->name == "vf_h_" + harnessName) e = f;
  if (!e || !e->defined) { fprintf(stderr, "no such harness: %s\n", harnessName.c_str()); return 65; }
  State *s0 = new State; s0->heapNext = nSyms + 1; pushCall(*s0, e, {}, -1, 0, -1); worklist.push_back(s0);
  gExecuting = true; bool incomplete = false; u64 pick = seed; double nextSplit = now() + 0.2;
  while (!worklist.empty()) {
    if (slotFd >= 0 && worklist.size() >= 4 && now() > nextSplit) { if (freeSlot()) splitWork(); nextSplit = now() + 0.03; if (worklist.empty()) break; }
    if (worklist.size() > 1) { pick = pick * 6364136223846793005ull + 1442695040888963407ull; if ((pick >> 60) < 4) std::swap(worklist[(pick >> 20) % worklist.size()], worklist.back()); }
    State *s = worklist.back(); worklist.pop_back(); u64 cnt = 0;
    try { for (;;) { if (trace_) { Frame &f = s->st.back(); fprintf(stderr, "%s b%u i%u op%d\n", f.f->name.c_str(), f.blk, f.ip, f.f->code[f.ip].op); } step(*s); if ((++cnt & 0xffff) == 0 && overdue()) { incomplete = true; break; } if (s->headEnd && s->steps > s->headEnd) throw Pruned(); if (s->steps > stepLimit) violation(*s, s->model, "nontermination", "program does not end"); } if (incomplete) { worklist.push_back(s); break; } }
    catch (EngineLimit &e) { gS.aborted++; if (abortReason.empty()) abortReason = e.msg + " [" + where(*s) + "]"; if (verbose) fprintf(stderr, "gave up a path: %s\n", abortReason.c_str()); } catch (Pruned &) { gS.pruned++; } catch (PathEnd &) { pathDone(*s); }
    delete s;
    if (verbose && (gS.paths % 500) == 0 && gS.paths) fprintf(stderr, "[%.1fs] paths %llu pruned %llu pending %zu queries %llu (%.1fs) exprs %llu\n", now() - startT, (unsigned long long)gS.paths, (unsigned long long)gS.pruned, worklist.size(), (unsigned long long)gSolver.queries, gSolver.time, (unsigned long long)gExprCount);
    if (!worklist.empty() && overdue()) { incomplete = true; break; }
    if (gS.paths >= maxPaths && !worklist.empty()) { incomplete = true; break; }
  }
  if (gS.unknownBranches || gS.aborted) incomplete = true;
  for (auto &p : forkAt) fprintf(stderr, "%10llu forks at %s\n", (unsigned long long)p.second, p.first.c_str());
  if (doProf) { std::vector<std::pair<u64, std::string>> v; for (auto &p : prof) v.push_back({p.second, p.first}); std::sort(v.rbegin(), v.rend()); for (size_t i = 0; i < v.size() && i < 40; i++) fprintf(stderr, "%10llu %s\n", (unsigned long long)v[i].first, demangle(v[i].second).c_str()); }
  writeResult(incomplete ? "incomplete" : "complete", "");
  fflush(stdout); if (slotFd >= 0) { close(slotFd); for (int k : kids) waitpid(k, nullptr, 0); }
  _exit(0);
}

// ---------------------------------------------------------------- self test of the expression simplifier
static u64 rng = 88172645463325252ull; static u64 rnd() { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; return rng; }
struct Raw { Op op; unsigned w; u128 val; int a = -1, b = -1, c = -1; E e; u128 cur = 0; };
static u128 rawEval(std::vector<Raw> &v, int i, const Model &m) {
  Raw &r = v[i]; switch (r.op) { case CONST: return r.val; case VAR: return m.get((u32)r.val); default: break; }
  auto sgn = [](u128 x, unsigned w) -> i128 { if (w >= 128) return (i128)x; u128 s = (u128)1 << (w - 1); return (i128)((x ^ s) - s); };
  u128 x = v[r.a].cur, y = r.b >= 0 ? v[r.b].cur : 0; unsigned aw = v[r.a].w; u128 k = maskw(r.w);
  switch (r.op) { case ADD: return (x + y) & k; case SUB: return (x - y) & k; case MUL: return (x * y) & k; case UDIV: return y ? x / y : k; case UREM: return y ? x % y : x; case AND: return x & y; case OR: return x | y; case XOR: return x ^ y; case SHL: return y >= aw ? 0 : (x << (unsigned)y) & k; case LSHR: return y >= aw ? 0 : x >> (unsigned)y; case ASHR: return (u128)(sgn(x, aw) >> (unsigned)(y >= aw ? aw - 1 : y)) & k; case EQ: return x == y; case ULT: return x < y; case ULE: return x <= y; case SLT: return sgn(x, aw) < sgn(y, aw); case SLE: return sgn(x, aw) <= sgn(y, aw); case ITE: return x ? y : v[r.c].cur; case CONCAT: return (x << v[r.b].w) | y; case EXTRACT: return (x >> (unsigned)r.val) & k; case ZEXT: return x; case SEXT: return (u128)sgn(x, aw) & k; default: return 0; }
}
static int selftest() {
  u64 bad = 0, n = 0; std::vector<u32> vars; unsigned vw[] = {4, 8, 8, 32, 64, 16}; for (int i = 0; i < 6; i++) { u64 hi = (u64)maskw(vw[i]), lo = 0; if (i == 0) hi = 9; if (i == 2) { lo = 0x30; hi = 0x39; } mkVar(vw[i], lo, hi, "t"); }
  u64 nq = 0; for (int round = 0; round < 120000; round++) {
    std::vector<Raw> v; int nv = gVars.size(); for (int i = 0; i < nv; i++) { Raw r; r.op = VAR; r.w = gVars[i].w; r.val = i; r.e = gVars[i].expr; v.push_back(r); }
    for (int i = 0; i < 3; i++) { Raw r; r.op = CONST; unsigned ws[] = {1, 8, 16, 32, 64, 128}; r.w = ws[rnd() % 6]; r.val = ((u128)rnd() << 64 | rnd()) & maskw(r.w); if (rnd() & 1) r.val &= 0xff; r.e = mkConst(r.val, r.w); r.val = r.e->val; v.push_back(r); }
    int steps = 3 + rnd() % 22;
    for (int i = 0; i < steps; i++) {
      Raw r; int a = rnd() % v.size(), b = rnd() % v.size(), c = rnd() % v.size(); if (rnd() % 3) a = v.size() - 1 - rnd() % std::min<size_t>(v.size(), 5); unsigned aw = v[a].w;
      auto fit = [&](int x, unsigned w) { if (v[x].w == w) return x; Raw q; q.a = x; q.w = w; if (v[x].w > w) { q.op = EXTRACT; q.val = rnd() % (v[x].w - w + 1); q.e = mkExtract(v[x].e, (unsigned)q.val, w); } else if (rnd() & 1) { q.op = ZEXT; q.e = mkZExt(v[x].e, w); } else { q.op = SEXT; q.e = mkSExt(v[x].e, w); } v.push_back(q); return (int)v.size() - 1; };
      switch (rnd() % 7) {
        case 0: case 1: { static const Op o[] = {ADD, SUB, MUL, AND, OR, XOR, SHL, LSHR, ASHR, UDIV, UREM}; b = fit(b, aw); r.op = o[rnd() % 11]; if ((r.op == UDIV || r.op == UREM) ) { Raw k; k.op = CONST; k.w = aw; k.val = (1 + rnd() % 100) & maskw(aw); if (!k.val) k.val = 1; k.e = mkConst(k.val, aw); v.push_back(k); b = v.size() - 1; } if ((r.op == SHL || r.op == LSHR || r.op == ASHR) && rnd() % 2) { Raw k; k.op = CONST; k.w = aw; k.val = (rnd() % aw) & maskw(aw); k.e = mkConst(k.val, aw); v.push_back(k); b = v.size() - 1; } r.w = aw; r.a = a; r.b = b; r.e = mkBin(r.op, v[a].e, v[b].e); break; }
        case 2: { static const Op o[] = {EQ, ULT, ULE, SLT, SLE}; b = fit(b, aw); r.op = o[rnd() % 5]; r.w = 1; r.a = a; r.b = b; r.e = mkBin(r.op, v[a].e, v[b].e); break; }
        case 3: { c = fit(c, 1); b = fit(b, aw); r.op = ITE; r.w = aw; r.a = c; r.b = a; r.c = b; r.e = mkIte(v[c].e, v[a].e, v[b].e); break; }
        case 4: { if (aw + v[b].w > 128) continue; r.op = CONCAT; r.w = aw + v[b].w; r.a = a; r.b = b; r.e = mkConcat(v[a].e, v[b].e); break; }
        case 5: { r.op = EXTRACT; unsigned w = 1 + rnd() % aw; r.val = rnd() % (aw - w + 1); r.w = w; r.a = a; r.e = mkExtract(v[a].e, (unsigned)r.val, w); break; }
        case 6: { unsigned ws[] = {8, 16, 32, 64, 128}; unsigned w = ws[rnd() % 5]; if (w < aw) continue; r.w = w; r.a = a; if (rnd() & 1) { r.op = ZEXT; r.e = mkZExt(v[a].e, w); } else { r.op = SEXT; r.e = mkSExt(v[a].e, w); } break; }
      }
      v.push_back(r);
    }
    if (round % 400 == 0) { // translation to the solver: under a full assignment, e != value must be unsatisfiable and e == value satisfiable
      Model m; m.v.resize(nv); std::vector<E> pc; for (int i = 0; i < nv; i++) { m.v[i] = gVars[i].lo + (gVars[i].hi - gVars[i].lo == ~0ull ? rnd() : rnd() % (gVars[i].hi - gVars[i].lo + 1)); pc.push_back(mkEq(gVars[i].expr, mkConst(m.v[i], gVars[i].w))); }
      for (size_t i = nv; i < v.size(); i++) { evalReset(); u128 y = evalExprCont(v[i].e, m); E q = mkEq(v[i].e, mkConst(y, v[i].w)); if (q->isConst()) continue; Model o; nq++; if (solve(pc, mkNot(q), &o) != Res::UNSAT || solve(pc, q, &o) != Res::SAT) { bad++; fprintf(stderr, "SOLVER MISMATCH %s\n", exprStr(v[i].e).c_str()); } } }
    for (int t = 0; t < 3; t++) { Model m; m.v.resize(nv); for (int i = 0; i < nv; i++) m.v[i] = gVars[i].lo + (gVars[i].hi - gVars[i].lo == ~0ull ? rnd() : rnd() % (gVars[i].hi - gVars[i].lo + 1)); if (rnd() % 4 == 0) for (int i = 0; i < nv; i++) m.v[i] = rnd() & 1 ? gVars[i].lo : gVars[i].hi;
      evalReset();
      for (size_t i = 0; i < v.size(); i++) { n++; u128 x = v[i].cur = rawEval(v, i, m), y = evalExprCont(v[i].e, m); E e = v[i].e; if (x != y || e->w != v[i].w || x < e->umin || x > e->umax || (x & e->kz) || (~x & e->ko)) { if (bad++ < 5) { fprintf(stderr, "MISMATCH op %d w %u raw %llx got %llx  a=%s\n", v[i].op, v[i].w, (unsigned long long)x, (unsigned long long)y, exprStr(e).c_str()); if (v[i].a >= 0) fprintf(stderr, "   a: %s\n", exprStr(v[v[i].a].e).c_str()); if (v[i].b >= 0) fprintf(stderr, "   b: %s\n", exprStr(v[v[i].b].e).c_str()); } } } }
  }
  printf("selftest: %llu evaluations, %llu solver queries, %llu mismatches\n", (unsigned long long)n, (unsigned long long)nq, (unsigned long long)bad); return bad ? 1 : 0;
}
