#include "solver.h"
#include <z3.h>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <unistd.h>
#include <signal.h>
#include <sys/time.h>
#include <algorithm>
static int getpid_() { return (int)getpid(); }
SolverStats gSolver; unsigned gQueryTimeoutMs = 60000; std::string gDumpDir; u64 gDumpMax = 0;
static Z3_context C = nullptr; static Z3_solver S = nullptr;
static std::vector<E> stack_; static std::unordered_map<E, Z3_ast> memo;
static void onErr(Z3_context c, Z3_error_code e) { fprintf(stderr, "symex: z3 error: %s\n", Z3_get_error_msg(c, e)); _exit(71); }
static void init() {
  Z3_config cfg = Z3_mk_config(); C = Z3_mk_context(cfg); Z3_del_config(cfg); Z3_set_error_handler(C, onErr);
  S = Z3_mk_solver_for_logic(C, Z3_mk_string_symbol(C, "QF_FD")); Z3_solver_inc_ref(C, S);
  // time limit by an alarm and not by Z3's own timer threads, which would not survive a fork of this process
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = [](int) { if (C) Z3_interrupt(C); }; sa.sa_flags = SA_RESTART; sigaction(SIGALRM, &sa, nullptr);
}
static Z3_sort bv(unsigned w) { static Z3_sort s[129]; if (!s[w]) s[w] = Z3_mk_bv_sort(C, w); return s[w]; }
static Z3_ast num(u128 v, unsigned w) {
  if (w <= 64) return Z3_mk_unsigned_int64(C, (u64)v, bv(w));
  return Z3_mk_concat(C, Z3_mk_unsigned_int64(C, (u64)(v >> 64), bv(w - 64)), Z3_mk_unsigned_int64(C, (u64)v, bv(64)));
}
static Z3_ast tr(E e);
static Z3_ast trBool(E e) { // width-1 expression as Bool
  switch (e->op) {
    case CONST: return e->val ? Z3_mk_true(C) : Z3_mk_false(C);
    case EQ: return Z3_mk_eq(C, tr(e->a), tr(e->b));
    case ULT: return Z3_mk_bvult(C, tr(e->a), tr(e->b));
    case ULE: return Z3_mk_bvule(C, tr(e->a), tr(e->b));
    case SLT: return Z3_mk_bvslt(C, tr(e->a), tr(e->b));
    case SLE: return Z3_mk_bvsle(C, tr(e->a), tr(e->b));
    case XOR: if (e->b->isConst() && e->b->val == 1) return Z3_mk_not(C, trBool(e->a)); break;
    case AND: { Z3_ast x[2] = {trBool(e->a), trBool(e->b)}; return Z3_mk_and(C, 2, x); }
    case OR: { Z3_ast x[2] = {trBool(e->a), trBool(e->b)}; return Z3_mk_or(C, 2, x); }
    case ITE: return Z3_mk_ite(C, trBool(e->a), trBool(e->b), trBool(e->c));
    default: break;
  }
  return Z3_mk_eq(C, tr(e), num(1, 1));
}
static Z3_ast trReadBits(const std::vector<u128> &t, Z3_ast idx, unsigned iw, int bit, size_t lo, size_t lim, unsigned w) {
  // elements [lo, lo + 2^(bit+1)) restricted to < lim ; beyond lim: repeat anything
  size_t end = lo + ((size_t)1 << (bit + 1)); if (end > lim) end = lim;
  bool same = true; for (size_t i = lo + 1; i < end; i++) if (t[i] != t[lo]) { same = false; break; }
  if (same || bit < 0) return num(t[lo], w);
  size_t mid = lo + ((size_t)1 << bit);
  if (mid >= lim) return trReadBits(t, idx, iw, bit - 1, lo, lim, w);
  Z3_ast h = trReadBits(t, idx, iw, bit - 1, mid, lim, w), l = trReadBits(t, idx, iw, bit - 1, lo, lim, w);
  if (h == l) return h;
  return Z3_mk_ite(C, Z3_mk_eq(C, Z3_mk_extract(C, bit, bit, idx), num(1, 1)), h, l);
}
static Z3_ast tr(E e) {
  if (e->op == CONST) return num(e->val, e->w);
  auto it = memo.find(e); if (it != memo.end()) return it->second;
  Z3_ast r;
  switch (e->op) {
    case VAR: { char b[32]; snprintf(b, 32, "v%llu", (unsigned long long)e->val); r = Z3_mk_const(C, Z3_mk_string_symbol(C, b), bv(e->w)); break; }
    case ADD: r = Z3_mk_bvadd(C, tr(e->a), tr(e->b)); break;
    case SUB: r = Z3_mk_bvsub(C, tr(e->a), tr(e->b)); break;
    case MUL: r = Z3_mk_bvmul(C, tr(e->a), tr(e->b)); break;
    case UDIV: r = Z3_mk_bvudiv(C, tr(e->a), tr(e->b)); break;
    case UREM: r = Z3_mk_bvurem(C, tr(e->a), tr(e->b)); break;
    case SDIV: r = Z3_mk_bvsdiv(C, tr(e->a), tr(e->b)); break;
    case SREM: r = Z3_mk_bvsrem(C, tr(e->a), tr(e->b)); break;
    case AND: if (e->w == 1) goto boolish; r = Z3_mk_bvand(C, tr(e->a), tr(e->b)); break;
    case OR: if (e->w == 1) goto boolish; r = Z3_mk_bvor(C, tr(e->a), tr(e->b)); break;
    case XOR: r = (e->b->isConst() && e->b->val == maskw(e->w)) ? Z3_mk_bvnot(C, tr(e->a)) : Z3_mk_bvxor(C, tr(e->a), tr(e->b)); break;
    case SHL: r = Z3_mk_bvshl(C, tr(e->a), tr(e->b)); break;
    case LSHR: r = Z3_mk_bvlshr(C, tr(e->a), tr(e->b)); break;
    case ASHR: r = Z3_mk_bvashr(C, tr(e->a), tr(e->b)); break;
    case ITE: r = Z3_mk_ite(C, trBool(e->a), tr(e->b), tr(e->c)); break;
    case CONCAT: r = Z3_mk_concat(C, tr(e->a), tr(e->b)); break;
    case EXTRACT: r = Z3_mk_extract(C, (unsigned)e->val + e->w - 1, (unsigned)e->val, tr(e->a)); break;
    case ZEXT: r = Z3_mk_zero_ext(C, e->w - e->a->w, tr(e->a)); break;
    case SEXT: r = Z3_mk_sign_ext(C, e->w - e->a->w, tr(e->a)); break;
    case READ: {
      // skip table prefix below umin (never read)
      std::vector<u128> t(e->tab->v); size_t lo = std::max((size_t)e->a->umin, (size_t)e->tab->lo); for (size_t i = 0; i < lo && i < t.size(); i++) t[i] = t[lo];
      int bits = 0; while (((size_t)1 << bits) < t.size()) bits++; if (bits > (int)e->a->w) bits = e->a->w;
      Z3_ast idx = tr(e->a); size_t lim = t.size(); if (bits < 64 && lim > ((size_t)1 << bits)) lim = (size_t)1 << bits;
      r = trReadBits(t, idx, e->a->w, bits - 1, 0, lim, e->w); break; }
    default: boolish: r = Z3_mk_ite(C, trBool(e), num(1, 1), num(0, 1)); break;
  }
  memo[e] = r; return r;
}
static void reset() { Z3_solver_dec_ref(C, S); Z3_del_context(C); C = nullptr; memo.clear(); stack_.clear(); }
static u64 dumped = 0;
Res solve(const std::vector<E> &pc, E extra, Model *m) {
  if (C && memo.size() > 6000000) { reset(); }
  if (!C) init();
  auto t0 = std::chrono::steady_clock::now();
  // sync: variable ranges are asserted at the bottom together with the first constraint that could use them
  size_t k = 0; while (k < stack_.size() && k < pc.size() && stack_[k] == pc[k]) k++;
  if (k < stack_.size()) { Z3_solver_pop(C, S, stack_.size() - k); stack_.resize(k); }
  for (; k < pc.size(); k++) { Z3_solver_push(C, S); Z3_solver_assert(C, S, trBool(pc[k])); stack_.push_back(pc[k]); gSolver.asserted++; }
  Z3_solver_push(C, S);
  // ranges of all variables (cheap, few variables)
  for (size_t i = 0; i < gVars.size(); i++) { auto &v = gVars[i]; u64 mx = (u64)maskw(v.w); if (v.hi < mx) Z3_solver_assert(C, S, Z3_mk_bvule(C, tr(v.expr), num(v.hi, v.w))); if (v.lo > 0) Z3_solver_assert(C, S, Z3_mk_bvuge(C, tr(v.expr), num(v.lo, v.w))); }
  if (extra) Z3_solver_assert(C, S, trBool(extra));
  struct itimerval it = {{0, 0}, {0, 0}}; it.it_value.tv_sec = gQueryTimeoutMs / 1000; it.it_value.tv_usec = gQueryTimeoutMs % 1000 * 1000; setitimer(ITIMER_REAL, &it, nullptr);
  Z3_lbool r = Z3_solver_check(C, S);
  it.it_value.tv_sec = it.it_value.tv_usec = 0; setitimer(ITIMER_REAL, &it, nullptr);
  Res res = r == Z3_L_TRUE ? Res::SAT : r == Z3_L_FALSE ? Res::UNSAT : Res::UNKNOWN;
  if (res == Res::SAT && m) {
    Z3_model zm = Z3_solver_get_model(C, S); Z3_model_inc_ref(C, zm); m->v.assign(gVars.size(), 0);
    for (size_t i = 0; i < gVars.size(); i++) { Z3_ast o = nullptr; uint64_t x = 0; if (!Z3_model_eval(C, zm, tr(gVars[i].expr), true, &o) || !Z3_get_numeral_uint64(C, o, &x)) x = gVars[i].lo; m->v[i] = x; }
    Z3_model_dec_ref(C, zm);
  }
  if (!gDumpDir.empty() && dumped < gDumpMax && res != Res::UNKNOWN && ((gSolver.queries * 2654435761u) >> 7) % 17 == 0) {
    std::string fn = gDumpDir + "/q" + std::to_string(getpid_()) + "_" + std::to_string(dumped++) + ".smt2"; FILE *f = fopen(fn.c_str(), "w");
    if (f) { // the constraints themselves, not the solver's working state
      std::vector<Z3_ast> a; for (auto &c : pc) a.push_back(trBool(c));
      for (size_t i = 0; i < gVars.size(); i++) { auto &v = gVars[i]; a.push_back(Z3_mk_bvule(C, tr(v.expr), num(v.hi, v.w))); a.push_back(Z3_mk_bvuge(C, tr(v.expr), num(v.lo, v.w))); }
      fprintf(f, "; expect %s\n%s\n", res == Res::SAT ? "sat" : "unsat", Z3_benchmark_to_smtlib_string(C, "symex", "QF_BV", "unknown", "", (unsigned)a.size(), a.data(), extra ? trBool(extra) : Z3_mk_true(C))); fclose(f);
    }
  }
  Z3_solver_pop(C, S, 1);
  double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  gSolver.queries++; gSolver.time += dt; if (dt > gSolver.maxTime) gSolver.maxTime = dt;
  if (res == Res::SAT) gSolver.sat++; else if (res == Res::UNSAT) gSolver.unsat++; else gSolver.unknown++;
  return res;
}
