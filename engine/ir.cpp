#include "ir.h"
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <sys/mman.h>
#include <sys/stat.h>
#include <fcntl.h>
#include <unistd.h>
#include <algorithm>

Module M;
bool gExecuting = false;
static std::string curWhere;
[[noreturn]] void die(const char *fmt, ...) {
  char buf[2000]; va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
  if (gExecuting) throw EngineLimit{buf}; // gives up this path only
  fprintf(stderr, "symex: fatal: %s [%s]\n", buf, curWhere.c_str()); fflush(stdout); _exit(70);
}
static Type *mk(Type::K k) { Type *t = new Type; t->k = k; return t; }
static Type *tVoid = mk(Type::VOID), *tLabel = mk(Type::LABEL), *tMeta = mk(Type::META);
static Type *tInt(unsigned w) { static std::unordered_map<unsigned, Type *> c; Type *&t = c[w]; if (!t) { t = mk(Type::INT); t->w = w; t->size = w <= 8 ? 1 : w <= 16 ? 2 : w <= 32 ? 4 : w <= 64 ? 8 : 16; t->align = t->size; if (w > 128) { t->size = (w + 7) / 8; t->align = 16; } } return t; }
static Type *tPtr() { static Type *t = nullptr; if (!t) { t = mk(Type::PTR); t->w = 64; t->size = t->align = 8; } return t; }
static Type *tFlt() { static Type *t = nullptr; if (!t) { t = mk(Type::FLT); t->w = 32; t->size = t->align = 4; } return t; }
static Type *tDbl() { static Type *t = nullptr; if (!t) { t = mk(Type::DBL); t->w = 64; t->size = t->align = 8; } return t; }
static void layout(Type *t) {
  if (t->k == Type::ARR) { t->size = t->n * t->el->size; t->align = t->el->align; }
  else if (t->k == Type::VEC) { u64 bits = t->n * (t->el->k == Type::INT ? t->el->w : t->el->size * 8); t->size = (bits + 7) / 8; t->align = t->size ? t->size : 1; }
  else if (t->k == Type::STRUCT) { u64 o = 0, al = 1; for (Type *x : t->f) { u64 a = t->packed ? 1 : x->align; if (a > al) al = a; o = (o + a - 1) / a * a; t->off.push_back(o); o += x->size; } t->align = al; t->size = (o + al - 1) / al * al; }
}
const std::vector<Type::Slot> &Type::slots() {
  if (flatDone) return flat; flatDone = true;
  switch (k) {
    case INT: case PTR: case FLT: case DBL: flat.push_back({0, w}); break;
    case ARR: case VEC: { auto &s = el->slots(); if (n > 100000) die("flatten huge array"); for (u64 i = 0; i < n; i++) for (auto &x : s) flat.push_back({i * el->size + x.off, x.w}); break; }
    case STRUCT: for (size_t i = 0; i < f.size(); i++) for (auto &x : f[i]->slots()) flat.push_back({off[i] + x.off, x.w}); break;
    default: break;
  }
  return flat;
}

// ---------- lexer ----------
struct Lex {
  const char *p, *e;
  void ws() { while (p < e && (*p == ' ' || *p == '\t' || *p == '\n')) p++; if (p < e && *p == ';') { while (p < e && *p != '\n') p++; ws(); } }
  bool eof() { ws(); return p >= e; }
  char peek() { ws(); return p < e ? *p : 0; }
  bool eat(char c) { ws(); if (p < e && *p == c) { p++; return true; } return false; }
  void expect(char c) { if (!eat(c)) die("expected '%c' at: %.80s", c, std::string(p, std::min<size_t>(80, e - p)).c_str()); }
  bool isIdent(char c) { return isalnum((unsigned char)c) || c == '_' || c == '.' || c == '$' || c == '-'; }
  std::string word() { ws(); const char *s = p; while (p < e && isIdent(*p)) p++; return std::string(s, p); }
  bool peekWord(const char *w) { ws(); size_t n = strlen(w); return (size_t)(e - p) >= n && memcmp(p, w, n) == 0 && (p + n == e || !isIdent(p[n])); }
  bool eatWord(const char *w) { if (peekWord(w)) { p += strlen(w); return true; } return false; }
  std::string quoted() { std::string r; p++; while (p < e && *p != '"') { if (*p == '\\' && p + 1 < e && p[1] == '\\') { r += '\\'; p += 2; } else if (*p == '\\' && p + 2 < e && isxdigit(p[1]) && isxdigit(p[2])) { char b[3] = {p[1], p[2], 0}; r += (char)strtol(b, 0, 16); p += 3; } else r += *p++; } p++; return r; }
  std::string name() { if (p < e && *p == '"') return quoted(); const char *s = p; while (p < e && isIdent(*p)) p++; return std::string(s, p); } // after sigil
  void skipBal() { // at '(' '[' '{' '<'
    int d = 0; do { if (*p == '"') { quoted(); continue; } char c = *p++; if (c == '(' || c == '[' || c == '{' || c == '<') d++; else if (c == ')' || c == ']' || c == '}' || c == '>') d--; } while (d && p < e); }
};

static Type *parseType(Lex &L);
static bool startsType(Lex &L) {
  char c = L.peek();
  if (c == '{' || c == '<' || c == '[' || c == '%') return true;
  if (c == 'i' && L.p + 1 < L.e && isdigit((unsigned char)L.p[1])) return true;
  for (const char *w : {"ptr", "void", "float", "double", "half", "label", "metadata", "token", "x86_fp80", "fp128"}) if (L.peekWord(w)) return true;
  return false;
}
static Type *parseType(Lex &L) {
  char c = L.peek(); Type *t = nullptr;
  if (c == '{' || (c == '<' && L.p[1] == '{')) {
    t = mk(Type::STRUCT); if (c == '<') { L.p++; t->packed = true; } L.expect('{');
    if (!L.eat('}')) { do t->f.push_back(parseType(L)); while (L.eat(',')); L.expect('}'); }
    if (t->packed) L.expect('>'); layout(t);
  } else if (c == '[' || c == '<') {
    L.p++; t = mk(c == '[' ? Type::ARR : Type::VEC); t->n = strtoull(L.word().c_str(), 0, 10); if (!L.eatWord("x")) die("type x"); t->el = parseType(L); L.expect(c == '[' ? ']' : '>'); layout(t);
  } else if (c == '%') {
    L.p++; std::string n = L.name(); auto it = M.named.find(n); if (it != M.named.end()) t = it->second; else {
      auto o = M.namedOff.find(n); if (o == M.namedOff.end()) die("unknown type %s", n.c_str());
      Lex K{M.text.data() + o->second, M.text.data() + M.text.size()}; if (K.eatWord("opaque")) t = mk(Type::OPAQUE); else t = parseType(K); M.named[n] = t; }
  } else {
    std::string w = L.word();
    if (w[0] == 'i' && isdigit((unsigned char)w[1])) t = tInt(atoi(w.c_str() + 1));
    else if (w == "ptr") { t = tPtr(); if (L.peekWord("addrspace")) { L.word(); L.skipBal(); } }
    else if (w == "void") t = tVoid; else if (w == "float") t = tFlt(); else if (w == "double") t = tDbl(); else if (w == "label") t = tLabel; else if (w == "metadata") t = tMeta;
    else die("type? '%s' at %.60s", w.c_str(), std::string(L.p, std::min<size_t>(60, L.e - L.p)).c_str());
  }
  return t;
}
static void skipAttrs(Lex &L) { // words before a type
  while (!startsType(L)) { char c = L.peek(); if (c == '#') { L.p++; L.word(); continue; } std::string w = L.word(); if (w.empty()) die("attr at %.60s", std::string(L.p, std::min<size_t>(60, L.e - L.p)).c_str()); if (L.peek() == '(') L.skipBal(); else if (w == "align" || w == "cc") L.word(); }
}
static u64 parseFP(const std::string &w, Type *t) {
  double d; if (w.size() > 2 && w[0] == '0' && w[1] == 'x') { u64 b = strtoull(w.c_str() + 2, 0, 16); memcpy(&d, &b, 8); } else d = strtod(w.c_str(), 0);
  if (t->k == Type::DBL) { u64 b; memcpy(&b, &d, 8); return b; } float f = (float)d; u32 b; memcpy(&b, &f, 4); return b;
}
static u128 parseInt(const std::string &w) { bool neg = w[0] == '-'; u128 v = 0; for (size_t i = neg; i < w.size(); i++) v = v * 10 + (w[i] - '0'); return neg ? -v : v; }
static SVal cst(u128 v, unsigned w) { v &= maskw(w); if (w <= 64) return sv((u64)v); return SVal{0, mkConst(v, w)}; }
static u128 cval(const SVal &s) { return s.e ? s.e->val : s.v; }

// parse a constant of type t, append flattened slots
static void parseConst(Lex &L, Type *t, std::vector<SVal> &out);
static u64 constGEP(Lex &L) {
  while (!startsType(L)) { L.word(); if (L.peek() == '(' && L.p[-1] == 'e') L.skipBal(); else if (L.peek() == '(') break; }
  if (L.peek() == '(') { // may be inrange(...) or the operand list
    const char *s = L.p; L.p++; if (startsType(L)) { } else { L.p = s; L.skipBal(); while (L.peek() != '(') L.word(); L.p++; }
  } else die("constgep");
  Type *t = parseType(L); L.expect(',');
  std::vector<SVal> v; Type *pt = parseType(L); parseConst(L, pt, v); u64 addr = v[0].v; bool first = true;
  while (L.eat(',')) { while (!startsType(L)) { L.word(); if (L.peek() == '(') L.skipBal(); } Type *it = parseType(L); std::vector<SVal> iv; parseConst(L, it, iv); i64 x = (i64)(u64)cval(iv[0]); if (it->w < 64) { x = (i64)((u64)x << (64 - it->w)) >> (64 - it->w); }
    if (first) { addr += x * t->size; first = false; } else if (t->k == Type::STRUCT) { addr += t->off[x]; t = t->f[x]; } else { t = t->el; addr += x * t->size; } }
  L.expect(')'); return addr;
}
static void zeros(Type *t, std::vector<SVal> &out) { for (auto &s : t->slots()) out.push_back(cst(0, s.w)); }
static void parseConst(Lex &L, Type *t, std::vector<SVal> &out) {
  char c = L.peek();
  if (c == '@') { L.p++; u64 a = M.addrOf(L.name()); out.push_back(sv(a)); return; }
  if (c == 'c' && L.p[1] == '"') { L.p++; std::string s = L.quoted(); for (unsigned char x : s) out.push_back(sv(x)); return; }
  if (c == '<' || c == '[' || c == '{') {
    bool pk = c == '<' && t->k == Type::STRUCT; L.p++; if (pk) L.expect('{');
    char close = pk ? '}' : c == '<' ? '>' : c == '[' ? ']' : '}';
    if (L.eat(close)) { if (pk) L.expect('>'); return; }
    do { Type *et = parseType(L); parseConst(L, et, out); } while (L.eat(','));
    L.expect(close); if (pk) L.expect('>'); return;
  }
  std::string w = L.word();
  if (w == "zeroinitializer" || w == "undef" || w == "poison" || w == "null" || w == "none") { zeros(t, out); return; }
  if (w == "true") { out.push_back(sv(1)); return; }
  if (w == "false") { out.push_back(sv(0)); return; }
  if (w == "splat") { L.expect('('); Type *et = parseType(L); std::vector<SVal> v; parseConst(L, et, v); L.expect(')'); for (u64 i = 0; i < t->n; i++) for (auto &x : v) out.push_back(x); return; }
  if (w == "getelementptr") { out.push_back(sv(constGEP(L))); return; }
  if (w == "dso_local_equivalent" || w == "no_cfi") { parseConst(L, t, out); return; }
  if (w == "inttoptr" || w == "ptrtoint" || w == "bitcast" || w == "trunc" || w == "zext" || w == "ptrtoaddr") { while (L.peek() != '(') L.word(); L.expect('('); Type *et = parseType(L); std::vector<SVal> v; parseConst(L, et, v); L.eatWord("to"); Type *rt = parseType(L); L.expect(')'); out.push_back(cst(cval(v[0]), rt->w)); return; }
  if (w == "sub" || w == "add" || w == "xor" || w == "mul" || w == "and" || w == "or") { while (L.peek() != '(') L.word(); L.expect('('); Type *et = parseType(L); std::vector<SVal> v; parseConst(L, et, v); L.expect(','); parseType(L); parseConst(L, et, v); L.expect(')'); u128 x = cval(v[0]), y = cval(v[1]); out.push_back(cst(w == "sub" ? x - y : w == "add" ? x + y : w == "xor" ? x ^ y : w == "mul" ? x * y : w == "and" ? x & y : x | y, t->w)); return; }
  if (t->k == Type::FLT || t->k == Type::DBL) { if (L.peek() == '+') { L.p++; w += "+" + L.word(); } out.push_back(sv(parseFP(w, t))); return; }
  if (!w.empty() && (isdigit((unsigned char)w[0]) || w[0] == '-')) { out.push_back(cst(parseInt(w), t->k == Type::PTR ? 64 : t->w)); return; }
  die("const? '%s' at %.80s", w.c_str(), std::string(L.p, std::min<size_t>(80, L.e - L.p)).c_str());
}

// ---------- module index ----------
void Module::load(const std::string &path) {
  int fd = open(path.c_str(), O_RDONLY); if (fd < 0) die("cannot open %s", path.c_str()); struct stat st; fstat(fd, &st); text.resize(st.st_size); size_t o = 0; while (o < text.size()) { ssize_t r = read(fd, &text[o], text.size() - o); if (r <= 0) die("read"); o += r; } close(fd);
  const char *b = text.data(), *e = b + text.size(), *p = b;
  while (p < e) {
    const char *nl = (const char *)memchr(p, '\n', e - p); if (!nl) nl = e;
    if (*p == '@') {
      Lex L{p + 1, nl}; std::string n = L.name(); L.eat('=');
      bool cons = false, ext = false, tls = false, alias = false, found = false;
      while (!found) { std::string w = L.word(); if (w == "global" || w == "constant") { cons = w == "constant"; found = true; } else if (w == "external" || w == "extern_weak") ext = true; else if (w == "thread_local") { tls = true; if (L.peek() == '(') L.skipBal(); } else if (w == "alias" || w == "ifunc") { alias = true; found = true; } else if (w == "addrspace" ) L.skipBal(); else if (w.empty()) die("global %s", n.c_str()); }
      if (alias) { skipAttrs(L); parseType(L); L.expect(','); parseType(L); if (L.eat('@')) aliases[n] = L.name(); }
      else { Global *g = new Global; g->id = globals.size(); g->name = n; g->constant = cons; g->ext = ext; g->tls = tls; g->off = L.p - b; globals.push_back(g); symByName[n] = syms.size(); syms.push_back({false, g->id}); }
    } else if (*p == '%') { Lex L{p + 1, nl}; std::string n = L.name(); L.eat('='); L.eatWord("type"); L.ws(); namedOff[n] = L.p - b; }
    else if (*p == 'd' && (nl - p > 8) && (!memcmp(p, "define ", 7) || !memcmp(p, "declare ", 8))) {
      bool def = p[2] == 'f'; const char *q = p; // find the @name followed by '('
      Lex L{p, nl}; L.word(); skipAttrs(L); parseType(L); L.ws(); if (*L.p != '@') die("function name: %.100s", std::string(p, std::min<size_t>(100, nl - p)).c_str());
      L.p++; std::string n = L.name(); (void)q;
      Func *f = new Func; f->id = funcs.size(); f->name = n; f->defined = def; f->off = p - b; funcs.push_back(f); symByName[n] = syms.size(); syms.push_back({true, f->id});
      if (def) { // skip body
        const char *x = nl; while (true) { x = (const char *)memchr(x, '\n', e - x); if (!x) die("no end"); x++; if (*x == '}') break; } nl = (const char *)memchr(x, '\n', e - x); if (!nl) nl = e;
      }
    }
    p = nl + 1;
  }
}
Func *Module::func(const std::string &n) { auto a = aliases.find(n); auto it = symByName.find(a == aliases.end() ? n : a->second); if (it == symByName.end()) return nullptr; Sym s = syms[it->second]; return s.isFunc ? funcs[s.idx] : nullptr; }
u64 Module::addrOf(const std::string &n) { auto a = aliases.find(n); auto it = symByName.find(a == aliases.end() ? n : a->second); if (it == symByName.end()) die("unknown symbol %s", n.c_str()); return symAddr(it->second); }
void Module::parseGlobal(Global *g, std::vector<u8> &bytes) {
  curWhere = "global " + g->name;
  Lex L{text.data() + g->off, text.data() + text.size()}; Type *t = parseType(L); g->ty = t; bytes.assign(t->size, 0); if (g->ext) return;
  std::vector<SVal> v; if (L.peekWord("zeroinitializer") || L.peekWord("undef")) return;
  parseConst(L, t, v); auto &s = t->slots(); if (s.size() != v.size()) die("initialiser size %zu vs %zu for %s", s.size(), v.size(), g->name.c_str());
  for (size_t i = 0; i < s.size(); i++) { u128 x = cval(v[i]); for (unsigned k = 0; k < (s[i].w + 7) / 8; k++) bytes[s[i].off + k] = (u8)(x >> (8 * k)); }
}

// ---------- function bodies ----------
struct FP {
  Func *f; Lex L; std::unordered_map<std::string, int> slot; std::unordered_map<std::string, Type *> vty; std::unordered_map<std::string, int> blk;
  struct Fix { size_t inst; int *dummy; };
  std::unordered_map<u64, int> c64;
  int addConst(const std::vector<SVal> &v) {
    if (v.size() == 1 && !v[0].e) { auto it = c64.find(v[0].v); if (it != c64.end()) return it->second; }
    int i = f->consts.size(); for (auto &x : v) f->consts.push_back(x); int r = ~i; if (v.size() == 1 && !v[0].e) c64[v[0].v] = r; return r; }
  int slotOf(const std::string &n, Type *t) { auto it = slot.find(n); if (it != slot.end()) return it->second; int s = f->nslots; f->nslots += t->slots().size(); slot[n] = s; vty[n] = t; return s; }
  int blkOf(const std::string &n) { auto it = blk.find(n); if (it == blk.end()) die("block %s in %s", n.c_str(), f->name.c_str()); return it->second; }
  int operand(Type *t) { // value of type t
    char c = L.peek(); if (c == '%') { L.p++; return slotOf(L.name(), t); }
    std::vector<SVal> v; parseConst(L, t, v); if (v.size() != t->slots().size()) die("const slots"); return addConst(v); }
  int typedOperand(Type **tt = nullptr) { skipAttrs(L); Type *t = parseType(L); if (tt) *tt = t; if (t->k == Type::META) { // skip metadata operand
      L.ws(); int d = 0; while (L.p < L.e) { char c = *L.p; if (c == '(') d++; if (c == ')') { if (!d) break; d--; } if (c == ',' && !d) break; L.p++; } return 0; }
    valueAttrs(); return operand(t); }
  void valueAttrs() { for (;;) { char c = L.peek(); if (!(isalpha((unsigned char)c))) return; static const char *kw[] = {"true", "false", "null", "undef", "poison", "zeroinitializer", "splat", "getelementptr", "inttoptr", "ptrtoint", "ptrtoaddr", "bitcast", "sub", "add", "xor", "mul", "and", "or", "trunc", "zext", "none", "asm", "no_cfi", "dso_local_equivalent", "blockaddress"}; for (const char *k : kw) if (L.peekWord(k)) return; if (c == 'c' && L.p[1] == '"') return; std::string w = L.word(); if (L.peek() == '(') L.skipBal(); else if (w == "align") L.word(); } }
  int label() { if (!L.eatWord("label")) die("label at %.40s", L.p); L.expect('%'); return blkOf(L.name()); }
};
static const std::unordered_map<std::string, IOp> binops = {{"add", I_ADD}, {"sub", I_SUB}, {"mul", I_MUL}, {"udiv", I_UDIV}, {"urem", I_UREM}, {"sdiv", I_SDIV}, {"srem", I_SREM}, {"and", I_AND}, {"or", I_OR}, {"xor", I_XOR}, {"shl", I_SHL}, {"lshr", I_LSHR}, {"ashr", I_ASHR}, {"fadd", I_FADD}, {"fsub", I_FSUB}, {"fmul", I_FMUL}, {"fdiv", I_FDIV}, {"frem", I_FREM}};
static const std::unordered_map<std::string, IOp> casts = {{"trunc", I_TRUNC}, {"zext", I_ZEXT}, {"sext", I_SEXT}, {"bitcast", I_BITCAST}, {"ptrtoint", I_COPY}, {"ptrtoaddr", I_COPY}, {"inttoptr", I_COPY}, {"uitofp", I_UITOFP}, {"sitofp", I_SITOFP}, {"fptoui", I_FPTOUI}, {"fptosi", I_FPTOSI}, {"fpext", I_FPCAST}, {"fptrunc", I_FPCAST}, {"addrspacecast", I_COPY}};
static const std::unordered_map<std::string, u8> preds = {{"eq", P_EQ}, {"ne", P_NE}, {"ugt", P_UGT}, {"uge", P_UGE}, {"ult", P_ULT}, {"ule", P_ULE}, {"sgt", P_SGT}, {"sge", P_SGE}, {"slt", P_SLT}, {"sle", P_SLE}, {"oeq", F_OEQ}, {"ogt", F_OGT}, {"oge", F_OGE}, {"olt", F_OLT}, {"ole", F_OLE}, {"one", F_ONE}, {"ord", F_ORD}, {"ueq", F_UEQ}, {"une", F_UNE}, {"uno", F_UNO}};
static const std::unordered_map<std::string, u8> fpreds = {{"ugt", F_UGT}, {"uge", F_UGE}, {"ult", F_ULT}, {"ule", F_ULE}};

void Module::parseFunc(Func *f) {
  if (f->parsed) return; f->parsed = true;
  const char *b = text.data() + f->off, *e = text.data() + text.size();
  const char *nl = (const char *)memchr(b, '\n', e - b);
  curWhere = "func " + f->name;
  FP P; P.f = f; P.L = Lex{b, nl}; Lex &L = P.L;
  L.word(); skipAttrs(L); f->ret = parseType(L); L.expect('@'); L.name(); L.expect('(');
  unsigned unnamed = 0;
  if (!L.eat(')')) { do { if (L.peek() == '.') { L.p += 3; break; } skipAttrs(L); Type *t = parseType(L); std::string n; // attrs then name
        for (;;) { char c = L.peek(); if (c == '%') { L.p++; n = L.name(); break; } if (c == ',' || c == ')') break; std::string w = L.word(); if (w.empty()) die("param attr"); if (L.peek() == '(') L.skipBal(); else if (w == "align") L.word(); }
        if (n.empty()) n = std::to_string(unnamed); if (n == std::to_string(unnamed)) unnamed++;
        f->params.push_back(t); f->paramSlot.push_back(P.slotOf(n, t)); } while (L.eat(',')); L.expect(')'); }
  if (!f->defined) return;
  // collect lines of the body
  const char *p = nl + 1; std::vector<std::pair<const char *, const char *>> lines; std::vector<std::string> labels; std::vector<size_t> blkLine;
  bool first = true;
  while (true) { const char *q = (const char *)memchr(p, '\n', e - p); if (!q) die("body"); if (*p == '}') break; 
    if (q > p) {
      if (*p != ' ') { // label
        Lex K{p, q}; std::string n; if (*p == ';') { p = q + 1; continue; } n = K.name(); P.blk[n] = blkLine.size(); blkLine.push_back(lines.size()); first = false; }
      else { if (first) { P.blk[std::to_string(unnamed)] = 0; blkLine.push_back(0); first = false; }
        // continuation lines: those of switch / landingpad / invoke
        const char *s = p; while (s < q && *s == ' ') s++;
        if (s - p > 2 && !lines.empty()) { lines.back().second = q; } else if (s < q && *s == ']' && !lines.empty()) lines.back().second = q;
        else if (s[0] == '#' && s[1] == 'd') { /* debug record */ } else lines.push_back({s, q}); }
    }
    p = q + 1; }
  f->blocks.resize(blkLine.size());
  for (size_t bi = 0; bi < blkLine.size(); bi++) {
    size_t lo = blkLine[bi], hi = bi + 1 < blkLine.size() ? blkLine[bi + 1] : lines.size();
    f->blocks[bi].first = f->code.size(); f->blocks[bi].nphi = 0;
    for (size_t li = lo; li < hi; li++) {
      L = Lex{lines[li].first, lines[li].second}; Inst I; std::string dn; I.op = I_NOP;
      if (L.peek() == '%') { L.p++; dn = L.name(); L.expect('='); }
      auto setDst = [&](Type *t) { I.n = t->slots().size(); I.ty = t; if (!dn.empty()) I.dst = P.slotOf(dn, t); };
      std::string op = L.word();
      for (;;) { if (op == "tail" || op == "musttail" || op == "notail") op = L.word(); else break; }
      auto bi2 = binops.find(op); auto ci = casts.find(op);
      if (bi2 != binops.end()) { I.op = bi2->second; skipAttrs(L); Type *t = parseType(L); I.a = P.operand(t); L.expect(','); I.b = P.operand(t); I.w = t->slots()[0].w; setDst(t); }
      else if (op == "fneg") { I.op = I_FNEG; skipAttrs(L); Type *t = parseType(L); I.a = P.operand(t); I.w = t->slots()[0].w; setDst(t); }
      else if (ci != casts.end()) { I.op = ci->second; skipAttrs(L); Type *t = parseType(L); I.a = P.operand(t); L.eatWord("to"); Type *r = parseType(L); I.ty2 = t; I.w = t->slots()[0].w; setDst(r);
        if (I.op == I_COPY) { unsigned rw = r->slots()[0].w; if (rw < I.w) I.op = I_TRUNC; else if (rw > I.w) I.op = I_ZEXT; } }
      else if (op == "icmp" || op == "fcmp") { I.op = op[0] == 'i' ? I_ICMP : I_FCMP; std::string pr; for (;;) { pr = L.word(); if (preds.count(pr) || (op[0] == 'f' && fpreds.count(pr))) break; if (pr == "samesign" || pr == "fast" || pr == "nnan" || pr == "ninf" || pr == "nsz" || pr == "arcp" || pr == "contract" || pr == "afn" || pr == "reassoc") continue; if (pr == "true") break; if (pr == "false") break; die("pred %s", pr.c_str()); } if (op[0] == 'f' && fpreds.count(pr)) I.pred = fpreds.at(pr); else if (pr == "true") I.pred = F_TRUE; else if (pr == "false") I.pred = F_FALSE; else I.pred = preds.at(pr); Type *t = parseType(L); I.a = P.operand(t); L.expect(','); I.b = P.operand(t); I.w = t->slots()[0].w; I.ty2 = t; Type *r = tInt(1); if (t->k == Type::VEC) { r = mk(Type::VEC); r->n = t->n; r->el = tInt(1); layout(r); } setDst(r); }
      else if (op == "select") { I.op = I_SELECT; skipAttrs(L); Type *ct; I.a = P.typedOperand(&ct); L.expect(','); Type *t; I.b = P.typedOperand(&t); L.expect(','); I.c = P.typedOperand(); I.ty2 = ct; setDst(t); }
      else if (op == "phi") { I.op = I_PHI; skipAttrs(L); Type *t = parseType(L); setDst(t); do { L.expect('['); int v = P.operand(t); L.expect(','); L.expect('%'); int bb = P.blkOf(L.name()); L.expect(']'); I.ex.push_back(bb); I.ex.push_back(v); } while (L.eat(',') && L.peek() == '['); f->blocks[bi].nphi++; }
      else if (op == "br") { if (L.peekWord("label")) { I.op = I_BR; I.t0 = P.label(); } else { I.op = I_CONDBR; Type *t = parseType(L); I.a = P.operand(t); L.expect(','); I.t0 = P.label(); L.expect(','); I.t1 = P.label(); } }
      else if (op == "switch") { I.op = I_SWITCH; Type *t = parseType(L); I.w = t->w; I.a = P.operand(t); L.expect(','); I.t0 = P.label(); L.expect('['); while (!L.eat(']')) { parseType(L); std::string w = L.word(); u128 v = w == "true" ? 1 : w == "false" ? 0 : parseInt(w); L.expect(','); int bb = P.label(); v &= maskw(t->w); I.ex.push_back((i64)(u64)v); I.ex.push_back((i64)(u64)(v >> 64)); I.ex.push_back(bb); } }
      else if (op == "ret") { I.op = I_RET; Type *t = parseType(L); I.ty = t; if (t->k != Type::VOID) { I.a = P.operand(t); I.n = t->slots().size(); } }
      else if (op == "unreachable") I.op = I_UNREACHABLE;
      else if (op == "resume") I.op = I_RESUME;
      else if (op == "landingpad") { I.op = I_LANDINGPAD; Type *t = parseType(L); setDst(t); }
      else if (op == "fence") I.op = I_NOP;
      else if (op == "freeze") { I.op = I_COPY; Type *t = parseType(L); I.a = P.operand(t); I.w = t->slots()[0].w; setDst(t); }
      else if (op == "alloca") { I.op = I_ALLOCA; L.eatWord("inalloca"); Type *t = parseType(L); I.ty2 = t; I.imm = t->size; I.a = P.addConst({sv(1)}); if (L.eat(',')) { if (!L.peekWord("align") && L.peek() != '!') { Type *nt = parseType(L); I.a = P.operand(nt); } } setDst(tPtr()); }
      else if (op == "load") { I.op = I_LOAD; L.eatWord("atomic"); L.eatWord("volatile"); Type *t = parseType(L); L.expect(','); I.a = P.typedOperand(); setDst(t); }
      else if (op == "store") { I.op = I_STORE; L.eatWord("atomic"); L.eatWord("volatile"); Type *t; I.a = P.typedOperand(&t); L.expect(','); I.b = P.typedOperand(); I.ty = t; I.n = t->slots().size(); }
      else if (op == "getelementptr") { I.op = I_GEP; skipAttrs(L); Type *t = parseType(L); L.expect(','); Type *pt; I.a = P.typedOperand(&pt); if (pt->k != Type::PTR) die("vector gep"); bool fst = true;
        while (L.eat(',')) { if (L.peek() == '!') break; Type *it = parseType(L); int o = P.operand(it); i64 sc; if (fst) { sc = t->size; fst = false; } else if (t->k == Type::STRUCT) { if (o >= 0) die("gep struct idx"); u64 x = f->consts[~o].v; I.imm += t->off[x]; t = t->f[x]; continue; } else { t = t->el; sc = t->size; }
          if (o < 0 && !f->consts[~o].e) { i64 x = (i64)f->consts[~o].v; if (it->w < 64) x = (i64)((u64)x << (64 - it->w)) >> (64 - it->w); I.imm += x * sc; } else { I.ex.push_back(o); I.ex.push_back(it->w); I.ex.push_back(sc); } }
        setDst(tPtr()); }
      else if (op == "extractvalue") { I.op = I_EXTRACTVALUE; Type *t; I.a = P.typedOperand(&t); u64 o = 0; while (L.eat(',')) { if (L.peek() == '!') break; u64 x = strtoull(L.word().c_str(), 0, 10); if (t->k == Type::STRUCT) { for (u64 k = 0; k < x; k++) o += t->f[k]->slots().size(); t = t->f[x]; } else { t = t->el; o += x * t->slots().size(); } } I.imm = o; setDst(t); }
      else if (op == "insertvalue") { I.op = I_INSERTVALUE; Type *t, *vt; I.a = P.typedOperand(&t); L.expect(','); I.b = P.typedOperand(&vt); Type *u = t; u64 o = 0; while (L.eat(',')) { if (L.peek() == '!') break; u64 x = strtoull(L.word().c_str(), 0, 10); if (u->k == Type::STRUCT) { for (u64 k = 0; k < x; k++) o += u->f[k]->slots().size(); u = u->f[x]; } else { u = u->el; o += x * u->slots().size(); } } I.imm = o; I.ty2 = vt; setDst(t); }
      else if (op == "extractelement") { I.op = I_EXTRACTELEMENT; Type *t, *it; I.a = P.typedOperand(&t); L.expect(','); I.b = P.typedOperand(&it); I.ty2 = t; I.w = it->w; setDst(t->el); }
      else if (op == "insertelement") { I.op = I_INSERTELEMENT; Type *t, *it; I.a = P.typedOperand(&t); L.expect(','); I.b = P.typedOperand(); L.expect(','); I.c = P.typedOperand(&it); I.ty2 = t; I.w = it->w; setDst(t); }
      else if (op == "shufflevector") { I.op = I_SHUFFLE; Type *t, *mt; I.a = P.typedOperand(&t); L.expect(','); I.b = P.typedOperand(); L.expect(','); skipAttrs(L); mt = parseType(L); std::vector<SVal> mv; parseConst(L, mt, mv); for (auto &x : mv) I.ex.push_back((i64)x.v); I.ty2 = t; Type *r = mk(Type::VEC); r->n = mt->n; r->el = t->el; layout(r); setDst(r); }
      else if (op == "atomicrmw") { I.op = I_ATOMICRMW; L.eatWord("volatile"); std::string k = L.word(); static const std::unordered_map<std::string, int> ks = {{"xchg", 0}, {"add", 1}, {"sub", 2}, {"and", 3}, {"or", 4}, {"xor", 5}, {"umax", 6}, {"umin", 7}}; if (!ks.count(k)) die("atomicrmw %s", k.c_str()); I.imm = ks.at(k); I.a = P.typedOperand(); L.expect(','); Type *t; I.b = P.typedOperand(&t); I.w = t->w; setDst(t); }
      else if (op == "cmpxchg") { I.op = I_CMPXCHG; L.eatWord("weak"); L.eatWord("volatile"); I.a = P.typedOperand(); L.expect(','); Type *t; I.b = P.typedOperand(&t); L.expect(','); I.c = P.typedOperand(); I.w = t->w; Type *r = mk(Type::STRUCT); r->f = {t, tInt(1)}; layout(r); setDst(r); }
      else if (op == "call" || op == "invoke") {
        I.op = I_CALL; skipAttrs(L); Type *rt = parseType(L); if (L.peek() == '(') L.skipBal();
        if (L.peek() == '@') { L.p++; std::string n = L.name(); if (n.compare(0, 8, "llvm.dbg") == 0 || n.compare(0, 13, "llvm.lifetime") == 0 || n.compare(0, 11, "llvm.assume") == 0 || n.compare(0, 29, "llvm.experimental.noalias.scope") == 0) { I.op = I_NOP; }
          else { I.callee = func(n); if (!I.callee) die("callee %s", n.c_str()); } I.a = 0; }
        else if (L.peek() == '%') { L.p++; I.a = P.slotOf(L.name(), tPtr()); }
        else if (L.eatWord("asm")) { I.flag = 1; std::string s; for (;;) { char c = L.peek(); if (c == '"') break; L.word(); } s = L.quoted(); L.expect(','); L.ws(); s += " || " + L.quoted(); I.text = new std::string(s); }
        else { Type *pt = tPtr(); I.a = P.operand(pt); if (I.a < 0 && !f->consts[~I.a].e) { u64 ad = f->consts[~I.a].v; u32 si = (ad >> 32) - 1; if (si < syms.size() && syms[si].isFunc) I.callee = funcs[syms[si].idx]; } }
        if (I.op == I_NOP) { goto push; }
        L.expect('('); if (!L.eat(')')) { do { if (L.peek() == '.') { L.p += 3; break; } Type *t; int o = P.typedOperand(&t); if (t->k == Type::META) continue; I.ex.push_back(o); I.ex.push_back(t->slots().size()); I.ex.push_back(t->slots().empty() ? 0 : t->slots()[0].w); } while (L.eat(',')); L.expect(')'); }
        if (op == "invoke") { while (!L.peekWord("to")) { if (L.eat('#')) { L.word(); continue; } if (L.peek() == '[') { L.skipBal(); continue; } std::string w = L.word(); if (w.empty()) die("invoke tail"); } L.eatWord("to"); I.t0 = P.label(); }
        if (rt->k != Type::VOID) setDst(rt); else { I.ty = rt; I.n = 0; }
        if (rt->k != Type::VOID && dn.empty()) { I.dst = f->nslots; f->nslots += I.n; }
      }
      else { I.op = I_UNKNOWN; I.text = new std::string(lines[li].first, lines[li].second); }
    push:
      if (I.op != I_NOP) f->code.push_back(std::move(I));
    }
    f->blocks[bi].end = f->code.size();
  }
}
