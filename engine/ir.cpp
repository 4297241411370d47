#include "ir.h"
#include <cmath>
#include <sys/mman.h>
#include <sys/stat.h>
#include <fcntl.h>
#include <unistd.h>
#include <cstdarg>
#include <algorithm>
using std::string; using std::string_view; using std::vector;

static const char* T; static size_t TN;
std::unordered_map<string, Func*> funcs; std::unordered_map<string, Global*> globals; std::vector<Func*> funcList;
static std::unordered_map<string, Type*> namedTypes; static std::unordered_map<string, size_t> namedTypeOff;
int (*builtinLookup)(const string&); int (*intrinLookup)(const string&);

// ---------- types ----------
static Type* tVoid = [] { auto t = new Type; t->k = Type::Void; return t; }();
static Type* tOther = [] { auto t = new Type; t->k = Type::Other; return t; }();
static std::map<unsigned, Type*> intTypes;
static Type* tInt(unsigned b) {
  auto& t = intTypes[b]; if (t) return t; t = new Type; t->k = Type::Int; t->bits = b;
  u64 by = (b + 7) / 8; u64 al = 1; while (al < by && al < 16) al *= 2; t->align = al; t->size = (by + al - 1) / al * al; t->leaves = {{0, (u16)b, 0, 0}}; return t;
}
static Type* tPtr = [] { auto t = new Type; t->k = Type::Ptr; t->bits = 64; t->size = 8; t->align = 8; t->leaves = {{0, 64, 1, 0}}; return t; }();
static Type* tFloat(unsigned b) { static std::map<unsigned, Type*> m; auto& t = m[b]; if (t) return t; t = new Type; t->k = Type::Float; t->bits = b; t->size = t->align = b / 8; t->leaves = {{0, (u16)b, 0, 1}}; return t; }
static void addLeaves(Type* t, Type* el, u64 off) { for (auto l : el->leaves) { l.off += off; t->leaves.push_back(l); } }
static Type* mkStruct(vector<Type*> el, bool packed) {
  auto t = new Type; t->k = Type::Struct; t->packed = packed; t->el = el; u64 off = 0, al = 1;
  for (auto e : el) { u64 a = packed ? 1 : e->align; off = (off + a - 1) / a * a; t->eloff.push_back(off); t->elleaf.push_back(t->leaves.size()); addLeaves(t, e, off); off += e->size; al = std::max(al, a); }
  t->align = al; t->size = (off + al - 1) / al * al; return t;
}
static Type* mkSeq(Type* e, u64 n, bool vec) {
  auto t = new Type; t->k = vec ? Type::Vector : Type::Array; t->elem = e; t->n = n;
  if (vec && e->k == Type::Int && (e->bits & 7)) { // bit-packed vectors: only usable in registers
    for (u64 i = 0; i < n; i++) t->leaves.push_back({(u32)i, (u16)e->bits, 0, 0}); t->size = (n * e->bits + 7) / 8; t->align = 1; t->bits = 1; return t;
  }
  t->size = e->size * n; t->align = vec ? std::min<u64>(16, std::max<u64>(1, t->size)) : e->align;
  if (n * e->leaves.size() <= 4096) for (u64 i = 0; i < n; i++) addLeaves(t, e, i * e->size);
  return t;
}

// ---------- lexer ----------
struct Lex {
  const char* p; const char* e;
  void ws() { while (p < e && (*p == ' ' || *p == '\n' || *p == '\t')) p++; if (p < e && *p == ';') { while (p < e && *p != '\n') p++; ws(); } }
  bool eof() { ws(); return p >= e; }
  char pk() { ws(); return p < e ? *p : 0; }
  bool acc(char c) { if (pk() == c) { p++; return true; } return false; }
  void exp(char c) { if (!acc(c)) fail(string("expected '") + c + "'"); }
  [[noreturn]] void fail(const string& m) { die_error("IR parse: %s near: %.120s", m.c_str(), string(p, std::min<size_t>(120, e - p)).c_str()); }
  static bool idc(char c) { return isalnum((unsigned char)c) || c == '_' || c == '.' || c == '$' || c == '-'; }
  string_view word() { ws(); const char* s = p; while (p < e && idc(*p)) p++; return {s, (size_t)(p - s)}; }
  string_view peekWord() { const char* s = p; auto w = word(); ws(); const char* q = s; (void)q; const char* save = p; (void)save; p = s; return w; }
  bool accw(const char* w) { const char* s = p; auto x = word(); if (x == w) return true; p = s; return false; }
  string name() { // after % or @
    if (p < e && *p == '"') { p++; string r; while (p < e && *p != '"') { if (*p == '\\' && p + 2 < e && isxdigit((unsigned char)p[1]) && isxdigit((unsigned char)p[2])) { r += (char)strtol(string(p + 1, 2).c_str(), 0, 16); p += 3; } else if (*p == '\\' && p + 1 < e && p[1] == '\\') { r += *p; p += 2; } else r += *p++; } p++; return r; }
    const char* s = p; while (p < e && idc(*p)) p++; return string(s, p - s);
  }
  void skipParens() { exp('('); int d = 1; while (p < e && d) { if (*p == '(') d++; else if (*p == ')') d--; else if (*p == '"') { p++; while (*p != '"') p++; } p++; } }
};

static Type* parseType(Lex& L) {
  char c = L.pk(); Type* t = nullptr;
  if (c == '[') { L.p++; u64 n = strtoull(string(L.word()).c_str(), 0, 10); if (!L.accw("x")) L.fail("x"); Type* e = parseType(L); L.exp(']'); 
    static std::map<std::pair<Type*, u64>, Type*> cache; auto& r = cache[{e, n}]; if (!r) r = mkSeq(e, n, false); return r; }
  if (c == '<') {
    L.p++; if (L.pk() == '{') { L.p++; vector<Type*> el; if (!L.acc('}')) { do el.push_back(parseType(L)); while (L.acc(',')); L.exp('}'); } L.exp('>'); 
      static std::map<vector<Type*>, Type*> cache; auto& r = cache[el]; if (!r) r = mkStruct(el, true); return r; }
    u64 n = strtoull(string(L.word()).c_str(), 0, 10); if (!L.accw("x")) L.fail("x"); Type* e = parseType(L); L.exp('>');
    static std::map<std::pair<Type*, u64>, Type*> cache; auto& r = cache[{e, n}]; if (!r) r = mkSeq(e, n, true); return r;
  }
  if (c == '{') { L.p++; vector<Type*> el; if (!L.acc('}')) { do el.push_back(parseType(L)); while (L.acc(',')); L.exp('}'); } 
    static std::map<vector<Type*>, Type*> cache; auto& r = cache[el]; if (!r) r = mkStruct(el, false); return r; }
  if (c == '%') { L.p++; string n = L.name(); auto it = namedTypes.find(n); if (it != namedTypes.end()) return it->second; auto jt = namedTypeOff.find(n); if (jt == namedTypeOff.end()) L.fail("unknown type %" + n); Lex M{T + jt->second, T + TN}; if (M.accw("opaque")) return namedTypes[n] = tOther; return namedTypes[n] = parseType(M); }
  auto w = L.word();
  if (w.size() > 1 && w[0] == 'i' && isdigit((unsigned char)w[1])) return tInt(atoi(string(w.substr(1)).c_str()));
  if (w == "ptr") { if (L.accw("addrspace")) L.skipParens(); return tPtr; }
  if (w == "void") return tVoid;
  if (w == "float") return tFloat(32); if (w == "double") return tFloat(64); if (w == "half") return tFloat(16); if (w == "fp128" || w == "x86_fp80") return tFloat(128);
  if (w == "label" || w == "metadata" || w == "token") return tOther;
  (void)t; L.fail("type '" + string(w) + "'");
}

// ---------- constants ----------
static bool isValueStart(string_view w) {
  static const std::vector<string_view> k = {"null", "true", "false", "undef", "poison", "zeroinitializer", "none", "splat", "getelementptr", "ptrtoint", "inttoptr", "bitcast", "add", "sub", "mul", "xor", "and", "or", "trunc", "zext", "c", "asm", "blockaddress", "dso_local_equivalent", "addrspacecast"};
  if (w.empty()) return true; if (isdigit((unsigned char)w[0]) || w[0] == '-') return true;
  for (auto x : k) if (x == w) return true; return false;
}
static void skipAttrs(Lex& L) {
  while (true) {
    char c = L.pk(); if (c == '"') { L.p++; while (*L.p != '"') L.p++; L.p++; if (L.acc('=')) { L.exp('"'); while (*L.p != '"') L.p++; L.p++; } continue; }
    if (!isalpha((unsigned char)c)) return;
    const char* s = L.p; auto w = L.word();
    if (w == "c" && L.p < L.e && *L.p == '"') { L.p = s; return; }
    if (w != "c" && isValueStart(w)) { L.p = s; return; }
    if (w == "align" && L.pk() != '(') { L.word(); continue; }
    if (L.pk() == '(') L.skipParens();
  }
}
static void constLeaves(Type* t, Lex& L, vector<Val>& out);
static u128 constScalar(Type* t, Lex& L) { vector<Val> v; constLeaves(t, L, v); if (v.size() != 1) L.fail("scalar const"); return v[0].c; }
static u64 gepConst(Lex& L) {
  // getelementptr already consumed
  while (true) { const char* s = L.p; auto w = L.word(); if (w == "inbounds" || w == "nuw" || w == "nusw") continue; if (w == "inrange") { L.skipParens(); continue; } L.p = s; break; }
  L.exp('('); Type* bt = parseType(L); L.exp(','); Type* pt = parseType(L); u64 base = (u64)constScalar(pt, L); bool first = true; Type* cur = bt;
  while (L.acc(',')) {
    L.accw("inrange"); Type* it = parseType(L); i64 ix = (i64)sextw(constScalar(it, L), it->bits);
    if (first) { base += ix * cur->size; first = false; }
    else if (cur->k == Type::Struct) { base += cur->eloff[ix]; cur = cur->el[ix]; }
    else { base += ix * cur->elem->size; cur = cur->elem; }
  }
  L.exp(')'); return base;
}
static void constLeaves(Type* t, Lex& L, vector<Val>& out) {
  char c = L.pk();
  auto push = [&](u128 v) { unsigned b = t->leaves.size() == 1 ? t->leaves[0].bits : 64; out.push_back({v & maskw(b), nullptr}); };
  if (c == '@') {
    L.p++; string n = L.name(); auto f = funcs.find(n); if (f != funcs.end()) return push(funcAddr(f->second));
    auto g = globals.find(n); if (g == globals.end()) L.fail("unknown global @" + n); return push(globalAddr(g->second));
  }
  if (c == '[') { L.p++; if (!L.acc(']')) { do { Type* e = parseType(L); constLeaves(e, L, out); } while (L.acc(',')); L.exp(']'); } return; }
  if (c == '{') { L.p++; if (!L.acc('}')) { do { Type* e = parseType(L); constLeaves(e, L, out); } while (L.acc(',')); L.exp('}'); } return; }
  if (c == '<') {
    L.p++; bool st = L.acc('{'); if (st && L.acc('}')) { L.exp('>'); return; }
    if (L.pk() != '>') { do { Type* e = parseType(L); constLeaves(e, L, out); } while (L.acc(',')); }
    if (st) L.exp('}'); L.exp('>'); return;
  }
  if (c == 'c' && L.p[1] == '"') {
    L.p++; string s = L.name(); for (unsigned char ch : s) out.push_back({ch, nullptr}); return;
  }
  if (t->k == Type::Float && (c == '+' || c == '-') && L.p + 1 < L.e && isalpha((unsigned char)L.p[1])) {
    bool neg = c == '-'; L.p++; string w2(L.word()); double d; if (L.p < L.e && *L.p == '(') L.skipParens();
    if (w2 == "inf") d = INFINITY; else if (w2 == "qnan" || w2 == "nan") d = NAN; else L.fail("float constant");
    if (t->bits == 32) { float f = (float)d; u32 r; memcpy(&r, &f, 4); r = (r & 0x7fffffffu) | (neg ? 0x80000000u : 0); return push(r); }
    u64 r; memcpy(&r, &d, 8); r = (r & ~(1ull << 63)) | (neg ? 1ull << 63 : 0); return push(r);
  }
  if (isdigit((unsigned char)c) || c == '-' || c == '+') {
    const char* s = L.p; if (c == '+') { L.p++; s = L.p; } auto w = L.word(); string ws(w);
    if (t->k == Type::Float) {
      if (ws.size() > 2 && ws[0] == '0' && ws[1] == 'x') { u64 v = strtoull(ws.c_str() + 2, 0, 16); if (t->bits == 32) { double d; memcpy(&d, &v, 8); float f = (float)d; u32 r; memcpy(&r, &f, 4); return push(r); } return push(v); }
      while (L.p < L.e && (isalnum((unsigned char)*L.p) || *L.p == '+' || *L.p == '-' || *L.p == '.')) L.p++;
      string num(s, L.p - s); double d = atof(num.c_str()); if (t->bits == 32) { float f = d; u32 r; memcpy(&r, &f, 4); return push(r); } u64 r; memcpy(&r, &d, 8); return push(r);
    }
    bool neg = ws[0] == '-'; u128 v = 0; for (size_t i = neg; i < ws.size(); i++) v = v * 10 + (ws[i] - '0'); if (neg) v = (u128)0 - v; return push(v);
  }
  auto w = L.word();
  if (w == "null" || w == "none" || w == "false") return push(0);
  if (w == "true") return push(1);
  if (w == "zeroinitializer" || w == "undef" || w == "poison") { if (t->leaves.empty() && t->size) die_error("large aggregate constant in register"); for (size_t i = 0; i < t->leaves.size(); i++) out.push_back({0, nullptr}); return; }
  if (w == "splat") { L.exp('('); Type* e = parseType(L); u128 v = constScalar(e, L); L.exp(')'); for (u64 i = 0; i < t->n; i++) out.push_back({v, nullptr}); return; }
  if (w == "getelementptr") return push(gepConst(L));
  if (w == "ptrtoint" || w == "inttoptr" || w == "bitcast" || w == "trunc" || w == "zext" || w == "addrspacecast") {
    if (w == "trunc") { while (L.accw("nuw") || L.accw("nsw")); }
    L.exp('('); Type* s = parseType(L); u128 v = constScalar(s, L); if (!L.accw("to")) L.fail("to"); Type* d = parseType(L); L.exp(')'); return push(v & maskw(d->bits));
  }
  if (w == "add" || w == "sub" || w == "mul" || w == "xor" || w == "and" || w == "or") {
    while (L.accw("nuw") || L.accw("nsw")); L.exp('('); Type* s = parseType(L); u128 a = constScalar(s, L); L.exp(','); Type* s2 = parseType(L); u128 b = constScalar(s2, L); L.exp(')');
    return push(w == "add" ? a + b : w == "sub" ? a - b : w == "mul" ? a * b : w == "xor" ? a ^ b : w == "and" ? (a & b) : (a | b));
  }
  L.fail("constant '" + string(w) + "'");
}
// write an initialiser straight to memory (handles big aggregates)
static void initMem(Type* t, Lex& L, u64 addr) {
  char c = L.pk();
  if (c == '[' || c == '{' || (c == '<' && L.p[1] == '{')) {
    char close = c == '[' ? ']' : '}'; L.p += c == '<' ? 2 : 1; u64 i = 0;
    if (!L.acc(close)) { do { Type* e = parseType(L); u64 off = t->k == Type::Struct ? t->eloff[i] : i * t->elem->size; initMem(e, L, addr + off); i++; } while (L.acc(',')); L.exp(close); }
    if (c == '<') L.exp('>'); return;
  }
  if (c == 'c' && L.p[1] == '"') { L.p++; string s = L.name(); for (size_t i = 0; i < s.size(); i++) memWriteConcrete(addr + i, (u8)s[i], 1); return; }
  { const char* s = L.p; auto w = L.word(); if (w == "zeroinitializer" || w == "undef" || w == "poison") return; L.p = s; }
  vector<Val> v; constLeaves(t, L, v);
  if (v.size() != t->leaves.size()) L.fail("init leaves");
  for (size_t i = 0; i < v.size(); i++) memWriteConcrete(addr + t->leaves[i].off, v[i].c, (t->leaves[i].bits + 7) / 8);
}

u64 funcAddr(Func* f) { if (!f->addr) f->addr = memAllocFunc(f); return f->addr; }

static bool skipGlobalHead(Lex& L, Global* g) { // positions after "global"/"constant"/"alias"
  while (true) {
    if (L.eof()) return false;
    if (!isalpha((unsigned char)L.pk())) L.fail("global head");
    auto w = L.word();
    if (w == "global") return true; if (w == "constant") { g->constant = true; return true; } if (w == "alias") { g->alias = true; return true; }
    if (w == "external" || w == "extern_weak" || w == "available_externally") { g->external = true; if (w == "available_externally") g->external = false; }
    if (L.pk() == '(') L.skipParens();
  }
}
u64 globalAddr(Global* g) {
  if (g->addr) return g->addr;
  Lex L{T + g->off, T + g->end}; skipGlobalHead(L, g);
  if (g->alias) { Type* t = parseType(L); (void)t; L.exp(','); Type* pt = parseType(L); return g->addr = (u64)constScalar(pt, L); }
  g->ty = parseType(L);
  g->addr = memAlloc(g->ty->size, true, false);
  if (!g->external && !L.eof() && L.pk() != ',') initMem(g->ty, L, g->addr);
  if (g->constant) memSetConst(g->addr, true);
  return g->addr;
}

// ---------- module index ----------
void loadModule(const char* path) {
  int fd = open(path, O_RDONLY); struct stat st; if (fd < 0 || fstat(fd, &st)) die_error("cannot open %s", path);
  TN = st.st_size; T = (const char*)mmap(0, TN + 4096, PROT_READ, MAP_PRIVATE, fd, 0); if (T == MAP_FAILED) die_error("mmap"); close(fd);
  size_t i = 0; size_t lastComment = 0;
  while (i < TN) {
    const char* nl = (const char*)memchr(T + i, '\n', TN - i); size_t e = nl ? nl - T : TN; string_view ln(T + i, e - i);
    if (!ln.empty()) {
      if (ln[0] == '@') {
        Lex L{T + i + 1, T + e}; string n = L.name(); L.exp('=');
        auto g = new Global; g->name = n; g->off = L.p - T; g->end = e; globals[n] = g;
      } else if (ln[0] == '%') { Lex L{T + i + 1, T + e}; string n = L.name(); L.exp('='); if (!L.accw("type")) L.fail("type"); namedTypeOff[n] = L.p - T; }
      else if (ln.substr(0, 7) == "define " || ln.substr(0, 8) == "declare ") {
        bool def = ln[1] == 'e' && ln[2] == 'f'; size_t at = ln.find('@'); // '@' may occur in attributes only after the name
        Lex L{T + i + at + 1, T + e}; string n = L.name();
        auto f = new Func; f->name = n; f->defined = def; f->off = i; f->commentOff = lastComment; f->index = funcList.size(); funcList.push_back(f); funcs[n] = f;
        if (def) { const char* q = T + e; while (true) { q = (const char*)memmem(q, T + TN - q, "\n}\n", 3); if (!q) die_error("unterminated function"); break; } f->end = q - T + 1; e = f->end + 1; }
        else f->end = e;
      }
    }
    i = e + 1;
  }
}

// ---------- function bodies ----------
struct FP {
  Func* f; std::unordered_map<string, std::pair<u32, Type*>> regs; std::unordered_map<string, u32> blocks; std::map<std::pair<u32, u32>, u32> edgeIx; 
  struct RawPhi { u32 block; u32 dst; Type* ty; vector<std::pair<string, string>> in; }; vector<RawPhi> phis;
  u32 slotsFor(Type* t) { u32 s = f->nslots; f->nslots += t->leaves.size(); return s; }
  u32 edge(u32 from, const string& lbl) { auto it = blocks.find(lbl); if (it == blocks.end()) die_error("label %s in %s", lbl.c_str(), f->name.c_str()); auto k = std::make_pair(from, it->second); auto jt = edgeIx.find(k); if (jt != edgeIx.end()) return jt->second; u32 ix = f->edges.size(); f->edges.push_back({it->second, {}, 0}); edgeIx[k] = ix; return ix; }
};
static std::unordered_map<string, Type*>* fwdTypes;
static int32_t parseOperand(FP& F, Type* t, Lex& L) {
  if (L.pk() == '%') { L.p++; string n = L.name(); auto it = F.regs.find(n); if (it == F.regs.end()) { // forward reference
      u32 s = F.slotsFor(t); F.regs[n] = {s, t}; return s; } return it->second.first; }
  if (t->k == Type::Other) { // metadata etc.
    L.fail("metadata operand");
  }
  int32_t base = F.f->cpool.size(); vector<Val> v; constLeaves(t, L, v); for (auto& x : v) F.f->cpool.push_back(x); if (v.empty()) F.f->cpool.push_back({0, nullptr}); return ~base;
}
static string parseLabel(Lex& L) { if (!L.accw("label")) L.fail("label"); L.exp('%'); return L.name(); }

static void parseCall(FP& F, Inst& I, Lex& L, u32 blk, bool invoke, const string& res) {
  auto x = new Extra; I.op = I_CALL; I.x = x;
  while (true) { const char* s = L.p; auto w = L.word(); if (w == "fastcc" || w == "ccc" || w == "coldcc" || w == "nnan" || w == "ninf" || w == "nsz" || w == "fast" || w == "reassoc" || w == "arcp" || w == "contract" || w == "afn") continue; if (w == "cc") { L.word(); continue; } L.p = s; break; }
  // return attributes
  while (true) { const char* s = L.p; if (!isalpha((unsigned char)L.pk())) break; auto w = L.word(); bool ty = w == "void" || w == "ptr" || w == "float" || w == "double" || w == "half" || (w.size() > 1 && w[0] == 'i' && isdigit((unsigned char)w[1])); if (ty) { L.p = s; break; } if (w == "align" && L.pk() != '(') { L.word(); continue; } if (L.pk() == '(') L.skipParens(); }
  Type* rt = parseType(L); x->ret = rt;
  if (L.pk() == '(') L.skipParens();
  bool isAsm = false; string asmText;
  if (L.pk() == '@') { L.p++; string n = L.name(); auto it = funcs.find(n); if (it == funcs.end()) die_error("callee %s", n.c_str()); x->callee = it->second; }
  else if (L.pk() == '%') { x->calleeOp = parseOperand(F, tPtr, L); }
  else if (L.accw("asm")) { isAsm = true; while (L.pk() != '"') L.word(); L.exp('"'); const char* a0 = L.p; while (*L.p != '"') L.p++; asmText = string(a0, L.p - a0); L.p++; L.exp(','); L.exp('"'); while (*L.p != '"') L.p++; L.p++; }
  else L.fail("callee");
  bool drop = false;
  if (x->callee && !x->callee->defined) {
    const string& n = x->callee->name;
    if (n.compare(0, 5, "llvm.") == 0) {
      if (n.compare(0, 14, "llvm.lifetime.") == 0 || n.compare(0, 10, "llvm.exper") == 0 || n.compare(0, 8, "llvm.dbg") == 0 || n == "llvm.assume" || n == "llvm.donothing") drop = true;
      else { x->intrin = intrinLookup(n); }
    }
  }
  L.exp('(');
  if (drop) { L.p--; L.skipParens(); I.op = I_NOP; }
  else if (!L.acc(')')) {
    do {
      Type* t = parseType(L); if (t->k == Type::Other) L.fail("arg"); skipAttrs(L);
      int32_t o = parseOperand(F, t, L); x->args.push_back({o, t});
    } while (L.acc(',')); L.exp(')');
  }
  if (isAsm && asmText == "div ${2:q}" && rt->leaves.size() == 2 && x->args.size() == 3) { isAsm = false; x->intrin = intrinLookup("asm.div"); }
  if (isAsm) { I.op = I_NOP; if (rt->k != Type::Void) die_error("inline asm with result in %s", F.f->name.c_str()); }
  if (rt->k != Type::Void && I.op == I_CALL) {
    auto it = F.regs.find(res); if (it == F.regs.end()) { I.dst = F.slotsFor(rt); F.regs[res] = {I.dst, rt}; } else I.dst = it->second.first;
  } else if (rt->k != Type::Void) { if (!F.regs.count(res)) { I.dst = F.slotsFor(rt); F.regs[res] = {I.dst, rt}; } }
  I.n = rt->leaves.size();
  (void)invoke; (void)blk;
}

void parseFunc(Func* f) {
  if (f->parsed) return; f->parsed = true;
  const char* b = T + f->off; const char* e = T + f->end;
  FP F; F.f = f; f->nslots = 0;
  int unnamed = 0;
  // header
  { Lex L{b, e}; L.word(); // define/declare
    while (true) { const char* s = L.p; if (!isalpha((unsigned char)L.pk())) break; auto w = L.word(); bool ty = w == "void" || w == "ptr" || w == "float" || w == "double" || w == "half" || (w.size() > 1 && w[0] == 'i' && isdigit((unsigned char)w[1])); if (ty) { L.p = s; break; } if (w == "align" && L.pk() != '(') { L.word(); continue; } if (L.pk() == '(') L.skipParens(); }
    f->ret = parseType(L); L.exp('@'); L.name(); L.exp('(');
    unnamed = 0; int& pi = unnamed; if (!L.acc(')')) { do { if (L.pk() == '.') { while (L.pk() == '.') L.p++; continue; } Type* t = parseType(L); skipAttrs(L); string n; if (L.pk() == '%') { L.p++; n = L.name(); if (isdigit((unsigned char)n[0]) && atoi(n.c_str()) == pi) pi++; } else n = std::to_string(pi++); f->ptypes.push_back(t); u32 s = F.slotsFor(t); F.regs[n] = {s, t}; } while (L.acc(',')); L.exp(')'); }
    f->nparamSlots = f->nslots;
    if (!f->defined) return;
    while (L.p < e && *L.p != '\n') L.p++;
    b = L.p + 1;
  }
  // logical lines
  vector<std::pair<string_view, u32>> lines; // text, block
  { const char* p = b; int nb = -1; 
    const char* curS = nullptr; const char* curE = nullptr;
    auto flush = [&] { if (curS) lines.push_back({string_view(curS, curE - curS), (u32)nb}); curS = nullptr; };
    while (p < e) {
      const char* nl = (const char*)memchr(p, '\n', e - p); if (!nl) nl = e; size_t len = nl - p;
      if (len == 0 || p[0] == ';' || p[0] == '}') { flush(); }
      else if (p[0] != ' ') { flush(); Lex L{p, nl}; string n = L.name(); nb++; F.blocks[n] = nb; f->blockNames.push_back(n); }
      else {
        if (nb < 0) { nb = 0; string n = std::to_string(unnamed); // unnamed entry block
          F.blocks[n] = 0; f->blockNames.push_back(n); }
        size_t k = 0; while (k < len && p[k] == ' ') k++;
        if (k < len && p[k] == ';') {}
        else if (k == 2 && p[2] != ']') { flush(); curS = p; curE = nl; } else curE = nl;
      }
      p = nl + 1;
    }
    flush();
  }
  f->blockStart.assign(f->blockNames.size(), ~0u);
  u32 curBlk = ~0u;
  auto def = [&](const string& n, Type* t) -> u32 { auto it = F.regs.find(n); if (it != F.regs.end()) return it->second.first; u32 s = F.slotsFor(t); F.regs[n] = {s, t}; return s; };
  for (auto& ln : lines) {
    if (ln.second != curBlk) { curBlk = ln.second; f->blockStart[curBlk] = f->code.size(); }
    Lex L{ln.first.data(), ln.first.data() + ln.first.size()};
    Inst I; memset(&I, 0, sizeof I); I.line = 0;
    string res; if (L.pk() == '%') { L.p++; res = L.name(); L.exp('='); }
    string op(L.word());
    if (op == "tail" || op == "musttail" || op == "notail") op = string(L.word());
    static const std::unordered_map<string, int> bins = {{"add", B_ADD}, {"sub", B_SUB}, {"mul", B_MUL}, {"udiv", B_UDIV}, {"urem", B_UREM}, {"sdiv", B_SDIV}, {"srem", B_SREM}, {"shl", B_SHL}, {"lshr", B_LSHR}, {"ashr", B_ASHR}, {"and", B_AND}, {"or", B_OR}, {"xor", B_XOR}};
    static const std::unordered_map<string, int> casts = {{"zext", K_ZEXT}, {"sext", K_SEXT}, {"trunc", K_TRUNC}, {"ptrtoint", K_PTRTOINT}, {"inttoptr", K_INTTOPTR}, {"fpext", K_FPEXT}, {"fptrunc", K_FPTRUNC}, {"uitofp", K_UITOFP}, {"sitofp", K_SITOFP}, {"fptoui", K_FPTOUI}, {"fptosi", K_FPTOSI}, {"ptrtoaddr", K_PTRTOINT}};
    static const std::unordered_map<string, int> preds = {{"eq", C_EQ}, {"ne", C_NE}, {"ult", C_ULT}, {"ule", C_ULE}, {"ugt", C_UGT}, {"uge", C_UGE}, {"slt", C_SLT}, {"sle", C_SLE}, {"sgt", C_SGT}, {"sge", C_SGE}};
    static const std::unordered_map<string, int> fpreds = {{"oeq", 1}, {"ogt", 2}, {"oge", 3}, {"olt", 4}, {"ole", 5}, {"one", 6}, {"ord", 7}, {"ueq", 9}, {"ugt", 10}, {"uge", 11}, {"ult", 12}, {"ule", 13}, {"une", 14}, {"uno", 8}};
    auto flags = [&] { while (true) { const char* s = L.p; auto w = L.word(); if (w == "nuw" || w == "nsw" || w == "exact" || w == "disjoint" || w == "nneg" || w == "samesign" || w == "inbounds" || w == "nusw" || w == "fast" || w == "nnan" || w == "ninf" || w == "nsz" || w == "arcp" || w == "contract" || w == "reassoc" || w == "afn" || w == "volatile" || w == "atomic" || w == "weak") { if (w == "atomic") I.pad = 1; continue; } L.p = s; return; } };
    auto it = bins.find(op);
    if (it != bins.end()) { flags(); Type* t = parseType(L); I.op = I_BIN; I.sub = it->second; I.n = t->leaves.size(); I.w = t->leaves[0].bits; I.a = parseOperand(F, t, L); L.exp(','); I.b = parseOperand(F, t, L); I.dst = def(res, t); }
    else if (casts.count(op)) { flags(); Type* t = parseType(L); I.op = I_CAST; I.sub = casts.at(op); I.n = t->leaves.size(); I.w = t->leaves[0].bits; I.a = parseOperand(F, t, L); if (!L.accw("to")) L.fail("to"); Type* d = parseType(L); I.w2 = d->leaves[0].bits; I.dst = def(res, d); }
    else if (op == "bitcast") { Type* t = parseType(L); I.op = I_BITCAST; I.a = parseOperand(F, t, L); if (!L.accw("to")) L.fail("to"); Type* d = parseType(L); I.n = t->leaves.size(); I.w = t->leaves[0].bits; I.t0 = d->leaves.size(); I.w2 = d->leaves[0].bits; I.dst = def(res, d); }
    else if (op == "icmp") { flags(); auto p = L.word(); I.op = I_ICMP; I.sub = preds.at(string(p)); Type* t = parseType(L); I.n = t->leaves.size(); I.w = t->leaves[0].bits; I.a = parseOperand(F, t, L); L.exp(','); I.b = parseOperand(F, t, L); I.dst = def(res, t->k == Type::Vector ? mkSeq(tInt(1), t->n, true) : tInt(1)); }
    else if (op == "fcmp") { flags(); auto p = L.word(); I.op = I_FCMP; string ps(p); I.sub = ps == "true" ? 15 : ps == "false" ? 0 : fpreds.at(ps); Type* t = parseType(L); I.n = t->leaves.size(); I.w = t->leaves[0].bits; I.a = parseOperand(F, t, L); L.exp(','); I.b = parseOperand(F, t, L); I.dst = def(res, t->k == Type::Vector ? mkSeq(tInt(1), t->n, true) : tInt(1)); }
    else if (op == "fadd" || op == "fsub" || op == "fmul" || op == "fdiv" || op == "frem") { flags(); Type* t = parseType(L); I.op = I_FBIN; I.sub = op[1]; if (op == "frem") I.sub = 'r'; I.n = t->leaves.size(); I.w = t->leaves[0].bits; I.a = parseOperand(F, t, L); L.exp(','); I.b = parseOperand(F, t, L); I.dst = def(res, t); }
    else if (op == "fneg") { flags(); Type* t = parseType(L); I.op = I_FNEG; I.n = t->leaves.size(); I.w = t->leaves[0].bits; I.a = parseOperand(F, t, L); I.dst = def(res, t); }
    else if (op == "select") { flags(); Type* ct = parseType(L); I.op = I_SELECT; I.a = parseOperand(F, ct, L); L.exp(','); Type* t = parseType(L); I.b = parseOperand(F, t, L); L.exp(','); Type* t2 = parseType(L); I.c = parseOperand(F, t2, L); I.n = t->leaves.size(); I.ty = t; I.t0 = ct->leaves.size(); I.dst = def(res, t); }
    else if (op == "freeze") { Type* t = parseType(L); I.op = I_MOVE; I.a = parseOperand(F, t, L); I.n = t->leaves.size(); I.dst = def(res, t); }
    else if (op == "load") { flags(); Type* t = parseType(L); L.exp(','); parseType(L); I.op = I_LOAD; I.a = parseOperand(F, tPtr, L); I.ty = t; I.n = t->leaves.size(); I.w = t->leaves.size() ? t->leaves[0].bits : 0; if (t->k == Type::Vector && t->bits == 1) { I.pad = 7; } I.dst = def(res, t); }
    else if (op == "store") { flags(); Type* t = parseType(L); I.op = I_STORE; I.b = parseOperand(F, t, L); L.exp(','); parseType(L); I.a = parseOperand(F, tPtr, L); I.ty = t; I.n = t->leaves.size(); I.w = t->leaves.size() ? t->leaves[0].bits : 0; if (t->k == Type::Vector && t->bits == 1) I.pad = 7; }
    else if (op == "getelementptr") {
      flags(); Type* bt = parseType(L); L.exp(','); Type* pt = parseType(L); if (pt->k != Type::Ptr) die_error("vector gep"); I.op = I_GEP; I.a = parseOperand(F, pt, L); Extra* x = nullptr; Type* cur = bt; bool first = true; u64 imm = 0;
      while (L.acc(',')) {
        if (L.pk() == '!') break;
        Type* ity = parseType(L); 
        if (L.pk() != '%') { i64 ix = (i64)sextw(constScalar(ity, L), ity->bits); if (first) imm += ix * cur->size; else if (cur->k == Type::Struct) { imm += cur->eloff[ix]; cur = cur->el[ix]; } else { imm += ix * cur->elem->size; cur = cur->elem; } }
        else { int32_t o = parseOperand(F, ity, L); u64 sc; if (first) sc = cur->size; else { sc = cur->elem->size; cur = cur->elem; } if (!x) x = new Extra; x->gep.push_back({o, sc, (u16)ity->bits}); }
        first = false;
      }
      I.imm = imm; I.x = x; I.dst = def(res, tPtr);
    }
    else if (op == "alloca") { Type* t = parseType(L); I.op = I_ALLOCA; I.imm = t->size; I.a = ~0; bool dyn = false; while (L.acc(',')) { if (L.pk() == '!') break; if (L.accw("align")) { L.word(); continue; } Type* ct = parseType(L); int32_t o = parseOperand(F, ct, L); if (o >= 0) die_error("dynamic alloca"); I.imm *= (u64)f->cpool[~o].c; } (void)dyn; I.dst = def(res, tPtr); }
    else if (op == "br") { if (L.peekWord() == "label") { I.op = I_BR; I.t0 = F.edge(curBlk, parseLabel(L)); } else { I.op = I_CONDBR; Type* t = parseType(L); I.a = parseOperand(F, t, L); L.exp(','); I.t0 = F.edge(curBlk, parseLabel(L)); L.exp(','); I.t1 = F.edge(curBlk, parseLabel(L)); } }
    else if (op == "switch") { Type* t = parseType(L); I.op = I_SWITCH; I.w = t->bits; I.a = parseOperand(F, t, L); L.exp(','); I.t0 = F.edge(curBlk, parseLabel(L)); L.exp('['); I.x = new Extra; while (!L.acc(']')) { Type* ct = parseType(L); I.x->cases.push_back(constScalar(ct, L)); L.exp(','); I.x->caseTarget.push_back(F.edge(curBlk, parseLabel(L))); } }
    else if (op == "ret") { Type* t = parseType(L); I.op = I_RET; I.n = t->leaves.size(); if (t->k != Type::Void) { I.a = parseOperand(F, t, L); } }
    else if (op == "unreachable") { I.op = I_UNREACHABLE; }
    else if (op == "call" || op == "invoke") {
      parseCall(F, I, L, curBlk, op == "invoke", res);
      if (op == "invoke") {
        // find "to label %X"
        const char* q = (const char*)memmem(L.p, L.e - L.p, "to label %", 10); if (!q) L.fail("invoke dest"); Lex M{q + 3, L.e}; string lb = parseLabel(M);
        if (I.op != I_NOP) f->code.push_back(I); Inst J; memset(&J, 0, sizeof J); J.op = I_BR; J.t0 = F.edge(curBlk, lb); I = J;
      }
    }
    else if (op == "phi") {
      flags(); Type* t = parseType(L); FP::RawPhi ph; ph.block = curBlk; ph.ty = t; ph.dst = def(res, t);
      do { if (L.pk() == '!') break; L.exp('['); const char* s = L.p; int d = 0; while (!(d == 0 && *L.p == ',')) { if (*L.p == '(' || *L.p == '{' || *L.p == '[' || *L.p == '<') d++; if (*L.p == ')' || *L.p == '}' || *L.p == ']' || *L.p == '>') d--; if (*L.p == '"') { L.p++; while (*L.p != '"') L.p++; } L.p++; } string v(s, L.p - s); L.exp(','); L.exp('%'); string lb = L.name(); L.exp(']'); ph.in.push_back({v, lb}); } while (L.acc(','));
      F.phis.push_back(ph); continue;
    }
    else if (op == "extractvalue") { Type* t = parseType(L); int32_t o = parseOperand(F, t, L); u32 lf = 0; Type* cur = t; while (L.acc(',')) { if (L.pk() == '!') break; u64 ix = strtoull(string(L.word()).c_str(), 0, 10); if (cur->k == Type::Struct) { lf += cur->elleaf[ix]; cur = cur->el[ix]; } else { lf += ix * cur->elem->leaves.size(); cur = cur->elem; } } I.op = I_MOVE; I.a = o >= 0 ? o + (int32_t)lf : ~(int32_t)(~o + lf); I.n = cur->leaves.size(); I.dst = def(res, cur); }
    else if (op == "insertvalue") { Type* t = parseType(L); int32_t o = parseOperand(F, t, L); L.exp(','); Type* vt = parseType(L); int32_t v = parseOperand(F, vt, L); u32 lf = 0; Type* cur = t; while (L.acc(',')) { if (L.pk() == '!') break; u64 ix = strtoull(string(L.word()).c_str(), 0, 10); if (cur->k == Type::Struct) { lf += cur->elleaf[ix]; cur = cur->el[ix]; } else { lf += ix * cur->elem->leaves.size(); cur = cur->elem; } } I.op = I_INSERT; I.a = o; I.b = v; I.n = t->leaves.size(); I.t0 = lf; I.t1 = vt->leaves.size(); I.dst = def(res, t); }
    else if (op == "extractelement") { Type* t = parseType(L); I.op = I_EXTRACTEL; I.a = parseOperand(F, t, L); L.exp(','); Type* it2 = parseType(L); I.b = parseOperand(F, it2, L); I.n = t->leaves.size(); I.dst = def(res, t->elem); }
    else if (op == "insertelement") { Type* t = parseType(L); I.op = I_INSERTEL; I.a = parseOperand(F, t, L); L.exp(','); Type* et = parseType(L); I.c = parseOperand(F, et, L); L.exp(','); Type* it2 = parseType(L); I.b = parseOperand(F, it2, L); I.n = t->leaves.size(); I.dst = def(res, t); }
    else if (op == "shufflevector") { Type* t = parseType(L); I.op = I_SHUFFLE; I.a = parseOperand(F, t, L); L.exp(','); Type* t2 = parseType(L); I.b = parseOperand(F, t2, L); L.exp(','); Type* mt = parseType(L); vector<Val> mv; constLeaves(mt, L, mv); I.x = new Extra; for (auto& v : mv) I.x->mask.push_back((int)v.c); I.n = t->leaves.size(); I.dst = def(res, mkSeq(t->elem, mt->n, true)); }
    else if (op == "atomicrmw") { flags(); string k(L.word()); static const std::unordered_map<string, int> ks = {{"add", B_ADD}, {"sub", B_SUB}, {"and", B_AND}, {"or", B_OR}, {"xor", B_XOR}, {"xchg", 100}}; auto kt = ks.find(k); if (kt == ks.end()) die_error("atomicrmw %s", k.c_str()); I.op = I_RMW; I.sub = kt->second; parseType(L); I.a = parseOperand(F, tPtr, L); L.exp(','); Type* t = parseType(L); I.b = parseOperand(F, t, L); I.w = t->bits; I.ty = t; I.dst = def(res, t); }
    else if (op == "cmpxchg") { flags(); parseType(L); I.op = I_CMPXCHG; I.a = parseOperand(F, tPtr, L); L.exp(','); Type* t = parseType(L); I.b = parseOperand(F, t, L); L.exp(','); Type* t2 = parseType(L); I.c = parseOperand(F, t2, L); I.w = t->bits; I.ty = t; I.dst = def(res, mkStruct({t, tInt(1)}, false)); }
    else if (op == "fence") { continue; }
    else if (op == "landingpad") { Type* t = parseType(L); I.op = I_LANDINGPAD; I.dst = def(res, t); }
    else if (op == "resume") { I.op = I_RESUME; }
    else if (op == "va_arg") { I.op = I_RESUME; I.dst = def(res, tInt(64)); }
    else L.fail("instruction '" + op + "'");
    if (I.op != I_NOP) f->code.push_back(I);
  }
  for (auto& ph : F.phis) for (auto& in : ph.in) {
    auto bi = F.blocks.find(in.second); if (bi == F.blocks.end()) die_error("phi label %s", in.second.c_str());
    auto ei = F.edgeIx.find({bi->second, ph.block}); if (ei == F.edgeIx.end()) continue; // edge dropped (unwind edges)
    Lex L{in.first.data(), in.first.data() + in.first.size()}; int32_t o = parseOperand(F, ph.ty, L);
    auto& E = f->edges[ei->second]; E.moves.push_back({ph.dst, o, (u32)ph.ty->leaves.size()}); E.total += ph.ty->leaves.size();
  }
  for (auto& s : f->blockStart) if (s == ~0u) s = f->code.size();
}
