// symx: a symbolic executor for (fat-LTO) LLVM IR of Rust programs.
//   symx <module.ll> <harness-fn> <out.jsonl> [options]
// Forking follows Unix fork(): one process per path prefix, copy-on-write state.
#include "ir.h"
#include <z3++.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <fcntl.h>
#include <unistd.h>
#include <cstdarg>
#include <cmath>
#include <time.h>
#include <signal.h>
#include <atomic>
#include <algorithm>
#include <set>
#include <functional>
#include <array>
#include <cerrno>
using std::string; using std::vector;

// ---------------------------------------------------------------- shared statistics
struct Shared {
  std::atomic<int> tokens, stop; std::atomic<long> live;
  std::atomic<u64> forks, pathsOk, pathsPruned, pathsViol, pathsErr, pathsLimit, decisions, domDecisions, modelHits, z3Queries, z3Sat, z3Unsat, z3Unknown, solverNs, instrs, maxInstr, checks, checksSym, samples, xchecks, xmismatch, maxDepth, localHits, concretised, knownViol;
  std::atomic<u64> reach[64]; std::atomic<u64> observeMaxVars; std::atomic<u64> crashed; std::atomic<u64> violIds[64];
  std::atomic<u8> fnSeen[1 << 18];
};
static Shared* S;
static int outFd = -1;
static string harness; static std::set<string> knownIds;
static u64 optMaxInstr = 400000000ull, optDeadlineMs = 600000, optSample = 64, optMaxViol = 8; static int optProcs = 8; static bool optXcheck = false, optVerbose = false;
static u64 startMs;
static u64 nowMs() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec * 1000ull + t.tv_nsec / 1000000; }
static u64 nowNs() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec * 1000000000ull + t.tv_nsec; }
static bool ownsToken = true; static bool isRoot = true;

static string jsonEsc(const string& s) { string r; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r; }
static void emit(const string& s) { string l = s + "\n"; if (write(outFd, l.data(), l.size()) != (ssize_t)l.size()) _exit(99); }

static vector<Func*> callStack;
static u64 instrCount = 0; static u64 depthForks = 0;
static string stackStr(int max = 12) { string r; for (int i = (int)callStack.size() - 1, n = 0; i >= 0 && n < max; i--, n++) { if (n) r += " < "; r += callStack[i]->name; } return r; }

// ---------------------------------------------------------------- symbolic state
static int nvars = 0; static u8 model[MAXVARS]; static Dom dom[MAXVARS]; static vector<Expr*> multi; static VarSet inMulti; 
static vector<vector<Val>> observed; static u64 xcount = 0;
static u64 fnv(u64 h, u8 b) { return (h ^ b) * 1099511628211ull; }

static string modelHex() { string r; char b[4]; for (int i = 0; i < nvars; i++) { snprintf(b, 4, "%02x", model[i]); r += b; } return r; }
static void flushStats() { S->instrs += instrCount; u64 m = S->maxInstr; while (m < instrCount && !S->maxInstr.compare_exchange_weak(m, instrCount)); u64 d = S->maxDepth; while (d < depthForks && !S->maxDepth.compare_exchange_weak(d, depthForks)); }
[[noreturn]] static void endPath() {
  flushStats();
  if (ownsToken) S->tokens++;
  if (!isRoot) { S->live--; _exit(0); }
  // root: wait for everything
  S->live--;
  while (true) {
    int st; pid_t p = waitpid(-1, &st, WNOHANG);
    if (p < 0) break;
    if (p == 0) { usleep(2000); continue; }
  }
  if (S->live.load() != 0) S->crashed = S->live.load();
  string fns; int nf = 0; for (auto f : funcList) if (S->fnSeen[f->index & ((1 << 18) - 1)]) { nf++; }
  string reach; for (int i = 0; i < 64; i++) if (S->reach[i]) { if (!reach.empty()) reach += ","; reach += "\"" + std::to_string(i) + "\":" + std::to_string(S->reach[i].load()); }
  char b[2048];
  snprintf(b, sizeof b, "{\"kind\":\"summary\",\"harness\":\"%s\",\"ok\":%lu,\"pruned\":%lu,\"violations\":%lu,\"errors\":%lu,\"limits\":%lu,\"forks\":%lu,\"decisions\":%lu,\"dom_decisions\":%lu,\"model_hits\":%lu,\"local_hits\":%lu,\"z3_queries\":%lu,\"z3_sat\":%lu,\"z3_unsat\":%lu,\"z3_unknown\":%lu,\"solver_ns\":%lu,\"instrs\":%lu,\"max_path_instrs\":%lu,\"max_depth\":%lu,\"checks\":%lu,\"checks_symbolic\":%lu,\"xchecks\":%lu,\"xmismatch\":%lu,\"crashed\":%lu,\"functions\":%d,\"concretised\":%lu,\"wall_ms\":%lu,\"reach\":{%s}}",
    harness.c_str(), S->pathsOk.load(), S->pathsPruned.load(), S->pathsViol.load(), S->pathsErr.load(), S->pathsLimit.load(), S->forks.load(), S->decisions.load(), S->domDecisions.load(), S->modelHits.load(), S->localHits.load(), S->z3Queries.load(), S->z3Sat.load(), S->z3Unsat.load(), S->z3Unknown.load(), S->solverNs.load(), S->instrs.load(), S->maxInstr.load(), S->maxDepth.load(), S->checks.load(), S->checksSym.load(), S->xchecks.load(), S->xmismatch.load(), S->crashed.load(), nf, S->concretised.load(), nowMs() - startMs, reach.c_str());
  emit(b);
  string l = "{\"kind\":\"functions\",\"harness\":\"" + harness + "\",\"names\":["; bool first = true;
  for (auto f : funcList) if (S->fnSeen[f->index & ((1 << 18) - 1)]) { if (!first) l += ","; first = false; l += "\"" + jsonEsc(f->name) + "\""; }
  emit(l + "]}");
  _exit(0);
}
void die_error(const char* fmt, ...) {
  char b[1024]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  if (!S || outFd < 0) { fprintf(stderr, "symx error: %s\n", b); _exit(3); }
  u64 n = S->pathsErr++;
  if (n < 20) emit("{\"kind\":\"error\",\"harness\":\"" + harness + "\",\"msg\":\"" + jsonEsc(b) + "\",\"stack\":\"" + jsonEsc(stackStr()) + "\",\"model\":\"" + modelHex() + "\"}");
  if (n > 50) S->stop = 1;
  endPath();
}
static void limitPath(const char* why) {
  if (S->pathsLimit++ < 5) emit("{\"kind\":\"limit\",\"harness\":\"" + harness + "\",\"msg\":\"" + why + "\",\"stack\":\"" + jsonEsc(stackStr()) + "\",\"model\":\"" + modelHex() + "\"}");
  endPath();
}
static void violation(const string& id, const string& msg) {
  u64 n = S->pathsViol++;
  if (n < 400) emit("{\"kind\":\"violation\",\"harness\":\"" + harness + "\",\"id\":\"" + jsonEsc(id) + "\",\"msg\":\"" + jsonEsc(msg) + "\",\"stack\":\"" + jsonEsc(stackStr()) + "\",\"model\":\"" + modelHex() + "\"}");
  if (knownIds.count(id)) { S->knownViol++; return; }
  if (n + 1 - S->knownViol >= optMaxViol) S->stop = 2;
}
[[noreturn]] static void violationEnd(const string& id, const string& msg) { violation(id, msg); endPath(); }
static void checkLimits() {
  if (S->stop) { S->pathsLimit++; endPath(); }
  if (nowMs() - startMs > optDeadlineMs) { S->stop = 1; limitPath("deadline"); }
}

// ---------------------------------------------------------------- Z3
static z3::context* zc = nullptr; static std::unordered_map<Expr*, z3::expr*> zmemo; static z3::expr* zvar[MAXVARS];
static z3::expr zExpr(Expr* e);
static z3::expr zVar(int i) { if (!zvar[i]) zvar[i] = new z3::expr(zc->bv_const(("b" + std::to_string(i)).c_str(), 8)); return *zvar[i]; }
static z3::expr zDomain(int i, const u64* bits) { // formula: var in set
  z3::expr v = zVar(i); z3::expr r = zc->bool_val(false); int x = 0;
  while (x < 256) { if (!((bits[x >> 6] >> (x & 63)) & 1)) { x++; continue; } int y = x; while (y + 1 < 256 && ((bits[(y + 1) >> 6] >> ((y + 1) & 63)) & 1)) y++; z3::expr t = x == y ? (v == zc->bv_val(x, 8)) : (z3::uge(v, zc->bv_val(x, 8)) && z3::ule(v, zc->bv_val(y, 8))); r = r || t; x = y + 1; }
  return r;
}
static z3::expr zConst(unsigned w, u128 c) {
  if (w == 1) return zc->bool_val(c != 0);
  if (w <= 64) return zc->bv_val((uint64_t)c, w);
  return z3::concat(zc->bv_val((uint64_t)(c >> 64), w - 64), zc->bv_val((uint64_t)c, 64));
}
static z3::expr zbv(Expr* e) { z3::expr x = zExpr(e); return e->w == 1 ? z3::ite(x, zc->bv_val(1, 1), zc->bv_val(0, 1)) : x; }
static z3::expr zExpr0(Expr* e) {
  auto K = [&](int i) { return e->k[i]->w == 1 ? zbv(e->k[i]) : zExpr(e->k[i]); };
  switch (e->op) {
    case E_CONST: return zConst(e->w, e->c);
    case E_VAR: return zVar(e->sv);
    case E_TABLE: {
      if (e->w == 1) return zDomain(e->sv, e->bits);
      // group values
      std::map<u64, std::array<u64, 4>> g; for (int i = 0; i < 256; i++) { auto& a = g[e->tab[i]]; a[i >> 6] |= 1ull << (i & 63); }
      bool lin = true; for (int i = 0; i < 256; i++) if (e->tab[i] != (u64)i) lin = false;
      if (lin) return z3::zext(zVar(e->sv), e->w - 8);
      // runs of v+k
      z3::expr r = zConst(e->w, e->tab[255]); z3::expr v = e->w > 8 ? z3::zext(zVar(e->sv), e->w - 8) : e->w == 8 ? zVar(e->sv) : zVar(e->sv).extract(e->w - 1, 0);
      struct Run { int hi; bool lin; u64 k; }; vector<Run> runs; int x = 0; u64 m = (u64)maskw(e->w);
      while (x < 256) { int y = x; while (y + 1 < 256 && e->tab[y + 1] == e->tab[x]) y++; int z = x; u64 k = (e->tab[x] - x) & m; while (z + 1 < 256 && ((e->tab[z + 1] - (z + 1)) & m) == k) z++; if (z > y) { runs.push_back({z, true, k}); x = z + 1; } else { runs.push_back({y, false, e->tab[x]}); x = y + 1; } }
      for (int i = (int)runs.size() - 1; i >= 0; i--) { z3::expr val = runs[i].lin ? v + zConst(e->w, runs[i].k) : zConst(e->w, runs[i].k); if (i == (int)runs.size() - 1) r = val; else r = z3::ite(z3::ule(zVar(e->sv), zc->bv_val(runs[i].hi, 8)), val, r); }
      return r;
    }
    case E_ADD: return K(0) + K(1); case E_SUB: return K(0) - K(1); case E_MUL: return K(0) * K(1);
    case E_UDIV: return z3::udiv(K(0), K(1)); case E_UREM: return z3::urem(K(0), K(1)); case E_SDIV: return K(0) / K(1); case E_SREM: return z3::srem(K(0), K(1));
    case E_SHL: return z3::shl(K(0), K(1)); case E_LSHR: return z3::lshr(K(0), K(1)); case E_ASHR: return z3::ashr(K(0), K(1));
    case E_AND: return e->w == 1 ? (zExpr(e->k[0]) && zExpr(e->k[1])) : (K(0) & K(1));
    case E_OR: return e->w == 1 ? (zExpr(e->k[0]) || zExpr(e->k[1])) : (K(0) | K(1));
    case E_XOR: return e->w == 1 ? (zExpr(e->k[0]) != zExpr(e->k[1])) : (K(0) ^ K(1));
    case E_NOT: return e->w == 1 ? !zExpr(e->k[0]) : ~K(0);
    case E_EQ: return zExpr(e->k[0]) == zExpr(e->k[1]);
    case E_ULT: return z3::ult(K(0), K(1)); case E_SLT: return z3::slt(K(0), K(1));
    case E_EXTRACT: { z3::expr r = K(0).extract(e->aux + e->w - 1, e->aux); return e->w == 1 ? (r == zc->bv_val(1, 1)) : r; }
    case E_CONCAT: return z3::concat(K(0), K(1));
    case E_SEXT: return z3::sext(K(0), e->w - e->k[0]->w);
    case E_ITE: return z3::ite(zExpr(e->k[0]), zExpr(e->k[1]), zExpr(e->k[2]));
  }
  die_error("zexpr");
}
static z3::expr zExpr(Expr* e) { auto it = zmemo.find(e); if (it != zmemo.end()) return *it->second; z3::expr r = zExpr0(e); zmemo[e] = new z3::expr(r); return r; }
static z3::solver* mkSolver() { if (!zc) zc = new z3::context(); z3::solver* s = new z3::solver(*zc, "QF_BV"); z3::params p(*zc); p.set("rlimit", 40000000u); s->set(p); return s; }

// is PC && c satisfiable? fills newModel
static int z3Check(Expr* c, u8* newModel, bool whole = false) {
  VarSet comp = c->vs; vector<char> used(multi.size(), 0); bool ch = true;
  if (whole) for (int i = 0; i < nvars; i++) comp.add(i);
  while (ch) { ch = false; for (size_t i = 0; i < multi.size(); i++) if (!used[i] && multi[i]->vs.meets(comp)) { used[i] = 1; comp.merge(multi[i]->vs); ch = true; } }
  u64 t0 = nowNs(); z3::solver* s = mkSolver();
  for (int i = 0; i < nvars; i++) if (comp.has(i)) { if (~(dom[i].b[0] & dom[i].b[1] & dom[i].b[2] & dom[i].b[3])) s->add(zDomain(i, dom[i].b)); }
  for (size_t i = 0; i < multi.size(); i++) if (used[i]) s->add(zExpr(multi[i]));
  s->add(zExpr(c));
  auto r = s->check(); S->z3Queries++;
  int ret = r == z3::sat ? 1 : r == z3::unsat ? 0 : -1;
  if (ret == 1) { memcpy(newModel, model, MAXVARS); z3::model m = s->get_model(); for (int i = 0; i < nvars; i++) if (comp.has(i)) { z3::expr v = m.eval(zVar(i), false); u8 x; if (v.is_numeral()) x = (u8)v.get_numeral_uint(); else { x = model[i]; } 
        if (!dom[i].has(x)) { x = dom[i].first(); } newModel[i] = x; } S->z3Sat++; }
  else if (ret == 0) S->z3Unsat++; else S->z3Unknown++;
  delete s; S->solverNs += nowNs() - t0;
  if (ret < 0) die_error("solver returned unknown");
  if (ret == 1 && (!evalExpr(c, newModel))) die_error("solver model does not satisfy the query");
  return ret;
}
static bool evalMulti(const u8* m, const VarSet& touched) { for (auto e : multi) if (e->vs.meets(touched) && !evalExpr(e, m)) return false; return true; }

// ---- exact enumeration of small connected components (<= 4 variables, <= ENUM_LIMIT combinations)
static const u64 ENUM_LIMIT = 4096; static VarSet exactVars;  // variables whose domain is exactly their projection of the path condition
struct Component { vector<int> vars; vector<Expr*> cons; vector<size_t> idx; VarSet vs; u64 product; };
static Component component(const VarSet& seed) {
  Component r; r.vs = seed; vector<char> used(multi.size(), 0); bool ch = true;
  while (ch) { ch = false; for (size_t i = 0; i < multi.size(); i++) if (!used[i] && multi[i]->vs.meets(r.vs)) { used[i] = 1; r.vs.merge(multi[i]->vs); ch = true; r.cons.push_back(multi[i]); r.idx.push_back(i); } }
  r.product = 1; for (int i = 0; i < nvars; i++) if (r.vs.has(i)) { r.vars.push_back(i); u64 n = dom[i].count(); if (r.product <= ENUM_LIMIT) r.product *= n; }
  return r;
}
// calls f for every satisfying combination; stops when f returns false
template <class F> static void enumerate(const Component& c, const vector<Expr*>& cons, u8* m, F f) {
  vector<vector<u8>> vals; for (int v : c.vars) { vals.emplace_back(); for (int x = 0; x < 256; x++) if (dom[v].has(x)) vals.back().push_back(x); if (vals.back().empty()) return; }
  size_t n = c.vars.size(); vector<size_t> ix(n, 0);
  while (true) {
    for (size_t i = 0; i < n; i++) m[c.vars[i]] = vals[i][ix[i]];
    bool ok = true; for (auto e : cons) if (!evalExpr(e, m)) { ok = false; break; }
    if (ok && !f()) return;
    size_t i = 0; for (; i < n; i++) { if (++ix[i] < vals[i].size()) break; ix[i] = 0; }
    if (i == n) return;
  }
}
static void project(const VarSet& touched) {
  Component c = component(touched);
  if (c.cons.empty()) return;
  if (c.vars.size() > 4 || c.product > ENUM_LIMIT) { for (int i = 0; i < 4; i++) exactVars.b[i] &= ~c.vs.b[i]; return; }
  u8 m[MAXVARS]; memcpy(m, model, MAXVARS); vector<Dom> nd(c.vars.size()); for (auto& d : nd) memset(&d, 0, sizeof d); u64 cnt = 0;
  enumerate(c, c.cons, m, [&] { cnt++; for (size_t i = 0; i < c.vars.size(); i++) nd[i].add(m[c.vars[i]]); return true; });
  if (!cnt) die_error("projection of an unsatisfiable path condition");
  u64 np = 1; for (size_t i = 0; i < c.vars.size(); i++) { dom[c.vars[i]] = nd[i]; np *= nd[i].count(); }
  exactVars.merge(c.vs);
  if (np == cnt) { // every combination of the projected domains satisfies: the constraints are redundant
    for (size_t k = c.idx.size(); k-- > 0;) {} std::sort(c.idx.begin(), c.idx.end()); for (size_t k = c.idx.size(); k-- > 0;) multi.erase(multi.begin() + c.idx[k]);
    for (int i = 0; i < 4; i++) { inMulti.b[i] = 0; exactVars.b[i] &= ~c.vs.b[i]; } for (auto e : multi) inMulti.merge(e->vs);
  }
}
static int enumCheck(Expr* c, u8* nm) { // 1 sat, 0 unsat, -1 too big
  Component k = component(c->vs); if (k.vars.size() > 4) return -1; u64 p = 1;
  for (int v : k.vars) p = p > ENUM_LIMIT ? p : p * dom[v].count(); if (p > ENUM_LIMIT) return -1;
  vector<Expr*> cons = k.cons; cons.insert(cons.begin(), c); bool f = false; memcpy(nm, model, MAXVARS); u8 m[MAXVARS]; memcpy(m, model, MAXVARS);
  enumerate(k, cons, m, [&] { f = true; return false; });
  S->domDecisions++; if (f) memcpy(nm, m, MAXVARS); 
  if (optXcheck || !(++xcount & 255)) { u8 tmp[MAXVARS]; S->xchecks++; if (z3Check(c, tmp) != (int)f) { S->xmismatch++; die_error("cross-check mismatch (enumeration)"); } }
  return f;
}

// find a model for PC && c; returns 1/0
static int findModel(Expr* c, u8* nm) {
  if (c->op == E_CONST) { if (c->c) memcpy(nm, model, MAXVARS); return c->c != 0; }
  if (c->sv >= 0) {
    int v = c->sv; u64 t[4]; truthBits(c, t); Dom d; bool any = false; for (int i = 0; i < 4; i++) { d.b[i] = dom[v].b[i] & t[i]; any |= d.b[i] != 0; }
    S->domDecisions++;
    if (optXcheck || !(++xcount & 255)) { u8 tmp[MAXVARS]; S->xchecks++; bool multiDep = inMulti.has(v); if (!multiDep) { if (z3Check(c, tmp) != (int)any) { S->xmismatch++; die_error("cross-check mismatch"); } } else if (!any && z3Check(c, tmp) != 0) { S->xmismatch++; die_error("cross-check mismatch"); } }
    if (!any) return 0;
    memcpy(nm, model, MAXVARS);
    if (!inMulti.has(v)) { nm[v] = d.first(); return 1; }
    VarSet tv; memset(&tv, 0, sizeof tv); tv.add(v); int tries = 0;
    for (int w = 0; w < 4; w++) { u64 m = d.b[w]; while (m && tries < 24) { int x = w * 64 + __builtin_ctzll(m); m &= m - 1; tries++; nm[v] = x; if (evalMulti(nm, tv)) { S->localHits++; return 1; } } }
    { int r = enumCheck(c, nm); if (r >= 0) return r; }
    return z3Check(c, nm);
  }
  if (evalExpr(c, model)) { memcpy(nm, model, MAXVARS); S->modelHits++; return 1; }
  // local search: flip one variable
  memcpy(nm, model, MAXVARS); int budget = 600;
  for (int v = 0; v < nvars && budget > 0; v++) if (c->vs.has(v)) {
    VarSet tv; memset(&tv, 0, sizeof tv); tv.add(v); u8 old = nm[v];
    for (int w = 0; w < 4; w++) { u64 m = dom[v].b[w]; while (m && budget > 0) { int x = w * 64 + __builtin_ctzll(m); m &= m - 1; nm[v] = x; budget--; if (evalExpr(c, nm) && evalMulti(nm, tv)) { S->localHits++; return 1; } } }
    nm[v] = old;
  }
  { int r = enumCheck(c, nm); if (r >= 0) return r; }
  return z3Check(c, nm);
}
static void addConstraint(Expr* c) {
  if (c->op == E_CONST) { if (!c->c) die_error("adding false"); return; }
  if (c->op == E_AND && c->w == 1) { addConstraint(c->k[0]); addConstraint(c->k[1]); return; }
  if (c->op == E_NOT && c->k[0]->op == E_OR) { addConstraint(mkNot(c->k[0]->k[0])); addConstraint(mkNot(c->k[0]->k[1])); return; }
  if (c->sv >= 0) { u64 t[4]; truthBits(c, t); for (int i = 0; i < 4; i++) dom[c->sv].b[i] &= t[i]; if (inMulti.has(c->sv)) project(c->vs); return; }
  for (auto m : multi) if (m == c) return;
  multi.push_back(c); inMulti.merge(c->vs); project(c->vs);
}
// forks; returns true in the child
static bool doFork() {
  checkLimits();
  S->forks++; depthForks++;
  int st; while (waitpid(-1, &st, WNOHANG) > 0);
  bool par = false; int t = S->tokens.load(); while (t > 0) if (S->tokens.compare_exchange_weak(t, t - 1)) { par = true; break; }
  S->live++;
  pid_t p; int tries = 0;
  while ((p = fork()) < 0) { if (++tries > 200) { S->live--; die_error("fork failed"); } usleep(10000); }
  if (p == 0) { isRoot = false; ownsToken = par; S->instrs += 0; instrCount += 0; prctl(PR_SET_PDEATHSIG, 0); return true; }
  if (!par) { while (waitpid(p, &st, 0) < 0) if (errno != EINTR) break; checkLimits(); }
  return false;
}
static u64 instrBase = 0; // instructions already accounted by the parent

// decide a 1-bit condition; adds it to the path condition
static bool decide(Expr* c) {
  if (c->op == E_CONST) return c->c != 0;
  S->decisions++;
  bool cur; u8 nm[MAXVARS]; Expr* other;
  cur = evalExpr(c, model) != 0; other = cur ? mkNot(c) : c;
  int f = findModel(other, nm);
  if (!f) { return cur; }  // implied
  if (doFork()) { // child takes the other side
    memcpy(model, nm, MAXVARS); addConstraint(other); instrBase = instrCount; S->instrs -= instrCount; return !cur;
  }
  addConstraint(cur ? c : mkNot(c));
  return cur;
}
static void assumeCond(Expr* c) {
  if (c->op == E_CONST) { if (!c->c) { S->pathsPruned++; endPath(); } return; }
  u8 nm[MAXVARS]; if (!findModel(c, nm)) { S->pathsPruned++; endPath(); }
  memcpy(model, nm, MAXVARS); addConstraint(c);
}
static u128 concretise(Expr* e) {
  if (e->op == E_CONST) return e->c;
  S->concretised++;
  for (int it = 0; it < 5000; it++) { u128 v = evalExpr(e, model); if (decide(mkEq(e, mkConst(e->w, v)))) return v; }
  die_error("concretise loop");
}
static inline u128 cval(Val& v, unsigned w) { if (!v.e) return v.c; v.c = concretise(v.e); v.e = nullptr; (void)w; return v.c; }
static inline Expr* X(const Val& v, unsigned w) { return v.e ? v.e : mkConst(w, v.c); }
static inline Val V(Expr* e) { if (e->op == E_CONST) return {e->c, nullptr}; return {0, e}; }

// ---------------------------------------------------------------- memory
struct Obj { u8* data; Expr** sh; u32 size; u8 flags; }; // flags: 1 = alive, 2 = const, 4 = func
static vector<Obj> objs(1); static vector<u32> freeIds; static vector<Func*> objFunc;
static vector<u8*> pools[16];
static u8* barena = nullptr; static size_t bleft = 0;
static int sizeClass(u32 n) { int c = 0; while ((16u << c) < n) c++; return c; }
static u8* bufAlloc(u32 n) {
  if (n > (16u << 12)) { u8* p = (u8*)malloc(n); if (!p) abort(); return p; }
  int c = sizeClass(n); if (!pools[c].empty()) { u8* p = pools[c].back(); pools[c].pop_back(); return p; }
  size_t sz = 16u << c; if (bleft < sz) { bleft = 1 << 18; barena = (u8*)malloc(bleft); if (!barena) abort(); }
  u8* p = barena; barena += sz; bleft -= sz; return p;
}
static void bufFree(u8* p, u32 n) { if (n > (16u << 12)) free(p); else pools[sizeClass(n)].push_back(p); }
u64 memAlloc(u64 size, bool zero, bool isConst) {
  if (size > (1u << 28)) die_error("allocation of %lu bytes", size);
  u32 id; if (!freeIds.empty()) { id = freeIds.back(); freeIds.pop_back(); } else { id = objs.size(); objs.push_back({}); }
  Obj& o = objs[id]; o.size = size; o.sh = nullptr; o.flags = 1 | (isConst ? 2 : 0); o.data = size ? bufAlloc(size) : nullptr; if (size) memset(o.data, 0, size); (void)zero;
  return (u64)id << 32;
}
static void memFree(u32 id) { Obj& o = objs[id]; if (o.sh) { free(o.sh); o.sh = nullptr; } if (o.data) bufFree(o.data, o.size); o.data = nullptr; o.flags = 0; freeIds.push_back(id); }
void memSetConst(u64 a, bool c) { if (c) objs[a >> 32].flags |= 2; }
u64 memAllocFunc(Func* f) { u64 a = memAlloc(0, false, true); objs[a >> 32].flags |= 4; if (objFunc.size() <= (a >> 32)) objFunc.resize((a >> 32) + 64); objFunc[a >> 32] = f; return a; }
static Obj& objAt(u64 a, u64 n, bool write) {
  u32 id = a >> 32; u64 off = (u32)a;
  if (id == 0 || id >= objs.size() || !(objs[id].flags & 1) || (objs[id].flags & 4)) violationEnd("memory", "invalid pointer dereference");
  Obj& o = objs[id]; if (off + n > o.size) violationEnd("memory", "out-of-bounds access"); if (write && (o.flags & 2)) violationEnd("memory", "write to constant");
  return o;
}
void memWriteConcrete(u64 a, u128 v, unsigned n) { Obj& o = objAt(a, n, false); u8* p = o.data + (u32)a; for (unsigned i = 0; i < n; i++) p[i] = (u8)(v >> (8 * i)); }
static Val loadConc(u64 a, unsigned bits) {
  unsigned n = (bits + 7) / 8; Obj& o = objAt(a, n, false); u32 off = (u32)a;
  if (o.sh) { bool any = false; for (unsigned i = 0; i < n; i++) if (o.sh[off + i]) { any = true; break; }
    if (any) { Expr* e = o.sh[off] ? o.sh[off] : mkConst(8, o.data[off]); for (unsigned i = 1; i < n; i++) e = mkConcat(o.sh[off + i] ? o.sh[off + i] : mkConst(8, o.data[off + i]), e); if (e->w != bits) e = mkExtract(e, 0, bits); return V(e); } }
  u128 v = 0; switch (n) { case 1: v = o.data[off]; break; case 2: { u16 x; memcpy(&x, o.data + off, 2); v = x; break; } case 4: { u32 x; memcpy(&x, o.data + off, 4); v = x; break; } case 8: { u64 x; memcpy(&x, o.data + off, 8); v = x; break; } default: memcpy(&v, o.data + off, n); }
  if (bits & 7) v &= maskw(bits);
  return {v, nullptr};
}
static void storeConc(u64 a, unsigned bits, const Val& v) {
  unsigned n = (bits + 7) / 8; Obj& o = objAt(a, n, true); u32 off = (u32)a;
  if (v.e) {
    if (!o.sh) { o.sh = (Expr**)calloc(o.size, sizeof(Expr*)); if (!o.sh) abort(); }
    Expr* e = v.e; if (bits != n * 8) e = mkZext(e, n * 8);
    for (unsigned i = 0; i < n; i++) { Expr* b = mkExtract(e, 8 * i, 8); if (isK(b)) { o.data[off + i] = (u8)b->c; o.sh[off + i] = nullptr; } else o.sh[off + i] = b; }
    return;
  }
  if (o.sh) memset(o.sh + off, 0, n * sizeof(Expr*));
  switch (n) { case 1: o.data[off] = (u8)v.c; break; case 2: { u16 x = (u16)v.c; memcpy(o.data + off, &x, 2); break; } case 4: { u32 x = (u32)v.c; memcpy(o.data + off, &x, 4); break; } case 8: { u64 x = (u64)v.c; memcpy(o.data + off, &x, 8); break; } default: memcpy(o.data + off, &v.c, n); }
}
static Val loadAny(Val& p, unsigned bits) {
  if (!p.e) return loadConc((u64)p.c, bits);
  Expr* e = p.e;
  if (e->sv >= 0 && bits <= 64) { // table lookup through one variable
    const Dom& d = dom[e->sv]; u64 vals[256]; memset(vals, 0, sizeof vals); bool ok = true; u32 id = 0; unsigned n = (bits + 7) / 8; bool first = true; u64 def = 0;
    for (int x = 0; x < 256 && ok; x++) if (d.has(x)) {
      u64 a = tabVal(e, x); if (first) id = a >> 32; if ((a >> 32) != id || id == 0 || id >= objs.size()) { ok = false; break; }
      Obj& o = objs[id]; u32 off = (u32)a; if (!(o.flags & 1) || (u64)off + n > o.size) { ok = false; break; }
      if (o.sh) for (unsigned i = 0; i < n; i++) if (o.sh[off + i]) ok = false;
      if (!ok) break; u64 v = 0; memcpy(&v, o.data + off, n); if (bits & 7) v &= (u64)maskw(bits); vals[x] = v; if (first) { def = v; first = false; }
    }
    if (ok) { for (int x = 0; x < 256; x++) if (!d.has(x)) vals[x] = def; return V(mkTable(e->sv, bits, vals)); }
  }
  u64 a = (u64)cval(p, 64); return loadConc(a, bits);
}
static void copyMem(u64 d, u64 s, u64 n) {
  if (!n) return; objAt(s, n, false); Obj& od = objAt(d, n, true); Obj& os = objs[s >> 32]; u32 do_ = (u32)d, so = (u32)s;
  memmove(od.data + do_, os.data + so, n);
  if (os.sh) { bool any = false; for (u64 i = 0; i < n; i++) if (os.sh[so + i]) { any = true; break; } if (any && !od.sh) { od.sh = (Expr**)calloc(od.size, sizeof(Expr*)); if (!od.sh) abort(); } if (od.sh) memmove(od.sh + do_, os.sh + so, n * sizeof(Expr*)); }
  else if (od.sh) memset(od.sh + do_, 0, n * sizeof(Expr*));
}

// ---------------------------------------------------------------- builtins
enum { BI_NONE, BI_MALLOC, BI_CALLOC, BI_REALLOC, BI_FREE, BI_MEMALIGN, BI_RALLOC, BI_RALLOCZ, BI_RREALLOC, BI_RDEALLOC, BI_NOP0, BI_MEMCMP, BI_BCMP, BI_STRLEN, BI_PANIC, BI_ABORT,
  BI_SBYTE, BI_SASSUME, BI_SCHECK, BI_SFAIL, BI_SREACH, BI_SOBSERVE, BI_SNOTE, BI_SCONC, BI_HASHKEYS, BI_MEMCHR, BI_ERRNO, BI_UTF8, BI_SISSYM, BI_UNSUPPORTED };
static bool has(const string& n, const char* s) { return n.find(s) != string::npos; }
static bool ends(const string& n, const char* s) { size_t l = strlen(s); return n.size() >= l && n.compare(n.size() - l, l, s) == 0; }
static int lookupBuiltin(const string& n) {
  static const std::unordered_map<string, int> m = {{"malloc", BI_MALLOC}, {"calloc", BI_CALLOC}, {"realloc", BI_REALLOC}, {"free", BI_FREE}, {"posix_memalign", BI_MEMALIGN}, {"memcmp", BI_MEMCMP}, {"bcmp", BI_BCMP}, {"strlen", BI_STRLEN}, {"abort", BI_ABORT},
    {"__cxa_thread_atexit_impl", BI_NOP0}, {"getenv", BI_NOP0}, {"__errno_location", BI_ERRNO},
    {"symx_byte", BI_SBYTE}, {"symx_assume", BI_SASSUME}, {"symx_check", BI_SCHECK}, {"symx_fail", BI_SFAIL}, {"symx_reach", BI_SREACH}, {"symx_observe", BI_SOBSERVE}, {"symx_note", BI_SNOTE}, {"symx_concretize", BI_SCONC}, {"symx_is_symbolic", BI_SISSYM}};
  auto it = m.find(n); if (it != m.end()) return it->second;
  if (has(n, "___rustc")) {
    if (ends(n, "___rust_alloc")) return BI_RALLOC; if (ends(n, "___rust_alloc_zeroed")) return BI_RALLOCZ; if (ends(n, "___rust_realloc")) return BI_RREALLOC; if (ends(n, "___rust_dealloc")) return BI_RDEALLOC; if (has(n, "___rust_no_alloc_shim")) return BI_NOP0;
    if (has(n, "rust_begin_unwind") || has(n, "rust_panic")) return BI_PANIC;
  }
  if (has(n, "4core9panicking") || has(n, "3std9panicking") ) { return BI_PANIC; }
  if (has(n, "4core6result13unwrap_failed") || has(n, "4core6option13expect_failed") || has(n, "4core6option13unwrap_failed") || has(n, "4core3str16slice_error_fail") || has(n, "4core5slice5index16slice_index_fail") || has(n, "5alloc7raw_vec12handle_error") || has(n, "5alloc18handle_alloc_error") || has(n, "7raw_vec17capacity_overflow") || has(n, "cell22panic_already_borrowed") || has(n, "panic_already_mutably_borrowed")) return BI_PANIC;
  if (has(n, "3std7process5abort")) return BI_ABORT;
  if (has(n, "hashmap_random_keys")) return BI_HASHKEYS;
  if (has(n, "_6memchr") && has(n, "11memchr_raw") ) return BI_NONE;
  return BI_NONE;
}
enum { IN_NONE = 0, IN_MEMCPY = 1, IN_MEMMOVE, IN_MEMSET, IN_UMAX, IN_UMIN, IN_SMAX, IN_SMIN, IN_UADDS, IN_USUBS, IN_SADDS, IN_SSUBS, IN_UMULO, IN_UADDO, IN_USUBO, IN_SADDO, IN_SSUBO, IN_SMULO, IN_CTLZ, IN_CTTZ, IN_CTPOP, IN_BSWAP, IN_BITREV, IN_FSHL, IN_FSHR, IN_ABS, IN_UCMP, IN_SCMP, IN_ISCONST, IN_TLS, IN_TRAP, IN_EXPECT, IN_FABS, IN_FLOOR, IN_CEIL, IN_TRUNC, IN_ROUND, IN_RINT, IN_SQRT, IN_FMA, IN_FPTOUIS, IN_FPTOSIS, IN_COPYSIGN, IN_PTRMASK, IN_RDOR, IN_RDAND, IN_RDADD, IN_MINNUM, IN_MAXNUM, IN_UNKNOWN, IN_RDUMAX, IN_OBJSIZE, IN_DIV, IN_NOP };
static int lookupIntrin(const string& n) {
  static const vector<std::pair<const char*, int>> m = {{"llvm.memcpy.", IN_MEMCPY}, {"llvm.memmove.", IN_MEMMOVE}, {"llvm.memset.", IN_MEMSET}, {"llvm.umax.", IN_UMAX}, {"llvm.umin.", IN_UMIN}, {"llvm.smax.", IN_SMAX}, {"llvm.smin.", IN_SMIN}, {"llvm.uadd.sat", IN_UADDS}, {"llvm.usub.sat", IN_USUBS}, {"llvm.sadd.sat", IN_SADDS}, {"llvm.ssub.sat", IN_SSUBS}, {"llvm.umul.with", IN_UMULO}, {"llvm.uadd.with", IN_UADDO}, {"llvm.usub.with", IN_USUBO}, {"llvm.sadd.with", IN_SADDO}, {"llvm.ssub.with", IN_SSUBO}, {"llvm.smul.with", IN_SMULO}, {"llvm.ctlz.", IN_CTLZ}, {"llvm.cttz.", IN_CTTZ}, {"llvm.ctpop.", IN_CTPOP}, {"llvm.bswap.", IN_BSWAP}, {"llvm.bitreverse.", IN_BITREV}, {"llvm.fshl.", IN_FSHL}, {"llvm.fshr.", IN_FSHR}, {"llvm.abs.", IN_ABS}, {"llvm.ucmp.", IN_UCMP}, {"llvm.scmp.", IN_SCMP}, {"llvm.is.constant", IN_ISCONST}, {"llvm.threadlocal", IN_TLS}, {"llvm.trap", IN_TRAP}, {"llvm.expect", IN_EXPECT}, {"llvm.fabs", IN_FABS}, {"llvm.floor", IN_FLOOR}, {"llvm.ceil", IN_CEIL}, {"llvm.trunc", IN_TRUNC}, {"llvm.round", IN_ROUND}, {"llvm.rint", IN_RINT}, {"llvm.sqrt", IN_SQRT}, {"llvm.fma", IN_FMA}, {"llvm.fptoui.sat", IN_FPTOUIS}, {"llvm.fptosi.sat", IN_FPTOSIS}, {"llvm.copysign", IN_COPYSIGN}, {"llvm.vector.reduce.or", IN_RDOR}, {"llvm.vector.reduce.and", IN_RDAND}, {"llvm.vector.reduce.add", IN_RDADD}, {"llvm.vector.reduce.umax", IN_RDUMAX}, {"llvm.prefetch", IN_NOP}, {"asm.div", IN_DIV}};
  for (auto& p : m) if (n.compare(0, strlen(p.first), p.first) == 0) return p.second;
  return IN_UNKNOWN;
}

static string readStr(u64 p, u64 n) { string r; for (u64 i = 0; i < n; i++) { Val v = loadConc(p + i, 8); r += (char)(v.e ? evalExpr(v.e, model) : (u8)v.c); } return r; }
static string panicMsg(Func* f, vector<CallArg>& args, Val* (*getf)(int32_t), std::function<Val(int32_t, unsigned)> get) {
  (void)getf; string loc, msg;
  for (size_t i = args.size(); i-- > 0;) if (args[i].ty->k == Type::Ptr) {
    Val v = get(args[i].op, 0); if (v.e) break; u64 a = (u64)v.c; u32 id = a >> 32; if (!id || id >= objs.size() || !(objs[id].flags & 1) || (u32)a + 24 > objs[id].size) break;
    Val fp = loadConc(a, 64), fl = loadConc(a + 8, 64), ln = loadConc(a + 16, 32); if (fp.e || fl.e || ln.e) break; u64 fa = (u64)fp.c; u32 fid = fa >> 32; if (!fid || fid >= objs.size() || !(objs[fid].flags & 1) || fl.c > 400 || (u32)fa + (u64)fl.c > objs[fid].size) break;
    loc = readStr(fa, (u64)fl.c) + ":" + std::to_string((u64)ln.c); break;
  }
  if (args.size() >= 2 && args[0].ty->k == Type::Ptr && args[1].ty->k == Type::Int && args[1].ty->bits == 64) { Val p = get(args[0].op, 0), n = get(args[1].op, 0); if (!p.e && !n.e && n.c < 400) { u32 id = (u64)p.c >> 32; if (id && id < objs.size() && (objs[id].flags & 1) && (u32)p.c + (u64)n.c <= objs[id].size) msg = readStr((u64)p.c, (u64)n.c); } }
  return (msg.empty() ? f->name : msg) + " at " + loc;
}

static void doOk() {
  u64 n = S->pathsOk++;
  bool take = n < optSample / 2 || (n % 97 == 0 && S->samples < optSample);
  if (take) {
    S->samples++;
    u8 nm[MAXVARS]; if (nvars && z3Check(mkConst(1, 1), nm, true) != 1) die_error("path condition unsatisfiable at path end"); 
    u64 h = 1469598103934665603ull; u64 cnt = 0;
    for (auto& o : observed) { for (auto& v : o) { h = fnv(h, v.e ? (u8)evalExpr(v.e, model) : (u8)v.c); cnt++; } h = fnv(h, 0xfe); }
    char b[64]; snprintf(b, sizeof b, "%016lx", h);
    emit("{\"kind\":\"sample\",\"harness\":\"" + harness + "\",\"model\":\"" + modelHex() + "\",\"digest\":\"" + b + "\",\"obs\":" + std::to_string(cnt) + ",\"forks\":" + std::to_string(depthForks) + ",\"constraints\":" + std::to_string(multi.size()) + "}");
  }
  endPath();
}

// ---------------------------------------------------------------- interpreter
static Val* stackBase; static Val* sp; static Val* stackEnd;
static void run(Func* f, Val* fp, Val* ret);

static inline double asD(u128 c, unsigned w) { if (w == 32) { u32 x = (u32)c; float g; memcpy(&g, &x, 4); return g; } u64 x = (u64)c; double d; memcpy(&d, &x, 8); return d; }
static inline u128 frD(double d, unsigned w) { if (w == 32) { float g = (float)d; u32 x; memcpy(&x, &g, 4); return x; } u64 x; memcpy(&x, &d, 8); return x; }
static Val conc(Val v, unsigned w) { if (v.e) { v.c = concretise(v.e); v.e = nullptr; } (void)w; return v; }

static bool binBuiltin(Func* f, int bi, Extra* x, Func* cf, Val* fp, Val* out) {
  auto G = [&](size_t i, u32 leaf = 0) -> Val { int32_t o = x->args[i].op; return o >= 0 ? fp[o + leaf] : cf->cpool[~o + leaf]; };
  auto C = [&](size_t i) -> u64 { Val v = G(i); return (u64)conc(v, 64).c; };
  switch (bi) {
    case BI_MALLOC: out[0] = {memAlloc(C(0), true, false), nullptr}; return true;
    case BI_RALLOC: case BI_RALLOCZ: out[0] = {memAlloc(C(0), true, false), nullptr}; return true;
    case BI_CALLOC: out[0] = {memAlloc(C(0) * C(1), true, false), nullptr}; return true;
    case BI_MEMALIGN: { u64 p = C(0); u64 a = memAlloc(C(2), true, false); storeConc(p, 64, {a, nullptr}); out[0] = {0, nullptr}; return true; }
    case BI_FREE: case BI_RDEALLOC: { u64 p = C(0); if (!p) return true; u32 id = p >> 32; if ((u32)p || !id || id >= objs.size() || !(objs[id].flags & 1)) violationEnd("memory", "invalid free"); memFree(id); return true; }
    case BI_REALLOC: case BI_RREALLOC: {
      u64 p = C(0); u64 n = bi == BI_REALLOC ? C(1) : C(3); if (!p) { out[0] = {memAlloc(n, true, false), nullptr}; return true; }
      u32 id = p >> 32; if ((u32)p || id >= objs.size() || !(objs[id].flags & 1)) violationEnd("memory", "invalid realloc");
      u64 q = memAlloc(n, true, false); u64 m = std::min<u64>(n, objs[id].size); copyMem(q, p, m); memFree(id); out[0] = {q, nullptr}; return true; }
    case BI_NOP0: if (x->ret->k != Type::Void) for (size_t i = 0; i < x->ret->leaves.size(); i++) out[i] = {0, nullptr}; return true;
    case BI_ERRNO: { static u64 a = 0; if (!a) a = memAlloc(4, true, false); out[0] = {a, nullptr}; return true; }
    case BI_HASHKEYS: { for (size_t i = 0; i < x->ret->leaves.size(); i++) out[i] = {0x5bd1e995 + i, nullptr}; return true; }
    case BI_STRLEN: { u64 p = C(0); u64 n = 0; while (true) { Val v = loadConc(p + n, 8); if (conc(v, 8).c == 0) break; n++; } out[0] = {n, nullptr}; return true; }
    case BI_BCMP: case BI_MEMCMP: {
      u64 n = C(2); if (!n) { out[0] = {0, nullptr}; return true; } u64 a = C(0), b = C(1);
      Obj& oa = objAt(a, n, false); Obj& ob = objAt(b, n, false); bool sym = false;
      if (oa.sh) for (u64 i = 0; i < n && !sym; i++) sym = oa.sh[(u32)a + i]; if (ob.sh) for (u64 i = 0; i < n && !sym; i++) sym = ob.sh[(u32)b + i];
      if (!sym) { int r = memcmp(oa.data + (u32)a, ob.data + (u32)b, n); out[0] = {(u32)(r < 0 ? -1 : r > 0), nullptr}; return true; }
      if (bi == BI_BCMP) { Expr* eq = mkConst(1, 1); for (u64 i = 0; i < n; i++) { eq = mkAnd(eq, mkEq(X(loadConc(a + i, 8), 8), X(loadConc(b + i, 8), 8))); if (isK(eq) && !eq->c) break; } out[0] = V(mkIte(eq, mkConst(32, 0), mkConst(32, 1))); return true; }
      Expr* r = mkConst(32, 0); for (u64 i = n; i-- > 0;) { Expr *p = X(loadConc(a + i, 8), 8), *q = X(loadConc(b + i, 8), 8); r = mkIte(mkEq(p, q), r, mkIte(mk(E_ULT, 1, p, q), mkConst(32, -1), mkConst(32, 1))); } out[0] = V(r); return true; }
    case BI_ABORT: violationEnd("abort", "process abort");
    case BI_PANIC: violationEnd("panic", panicMsg(f, x->args, nullptr, [&](int32_t o, unsigned) { return o >= 0 ? fp[o] : cf->cpool[~o]; }));
    case BI_SBYTE: {
      if (nvars >= MAXVARS) die_error("too many symbolic bytes"); u64 lo = C(0), hi = C(1); int i = nvars++; memset(&dom[i], 0, sizeof(Dom)); for (u64 v = lo & 255; v <= (hi & 255); v++) dom[i].add(v); if (dom[i].empty()) { S->pathsPruned++; endPath(); }
      model[i] = lo; out[0] = (lo == hi) ? Val{lo & 255, nullptr} : V(mkVar(i)); return true; }
    case BI_SASSUME: { Val v = G(0); if (!v.e) { if (!(v.c & 255)) { S->pathsPruned++; endPath(); } return true; } assumeCond(mkNot(mkEq(v.e, mkConst(v.e->w, 0)))); return true; }
    case BI_SCHECK: { // (cond u8, id ptr, id len)
      S->checks++; Val v = G(0); u64 p = C(1), n = C(2); 
      if (!v.e) { if (!(v.c & 255)) violationEnd(readStr(p, n), "assertion failed"); return true; }
      S->checksSym++; Expr* bad = mkEq(v.e, mkConst(v.e->w, 0)); u8 nm[MAXVARS]; if (findModel(bad, nm)) { u8 sv[MAXVARS]; memcpy(sv, model, MAXVARS); memcpy(model, nm, MAXVARS); violation(readStr(p, n), "assertion failed"); memcpy(model, sv, MAXVARS); }
      assumeCond(mkNot(bad)); return true; }
    case BI_SFAIL: { u64 p = C(0), n = C(1); S->checks++; violationEnd(readStr(p, n), "fail"); }
    case BI_SREACH: { u64 i = C(0); if (i < 64) S->reach[i]++; return true; }
    case BI_SOBSERVE: { u64 p = C(0), n = C(1); vector<Val> o; if (n) { objAt(p, n, false); for (u64 i = 0; i < n; i++) o.push_back(loadConc(p + i, 8)); } observed.push_back(o); return true; }
    case BI_SNOTE: { if (optVerbose) fprintf(stderr, "note: %s\n", readStr(C(0), C(1)).c_str()); return true; }
    case BI_SCONC: { Val v = G(0); out[0] = conc(v, x->ret->leaves[0].bits); return true; }
    case BI_SISSYM: { out[0] = {G(0).e != nullptr, nullptr}; return true; }
  }
  return false;
}

static void callFunc(Func* g, Extra* x, Func* cf, Val* fp, Val* out) {
  if (!g->builtin) { g->builtin = lookupBuiltin(g->name) + 1; }
  if (g->builtin > 1) { if (binBuiltin(g, g->builtin - 1, x, cf, fp, out)) return; die_error("builtin %s", g->name.c_str()); }
  if (!g->defined) die_error("external function %s", g->name.c_str());
  if (!g->parsed) parseFunc(g);
  Val* nf = sp; sp += g->nslots + 1; if (sp >= stackEnd) die_error("stack overflow in interpreted code");
  Val* d = nf; for (auto& a : x->args) { u32 n = a.ty->leaves.size(); if (a.op >= 0) for (u32 i = 0; i < n; i++) *d++ = fp[a.op + i]; else for (u32 i = 0; i < n; i++) *d++ = cf->cpool[~a.op + i]; }
  if ((u32)(d - nf) != g->nparamSlots) die_error("argument count mismatch calling %s", g->name.c_str());
  if (callStack.size() > 20000) violationEnd("recursion", "call depth exceeds 20000");
  S->fnSeen[g->index & ((1 << 18) - 1)] = 1;
  callStack.push_back(g); run(g, nf, out); callStack.pop_back(); sp = nf;
}

static Val binop(u8 op, unsigned w, const Val& a, const Val& b) {
  if (!a.e && !b.e) {
    if (w <= 64) {
      u64 x = (u64)a.c, y = (u64)b.c, m = w == 64 ? ~0ull : (1ull << w) - 1, r;
      switch (op) { case E_ADD: r = x + y; break; case E_SUB: r = x - y; break; case E_MUL: r = x * y; break; case E_AND: r = x & y; break; case E_OR: r = x | y; break; case E_XOR: r = x ^ y; break;
        case E_SHL: r = y >= w ? 0 : x << y; break; case E_LSHR: r = y >= w ? 0 : x >> y; break;
        default: if ((op == E_UDIV || op == E_UREM || op == E_SDIV || op == E_SREM) && y == 0) violationEnd("ub", "division by zero"); return {foldop(op, w, w, a.c, b.c, 0, 0, w), nullptr}; }
      return {r & m, nullptr};
    }
    return {foldop(op, w, w, a.c, b.c, 0, 0, w), nullptr};
  }
  return V(mk(op, w, X(a, w), X(b, w)));
}
static Val icmp(u8 p, unsigned w, const Val& a, const Val& b) {
  if (!a.e && !b.e) {
    bool r; switch (p) { case C_EQ: r = a.c == b.c; break; case C_NE: r = a.c != b.c; break; case C_ULT: r = a.c < b.c; break; case C_ULE: r = a.c <= b.c; break; case C_UGT: r = a.c > b.c; break; case C_UGE: r = a.c >= b.c; break;
      case C_SLT: r = sextw(a.c, w) < sextw(b.c, w); break; case C_SLE: r = sextw(a.c, w) <= sextw(b.c, w); break; case C_SGT: r = sextw(a.c, w) > sextw(b.c, w); break; default: r = sextw(a.c, w) >= sextw(b.c, w); }
    return {(u128)r, nullptr};
  }
  Expr *x = X(a, w), *y = X(b, w);
  switch (p) { case C_EQ: return V(mkEq(x, y)); case C_NE: return V(mkNot(mkEq(x, y))); case C_ULT: return V(mk(E_ULT, 1, x, y)); case C_UGE: return V(mkNot(mk(E_ULT, 1, x, y))); case C_UGT: return V(mk(E_ULT, 1, y, x)); case C_ULE: return V(mkNot(mk(E_ULT, 1, y, x)));
    case C_SLT: return V(mk(E_SLT, 1, x, y)); case C_SGE: return V(mkNot(mk(E_SLT, 1, x, y))); case C_SGT: return V(mk(E_SLT, 1, y, x)); default: return V(mkNot(mk(E_SLT, 1, y, x))); }
}
static Val ext(const Val& v, unsigned lo, unsigned w) { if (!v.e) return {(v.c >> lo) & maskw(w), nullptr}; return V(mkExtract(v.e, lo, w)); }
static Val ovf(int in, unsigned w, Val a, Val b, Val& o) {
  u8 op = (in == IN_UMULO || in == IN_SMULO) ? E_MUL : (in == IN_UADDO || in == IN_SADDO) ? E_ADD : E_SUB; bool sg = in == IN_SADDO || in == IN_SSUBO || in == IN_SMULO;
  Val r = binop(op, w, a, b);
  if (!a.e && !b.e) {
    if (w == 128) { if (op == E_MUL) { u128 t; o = {sg ? (u128)__builtin_mul_overflow((i128)a.c, (i128)b.c, (i128*)&t) : (u128)__builtin_mul_overflow(a.c, b.c, &t), nullptr}; } else if (op == E_ADD) { u128 t; o = {sg ? (u128)__builtin_add_overflow((i128)a.c, (i128)b.c, (i128*)&t) : (u128)__builtin_add_overflow(a.c, b.c, &t), nullptr}; } else { u128 t; o = {sg ? (u128)__builtin_sub_overflow((i128)a.c, (i128)b.c, (i128*)&t) : (u128)__builtin_sub_overflow(a.c, b.c, &t), nullptr}; } return r; }
    i128 x = sg ? sextw(a.c, w) : (i128)a.c, y = sg ? sextw(b.c, w) : (i128)b.c; bool of;
    if (op == E_MUL && !sg) { of = ((u128)x * (u128)y) >> w; } else { i128 z = op == E_MUL ? x * y : op == E_ADD ? x + y : x - y; of = sg ? z != sextw((u128)z & maskw(w), w) : (z < 0 || ((u128)z >> w)); }
    o = {of, nullptr}; return r;
  }
  Expr *x = X(a, w), *y = X(b, w); unsigned W = op == E_MUL ? 2 * w : w + 1; 
  if (W > 128) {
    if (op != E_MUL) {
      if (!sg) { o = op == E_ADD ? V(mk(E_ULT, 1, X(r, w), x)) : V(mk(E_ULT, 1, x, y)); return r; }
      Expr *sx = mkExtract(x, w - 1, 1), *sy = mkExtract(y, w - 1, 1), *sr = mkExtract(X(r, w), w - 1, 1);
      o = V(mkAnd(op == E_ADD ? mkEq(sx, sy) : mkNot(mkEq(sx, sy)), mkNot(mkEq(sx, sr)))); return r;
    }
    // no 256-bit terms: x * y overflows iff x != 0 and (x * y) / x != y (signed: or x = -1 and y = MIN)
    Expr *z0 = mkConst(w, 0), *p = X(r, w), *xs = mkIte(mkEq(x, z0), mkConst(w, 1), x);
    Expr* bad = mkNot(mkEq(mk(sg ? E_SDIV : E_UDIV, w, p, xs), y));
    if (sg) bad = mkIte(mkEq(x, mkConst(w, maskw(w))), mkEq(y, mkConst(w, (u128)1 << (w - 1))), bad);
    o = V(mkIte(mkEq(x, z0), mkConst(1, 0), bad)); return r;
  }
  Expr* z = mk(op, W, sg ? mkSext(x, W) : mkZext(x, W), sg ? mkSext(y, W) : mkZext(y, W));
  Expr* lo = mkExtract(z, 0, w); o = V(mkNot(mkEq(z, sg ? mkSext(lo, W) : mkZext(lo, W)))); return r;
}

static void intrinsic(int in, Inst& I, Func* cf, Val* fp, Val* out) {
  Extra* x = I.x; auto G = [&](size_t i, u32 leaf = 0) -> Val { int32_t o = x->args[i].op; return o >= 0 ? fp[o + leaf] : cf->cpool[~o + leaf]; };
  auto C = [&](size_t i) -> u64 { Val v = G(i); return (u64)conc(v, 64).c; };
  unsigned n = x->ret->leaves.size(), w = n ? x->ret->leaves[0].bits : 0;
  switch (in) {
    case IN_MEMCPY: case IN_MEMMOVE: { u64 nn = C(2); if (nn) { u64 d = C(0), s = C(1); copyMem(d, s, nn); } return; }
    case IN_MEMSET: { u64 nn = C(2); if (!nn) return; u64 d = C(0); Val v = G(1); Obj& o = objAt(d, nn, true); if (!v.e) { memset(o.data + (u32)d, (int)v.c, nn); if (o.sh) memset(o.sh + (u32)d, 0, nn * sizeof(Expr*)); } else for (u64 i = 0; i < nn; i++) storeConc(d + i, 8, v); return; }
    case IN_UMAX: case IN_UMIN: case IN_SMAX: case IN_SMIN: for (unsigned i = 0; i < n; i++) { Val a = G(0, i), b = G(1, i); Val c = icmp(in == IN_UMAX ? C_UGT : in == IN_UMIN ? C_ULT : in == IN_SMAX ? C_SGT : C_SLT, w, a, b); if (!c.e) out[i] = c.c ? a : b; else out[i] = V(mkIte(c.e, X(a, w), X(b, w))); } return;
    case IN_UADDS: case IN_USUBS: for (unsigned i = 0; i < n; i++) { Val a = G(0, i), b = G(1, i), o; Val r = ovf(in == IN_UADDS ? IN_UADDO : IN_USUBO, w, a, b, o); Val sat = {in == IN_UADDS ? maskw(w) : 0, nullptr}; if (!o.e) out[i] = o.c ? sat : r; else out[i] = V(mkIte(o.e, X(sat, w), X(r, w))); } return;
    case IN_SADDS: case IN_SSUBS: for (unsigned i = 0; i < n; i++) { Val a = G(0, i), b = G(1, i), o; Val r = ovf(in == IN_SADDS ? IN_SADDO : IN_SSUBO, w, a, b, o); o = conc(o, 1); if (o.c) { a = conc(a, w); bool neg = (a.c >> (w - 1)) & 1; r = {neg ? (u128)1 << (w - 1) : maskw(w - 1), nullptr}; } out[i] = r; } return;
    case IN_UMULO: case IN_UADDO: case IN_USUBO: case IN_SADDO: case IN_SSUBO: case IN_SMULO: { Val o; out[0] = ovf(in, w, G(0), G(1), o); out[1] = o; return; }
    case IN_CTLZ: case IN_CTTZ: case IN_CTPOP: for (unsigned i = 0; i < n; i++) { Val a = G(0, i);
        if (!a.e) { u128 v = a.c; unsigned r = 0; if (in == IN_CTPOP) { for (unsigned b = 0; b < w; b++) r += (v >> b) & 1; } else if (in == IN_CTLZ) { for (int b = w - 1; b >= 0 && !((v >> b) & 1); b--) r++; } else { for (unsigned b = 0; b < w && !((v >> b) & 1); b++) r++; } out[i] = {r, nullptr}; }
        else if (in == IN_CTPOP) { Expr* r = mkConst(w, 0); for (unsigned b = 0; b < w; b++) r = mk(E_ADD, w, r, mkZext(mkExtract(a.e, b, 1), w)); out[i] = V(r); }
        else { Expr* r = mkConst(w, w); for (unsigned k = 0; k < w; k++) { unsigned b = in == IN_CTLZ ? k : w - 1 - k; unsigned val = in == IN_CTLZ ? w - 1 - b : b; r = mkIte(mkExtract(a.e, b, 1), mkConst(w, val), r); } out[i] = V(r); } } return;
    case IN_BSWAP: for (unsigned i = 0; i < n; i++) { Val a = G(0, i); if (!a.e) { u128 r = 0; for (unsigned b = 0; b < w / 8; b++) r |= ((a.c >> (8 * b)) & 255) << (w - 8 - 8 * b); out[i] = {r, nullptr}; } else { Expr* r = nullptr; for (unsigned b = 0; b < w / 8; b++) { Expr* y = mkExtract(a.e, 8 * b, 8); r = r ? mkConcat(r, y) : y; } out[i] = V(r); } } return;
    case IN_BITREV: for (unsigned i = 0; i < n; i++) { Val a = G(0, i); if (!a.e) { u128 r = 0; for (unsigned b = 0; b < w; b++) r |= ((a.c >> b) & 1) << (w - 1 - b); out[i] = {r, nullptr}; } else { Expr* r = nullptr; for (unsigned b = 0; b < w; b++) { Expr* y = mkExtract(a.e, b, 1); r = r ? mkConcat(r, y) : y; } out[i] = V(r); } } return;
    case IN_FSHL: case IN_FSHR: for (unsigned i = 0; i < n; i++) { Val a = G(0, i), b = G(1, i), s = G(2, i); unsigned k = (unsigned)(conc(s, w).c % w); if (!k) { out[i] = in == IN_FSHL ? a : b; continue; } unsigned l = in == IN_FSHL ? k : w - k; out[i] = binop(E_OR, w, binop(E_SHL, w, a, {l, nullptr}), binop(E_LSHR, w, b, {w - l, nullptr})); } return;
    case IN_ABS: for (unsigned i = 0; i < n; i++) { Val a = G(0, i); if (!a.e) { out[i] = (a.c >> (w - 1)) & 1 ? Val{((u128)0 - a.c) & maskw(w), nullptr} : a; } else out[i] = V(mkIte(mkExtract(a.e, w - 1, 1), mk(E_SUB, w, mkConst(w, 0), a.e), a.e)); } return;
    case IN_UCMP: case IN_SCMP: { unsigned aw = x->args[0].ty->leaves[0].bits; for (unsigned i = 0; i < n; i++) { Val a = G(0, i), b = G(1, i); Val lt = icmp(in == IN_UCMP ? C_ULT : C_SLT, aw, a, b), eq = icmp(C_EQ, aw, a, b); out[i] = V(mkIte(X(lt, 1), mkConst(w, maskw(w)), mkIte(X(eq, 1), mkConst(w, 0), mkConst(w, 1)))); } return; }
    case IN_DIV: { // x86 div: dx:ax / operand -> (dx = remainder, ax = quotient); traps if the quotient does not fit
      Val d = G(0), hi = G(1), lo = G(2); Val fits = conc(icmp(C_ULT, 64, hi, d), 1); if (!fits.c) violationEnd("ub", "division overflow");
      if (!d.e && !lo.e && !hi.e) { u128 v = (hi.c << 64) | lo.c; out[0] = {v % d.c, nullptr}; out[1] = {v / d.c, nullptr}; return; }
      Expr* v = mkConcat(X(hi, 64), X(lo, 64)); Expr* D = mkZext(X(d, 64), 128);
      out[0] = V(mkExtract(mk(E_UREM, 128, v, D), 0, 64)); out[1] = V(mkExtract(mk(E_UDIV, 128, v, D), 0, 64)); return; }
    case IN_ISCONST: out[0] = {0, nullptr}; return;
    case IN_TLS: case IN_EXPECT: out[0] = G(0); return;
    case IN_TRAP: violationEnd("trap", "llvm.trap");
    case IN_FABS: for (unsigned i = 0; i < n; i++) out[i] = binop(E_AND, w, G(0, i), {maskw(w - 1), nullptr}); return;
    case IN_COPYSIGN: for (unsigned i = 0; i < n; i++) out[i] = binop(E_OR, w, binop(E_AND, w, G(0, i), {maskw(w - 1), nullptr}), binop(E_AND, w, G(1, i), {(u128)1 << (w - 1), nullptr})); return;
    case IN_FLOOR: case IN_CEIL: case IN_TRUNC: case IN_ROUND: case IN_RINT: case IN_SQRT: for (unsigned i = 0; i < n; i++) { Val a = G(0, i); double d = asD(conc(a, w).c, w); d = in == IN_FLOOR ? floor(d) : in == IN_CEIL ? ceil(d) : in == IN_TRUNC ? trunc(d) : in == IN_ROUND ? round(d) : in == IN_RINT ? rint(d) : sqrt(d); out[i] = {frD(d, w), nullptr}; } return;
    case IN_FPTOUIS: case IN_FPTOSIS: { unsigned aw = x->args[0].ty->leaves[0].bits; Val a = G(0); double d = asD(conc(a, aw).c, aw); if (d != d) { out[0] = {0, nullptr}; return; } double lo = in == IN_FPTOUIS ? 0 : -ldexp(1, w - 1), hi = in == IN_FPTOUIS ? ldexp(1, w) : ldexp(1, w - 1); if (d <= lo) out[0] = {in == IN_FPTOUIS ? 0 : ((u128)1 << (w - 1)), nullptr}; else if (d >= hi) out[0] = {in == IN_FPTOUIS ? maskw(w) : maskw(w - 1), nullptr}; else out[0] = {(u128)(i128)d & maskw(w), nullptr}; if (in == IN_FPTOUIS && d > 0 && d < hi) out[0] = {(u128)d, nullptr}; return; }
    case IN_RDOR: case IN_RDAND: case IN_RDADD: { unsigned m = x->args[0].ty->leaves.size(); Val r = G(0, 0); for (unsigned i = 1; i < m; i++) r = binop(in == IN_RDOR ? E_OR : in == IN_RDAND ? E_AND : E_ADD, w, r, G(0, i)); out[0] = r; return; }
    case IN_RDUMAX: { unsigned m = x->args[0].ty->leaves.size(); Val r = G(0, 0); for (unsigned i = 1; i < m; i++) { Val b = G(0, i); Val c = icmp(C_UGT, w, r, b); r = !c.e ? (c.c ? r : b) : V(mkIte(c.e, X(r, w), X(b, w))); } out[0] = r; return; }
    case IN_NOP: return;
  }
  die_error("intrinsic %s", x->callee->name.c_str());
}

static void run(Func* f, Val* fp, Val* ret) {
  u32 pc = f->blockStart[0]; Inst* code = f->code.data(); Val* cp = f->cpool.data(); u64 allocas[64]; vector<u64>* moreAllocas = nullptr; unsigned nall = 0;
  static Val tmp[4096];
#define GET(o, i) ((o) >= 0 ? fp[(o) + (i)] : cp[~(o) + (i)])
#define GOTO(ed) do { Edge& E_ = f->edges[ed]; if (!E_.moves.empty()) { if (E_.moves.size() == 1) { PhiMove& m_ = E_.moves[0]; if (m_.n == 1) fp[m_.dst] = GET(m_.src, 0); else { for (u32 i_ = 0; i_ < m_.n; i_++) tmp[i_] = GET(m_.src, i_); for (u32 i_ = 0; i_ < m_.n; i_++) fp[m_.dst + i_] = tmp[i_]; } } else { u32 t_ = 0; for (auto& m_ : E_.moves) for (u32 i_ = 0; i_ < m_.n; i_++) tmp[t_++] = GET(m_.src, i_); t_ = 0; for (auto& m_ : E_.moves) for (u32 i_ = 0; i_ < m_.n; i_++) fp[m_.dst + i_] = tmp[t_++]; } } pc = f->blockStart[E_.target]; } while (0)
  while (true) {
    Inst& I = code[pc++];
    if (!(++instrCount & 0xfffff)) { checkLimits(); if (instrCount > optMaxInstr) limitPath("instructions"); }
    switch (I.op) {
      case I_BIN: for (u32 i = 0; i < I.n; i++) { Val& a = GET(I.a, i); Val& b = GET(I.b, i);
          if ((I.sub == B_UDIV || I.sub == B_UREM || I.sub == B_SDIV || I.sub == B_SREM) && b.e) { Val bb = b; conc(bb, I.w); }
          fp[I.dst + i] = binop(I.sub, I.w, a, b); } break;
      case I_ICMP: for (u32 i = 0; i < I.n; i++) fp[I.dst + i] = icmp(I.sub, I.w, GET(I.a, i), GET(I.b, i)); break;
      case I_SELECT: {
        for (u32 i = 0; i < I.n; i++) {
          Val c = GET(I.a, I.t0 == 1 ? 0 : i); Val& a = GET(I.b, i); Val& b = GET(I.c, i);
          if (!c.e) { fp[I.dst + i] = c.c ? a : b; continue; }
          if (I.ty->leaves[i].isptr || I.ty->leaves[i].isfloat) { if (!a.e && !b.e && a.c == b.c) { fp[I.dst + i] = a; continue; } bool t = decide(c.e); fp[I.dst + i] = t ? a : b; if (I.t0 == 1) { for (u32 j = i + 1; j < I.n; j++) fp[I.dst + j] = t ? GET(I.b, j) : GET(I.c, j); break; } continue; }
          unsigned w = I.ty->leaves[i].bits; fp[I.dst + i] = V(mkIte(c.e, X(a, w), X(b, w)));
        }
        break; }
      case I_CAST: for (u32 i = 0; i < I.n; i++) {
          Val a = GET(I.a, i); Val& d = fp[I.dst + i];
          switch (I.sub) {
            case K_ZEXT: case K_PTRTOINT: case K_INTTOPTR: case K_TRUNC: if (!a.e) d = {a.c & maskw(I.w2), nullptr}; else d = I.w2 >= I.w ? V(mkZext(a.e, I.w2)) : V(mkExtract(a.e, 0, I.w2)); break;
            case K_SEXT: if (!a.e) d = {(u128)sextw(a.c, I.w) & maskw(I.w2), nullptr}; else d = V(mkSext(a.e, I.w2)); break;
            default: {
              a = conc(a, I.w); 
              switch (I.sub) { case K_FPEXT: case K_FPTRUNC: d = {frD(asD(a.c, I.w), I.w2), nullptr}; break;
                case K_UITOFP: d = {I.w2 == 32 ? frD((float)a.c, 32) : frD((double)a.c, 64), nullptr}; break; case K_SITOFP: d = {I.w2 == 32 ? frD((float)sextw(a.c, I.w), 32) : frD((double)sextw(a.c, I.w), 64), nullptr}; break;
                case K_FPTOUI: d = {(u128)asD(a.c, I.w) & maskw(I.w2), nullptr}; break; case K_FPTOSI: d = {(u128)(i128)asD(a.c, I.w) & maskw(I.w2), nullptr}; break; } }
          } } break;
      case I_FBIN: for (u32 i = 0; i < I.n; i++) { Val av = GET(I.a, i), bv = GET(I.b, i); double a = asD(conc(av, I.w).c, I.w), b = asD(conc(bv, I.w).c, I.w), r; switch (I.sub) { case 'a': r = a + b; break; case 's': r = a - b; break; case 'm': r = a * b; break; case 'd': r = a / b; break; default: r = fmod(a, b); } fp[I.dst + i] = {frD(r, I.w), nullptr}; } break;
      case I_FNEG: for (u32 i = 0; i < I.n; i++) fp[I.dst + i] = binop(E_XOR, I.w, GET(I.a, i), {(u128)1 << (I.w - 1), nullptr}); break;
      case I_FCMP: for (u32 i = 0; i < I.n; i++) { Val av = GET(I.a, i), bv = GET(I.b, i); double a = asD(conc(av, I.w).c, I.w), b = asD(conc(bv, I.w).c, I.w); bool u = a != a || b != b, r; switch (I.sub & 7) { case 1: r = a == b; break; case 2: r = a > b; break; case 3: r = a >= b; break; case 4: r = a < b; break; case 5: r = a <= b; break; case 6: r = a != b; break; case 7: r = true; break; default: r = false; } if (I.sub == 0) r = false; else if (I.sub == 15) r = true; else if (I.sub == 8) r = u; else r = (I.sub & 8) ? (u || r) : (!u && r); fp[I.dst + i] = {r, nullptr}; } break;
      case I_LOAD: {
        if (I.pad == 7) die_error("bit-vector load");
        if (I.n == 1) { Val& p = GET(I.a, 0); if (!p.e) fp[I.dst] = loadConc((u64)p.c, I.w); else { Val q = p; fp[I.dst] = loadAny(q, I.w); } break; }
        if (I.n == 0) break;
        Val p = GET(I.a, 0); u64 a = (u64)conc(p, 64).c; for (u32 i = 0; i < I.n; i++) fp[I.dst + i] = loadConc(a + I.ty->leaves[i].off, I.ty->leaves[i].bits); break; }
      case I_STORE: {
        if (I.pad == 7) die_error("bit-vector store");
        Val p = GET(I.a, 0); if (I.n == 0) break; u64 a = p.e ? (u64)conc(p, 64).c : (u64)p.c;
        for (u32 i = 0; i < I.n; i++) storeConc(a + I.ty->leaves[i].off, I.ty->leaves[i].bits, GET(I.b, i)); break; }
      case I_GEP: {
        Val p = GET(I.a, 0); u64 imm = I.imm; Expr* se = p.e; u64 base = (u64)p.c;
        if (I.x) for (auto& g : I.x->gep) { Val ix = GET(g.op, 0); if (!ix.e) imm += (u64)(i64)sextw(ix.c, g.w) * g.scale; else { Expr* e = g.w == 64 ? ix.e : g.w < 64 ? mkSext(ix.e, 64) : mkExtract(ix.e, 0, 64); e = mk(E_MUL, 64, e, mkConst(64, g.scale)); if (se) se = mk(E_ADD, 64, se, e); else { se = e; imm += base; base = 0; } } }
        if (!se) fp[I.dst] = {base + imm, nullptr}; else fp[I.dst] = V(mk(E_ADD, 64, se, mkConst(64, imm))); break; }
      case I_ALLOCA: { u64 a = memAlloc(I.imm, true, false); if (nall < 64) allocas[nall++] = a; else { if (!moreAllocas) moreAllocas = new vector<u64>; moreAllocas->push_back(a); } fp[I.dst] = {a, nullptr}; break; }
      case I_BR: GOTO(I.t0); break;
      case I_CONDBR: { Val& c = GET(I.a, 0); bool t = c.e ? decide(c.e) : (c.c & 1); if (t) GOTO(I.t0); else GOTO(I.t1); break; }
      case I_SWITCH: {
        Val& v = GET(I.a, 0); 
        if (!v.e) { u32 ed = I.t0; for (size_t i = 0; i < I.x->cases.size(); i++) if (I.x->cases[i] == v.c) { ed = I.x->caseTarget[i]; break; } GOTO(ed); break; }
        Expr* e = v.e; bool done = false; std::set<u32> seen; 
        for (size_t i = 0; i < I.x->cases.size() && !done; i++) { u32 ed = I.x->caseTarget[i]; if (ed == I.t0 || seen.count(ed)) continue; seen.insert(ed); Expr* c = mkConst(1, 0); for (size_t j = i; j < I.x->cases.size(); j++) if (I.x->caseTarget[j] == ed) c = mkOr(c, mkEq(e, mkConst(I.w, I.x->cases[j]))); if (decide(c)) { GOTO(ed); done = true; } }
        if (!done) GOTO(I.t0); break; }
      case I_RET: { for (u32 i = 0; i < I.n; i++) ret[i] = GET(I.a, i); while (nall) memFree(allocas[--nall] >> 32); if (moreAllocas) { for (u64 a : *moreAllocas) memFree(a >> 32); delete moreAllocas; } return; }
      case I_CALL: {
        Extra* x = I.x; Val out[64]; if (I.n > 64) die_error("large return");
        if (x->intrin) { intrinsic(x->intrin, I, f, fp, out); }
        else {
          Func* g = x->callee;
          if (!g) { Val p = GET(x->calleeOp, 0); u64 a = (u64)conc(p, 64).c; u32 id = a >> 32; if (!id || id >= objs.size() || !(objs[id].flags & 4)) violationEnd("memory", "call through invalid pointer"); g = objFunc[id]; }
          callFunc(g, x, f, fp, out);
        }
        for (u32 i = 0; i < I.n; i++) fp[I.dst + i] = out[i]; break; }
      case I_UNREACHABLE: violationEnd("unreachable", "unreachable executed");
      case I_MOVE: if (I.n == 1) fp[I.dst] = GET(I.a, 0); else { for (u32 i = 0; i < I.n; i++) tmp[i] = GET(I.a, i); for (u32 i = 0; i < I.n; i++) fp[I.dst + i] = tmp[i]; } break;
      case I_INSERT: for (u32 i = 0; i < I.n; i++) tmp[i] = (i >= I.t0 && i < I.t0 + I.t1) ? GET(I.b, i - I.t0) : GET(I.a, i); for (u32 i = 0; i < I.n; i++) fp[I.dst + i] = tmp[i]; break;
      case I_EXTRACTEL: { Val ix = GET(I.b, 0); u64 k = (u64)conc(ix, 64).c; if (k >= I.n) die_error("extractelement"); fp[I.dst] = GET(I.a, k); break; }
      case I_INSERTEL: { Val ix = GET(I.b, 0); u64 k = (u64)conc(ix, 64).c; for (u32 i = 0; i < I.n; i++) tmp[i] = i == k ? GET(I.c, 0) : GET(I.a, i); for (u32 i = 0; i < I.n; i++) fp[I.dst + i] = tmp[i]; break; }
      case I_SHUFFLE: { size_t m = I.x->mask.size(); for (size_t i = 0; i < m; i++) { u32 k = I.x->mask[i]; tmp[i] = k < I.n ? GET(I.a, k) : GET(I.b, k - I.n); } for (size_t i = 0; i < m; i++) fp[I.dst + i] = tmp[i]; break; }
      case I_BITCAST: {
        if (I.n == I.t0) { for (u32 i = 0; i < I.n; i++) tmp[i] = GET(I.a, i); for (u32 i = 0; i < I.n; i++) fp[I.dst + i] = tmp[i]; break; }
        // general: concatenate then split (little endian)
        vector<Val> src; for (u32 i = 0; i < I.n; i++) src.push_back(GET(I.a, i)); unsigned w1 = I.w, w2 = I.w2; 
        for (u32 i = 0; i < I.t0; i++) { unsigned lo = i * w2; Val r; if (w2 >= w1) { unsigned k = w2 / w1; r = src[i * k]; bool sym = r.e; u128 c = r.c; for (unsigned j = 1; j < k; j++) { sym |= src[i * k + j].e != nullptr; c |= src[i * k + j].c << (w1 * j); } if (!sym) r = {c, nullptr}; else { Expr* e = X(src[i * k], w1); for (unsigned j = 1; j < k; j++) e = mkConcat(X(src[i * k + j], w1), e); r = V(e); } } else r = ext(src[lo / w1], lo % w1, w2); fp[I.dst + i] = r; }
        break; }
      case I_RMW: { Val p = GET(I.a, 0); u64 a = (u64)conc(p, 64).c; Val old = loadConc(a, I.w); Val& b = GET(I.b, 0); storeConc(a, I.w, I.sub == 100 ? b : binop(I.sub, I.w, old, b)); fp[I.dst] = old; break; }
      case I_CMPXCHG: { Val p = GET(I.a, 0); u64 a = (u64)conc(p, 64).c; Val old = loadConc(a, I.w); Val eq = icmp(C_EQ, I.w, old, GET(I.b, 0)); eq = conc(eq, 1); if (eq.c) storeConc(a, I.w, GET(I.c, 0)); fp[I.dst] = old; fp[I.dst + 1] = eq; break; }
      case I_LANDINGPAD: case I_RESUME: die_error("unwinding reached");
      default: die_error("opcode %d", I.op);
    }
  }
}

int main(int argc, char** argv) {
  rlimit rl; getrlimit(RLIMIT_STACK, &rl); const rlim_t want = 4ull << 30;
  if (rl.rlim_cur != RLIM_INFINITY && rl.rlim_cur < want) { rlimit n = rl; n.rlim_cur = rl.rlim_max == RLIM_INFINITY || rl.rlim_max >= want ? want : rl.rlim_max; if (n.rlim_cur > rl.rlim_cur && setrlimit(RLIMIT_STACK, &n) == 0 && !getenv("SYMX_REEXEC")) { setenv("SYMX_REEXEC", "1", 1); execv("/proc/self/exe", argv); } }
  if (argc < 4) { fprintf(stderr, "usage: symx module.ll harness out.jsonl [--procs N --deadline-ms N --max-instr N --samples N --max-viol N --xcheck]\n"); return 2; }
  for (int i = 4; i < argc; i++) { string a = argv[i]; auto nx = [&] { return strtoull(argv[++i], 0, 10); }; if (a == "--procs") optProcs = nx(); else if (a == "--deadline-ms") optDeadlineMs = nx(); else if (a == "--max-instr") optMaxInstr = nx(); else if (a == "--samples") optSample = nx(); else if (a == "--max-viol") optMaxViol = nx(); else if (a == "--known") knownIds.insert(argv[++i]); else if (a == "--xcheck") optXcheck = true; else if (a == "--verbose") optVerbose = true; }
  harness = argv[2]; startMs = nowMs();
  outFd = open(argv[3], O_WRONLY | O_CREAT | O_APPEND, 0644);
  S = (Shared*)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); S->tokens = optProcs - 1; S->live = 1;
  prctl(PR_SET_CHILD_SUBREAPER, 1);
  builtinLookup = lookupBuiltin; intrinLookup = lookupIntrin;
  size_t ns = 1ull << 24; stackBase = (Val*)mmap(0, ns * sizeof(Val), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); sp = stackBase; stackEnd = stackBase + ns - 4096;
  objs.reserve(1 << 16);
  loadModule(argv[1]);
  auto it = funcs.find(harness); if (it == funcs.end() || !it->second->defined) die_error("harness %s not found", harness.c_str());
  // parse everything reachable up front so that children share it
  { vector<Func*> work = {it->second}; std::set<Func*> seen = {it->second};
    while (!work.empty()) { Func* f = work.back(); work.pop_back(); if (!f->defined) continue; if (lookupBuiltin(f->name)) continue; parseFunc(f); for (auto& I : f->code) if (I.op == I_CALL && I.x->callee && !I.x->intrin && seen.insert(I.x->callee).second) work.push_back(I.x->callee); 
      for (size_t k = 0; k < objFunc.size(); k++) if (objFunc[k] && seen.insert(objFunc[k]).second) work.push_back(objFunc[k]); } }
  Func* f = it->second; Val* fp = sp; sp += f->nslots + 1; callStack.push_back(f); S->fnSeen[f->index & ((1 << 18) - 1)] = 1;
  static Val ret[64]; run(f, fp, ret);
  doOk();
}
