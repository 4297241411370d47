// Symbolic bit-vector expressions for symx.
// Every symbolic input is a byte variable.  Expressions over a single variable (<=64 bit) are kept
// in a canonical form (CONST / VAR / TABLE of 256 values), everything else is a hash-consed DAG.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <vector>
#include <unordered_map>
#include <string>

typedef unsigned __int128 u128;
typedef __int128 i128;
typedef uint8_t u8; typedef uint16_t u16; typedef uint32_t u32; typedef uint64_t u64; typedef int64_t i64;

static const int MAXVARS = 256;

[[noreturn]] void die_error(const char* fmt, ...);

static inline u128 maskw(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
static inline i128 sextw(u128 v, unsigned w) { unsigned s = 128 - w; return ((i128)(v << s)) >> s; }

enum ExprOp : u8 { E_CONST, E_VAR, E_TABLE, E_ADD, E_SUB, E_MUL, E_UDIV, E_UREM, E_SDIV, E_SREM, E_SHL, E_LSHR, E_ASHR,
  E_AND, E_OR, E_XOR, E_NOT, E_EQ, E_ULT, E_SLT, E_EXTRACT, E_CONCAT, E_SEXT, E_ITE };

struct VarSet {
  u64 b[4];
  bool empty() const { return !(b[0] | b[1] | b[2] | b[3]); }
  void add(int i) { b[i >> 6] |= 1ull << (i & 63); }
  bool has(int i) const { return (b[i >> 6] >> (i & 63)) & 1; }
  void merge(const VarSet& o) { for (int i = 0; i < 4; i++) b[i] |= o.b[i]; }
  bool meets(const VarSet& o) const { return (b[0] & o.b[0]) | (b[1] & o.b[1]) | (b[2] & o.b[2]) | (b[3] & o.b[3]); }
  bool operator==(const VarSet& o) const { return !memcmp(b, o.b, 32); }
  int count() const { int n = 0; for (int i = 0; i < 4; i++) n += __builtin_popcountll(b[i]); return n; }
  int first() const { for (int i = 0; i < 4; i++) if (b[i]) return i * 64 + __builtin_ctzll(b[i]); return -1; }
};
typedef VarSet Dom;  // also used as a 256-bit value domain

struct Expr {
  u8 op; u16 w; short sv;   // sv: the only variable, or -1 (none or several)
  u32 aux; u32 hash; u32 id; u32 cleaf; // cleaf: number of constant leaves if an ITE tree over constants, else 0
  Expr* k[3];
  u128 c;
  VarSet vs;
  union { u64* tab; u64 bits[4]; };
  mutable u64 stamp; mutable u128 memo;
};

struct ExprPool {
  std::vector<Expr*> table; size_t count = 0; u32 nextid = 1; u64 stamp = 0;
  char* arena = nullptr; size_t left = 0;
  Expr* vars[MAXVARS] = {}; Expr* zext64v[MAXVARS] = {};
  void* alloc(size_t n) {
    n = (n + 15) & ~15ull;
    if (n > left) { size_t ch = n > (1 << 20) ? n : (1 << 20); arena = (char*)aligned_alloc(16, ch); left = ch; if (!arena) abort(); }
    void* p = arena; arena += n; left -= n; return p;
  }
  ExprPool() { table.resize(1 << 14); }
};
extern ExprPool P;

static inline u32 hmix(u32 h, u64 x) { x *= 0x9E3779B97F4A7C15ull; x ^= x >> 29; return (h ^ (u32)(x ^ (x >> 32))) * 0x85EBCA6Bu + 0x27D4EB2Fu; }

u128 foldop(u8 op, unsigned w, unsigned kw, u128 a, u128 b, u128 c, u32 aux, unsigned kw1);
Expr* mkConst(unsigned w, u128 v);
Expr* mkVar(int i);
Expr* mk(u8 op, unsigned w, Expr* a, Expr* b = nullptr, Expr* c = nullptr, u32 aux = 0);
Expr* mkTable(int var, unsigned w, const u64* vals);
Expr* mkTableBits(int var, const u64* bits);
Expr* mkNot(Expr* a);
Expr* mkAnd(Expr* a, Expr* b);
Expr* mkOr(Expr* a, Expr* b);
Expr* mkEq(Expr* a, Expr* b);
Expr* mkExtract(Expr* a, unsigned lo, unsigned w);
Expr* mkConcat(Expr* hi, Expr* lo);
Expr* mkZext(Expr* a, unsigned w);
Expr* mkSext(Expr* a, unsigned w);
Expr* mkIte(Expr* c, Expr* a, Expr* b);
u128 evalExpr(Expr* e, const u8* model);
void truthBits(Expr* e, u64 out[4]);  // e: single-var, w==1
static inline u64 tabVal(const Expr* e, unsigned x) {
  switch (e->op) { case E_CONST: return (u64)e->c; case E_VAR: return x; default: return e->w == 1 ? (e->bits[x >> 6] >> (x & 63)) & 1 : e->tab[x]; }
}
static inline bool isK(const Expr* e) { return e->op == E_CONST; }
