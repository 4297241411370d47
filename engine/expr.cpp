#include "expr.h"

ExprPool P;

u128 foldop(u8 op, unsigned w, unsigned kw, u128 a, u128 b, u128 c, u32 aux, unsigned kw1) {
  u128 m = maskw(w);
  switch (op) {
    case E_ADD: return (a + b) & m;
    case E_SUB: return (a - b) & m;
    case E_MUL: return (a * b) & m;
    case E_UDIV: return b ? a / b : m;
    case E_UREM: return b ? a % b : a;
    case E_SDIV: { i128 x = sextw(a, kw), y = sextw(b, kw); if (!y) return x < 0 ? 1 : m; if (y == -1) return (u128)(-(u128)x) & m; return (u128)(x / y) & m; }
    case E_SREM: { i128 x = sextw(a, kw), y = sextw(b, kw); if (!y) return a; if (y == -1) return 0; return (u128)(x % y) & m; }
    case E_SHL: return b >= w ? 0 : (a << (unsigned)b) & m;
    case E_LSHR: return b >= w ? 0 : (a >> (unsigned)b);
    case E_ASHR: { i128 x = sextw(a, w); unsigned s = b >= w ? w - 1 : (unsigned)b; return (u128)(x >> s) & m; }
    case E_AND: return a & b;
    case E_OR: return a | b;
    case E_XOR: return a ^ b;
    case E_NOT: return (~a) & m;
    case E_EQ: return a == b;
    case E_ULT: return a < b;
    case E_SLT: return sextw(a, kw) < sextw(b, kw);
    case E_EXTRACT: return (a >> aux) & m;
    case E_CONCAT: return ((a << kw1) | b) & m;
    case E_SEXT: return (u128)sextw(a, kw) & m;
    case E_ITE: return a ? b : c;
  }
  die_error("foldop %d", op);
}

static Expr* intern(Expr& t) {
  if (P.count * 2 > P.table.size()) {
    std::vector<Expr*> old; old.swap(P.table); P.table.resize(old.size() * 2);
    size_t m = P.table.size() - 1;
    for (Expr* e : old) if (e) { size_t i = e->hash & m; while (P.table[i]) i = (i + 1) & m; P.table[i] = e; }
  }
  size_t m = P.table.size() - 1, i = t.hash & m;
  while (Expr* e = P.table[i]) {
    if (e->hash == t.hash && e->op == t.op && e->w == t.w && e->aux == t.aux && e->c == t.c && e->k[0] == t.k[0] && e->k[1] == t.k[1] && e->k[2] == t.k[2]) {
      if (t.op != E_TABLE) return e;
      if (e->sv == t.sv && (t.w == 1 ? !memcmp(e->bits, t.bits, 32) : !memcmp(e->tab, t.tab, 2048))) return e;
    }
    i = (i + 1) & m;
  }
  Expr* e = (Expr*)P.alloc(sizeof(Expr));
  *e = t; e->id = P.nextid++; e->stamp = 0;
  if (t.op == E_TABLE && t.w > 1) { e->tab = (u64*)P.alloc(2048); memcpy(e->tab, t.tab, 2048); }
  P.table[i] = e; P.count++;
  return e;
}

Expr* mkConst(unsigned w, u128 v) {
  Expr t; memset(&t, 0, sizeof t); t.op = E_CONST; t.w = w; t.sv = -1; t.c = v & maskw(w); t.cleaf = 1;
  t.hash = hmix(hmix(hmix(17, w), (u64)t.c), (u64)(t.c >> 64));
  return intern(t);
}
Expr* mkVar(int i) {
  if (P.vars[i]) return P.vars[i];
  Expr t; memset(&t, 0, sizeof t); t.op = E_VAR; t.w = 8; t.sv = i; t.aux = i; t.vs.add(i); t.hash = hmix(91, i);
  return P.vars[i] = intern(t);
}
Expr* mkTableBits(int var, const u64* bits) {
  if (!(bits[0] | bits[1] | bits[2] | bits[3])) return mkConst(1, 0);
  if (!~(bits[0] & bits[1] & bits[2] & bits[3])) return mkConst(1, 1);
  Expr t; memset(&t, 0, sizeof t); t.op = E_TABLE; t.w = 1; t.sv = var; t.vs.add(var);
  u32 h = hmix(77, var); for (int i = 0; i < 4; i++) { t.bits[i] = bits[i]; h = hmix(h, bits[i]); } t.hash = h;
  return intern(t);
}
Expr* mkTable(int var, unsigned w, const u64* v) {
  if (w == 1) { u64 b[4] = {}; for (int i = 0; i < 256; i++) if (v[i]) b[i >> 6] |= 1ull << (i & 63); return mkTableBits(var, b); }
  bool cst = true, ident = w == 8;
  for (int i = 0; i < 256; i++) { if (v[i] != v[0]) cst = false; if (v[i] != (u64)i) ident = false; }
  if (cst) return mkConst(w, v[0]);
  if (ident) return mkVar(var);
  Expr t; memset(&t, 0, sizeof t); t.op = E_TABLE; t.w = w; t.sv = var; t.vs.add(var); t.tab = (u64*)v;
  u32 h = hmix(hmix(79, var), w); for (int i = 0; i < 256; i++) h = hmix(h, v[i]); t.hash = h;
  return intern(t);
}

void truthBits(Expr* e, u64 out[4]) {
  if (e->op == E_TABLE) { memcpy(out, e->bits, 32); return; }
  u64 v = e->op == E_CONST && e->c ? ~0ull : 0; for (int i = 0; i < 4; i++) out[i] = v;
}

static Expr* raw(u8 op, unsigned w, Expr* a, Expr* b, Expr* c, u32 aux) {
  Expr t; memset(&t, 0, sizeof t); t.op = op; t.w = w; t.aux = aux; t.k[0] = a; t.k[1] = b; t.k[2] = c;
  t.vs = a->vs; if (b) t.vs.merge(b->vs); if (c) t.vs.merge(c->vs);
  t.sv = t.vs.count() == 1 ? t.vs.first() : -1;
  u32 h = hmix(hmix(hmix(op, w), aux), a->id); if (b) h = hmix(h, b->id); if (c) h = hmix(h, c->id); t.hash = h;
  if (op == E_ITE && b->cleaf && c->cleaf) { u32 n = b->cleaf + c->cleaf; t.cleaf = n <= 64 ? n : 0; }
  return intern(t);
}

static u128 evalRec(Expr* e, const u8* model) {
  switch (e->op) {
    case E_CONST: return e->c;
    case E_VAR: return model[e->sv];
    case E_TABLE: return tabVal(e, model[e->sv]);
  }
  if (e->stamp == P.stamp) return e->memo;
  u128 r;
  if (e->op == E_ITE) r = evalRec(e->k[0], model) ? evalRec(e->k[1], model) : evalRec(e->k[2], model);
  else if (e->op == E_AND && e->w == 1) r = evalRec(e->k[0], model) ? evalRec(e->k[1], model) : 0;
  else if (e->op == E_OR && e->w == 1) r = evalRec(e->k[0], model) ? 1 : evalRec(e->k[1], model);
  else {
    u128 a = evalRec(e->k[0], model), b = e->k[1] ? evalRec(e->k[1], model) : 0;
    r = foldop(e->op, e->w, e->k[0]->w, a, b, 0, e->aux, e->k[1] ? e->k[1]->w : 0);
  }
  e->stamp = P.stamp; e->memo = r; return r;
}
u128 evalExpr(Expr* e, const u8* model) { P.stamp++; return evalRec(e, model); }

static Expr* tabulate(u8 op, unsigned w, Expr* a, Expr* b, Expr* c, u32 aux, int sv) {
  u64 v[256];
  auto simple = [](Expr* e) { return !e || e->op == E_CONST || e->op == E_VAR || e->op == E_TABLE; };
  bool s = simple(a) && simple(b) && simple(c);
  u8 model[MAXVARS]; if (!s) memset(model, 0, sizeof model);
  for (int x = 0; x < 256; x++) {
    u128 A, B = 0, C = 0;
    if (s) { A = isK(a) ? a->c : tabVal(a, x); if (b) B = isK(b) ? b->c : tabVal(b, x); if (c) C = isK(c) ? c->c : tabVal(c, x); }
    else { model[sv] = x; A = evalExpr(a, model); if (b) B = evalExpr(b, model); if (c) C = evalExpr(c, model); }
    v[x] = (u64)foldop(op, w, a->w, A, B, C, aux, b ? b->w : 0);
  }
  return mkTable(sv, w, v);
}

static bool isNotOf(Expr* a, Expr* b) { return (a->op == E_NOT && a->k[0] == b) || (b->op == E_NOT && b->k[0] == a); }

Expr* mkNot(Expr* a) { return mk(E_NOT, 1, a); }
Expr* mkAnd(Expr* a, Expr* b) { return mk(E_AND, a->w, a, b); }
Expr* mkOr(Expr* a, Expr* b) { return mk(E_OR, a->w, a, b); }
Expr* mkEq(Expr* a, Expr* b) { return mk(E_EQ, 1, a, b); }
Expr* mkExtract(Expr* a, unsigned lo, unsigned w) { if (lo == 0 && w == a->w) return a; return mk(E_EXTRACT, w, a, nullptr, nullptr, lo); }
Expr* mkConcat(Expr* h, Expr* l) { return mk(E_CONCAT, h->w + l->w, h, l); }
Expr* mkZext(Expr* a, unsigned w) {
  if (a->w == w) return a;
  if (w == 64 && a->op == E_VAR) { Expr*& z = P.zext64v[a->sv]; if (!z) z = mkConcat(mkConst(56, 0), a); return z; }
  return mkConcat(mkConst(w - a->w, 0), a);
}
Expr* mkSext(Expr* a, unsigned w) { if (a->w == w) return a; return mk(E_SEXT, w, a); }
Expr* mkIte(Expr* c, Expr* a, Expr* b) { return mk(E_ITE, a->w, c, a, b); }

// width of leading zero constant part
static unsigned zeroTop(Expr* e) { if (e->op == E_CONCAT && isK(e->k[0]) && e->k[0]->c == 0) return e->k[0]->w; return 0; }

Expr* mk(u8 op, unsigned w, Expr* a, Expr* b, Expr* c, u32 aux) {
  // constants
  if (isK(a) && (!b || isK(b)) && (!c || isK(c))) return mkConst(w, foldop(op, w, a->w, a->c, b ? b->c : 0, c ? c->c : 0, aux, b ? b->w : 0));
  // single variable => canonical table
  if (w <= 64) {
    VarSet vs = a->vs; if (b) vs.merge(b->vs); if (c) vs.merge(c->vs);
    if (vs.count() == 1) return tabulate(op, w, a, b, c, aux, vs.first());
  }
  // commutative normalisation: constant to the right
  if (op == E_ADD || op == E_MUL || op == E_AND || op == E_OR || op == E_XOR || op == E_EQ) {
    if (isK(a)) { Expr* t = a; a = b; b = t; }
    else if (!isK(b) && a->id > b->id) { Expr* t = a; a = b; b = t; }
  }
  switch (op) {
    case E_ADD:
      if (isK(b)) { if (b->c == 0) return a; if (a->op == E_ADD && isK(a->k[1])) return mk(E_ADD, w, a->k[0], mkConst(w, a->k[1]->c + b->c)); }
      break;
    case E_SUB:
      if (a == b) return mkConst(w, 0);
      if (isK(b)) return mk(E_ADD, w, a, mkConst(w, (u128)0 - b->c));
      break;
    case E_MUL:
      if (isK(b)) { if (b->c == 0) return b; if (b->c == 1) return a; u128 v = b->c; if ((v & (v - 1)) == 0) { unsigned s = 0; while ((v >> s) != 1) s++; return mk(E_SHL, w, a, mkConst(w, s)); } }
      break;
    case E_UDIV:
      if (isK(b) && b->c) { u128 v = b->c; if ((v & (v - 1)) == 0) { unsigned s = 0; while ((v >> s) != 1) s++; return mk(E_LSHR, w, a, mkConst(w, s)); } }
      break;
    case E_UREM:
      if (isK(b) && b->c) { u128 v = b->c; if ((v & (v - 1)) == 0) return mk(E_AND, w, a, mkConst(w, v - 1)); }
      break;
    case E_SHL:
      if (isK(b)) { if (b->c == 0) return a; if (b->c >= w) return mkConst(w, 0); unsigned s = (unsigned)b->c; return mkConcat(mkExtract(a, 0, w - s), mkConst(s, 0)); }
      if (isK(a) && a->c == 0) return a;
      break;
    case E_LSHR:
      if (isK(b)) { if (b->c == 0) return a; if (b->c >= w) return mkConst(w, 0); unsigned s = (unsigned)b->c; return mkConcat(mkConst(s, 0), mkExtract(a, s, w - s)); }
      if (isK(a) && a->c == 0) return a;
      break;
    case E_ASHR:
      if (isK(b)) { if (b->c == 0) return a; unsigned s = b->c >= w ? w - 1 : (unsigned)b->c; return mkSext(mkExtract(a, s, w - s), w); }
      break;
    case E_NOT:
      if (a->op == E_NOT) return a->k[0];
      break;
    case E_AND: case E_OR: case E_XOR: {
      if (a == b) return op == E_XOR ? mkConst(w, 0) : a;
      if (isK(b)) {
        if (b->c == 0) return op == E_AND ? b : a;
        if (b->c == maskw(w)) { if (op == E_AND) return a; if (op == E_OR) return b; if (w == 1) return mkNot(a); }
      }
      if (w == 1) {
        if (op != E_XOR && isNotOf(a, b)) return mkConst(1, op == E_OR);
        if (op == E_XOR) { /* keep */ }
        else {
          // absorb: a & (a & x), and single-var parts meet
          if (b->op == op && (b->k[0] == a || b->k[1] == a)) return b;
          if (a->op == op && (a->k[0] == b || a->k[1] == b)) return a;
          // combine single-var tables: t1 & (t2 & rest)
          for (int sw = 0; sw < 2; sw++) {
            Expr* t = sw ? b : a; Expr* o = sw ? a : b;
            if (t->op == E_TABLE && o->op == op) {
              for (int i = 0; i < 2; i++) if (o->k[i]->op == E_TABLE && o->k[i]->sv == t->sv) return mk(op, 1, mk(op, 1, t, o->k[i]), o->k[1 - i]);
            }
          }
        }
        break;
      }
      // bitwise distributes over concat
      if (a->op == E_CONCAT || b->op == E_CONCAT) {
        Expr* cc = a->op == E_CONCAT ? a : b; Expr* o = cc == a ? b : a;
        if (isK(o) || o->op == E_CONCAT || isK(cc->k[0]) || isK(cc->k[1])) {
          unsigned lw = cc->k[1]->w;
          return mkConcat(mk(op, w - lw, cc->k[0], mkExtract(o, lw, w - lw)), mk(op, lw, cc->k[1], mkExtract(o, 0, lw)));
        }
      }
      if (isK(b) && op != E_XOR) {
        // contiguous low/high masks on a non-concat
        u128 v = b->c; unsigned lo = 0; while (!((v >> lo) & 1)) lo++;
        unsigned hi = lo; while (hi < w && ((v >> hi) & 1)) hi++;
        if ((v >> hi) == 0 && op == E_AND) {  // single run [lo,hi)
          Expr* r = mkExtract(a, lo, hi - lo);
          if (hi < w) r = mkConcat(mkConst(w - hi, 0), r);
          if (lo) r = mkConcat(r, mkConst(lo, 0));
          return r;
        }
      }
      if (isK(b) && a->op == op && isK(a->k[1])) return mk(op, w, a->k[0], mkConst(w, foldop(op, w, w, a->k[1]->c, b->c, 0, 0, 0)));
      break;
    }
    case E_EQ:
      if (a == b) return mkConst(1, 1);
      if (a->w == 1) {
        if (isK(b)) return b->c ? a : mkNot(a);
        if (isNotOf(a, b)) return mkConst(1, 0);
        break;
      }
      if (a->op == E_CONCAT || b->op == E_CONCAT) {
        Expr* cc = a->op == E_CONCAT ? a : b; Expr* o = cc == a ? b : a; unsigned lw = cc->k[1]->w;
        return mkAnd(mkEq(cc->k[1], mkExtract(o, 0, lw)), mkEq(cc->k[0], mkExtract(o, lw, a->w - lw)));
      }
      if (isK(b)) {
        if (a->op == E_ADD && isK(a->k[1])) return mkEq(a->k[0], mkConst(a->w, b->c - a->k[1]->c));
        if (a->op == E_XOR && isK(a->k[1])) return mkEq(a->k[0], mkConst(a->w, b->c ^ a->k[1]->c));
        if (a->op == E_SUB && b->c == 0) return mkEq(a->k[0], a->k[1]);
        if (a->op == E_NOT) return mkEq(a->k[0], mkConst(a->w, ~b->c));
        if (a->op == E_SEXT) {
          unsigned kw = a->k[0]->w;
          if ((((u128)sextw(b->c & maskw(kw), kw)) & maskw(a->w)) == b->c) return mkEq(a->k[0], mkConst(kw, b->c));
          return mkConst(1, 0);
        }
        if (a->op == E_ITE && (isK(a->k[1]) || isK(a->k[2]) || a->cleaf)) return mkIte(a->k[0], mkEq(a->k[1], b), mkEq(a->k[2], b));
      }
      break;
    case E_ULT: {
      if (a == b) return mkConst(1, 0);
      if (isK(b) && b->c == 0) return mkConst(1, 0);
      if (isK(a) && a->c == maskw(a->w)) return mkConst(1, 0);
      if (isK(b) && b->c == 1) return mkEq(a, mkConst(a->w, 0));
      if (isK(a) && a->c == 0) return mkNot(mkEq(b, a));
      unsigned za = zeroTop(a), zb = zeroTop(b);
      if (za && isK(b)) { unsigned lw = a->w - za; if (b->c >> lw) return mkConst(1, 1); return mk(E_ULT, 1, a->k[1], mkConst(lw, b->c)); }
      if (zb && isK(a)) { unsigned lw = b->w - zb; if (a->c >> lw) return mkConst(1, 0); return mk(E_ULT, 1, mkConst(lw, a->c), b->k[1]); }
      if (za && zb) { unsigned z = za < zb ? za : zb; unsigned lw = a->w - z; return mk(E_ULT, 1, mkExtract(a, 0, lw), mkExtract(b, 0, lw)); }
      if (isK(b) && a->op == E_ITE && (isK(a->k[1]) || isK(a->k[2]) || a->cleaf)) return mkIte(a->k[0], mk(E_ULT, 1, a->k[1], b), mk(E_ULT, 1, a->k[2], b));
      if (isK(a) && b->op == E_ITE && (isK(b->k[1]) || isK(b->k[2]) || b->cleaf)) return mkIte(b->k[0], mk(E_ULT, 1, a, b->k[1]), mk(E_ULT, 1, a, b->k[2]));
      break;
    }
    case E_SLT: {
      if (a == b) return mkConst(1, 0);
      unsigned za = zeroTop(a), zb = zeroTop(b);
      bool na = za || (isK(a) && !((a->c >> (a->w - 1)) & 1)), nb = zb || (isK(b) && !((b->c >> (b->w - 1)) & 1));
      if (na && nb) return mk(E_ULT, 1, a, b);
      if (na && isK(b)) return mkConst(1, 0);   // nonneg < negative const
      if (nb && isK(a)) return mkConst(1, 1);
      if (isK(b) && a->op == E_ITE && (isK(a->k[1]) || isK(a->k[2]) || a->cleaf)) return mkIte(a->k[0], mk(E_SLT, 1, a->k[1], b), mk(E_SLT, 1, a->k[2], b));
      if (isK(a) && b->op == E_ITE && (isK(b->k[1]) || isK(b->k[2]) || b->cleaf)) return mkIte(b->k[0], mk(E_SLT, 1, a, b->k[1]), mk(E_SLT, 1, a, b->k[2]));
      if (isK(b) && b->c == 0) { Expr* top = mkExtract(a, a->w - 1, 1); return top; }
      break;
    }
    case E_EXTRACT: {
      unsigned lo = aux;
      if (lo == 0 && w == a->w) return a;
      switch (a->op) {
        case E_EXTRACT: return mkExtract(a->k[0], lo + a->aux, w);
        case E_CONCAT: {
          unsigned lw = a->k[1]->w;
          if (lo >= lw) return mkExtract(a->k[0], lo - lw, w);
          if (lo + w <= lw) return mkExtract(a->k[1], lo, w);
          return mkConcat(mkExtract(a->k[0], 0, lo + w - lw), mkExtract(a->k[1], lo, lw - lo));
        }
        case E_SEXT: {
          unsigned kw = a->k[0]->w;
          if (lo + w <= kw) return mkExtract(a->k[0], lo, w);
          if (lo < kw) return mkSext(mkExtract(a->k[0], lo, kw - lo), w);
          return mkSext(mkExtract(a->k[0], kw - 1, 1), w);
        }
        case E_ITE: return mkIte(a->k[0], mkExtract(a->k[1], lo, w), mkExtract(a->k[2], lo, w));
        case E_AND: case E_OR: case E_XOR: return mk(a->op, w, mkExtract(a->k[0], lo, w), mkExtract(a->k[1], lo, w));
        case E_NOT: return mk(E_NOT, w, mkExtract(a->k[0], lo, w));
        case E_ADD: case E_SUB: case E_MUL: if (lo == 0) return mk(a->op, w, mkExtract(a->k[0], 0, w), mkExtract(a->k[1], 0, w)); break;
      }
      break;
    }
    case E_CONCAT: {
      if (a->op == E_CONCAT) return mkConcat(a->k[0], mkConcat(a->k[1], b));  // right-nested
      Expr* h = b->op == E_CONCAT ? b->k[0] : b;   // neighbour of a
      Expr* rest = b->op == E_CONCAT ? b->k[1] : nullptr;
      Expr* m = nullptr;
      if (isK(a) && isK(h) && a->w + h->w <= 128) m = mkConst(a->w + h->w, (a->c << h->w) | h->c);
      else {
        Expr *ab = a, *hb = h; unsigned alo = 0, hlo = 0;
        if (a->op == E_EXTRACT) { ab = a->k[0]; alo = a->aux; }
        if (h->op == E_EXTRACT) { hb = h->k[0]; hlo = h->aux; }
        if (ab == hb && a->op == E_EXTRACT && alo == hlo + h->w) m = mkExtract(ab, hlo, a->w + h->w);
      }
      // byte pieces of one single-var table recombine through tabulate (vs count 1, w<=64)
      if (!m && a->sv >= 0 && a->sv == h->sv && a->w + h->w <= 64) m = mkConcat(a, h);
      if (m) return rest ? mkConcat(m, rest) : m;
      break;
    }
    case E_SEXT:
      if (a->w == 1) return mkIte(a, mkConst(w, maskw(w)), mkConst(w, 0));
      if (zeroTop(a)) return mkZext(a, w);
      if (a->op == E_SEXT) return mkSext(a->k[0], w);
      if (a->op == E_ITE && a->cleaf) return mkIte(a->k[0], mkSext(a->k[1], w), mkSext(a->k[2], w));
      break;
    case E_ITE:
      if (isK(a)) return a->c ? b : c;
      if (b == c) return b;
      if (a->op == E_NOT) return mkIte(a->k[0], c, b);
      if (w == 1) {
        if (isK(b)) return b->c ? mkOr(a, c) : mkAnd(mkNot(a), c);
        if (isK(c)) return c->c ? mkOr(mkNot(a), b) : mkAnd(a, b);
        if (b == a) return mkOr(a, c);
        if (c == a) return mkAnd(a, b);
      }
      if (b->op == E_ITE && b->k[0] == a) return mkIte(a, b->k[1], c);
      if (c->op == E_ITE && c->k[0] == a) return mkIte(a, b, c->k[2]);
      break;
  }
  // push operations with one constant side into ITE trees of constants
  if (b && !c && op != E_EQ && op != E_ULT && op != E_SLT && op != E_CONCAT && w > 1) {
    if (a->op == E_ITE && a->cleaf && isK(b)) return mkIte(a->k[0], mk(op, w, a->k[1], b), mk(op, w, a->k[2], b));
    if (b->op == E_ITE && b->cleaf && isK(a)) return mkIte(b->k[0], mk(op, w, a, b->k[1]), mk(op, w, a, b->k[2]));
  }
  if (op == E_CONCAT && a->op == E_CONST && b->op == E_ITE && b->cleaf) return mkIte(b->k[0], mkConcat(a, b->k[1]), mkConcat(a, b->k[2]));
  return raw(op, w, a, b, c, aux);
}
