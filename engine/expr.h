// Expression DAG (hash-consed bit-vector terms) and its translation to z3.
#pragma once
#include <cstdint>
#include <cstring>
#include <cmath>
#include <vector>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <memory>
#include <algorithm>
#include <chrono>
#include <z3.h>

typedef unsigned __int128 u128;
typedef __int128 i128;
typedef uint64_t u64;
typedef int64_t i64;
typedef uint32_t u32;

enum Op : uint8_t {
  O_CONST, O_VAR, O_ADD, O_SUB, O_MUL, O_UDIV, O_SDIV, O_UREM, O_SREM,
  O_AND, O_OR, O_XOR, O_SHL, O_LSHR, O_ASHR,
  O_EQ, O_ULT, O_ULE, O_SLT, O_SLE, O_ITE, O_CONCAT, O_EXTRACT, O_ZEXT, O_SEXT,
  O_FADD, O_FSUB, O_FMUL, O_FDIV, O_FEQ, O_FLT, O_FLE, O_FUNO,
  O_SITOFP, O_UITOFP, O_FPTOSI, O_FPTOUI, O_FPEXT, O_FPTRUNC,
  O_AGG
};

struct Node;
typedef std::vector<u64> VarSet;  // bitset over var ids

struct Val {
  const Node* n;  // null => concrete constant c (width <= 64)
  u64 c;
  uint32_t w;
  Val() : n(nullptr), c(0), w(0) {}
  Val(u64 v, uint32_t width) : n(nullptr), c(width >= 64 ? v : (v & ((1ULL << width) - 1))), w(width) {}
  bool isC() const { return n == nullptr; }
};

struct Node {
  Op op; uint16_t w; uint32_t id;
  const Node *a, *b, *c;
  u128 k;
  mutable VarSet* vs;
  mutable uint32_t stamp; mutable u128 cache;
  mutable Z3_ast bv; mutable Z3_ast bo;
  std::vector<Val>* agg;
  uint32_t depth;
};

static inline u128 maskw(uint32_t w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
static inline i128 sx128(u128 v, uint32_t w) { if (w >= 128) return (i128)v; u128 m = (u128)1 << (w - 1); v &= maskw(w); return (i128)((v ^ m)) - (i128)m; }

struct NodeHash { size_t operator()(const Node* n) const {
  u64 h = n->op * 1000003ULL + n->w; auto mix = [&](u64 x) { h ^= x + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2); };
  mix((u64)n->a >> 4); mix((u64)n->b >> 4); mix((u64)n->c >> 4); mix((u64)n->k); mix((u64)(n->k >> 64)); return h; } };
struct NodeEq { bool operator()(const Node* x, const Node* y) const { return x->op == y->op && x->w == y->w && x->a == y->a && x->b == y->b && x->c == y->c && x->k == y->k; } };

struct VarInfo { std::string name; uint32_t w; const Node* node; };

struct Exprs {
  std::unordered_set<const Node*, NodeHash, NodeEq> tab;
  std::vector<VarInfo> vars;
  uint32_t nextId = 1, epoch = 0;
  VarSet emptySet;

  const Node* intern(Op op, uint32_t w, const Node* a, const Node* b, const Node* c, u128 k) {
    Node t; t.op = op; t.w = w; t.a = a; t.b = b; t.c = c; t.k = k;
    auto it = tab.find(&t);
    if (it != tab.end()) return *it;
    Node* n = new Node(t); n->id = nextId++; n->vs = nullptr; n->stamp = 0; n->bv = n->bo = nullptr; n->agg = nullptr;
    uint32_t d = 0; if (a) d = std::max(d, a->depth); if (b) d = std::max(d, b->depth); if (c) d = std::max(d, c->depth); n->depth = d + 1;
    tab.insert(n); return n;
  }
  const Node* K(u128 v, uint32_t w) { return intern(O_CONST, w, 0, 0, 0, v & maskw(w)); }
  const Node* var(const std::string& name, uint32_t w) {
    uint32_t id = vars.size();
    const Node* n = intern(O_VAR, w, 0, 0, 0, id);
    vars.push_back({name, w, n}); return n;
  }
  static bool isK(const Node* n) { return n->op == O_CONST; }
  const Node* node(const Val& v) { return v.n ? v.n : K(v.c, v.w); }
  Val val(const Node* n) { if (n->op == O_CONST && n->w <= 64) return Val((u64)n->k, n->w); Val r; r.n = n; r.w = n->w; return r; }

  const VarSet& vset(const Node* n) {
    if (n->vs) return *n->vs;
    if (n->op == O_CONST) { n->vs = &emptySet; return emptySet; }
    VarSet* s = new VarSet();
    if (n->op == O_VAR) { u64 id = (u64)n->k; s->resize(id / 64 + 1); (*s)[id / 64] |= 1ULL << (id % 64); }
    else for (const Node* ch : {n->a, n->b, n->c}) if (ch) { const VarSet& o = vset(ch); if (o.size() > s->size()) s->resize(o.size()); for (size_t i = 0; i < o.size(); i++) (*s)[i] |= o[i]; }
    // share with a child when equal
    for (const Node* ch : {n->a, n->b, n->c}) if (ch && ch->vs && *ch->vs == *s) { delete s; n->vs = ch->vs; return *n->vs; }
    n->vs = s; return *s;
  }

  // ---------- concrete semantics ----------
  static double asD(u128 v) { u64 x = (u64)v; double d; memcpy(&d, &x, 8); return d; }
  static float asF(u128 v) { uint32_t x = (uint32_t)v; float d; memcpy(&d, &x, 4); return d; }
  static u128 fromD(double d) { u64 x; memcpy(&x, &d, 8); return x; }
  static u128 fromF(float d) { uint32_t x; memcpy(&x, &d, 4); return x; }
  static u128 evalOp(Op op, uint32_t w, u128 a, u128 b, u128 c, uint32_t aw, uint32_t bw, u128 k) {
    u128 m = maskw(w);
    switch (op) {
      case O_ADD: return (a + b) & m; case O_SUB: return (a - b) & m; case O_MUL: return (a * b) & m;
      case O_UDIV: return b ? a / b : m; case O_UREM: return b ? a % b : a;
      case O_SDIV: { i128 x = sx128(a, w), y = sx128(b, w); if (!y) return (x < 0 ? 1 : m); return (u128)(x / y) & m; }
      case O_SREM: { i128 x = sx128(a, w), y = sx128(b, w); if (!y) return a; return (u128)(x % y) & m; }
      case O_AND: return a & b; case O_OR: return a | b; case O_XOR: return a ^ b;
      case O_SHL: return b >= w ? 0 : (a << (unsigned)b) & m;
      case O_LSHR: return b >= w ? 0 : a >> (unsigned)b;
      case O_ASHR: return (u128)(sx128(a, w) >> (unsigned)(b >= w ? w - 1 : b)) & m;
      case O_EQ: return a == b; case O_ULT: return a < b; case O_ULE: return a <= b;
      case O_SLT: return sx128(a, aw) < sx128(b, aw); case O_SLE: return sx128(a, aw) <= sx128(b, aw);
      case O_ITE: return a ? b : c;
      case O_CONCAT: return ((a << bw) | b) & m;
      case O_EXTRACT: return (a >> (unsigned)k) & m;
      case O_ZEXT: return a; case O_SEXT: return (u128)sx128(a, aw) & m;
      case O_FADD: return w == 64 ? fromD(asD(a) + asD(b)) : fromF(asF(a) + asF(b));
      case O_FSUB: return w == 64 ? fromD(asD(a) - asD(b)) : fromF(asF(a) - asF(b));
      case O_FMUL: return w == 64 ? fromD(asD(a) * asD(b)) : fromF(asF(a) * asF(b));
      case O_FDIV: return w == 64 ? fromD(asD(a) / asD(b)) : fromF(asF(a) / asF(b));
      case O_FEQ: return aw == 64 ? asD(a) == asD(b) : asF(a) == asF(b);
      case O_FLT: return aw == 64 ? asD(a) < asD(b) : asF(a) < asF(b);
      case O_FLE: return aw == 64 ? asD(a) <= asD(b) : asF(a) <= asF(b);
      case O_FUNO: return aw == 64 ? (std::isnan(asD(a)) || std::isnan(asD(b))) : (std::isnan(asF(a)) || std::isnan(asF(b)));
      case O_SITOFP: return w == 64 ? fromD((double)(i64)sx128(a, aw)) : fromF((float)(i64)sx128(a, aw));
      case O_UITOFP: return w == 64 ? fromD((double)(u64)a) : fromF((float)(u64)a);
      case O_FPTOSI: { double d = aw == 64 ? asD(a) : asF(a); if (!(d > -9.3e18 && d < 9.3e18)) return ((u128)1 << (w - 1)); return (u128)(i128)d & m; }
      case O_FPTOUI: { double d = aw == 64 ? asD(a) : asF(a); if (!(d > -1 && d < 1.9e19)) return 0; return (u128)d & m; }
      case O_FPEXT: return fromD((double)asF(a));
      case O_FPTRUNC: return fromF((float)asD(a));
      default: return 0;
    }
  }
  u128 eval(const Node* n, const std::vector<u64>& model) { ++epoch; return ev(n, model); }
  u128 ev(const Node* n, const std::vector<u64>& model) {
    if (n->op == O_CONST) return n->k;
    if (n->op == O_VAR) { u64 id = (u64)n->k; return id < model.size() ? (u128)model[id] & maskw(n->w) : 0; }
    if (n->stamp == epoch) return n->cache;
    u128 r;
    if (n->op == O_ITE) r = ev(n->a, model) ? ev(n->b, model) : ev(n->c, model);
    else {
      u128 a = n->a ? ev(n->a, model) : 0, b = n->b ? ev(n->b, model) : 0;
      r = evalOp(n->op, n->w, a, b, 0, n->a ? n->a->w : 0, n->b ? n->b->w : 0, n->k);
    }
    n->stamp = epoch; n->cache = r; return r;
  }

  // ---------- smart constructors ----------
  const Node* mkNot(const Node* a) { return mk(O_XOR, 1, a, K(1, 1)); }
  const Node* mkExtract(const Node* a, uint32_t lo, uint32_t w) {
    if (lo == 0 && w == a->w) return a;
    if (isK(a)) return K(a->k >> lo, w);
    switch (a->op) {
      case O_EXTRACT: return mkExtract(a->a, lo + (uint32_t)a->k, w);
      case O_CONCAT: { uint32_t lw = a->b->w; if (lo + w <= lw) return mkExtract(a->b, lo, w); if (lo >= lw) return mkExtract(a->a, lo - lw, w);
        return mkConcat(mkExtract(a->a, 0, lo + w - lw), mkExtract(a->b, lo, lw - lo)); }
      case O_ZEXT: { uint32_t iw = a->a->w; if (lo + w <= iw) return mkExtract(a->a, lo, w); if (lo >= iw) return K(0, w); return mkZext(mkExtract(a->a, lo, iw - lo), w); }
      case O_SEXT: { uint32_t iw = a->a->w; if (lo + w <= iw) return mkExtract(a->a, lo, w); break; }
      case O_AND: case O_OR: case O_XOR: if (isK(a->b)) return mk(a->op, w, mkExtract(a->a, lo, w), mkExtract(a->b, lo, w)); break;
      case O_ITE: if (isK(a->b) || isK(a->c)) return mk(O_ITE, w, a->a, mkExtract(a->b, lo, w), mkExtract(a->c, lo, w)); break;
      case O_SHL: if (isK(a->b)) { uint32_t s = (uint32_t)a->b->k; if (s < a->w) { if (lo >= s) { if (lo - s + w <= a->w - s) return mkExtract(a->a, lo - s, w); } else if (lo + w <= s) return K(0, w); } } break;
      case O_LSHR: if (isK(a->b)) { uint32_t s = (uint32_t)a->b->k; if (s < a->w && lo + s + w <= a->w) return mkExtract(a->a, lo + s, w); } break;
      case O_ADD: case O_SUB: case O_MUL: if (lo == 0 && (isK(a->a) || isK(a->b))) return mk(a->op, w, mkExtract(a->a, 0, w), mkExtract(a->b, 0, w)); break;
      default: break;
    }
    return intern(O_EXTRACT, w, a, 0, 0, lo);
  }
  const Node* mkZext(const Node* a, uint32_t w) {
    if (a->w == w) return a;
    if (isK(a)) return K(a->k, w);
    if (a->op == O_ZEXT) return mkZext(a->a, w);
    if (a->op == O_ITE && isK(a->b) && isK(a->c)) return mk(O_ITE, w, a->a, K(a->b->k, w), K(a->c->k, w));
    return intern(O_ZEXT, w, a, 0, 0, 0);
  }
  const Node* mkSext(const Node* a, uint32_t w) {
    if (a->w == w) return a;
    if (isK(a)) return K((u128)sx128(a->k, a->w), w);
    if (a->op == O_ZEXT && a->a->w < a->w) return mkZext(a->a, w);
    if (a->op == O_SEXT) return mkSext(a->a, w);
    if (a->op == O_ITE && isK(a->b) && isK(a->c)) return mk(O_ITE, w, a->a, mkSext(a->b, w), mkSext(a->c, w));
    return intern(O_SEXT, w, a, 0, 0, 0);
  }
  const Node* mkConcat(const Node* hi, const Node* lo) {
    uint32_t w = hi->w + lo->w;
    if (isK(hi) && isK(lo)) return K((hi->k << lo->w) | lo->k, w);
    if (hi->op == O_EXTRACT && lo->op == O_EXTRACT && hi->a == lo->a && (u64)hi->k == (u64)lo->k + lo->w) return mkExtract(hi->a, (uint32_t)lo->k, w);
    if (isK(hi) && hi->k == 0) return mkZext(lo, w);
    if (hi->op == O_ZEXT) return mkZext(mkConcat(hi->a, lo), w);
    if (lo->op == O_EXTRACT && hi->op == O_CONCAT && hi->b->op == O_EXTRACT && hi->b->a == lo->a && (u64)hi->b->k == (u64)lo->k + lo->w)
      return mkConcat(hi->a, mkExtract(lo->a, (uint32_t)lo->k, hi->b->w + lo->w));
    // hi part extracted from something whose low part is exactly lo
    if (hi->op == O_EXTRACT && (u64)hi->k == lo->w && hi->a->op == O_ZEXT && hi->a->a == lo) return mkZext(lo, w);
    return intern(O_CONCAT, w, hi, lo, 0, 0);
  }
  const Node* mk(Op op, uint32_t w, const Node* a, const Node* b, const Node* c = nullptr) {
    bool ka = isK(a), kb = b && isK(b), kc = c && isK(c);
    if (op == O_ITE) {
      if (ka) return a->k ? b : c;
      if (b == c) return b;
      if (w == 1 && kb && kc) return b->k ? a : mkNot(a);
      if (a->op == O_XOR && isK(a->b)) return mk(O_ITE, w, a->a, c, b);
      if (w == 1) { if (kb) return b->k ? mk(O_OR, 1, a, c) : mk(O_AND, 1, mkNot(a), c); if (kc) return c->k ? mk(O_OR, 1, mkNot(a), b) : mk(O_AND, 1, a, b); }
      return intern(O_ITE, w, a, b, c, 0);
    }
    if (ka && (!b || kb)) return K(evalOp(op, w, a->k, b ? b->k : 0, 0, a->w, b ? b->w : 0, 0), w);
    u128 m = maskw(w);
    switch (op) {
      case O_ADD: if (ka) std::swap(a, b), std::swap(ka, kb);
        if (kb && b->k == 0) return a;
        if (kb && a->op == O_ADD && isK(a->b)) return mk(O_ADD, w, a->a, K(a->b->k + b->k, w));
        if (!kb && a->op == O_ADD && isK(a->b)) return mk(O_ADD, w, mk(O_ADD, w, a->a, b), a->b);
        if (!kb && b->op == O_ADD && isK(b->b)) return mk(O_ADD, w, mk(O_ADD, w, a, b->a), b->b);
        if (!kb && a->op == O_SUB && a->b == b) return a->a;
        if (!kb && b->op == O_SUB && b->b == a) return b->a;
        break;
      case O_SUB: if (kb) return mk(O_ADD, w, a, K((~b->k + 1) & m, w));
        if (a == b) return K(0, w);
        if (a->op == O_ADD && isK(a->b)) return mk(O_ADD, w, mk(O_SUB, w, a->a, b), a->b);
        if (b->op == O_ADD && isK(b->b)) return mk(O_ADD, w, mk(O_SUB, w, a, b->a), K((~b->b->k + 1) & m, w));
        if (a->op == O_ADD && a->a == b) return a->b; if (a->op == O_ADD && a->b == b) return a->a;
        if (b->op == O_ADD && b->a == a) return mk(O_SUB, w, K(0, w), b->b);
        break;
      case O_MUL: if (ka) std::swap(a, b), std::swap(ka, kb);
        if (kb) { if (b->k == 0) return b; if (b->k == 1) return a;
          for (uint32_t s = 1; s < w; s++) if (b->k == ((u128)1 << s)) return mk(O_SHL, w, a, K(s, w)); }
        break;
      case O_UDIV: if (kb && b->k == 1) return a;
        if (kb) for (uint32_t s = 1; s < w; s++) if (b->k == ((u128)1 << s)) return mk(O_LSHR, w, a, K(s, w));
        break;
      case O_UREM: if (kb) for (uint32_t s = 0; s < w; s++) if (b->k == ((u128)1 << s)) return s == 0 ? K(0, w) : mkZext(mkExtract(a, 0, s), w); break;
      case O_SDIV: if (kb && b->k == 1) return a; break;
      case O_AND: if (ka) std::swap(a, b), std::swap(ka, kb);
        if (kb) { if (b->k == 0) return b; if (b->k == m) return a;
          if (a->op == O_AND && isK(a->b)) return mk(O_AND, w, a->a, K(a->b->k & b->k, w));
          // low mask -> zext(extract)
          for (uint32_t s = 1; s < w; s++) if (b->k == maskw(s)) return mkZext(mkExtract(a, 0, s), w);
          if (a->op == O_ZEXT && w <= 64) { u128 im = maskw(a->a->w); if ((b->k & im) != b->k) return mk(O_AND, w, a, K(b->k & im, w)); }
          if (a->op == O_ZEXT) return mkZext(mk(O_AND, a->a->w, a->a, K(b->k, a->a->w)), w);
        }
        if (a == b) return a;
        if (w == 1 && !kb) { if (a == mkNot(b)) return K(0, 1); }
        break;
      case O_OR: if (ka) std::swap(a, b), std::swap(ka, kb);
        if (kb) { if (b->k == 0) return a; if (b->k == m) return b; }
        if (a == b) return a;
        if (w == 1 && !kb && a == mkNot(b)) return K(1, 1);
        // disjoint or -> concat:  zext(lo) | (shl (zext hi) k)
        if (!kb) for (int t = 0; t < 2; t++) { const Node *x = t ? b : a, *y = t ? a : b;
            if (x->op == O_ZEXT && y->op == O_SHL && isK(y->b) && y->b->k >= x->a->w && y->b->k < w) { uint32_t s = (uint32_t)y->b->k;
              return mkConcat(mkExtract(y->a, 0, w - s), mkZext(x->a, s)); }
            if (x->op == O_ZEXT && y->op == O_CONCAT && isK(y->b) && y->b->k == 0 && y->b->w >= x->a->w) return mkConcat(y->a, mkZext(x->a, y->b->w));
          }
        break;
      case O_XOR: if (ka) std::swap(a, b), std::swap(ka, kb);
        if (kb && b->k == 0) return a; if (a == b) return K(0, w);
        if (kb && a->op == O_XOR && isK(a->b)) return mk(O_XOR, w, a->a, K(a->b->k ^ b->k, w));
        break;
      case O_SHL: if (kb) { if (b->k == 0) return a; if (b->k >= w) return K(0, w);
          if (a->op == O_SHL && isK(a->b)) { u128 s = a->b->k + b->k; return s >= w ? K(0, w) : mk(O_SHL, w, a->a, K(s, w)); } } break;
      case O_LSHR: if (kb) { if (b->k == 0) return a; if (b->k >= w) return K(0, w); uint32_t s = (uint32_t)b->k; return mkZext(mkExtract(a, s, w - s), w); } break;
      case O_ASHR: if (kb) { if (b->k == 0) return a; uint32_t s = b->k >= w ? w - 1 : (uint32_t)b->k; return mkSext(mkExtract(a, s, w - s), w); } break;
      case O_EQ:
        if (a == b) return K(1, 1);
        if (ka) std::swap(a, b), std::swap(ka, kb);
        if (kb) {
          if (a->w == 1) return b->k ? a : mkNot(a);
          if (a->op == O_ZEXT) { if (b->k > maskw(a->a->w)) return K(0, 1); return mk(O_EQ, 1, a->a, K(b->k, a->a->w)); }
          if (a->op == O_SEXT) { u128 lo = b->k & maskw(a->a->w); if (((u128)sx128(lo, a->a->w) & maskw(a->w)) != b->k) return K(0, 1); return mk(O_EQ, 1, a->a, K(lo, a->a->w)); }
          if (a->op == O_ITE && (isK(a->b) || isK(a->c))) return mk(O_ITE, 1, a->a, mk(O_EQ, 1, a->b, b), mk(O_EQ, 1, a->c, b));
          if (a->op == O_ADD && isK(a->b)) return mk(O_EQ, 1, a->a, K(b->k - a->b->k, a->w));
          if (a->op == O_XOR && isK(a->b)) return mk(O_EQ, 1, a->a, K(b->k ^ a->b->k, a->w));
          if (a->op == O_CONCAT) return mk(O_AND, 1, mk(O_EQ, 1, a->a, K(b->k >> a->b->w, a->a->w)), mk(O_EQ, 1, a->b, K(b->k, a->b->w)));
        } else {
          if (a->op == O_ZEXT && b->op == O_ZEXT && a->a->w == b->a->w) return mk(O_EQ, 1, a->a, b->a);
          if (a->op == O_ZEXT && b->op == O_ZEXT) { uint32_t mw = std::max(a->a->w, b->a->w); return mk(O_EQ, 1, mkZext(a->a, mw), mkZext(b->a, mw)); }
          if (a->op == O_ADD && b->op == O_ADD && isK(a->b) && a->b == b->b) return mk(O_EQ, 1, a->a, b->a);
          if (a->op == O_ADD && a->a == b) return mk(O_EQ, 1, a->b, K(0, a->w));
          if (b->op == O_ADD && b->a == a) return mk(O_EQ, 1, b->b, K(0, a->w));
          if (a->w == 1) return mkNot(mk(O_XOR, 1, a, b));
          if (a->id > b->id) std::swap(a, b);
        }
        break;
      case O_ULT: if (a == b) return K(0, 1); if (kb && b->k == 0) return K(0, 1); if (ka && a->k == maskw(a->w)) return K(0, 1);
        if (kb && b->k == 1) return mk(O_EQ, 1, a, K(0, a->w));
        if (a->op == O_ZEXT && kb) { if (b->k > maskw(a->a->w)) return K(1, 1); return mk(O_ULT, 1, a->a, K(b->k, a->a->w)); }
        if (b->op == O_ZEXT && ka) { if (a->k >= maskw(b->a->w)) return K(0, 1); return mk(O_ULT, 1, K(a->k, b->a->w), b->a); }
        if (a->op == O_ZEXT && b->op == O_ZEXT) { uint32_t mw = std::max(a->a->w, b->a->w); if (mw < a->w) return mk(O_ULT, 1, mkZext(a->a, mw), mkZext(b->a, mw)); }
        if (a->op == O_ITE && kb && (isK(a->b) && isK(a->c))) return mk(O_ITE, 1, a->a, mk(O_ULT, 1, a->b, b), mk(O_ULT, 1, a->c, b));
        break;
      case O_ULE: return mkNot(mk(O_ULT, 1, b, a));
      case O_SLT: if (a == b) return K(0, 1);
        if (a->op == O_ZEXT && kb) { if (sx128(b->k, a->w) <= 0) return K(0, 1); return mk(O_ULT, 1, a, b); }
        if (b->op == O_ZEXT && ka) { if (sx128(a->k, b->w) < 0) return K(1, 1); return mk(O_ULT, 1, a, b); }
        if (a->op == O_ZEXT && b->op == O_ZEXT) return mk(O_ULT, 1, a, b);
        if (a->op == O_SEXT && b->op == O_SEXT && a->a->w == b->a->w) return mk(O_SLT, 1, a->a, b->a);
        if (a->op == O_SEXT && kb) { u128 lo = b->k & maskw(a->a->w); if (((u128)sx128(lo, a->a->w) & maskw(a->w)) == b->k) return mk(O_SLT, 1, a->a, K(lo, a->a->w)); return K(sx128(b->k, a->w) > 0, 1); }
        if (a->op == O_ITE && kb && (isK(a->b) && isK(a->c))) return mk(O_ITE, 1, a->a, mk(O_SLT, 1, a->b, b), mk(O_SLT, 1, a->c, b));
        break;
      case O_SLE: return mkNot(mk(O_SLT, 1, b, a));
      default: break;
    }
    return intern(op, w, a, b, c, 0);
  }
  // Val-level helpers
  Val bin(Op op, const Val& a, const Val& b, uint32_t w) {
    if (!a.n && !b.n) {
      u64 m = a.w >= 64 ? ~0ULL : ((1ULL << a.w) - 1);
      switch (op) {
        case O_ADD: return Val((a.c + b.c) & m, w); case O_SUB: return Val((a.c - b.c) & m, w); case O_MUL: return Val((a.c * b.c) & m, w);
        case O_AND: return Val(a.c & b.c, w); case O_OR: return Val(a.c | b.c, w); case O_XOR: return Val(a.c ^ b.c, w);
        case O_EQ: return Val(a.c == b.c, 1); case O_ULT: return Val(a.c < b.c, 1); case O_ULE: return Val(a.c <= b.c, 1);
        default: return Val((u64)evalOp(op, w, a.c, b.c, 0, a.w, b.w, 0), w);
      }
    }
    return val(mk(op, w, node(a), node(b)));
  }
  Val notv(const Val& a) { return a.n ? val(mkNot(a.n)) : Val(!a.c, 1); }
  Val extract(const Val& a, uint32_t lo, uint32_t w) { return a.n ? val(mkExtract(a.n, lo, w)) : Val(a.c >> lo, w); }
  Val zext(const Val& a, uint32_t w) { if (!a.n && w <= 64) return Val(a.c, w); return val(mkZext(node(a), w)); }
  Val sext(const Val& a, uint32_t w) { if (!a.n && w <= 64) return Val((u64)sx128(a.c, a.w), w); return val(mkSext(node(a), w)); }
  Val ite(const Val& c, const Val& a, const Val& b) { if (!c.n) return c.c ? a : b; return val(mk(O_ITE, a.w, c.n, node(a), node(b))); }
};

extern Exprs E;

// ---------------- z3 ----------------
struct Solver {
  Z3_context ctx; Z3_solver s; unsigned timeoutMs;
  u64 queries = 0, cacheHits = 0, unknowns = 0, sat = 0, unsat = 0; double time = 0, maxTime = 0;
  struct VH { size_t operator()(const std::vector<uint32_t>& v) const { size_t h = 0; for (auto x : v) h = h * 1000003 + x; return h; } };
  struct Res { int r; std::vector<std::pair<uint32_t, u64>> m; };
  std::unordered_map<std::vector<uint32_t>, Res, VH> cache;
  Solver(unsigned tmo) : timeoutMs(tmo) {
    Z3_config cfg = Z3_mk_config(); ctx = Z3_mk_context_rc(cfg); Z3_del_config(cfg);
    Z3_set_error_handler(ctx, nullptr);
    s = Z3_mk_simple_solver(ctx); Z3_solver_inc_ref(ctx, s);
    Z3_params p = Z3_mk_params(ctx); Z3_params_inc_ref(ctx, p);
    Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), tmo);
    Z3_solver_set_params(ctx, s, p); Z3_params_dec_ref(ctx, p);
  }
  Z3_ast hold(Z3_ast a) { Z3_inc_ref(ctx, a); return a; }
  std::unordered_map<unsigned, Z3_sort> sorts;
  Z3_sort bvs(unsigned w) { Z3_sort& r = sorts[w]; if (!r) { r = Z3_mk_bv_sort(ctx, w); Z3_inc_ref(ctx, Z3_sort_to_ast(ctx, r)); } return r; }
  Z3_ast num(u128 v, unsigned w) {
    if (w <= 64) return hold(Z3_mk_unsigned_int64(ctx, (u64)v, bvs(w)));
    Z3_ast hi = hold(Z3_mk_unsigned_int64(ctx, (u64)(v >> 64), bvs(w - 64))), lo = hold(Z3_mk_unsigned_int64(ctx, (u64)v, bvs(64))); return hold(Z3_mk_concat(ctx, hi, lo));
  }
  Z3_sort fps(unsigned w) { Z3_sort& r = sorts[w + 1000]; if (!r) { r = w == 64 ? Z3_mk_fpa_sort_64(ctx) : Z3_mk_fpa_sort_32(ctx); Z3_inc_ref(ctx, Z3_sort_to_ast(ctx, r)); } return r; }
  Z3_ast rne() { return hold(Z3_mk_fpa_rne(ctx)); } Z3_ast rtz() { return hold(Z3_mk_fpa_rtz(ctx)); }
  Z3_ast fp(const Node* n) { return hold(Z3_mk_fpa_to_fp_bv(ctx, bv(n), fps(n->w))); }
  Z3_ast bo(const Node* n) {  // as Bool, n->w==1
    if (n->bo) return n->bo;
    Z3_ast r;
    switch (n->op) {
      case O_CONST: r = n->k ? Z3_mk_true(ctx) : Z3_mk_false(ctx); break;
      case O_EQ: r = Z3_mk_eq(ctx, bv(n->a), bv(n->b)); break;
      case O_ULT: r = Z3_mk_bvult(ctx, bv(n->a), bv(n->b)); break;
      case O_SLT: r = Z3_mk_bvslt(ctx, bv(n->a), bv(n->b)); break;
      case O_AND: { Z3_ast x[2] = {bo(n->a), bo(n->b)}; r = Z3_mk_and(ctx, 2, x); break; }
      case O_OR: { Z3_ast x[2] = {bo(n->a), bo(n->b)}; r = Z3_mk_or(ctx, 2, x); break; }
      case O_XOR: if (Exprs::isK(n->b)) r = Z3_mk_not(ctx, bo(n->a)); else r = Z3_mk_xor(ctx, bo(n->a), bo(n->b)); break;
      case O_ITE: r = Z3_mk_ite(ctx, bo(n->a), bo(n->b), bo(n->c)); break;
      case O_FEQ: r = Z3_mk_fpa_eq(ctx, fp(n->a), fp(n->b)); break;
      case O_FLT: r = Z3_mk_fpa_lt(ctx, fp(n->a), fp(n->b)); break;
      case O_FLE: r = Z3_mk_fpa_leq(ctx, fp(n->a), fp(n->b)); break;
      case O_FUNO: { Z3_ast x[2] = {hold(Z3_mk_fpa_is_nan(ctx, fp(n->a))), hold(Z3_mk_fpa_is_nan(ctx, fp(n->b)))}; r = Z3_mk_or(ctx, 2, x); break; }
      default: r = Z3_mk_eq(ctx, bv(n), num(1, 1));
    }
    return n->bo = hold(r);
  }
  Z3_ast bv(const Node* n) {
    if (n->bv) return n->bv;
    Z3_ast r;
    switch (n->op) {
      case O_CONST: r = num(n->k, n->w); break;
      case O_VAR: { char nm[32]; snprintf(nm, sizeof nm, "v%llu", (unsigned long long)n->k); r = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, nm), bvs(n->w)); break; }
      case O_ADD: r = Z3_mk_bvadd(ctx, bv(n->a), bv(n->b)); break; case O_SUB: r = Z3_mk_bvsub(ctx, bv(n->a), bv(n->b)); break;
      case O_MUL: r = Z3_mk_bvmul(ctx, bv(n->a), bv(n->b)); break; case O_UDIV: r = Z3_mk_bvudiv(ctx, bv(n->a), bv(n->b)); break;
      case O_SDIV: r = Z3_mk_bvsdiv(ctx, bv(n->a), bv(n->b)); break; case O_UREM: r = Z3_mk_bvurem(ctx, bv(n->a), bv(n->b)); break;
      case O_SREM: r = Z3_mk_bvsrem(ctx, bv(n->a), bv(n->b)); break;
      case O_SHL: r = Z3_mk_bvshl(ctx, bv(n->a), bv(n->b)); break; case O_LSHR: r = Z3_mk_bvlshr(ctx, bv(n->a), bv(n->b)); break;
      case O_ASHR: r = Z3_mk_bvashr(ctx, bv(n->a), bv(n->b)); break;
      case O_CONCAT: r = Z3_mk_concat(ctx, bv(n->a), bv(n->b)); break;
      case O_EXTRACT: r = Z3_mk_extract(ctx, (unsigned)n->k + n->w - 1, (unsigned)n->k, bv(n->a)); break;
      case O_ZEXT: r = Z3_mk_zero_ext(ctx, n->w - n->a->w, bv(n->a)); break;
      case O_SEXT: r = Z3_mk_sign_ext(ctx, n->w - n->a->w, bv(n->a)); break;
      case O_ITE: r = Z3_mk_ite(ctx, bo(n->a), bv(n->b), bv(n->c)); break;
      case O_FADD: r = Z3_mk_fpa_to_ieee_bv(ctx, hold(Z3_mk_fpa_add(ctx, rne(), fp(n->a), fp(n->b)))); break;
      case O_FSUB: r = Z3_mk_fpa_to_ieee_bv(ctx, hold(Z3_mk_fpa_sub(ctx, rne(), fp(n->a), fp(n->b)))); break;
      case O_FMUL: r = Z3_mk_fpa_to_ieee_bv(ctx, hold(Z3_mk_fpa_mul(ctx, rne(), fp(n->a), fp(n->b)))); break;
      case O_FDIV: r = Z3_mk_fpa_to_ieee_bv(ctx, hold(Z3_mk_fpa_div(ctx, rne(), fp(n->a), fp(n->b)))); break;
      case O_SITOFP: r = Z3_mk_fpa_to_ieee_bv(ctx, hold(Z3_mk_fpa_to_fp_signed(ctx, rne(), bv(n->a), fps(n->w)))); break;
      case O_UITOFP: r = Z3_mk_fpa_to_ieee_bv(ctx, hold(Z3_mk_fpa_to_fp_unsigned(ctx, rne(), bv(n->a), fps(n->w)))); break;
      case O_FPTOSI: r = Z3_mk_fpa_to_sbv(ctx, rtz(), fp(n->a), n->w); break;
      case O_FPTOUI: r = Z3_mk_fpa_to_ubv(ctx, rtz(), fp(n->a), n->w); break;
      case O_FPEXT: case O_FPTRUNC: r = Z3_mk_fpa_to_ieee_bv(ctx, hold(Z3_mk_fpa_to_fp_float(ctx, rne(), fp(n->a), fps(n->w)))); break;
      default:
        if (n->w == 1) { if (n->op == O_AND || n->op == O_OR || n->op == O_XOR) { /* fallthrough to bool */ }
          r = Z3_mk_ite(ctx, bo(n), num(1, 1), num(0, 1)); break; }
        if (n->op == O_AND) r = Z3_mk_bvand(ctx, bv(n->a), bv(n->b));
        else if (n->op == O_OR) r = Z3_mk_bvor(ctx, bv(n->a), bv(n->b));
        else if (n->op == O_XOR) r = Z3_mk_bvxor(ctx, bv(n->a), bv(n->b));
        else { fprintf(stderr, "bv: bad op %d\n", n->op); abort(); }
    }
    return n->bv = hold(r);
  }
  // returns 1 sat, 0 unsat, -1 unknown; fills m
  int check(std::vector<const Node*>& cs, std::vector<std::pair<uint32_t, u64>>& m) {
    std::vector<uint32_t> key; for (auto c : cs) key.push_back(c->id);
    std::sort(key.begin(), key.end()); key.erase(std::unique(key.begin(), key.end()), key.end());
    auto it = cache.find(key);
    if (it != cache.end()) { cacheHits++; m = it->second.m; return it->second.r; }
    auto t0 = std::chrono::steady_clock::now();
    queries++;
    Z3_solver_push(ctx, s);
    VarSet vs;
    for (auto c : cs) { Z3_solver_assert(ctx, s, bo(c)); const VarSet& o = E.vset(c); if (o.size() > vs.size()) vs.resize(o.size()); for (size_t i = 0; i < o.size(); i++) vs[i] |= o[i]; }
    Z3_lbool r = Z3_solver_check(ctx, s);
    Res res; res.r = r == Z3_L_TRUE ? 1 : r == Z3_L_FALSE ? 0 : -1;
    if (res.r == 1) {
      Z3_model mod = Z3_solver_get_model(ctx, s); Z3_model_inc_ref(ctx, mod);
      for (size_t i = 0; i < vs.size(); i++) for (u64 bits = vs[i]; bits; bits &= bits - 1) {
        uint32_t id = i * 64 + __builtin_ctzll(bits); Z3_ast out; u64 v = 0;
        if (Z3_model_eval(ctx, mod, bv(E.vars[id].node), true, &out)) { Z3_inc_ref(ctx, out); if (!Z3_get_numeral_uint64(ctx, out, &v)) v = 0; Z3_dec_ref(ctx, out); }
        res.m.push_back({id, v});
      }
      Z3_model_dec_ref(ctx, mod);
      sat++;
    } else if (res.r == 0) unsat++; else unknowns++;
    Z3_solver_pop(ctx, s, 1);
    double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    time += dt; maxTime = std::max(maxTime, dt);
    m = res.m; int rr = res.r; cache.emplace(std::move(key), std::move(res)); return rr;
  }
};
