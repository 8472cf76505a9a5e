// Type-directed generator of valid modules whose runs do not trap.
#pragma once
#include "interp.h"

static inline uint64_t interesting(Choices &c, VT t) {
  static const uint64_t i64s[] = {0, 1, 2, 3, 7, 8, 31, 32, 33, 63, 64, 65, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 0x7fffffff, 0x80000000, 0x80000001, 0xffffffff, 0x100000000,
    0x7fffffffffffffff, 0x8000000000000000, 0x8000000000000001, 0xffffffffffffffff, 0xfffffffffffffffe, 0xffffffff80000000, 0xffffffff7fffffff, 0x0123456789abcdef, 0xaaaaaaaaaaaaaaaa, 0x5555555555555555, 0xffffffffffffff80, 0xffffffffffff8000, 0x00ff00ff00ff00ff};
  static const uint64_t f32s[] = {0, 0x80000000, 0x3f800000, 0xbf800000, 0x3f000000, 0xbf000000, 0x3fc00000, 0xbfc00000, 0x40200000, 0xc0200000, 0x7f800000, 0xff800000, 0x7fc00000, 0xffc00000, 0x7fa00000, 0x7f800001, 0xffffffff, 1, 0x80000001, 0x007fffff, 0x00800000, 0x7f7fffff, 0xff7fffff,
    0x4f000000, 0xcf000000, 0x4effffff, 0x4f800000, 0x4f7fffff, 0x5f000000, 0xdf000000, 0x5effffff, 0x5f800000, 0x5f7fffff, 0x4b000000, 0x4b000001, 0x4afffffe, 0x4affffff, 0x3effffff, 0x3f7fffff, 0xbf7fffff, 0x42f6e979};
  static const uint64_t f64s[] = {0, 0x8000000000000000, 0x3ff0000000000000, 0xbff0000000000000, 0x3fe0000000000000, 0xbfe0000000000000, 0x3ff8000000000000, 0xbff8000000000000, 0x4004000000000000, 0xc004000000000000, 0x7ff0000000000000, 0xfff0000000000000, 0x7ff8000000000000, 0xfff8000000000000, 0x7ff4000000000000, 0x7ff0000000000001,
    1, 0x8000000000000001, 0x000fffffffffffff, 0x0010000000000000, 0x7fefffffffffffff, 0xffefffffffffffff, 0x41e0000000000000, 0xc1e0000000000000, 0x41dfffffffc00000, 0x41f0000000000000, 0x41efffffffe00000, 0x43e0000000000000, 0xc3e0000000000000, 0x43dfffffffffffff, 0x43f0000000000000, 0x43efffffffffffff,
    0x4330000000000000, 0x4330000000000001, 0x432ffffffffffffe, 0x3fdfffffffffffff, 0x3fefffffffffffff, 0xbfefffffffffffff, 0x405edd2f1a9fbe77, 0xc1e0000000200000, 0x36a0000000000000, 0x380fffffe0000000, 0x47efffffe0000000, 0x47effffff0000000};
  switch (t) {
    case I32: { int k = (int)c.below(4); if (k == 0) return c.below(16); if (k == 3) return c.bits(32); return (uint32_t)i64s[c.below(sizeof i64s / 8)]; }
    case I64: { int k = (int)c.below(4); if (k == 0) return c.below(16); if (k == 3) return c.bits(64); return i64s[c.below(sizeof i64s / 8)]; }
    case F32: { int k = (int)c.below(4); if (k == 0) return Interp::b32((float)c.range(-8, 8) * 0.5f); if (k == 3) return c.bits(32); return f32s[c.below(sizeof f32s / 8)]; }
    case F64: { int k = (int)c.below(4); if (k == 0) return Interp::b64((double)c.range(-8, 8) * 0.5); if (k == 3) return c.bits(64); return f64s[c.below(sizeof f64s / 8)]; }
    default: return 0;
  }
}

struct OpSig { uint16_t op; VT r, a, b; };   // b==VOIDT: unary
static inline const std::vector<OpSig> &numops() {
  static std::vector<OpSig> v;
  if (v.empty()) {
    auto un = [&](int lo, int hi, VT r, VT a) { for (int o = lo; o <= hi; o++) v.push_back({(uint16_t)o, r, a, VOIDT}); };
    auto bi = [&](int lo, int hi, VT r, VT a) { for (int o = lo; o <= hi; o++) v.push_back({(uint16_t)o, r, a, a}); };
    un(0x45, 0x45, I32, I32); bi(0x46, 0x4f, I32, I32); un(0x50, 0x50, I32, I64); bi(0x51, 0x5a, I32, I64);
    bi(0x5b, 0x60, I32, F32); bi(0x61, 0x66, I32, F64); un(0x67, 0x69, I32, I32); bi(0x6a, 0x78, I32, I32);
    un(0x79, 0x7b, I64, I64); bi(0x7c, 0x8a, I64, I64); un(0x8b, 0x91, F32, F32); bi(0x92, 0x98, F32, F32);
    un(0x99, 0x9f, F64, F64); bi(0xa0, 0xa6, F64, F64);
    un(0xa7, 0xa7, I32, I64); un(0xa8, 0xa9, I32, F32); un(0xaa, 0xab, I32, F64); un(0xac, 0xad, I64, I32); un(0xae, 0xaf, I64, F32); un(0xb0, 0xb1, I64, F64);
    un(0xb2, 0xb3, F32, I32); un(0xb4, 0xb5, F32, I64); un(0xb6, 0xb6, F32, F64); un(0xb7, 0xb8, F64, I32); un(0xb9, 0xba, F64, I64); un(0xbb, 0xbb, F64, F32);
    un(0xbc, 0xbc, I32, F32); un(0xbd, 0xbd, I64, F64); un(0xbe, 0xbe, F32, I32); un(0xbf, 0xbf, F64, I64);
    un(0xc0, 0xc1, I32, I32); un(0xc2, 0xc4, I64, I64);
    un(0xfc00, 0xfc01, I32, F32); un(0xfc02, 0xfc03, I32, F64); un(0xfc04, 0xfc05, I64, F32); un(0xfc06, 0xfc07, I64, F64);
  }
  return v;
}
static inline bool is_div(int o) { return (o >= 0x6d && o <= 0x70) || (o >= 0x7f && o <= 0x82); }
static inline bool is_trunc(int o) { return (o >= 0xa8 && o <= 0xab) || (o >= 0xae && o <= 0xb1) || (o >= 0xfc00 && o <= 0xfc07); }
// Operand values near the places where the result of one given operator changes: rounding boundaries of conversions, ties of the rounding operators,
// every bit length and bit pattern of integers, exponents close to each other.
static inline uint64_t aimed_int(Choices &c, int w) {
  uint64_t m = w == 64 ? ~0ull : 0xffffffffull, v; int L = (int)c.range(1, w); uint64_t lm = L == 64 ? ~0ull : (1ull << L) - 1;
  switch (c.below(4)) {
    case 0: v = (c.bits(64) & lm) | (1ull << (L - 1)); break;                                   // uniform bit length
    case 1: v = lm << c.below(w - L + 1); break;                                               // a run of ones
    case 2: v = (1ull << (L - 1)) + c.range(-2, 2); break;                                     // around a power of two
    default: v = (c.bits(8) * 0x0101010101010101ull) ^ (c.coin() ? 1ull << (L - 1) : 0); break; // repeated bytes
  }
  if (c.pct(30)) v = 0 - v;
  if (c.pct(10)) v = ~v;
  return v & m;
}
static inline uint64_t aimed_round_int(Choices &c, int w, int p) {   // an integer near a tie for a significand of p bits
  int L = (int)c.range(p < w ? p : 1, w), r = L - p; uint64_t v;
  if (r <= 0) v = aimed_int(c, w) & ((L == 64 ? 0 : 1ull << L) - 1);
  else { uint64_t top = (c.pct(20) ? (1ull << p) - 1 : (c.bits(64) & ((1ull << p) - 1))) | (1ull << (p - 1)), half = 1ull << (r - 1), low = (1ull << r) - 1, t;
    switch (c.below(7)) { case 0: t = half; break; case 1: t = half + 1; break; case 2: t = half - 1; break; case 3: t = low; break; case 4: t = half | (c.bits(64) & (half - 1)); break; case 5: t = half | (1ull << c.below(r)); break; default: t = c.bits(64); break; }
    v = (top << r) | (t & low); }
  if (c.pct(40)) v = 0 - v;
  return w == 64 ? v : v & 0xffffffffull;
}
static inline uint64_t aimed(Choices &c, const OpSig &s, VT t) {
  int o = s.op;
  if ((o >= 0xb2 && o <= 0xb5) || (o >= 0xb7 && o <= 0xba)) return aimed_round_int(c, t == I64 ? 64 : 32, o <= 0xb5 ? 24 : 53);
  if (t == I32 || t == I64) return aimed_int(c, t == I64 ? 64 : 32);
  bool d = t == F64; int mb = d ? 52 : 23, bias = d ? 1023 : 127; uint64_t mm = (1ull << mb) - 1, sign = c.coin() ? 1ull << (d ? 63 : 31) : 0, man, e;
  switch (c.below(4)) { case 0: man = c.bits(64) & mm; break; case 1: man = 0; break; case 2: man = mm - c.below(2); break; default: man = (1ull << c.below(mb)) | c.below(2); break; }
  if (o == 0xb6) {   // f32.demote_f64: near ties of the short significand, into the subnormal and the overflow range
    e = (uint64_t)(1023 + c.range(-152, 129)); int cut = 29; if ((int)e < 1023 - 126) cut += 1023 - 126 - (int)e; if (cut > 52) cut = 52;
    uint64_t half = 1ull << (cut - 1), low = (half << 1) - 1, v = (c.bits(64) & mm) & ~low; switch (c.below(5)) { case 0: v |= half; break; case 1: v |= half - 1; break; case 2: v |= half + 1; break; case 3: v |= half | (1ull << c.below(cut)); break; default: v |= c.bits(64) & low; break; }
    return sign | (e << 52) | (v & mm);
  }
  bool rnd = (o >= 0x8d && o <= 0x90) || (o >= 0x9b && o <= 0x9e);   // ceil floor trunc nearest
  if (rnd || is_trunc(o)) {
    int k = (int)c.range(-2, mb + 3); e = (uint64_t)(bias + k); uint64_t f = k >= 0 && k < mb ? 1ull << (mb - k - 1) : 0;   // f: the bit worth one half
    uint64_t low = f ? (f << 1) - 1 : 0; man &= ~low; switch (c.below(5)) { case 0: man |= f; break; case 1: man |= f ? f - 1 : 0; break; case 2: man |= f ? (f | 1) : 0; break; case 3: break; default: man |= c.bits(64) & low; break; }
    return sign | (e << mb) | (man & mm);
  }
  if (c.pct(25)) e = c.below(4) ? (uint64_t)c.below(3) : (uint64_t)(2 * bias - (int)c.below(3)); else e = (uint64_t)(bias + c.range(-30, 30));   // near each other, subnormal, huge
  return sign | (e << mb) | man;
}

static inline int trunc_kind(int o) {
  if (o >= 0xfc00) { int s = o & 7; return (s & 1) | (s >= 4 ? 2 : 0); }
  if (o <= 0xab) return (o - 0xa8) & 1; return ((o - 0xae) & 1) | 2;
}

struct GenCfg {
  // weights
  int w_num = 10, w_local = 10, w_global = 3, w_mem = 5, w_bulk = 2, w_grow = 1, w_table = 2, w_ref = 2, w_call = 4, w_icall = 2, w_host = 3, w_tail = 1;
  int w_block = 5, w_loop = 2, w_br = 5, w_brtable = 2, w_select = 3, w_dead = 4, w_return = 1;
  int budget = 60;            // instructions per function, roughly
  int nfuncs = 4, maxparams = 5, maxlocals = 6, maxres = 3;
  int nglobals = 4, nmems = 1, ntables = 2;
  bool refs = true, floats = true, i64s = true;
  bool init_locals = false;   // write every local first (zero-init flag off)
  bool allow_grow = true, mem64 = false, start = true, imports = true, dead = true, excess = true;
  bool export_all = true;
};

// What a previously generated module or the host offers for import.
struct Avail {
  struct F { std::string mod, name; FuncType t; int level; }; std::vector<F> funcs;
  struct M { std::string mod, name; MemType t; }; std::vector<M> mems;
  struct T { std::string mod, name; TableType t; int sig = -1; FuncType st; int level = 0; }; std::vector<T> tables;
  struct G { std::string mod, name; GlobalType t; }; std::vector<G> globals;
};

struct Gen {
  Choices &c; GenCfg cfg; Module m;
  struct TabInfo { bool callable = false; FuncType sig; int level = 0; uint32_t size = 0; };
  std::vector<TabInfo> tabs;                 // all tables
  std::vector<int> flevel;                   // call level per function (imports: given)
  std::vector<uint64_t> memlen;              // guaranteed bytes
  int gfuel = -1;                            // recursion budget global
  // current function
  struct Lab { int kind; VT res; int ctr; bool dead = false; bool cont = false; };
  std::vector<VT> L; std::vector<char> busy; std::vector<Lab> lab; Code code; int left = 0; uint32_t cur = 0; uint32_t np = 0; FuncType cft;
  int nest = 0;
  std::map<std::string, int> feat;

  Gen(Choices &c, const GenCfg &cfg) : c(c), cfg(cfg) {}

  VT numtype() {
    std::vector<VT> v{I32}; if (cfg.i64s) v.push_back(I64); if (cfg.floats) { v.push_back(F32); v.push_back(F64); }
    return c.pick(v);
  }
  VT anytype() { if (cfg.refs && c.pct(8)) return c.coin() ? FUNCREF : EXTERNREF; return numtype(); }
  void e(int op, uint32_t a = 0, uint64_t imm = 0, uint32_t b = 0) { code.push_back(Instr(op, a, imm, b)); left--; }
  void i32c(uint32_t v) { e(0x41, 0, v); }

  void konst(VT t) {
    switch (t) { case I32: e(0x41, 0, (uint32_t)interesting(c, I32)); break; case I64: e(0x42, 0, interesting(c, I64)); break;
      case F32: e(0x43, 0, interesting(c, F32)); break; case F64: e(0x44, 0, interesting(c, F64)); break;
      default: e(0xd0, 0, t); }
  }
  void zero(VT t) { switch (t) { case I32: e(0x41, 0, 0); break; case I64: e(0x42, 0, 0); break; case F32: e(0x43, 0, 0); break; case F64: e(0x44, 0, 0); break; default: e(0xd0, 0, t); } }
  int newlocal(VT t) { L.push_back(t); busy.push_back(0); return (int)L.size() - 1; }
  int locals_of(VT t, bool write) {          // random local of the type or -1
    std::vector<int> v; for (size_t i = 0; i < L.size(); i++) if (L[i] == t && !(write && busy[i])) v.push_back(i);
    return v.empty() ? -1 : c.pick(v);
  }
  int global_of(VT t, bool write) {
    std::vector<int> v; for (size_t i = 0; i < m.gtype.size(); i++) if (m.gtype[i].t == t && (!write || m.gtype[i].mut) && (int)i != gfuel) v.push_back(i);
    return v.empty() ? -1 : c.pick(v);
  }
  // replace an undetermined NaN by a constant
  void canon(VT t) {
    int x = locals_of(t, true); if (x < 0 || !c.pct(70)) x = newlocal(t);
    e(0x22, x); zero(t); e(0x20, x); e(0x20, x); e(t == F32 ? 0x5b : 0x61); e(c.pct(20) ? 0x1c : 0x1b, 0, t);
  }
  void clean(VT t) {                          // value of type t that may reach memory or the host
    if (!isfloat(t)) { value(t); return; }
    if (c.pct(30)) { konst(t); return; }
    value(t); canon(t);
  }
  void clamp(VT t, int kind) {                // top of stack into the range of the conversion
    canon(t);
    if (t == F32) { static const uint32_t lo[] = {0xcf000000, 0xbf7fffff, 0xdf000000, 0xbf7fffff}, hi[] = {0x4effffff, 0x4f7fffff, 0x5effffff, 0x5f7fffff};
      e(0x43, 0, lo[kind]); e(0x97); e(0x43, 0, hi[kind]); e(0x96); }
    else { static const uint64_t lo[] = {0xc1e0000000000000, 0xbfefffffffffffff, 0xc3e0000000000000, 0xbfefffffffffffff}, hi[] = {0x41dfffffffc00000, 0x41efffffffe00000, 0x43dfffffffffffff, 0x43efffffffffffff};
      e(0x44, 0, lo[kind]); e(0xa5); e(0x44, 0, hi[kind]); e(0xa4); }
  }
  void numop(const OpSig &s) {
    feat["numeric"]++;
    if (s.op >= 0xbc && s.op <= 0xbd) { clean(s.a); e(s.op); return; }
    value(s.a);
    if (is_trunc(s.op)) clamp(s.a, trunc_kind(s.op));
    if (s.b != VOIDT) {
      maybe_stmt();
      if (is_div(s.op)) {
        if (c.coin()) { uint64_t k; do { k = interesting(c, s.a); if (s.a == I32) k = (uint32_t)k; if (k == 0) k = 3; } while (k == (s.a == I32 ? 0xffffffffull : ~0ull) && (s.op == 0x6d || s.op == 0x7f)); e(s.a == I32 ? 0x41 : 0x42, 0, k); }
        else { value(s.b);
          if (s.a == I32) { i32c(0x7fffffff); e(0x71); i32c(1); e(0x72); } else { e(0x42, 0, 0x7fffffffffffffff); e(0x83); e(0x42, 0, 1); e(0x84); } }
      } else if ((s.op == 0x98 || s.op == 0xa6)) clean(s.b);
      else value(s.b);
    }
    e(s.op);
  }
  // address operand + memarg
  bool addr(uint32_t size, uint32_t &midx, uint64_t &off) {
    std::vector<uint32_t> v; for (size_t i = 0; i < memlen.size(); i++) if (memlen[i] >= size) v.push_back(i);
    if (v.empty()) return false;
    midx = c.pick(v); bool is64 = m.mtype[midx].is64; uint64_t len = memlen[midx];
    int k = (int)c.below(3);
    if (k == 0) {                            // constant address, often near the end
      uint64_t a = c.coin() ? len - size - c.below(std::min<uint64_t>(len - size + 1, 16)) : c.below(len - size + 1);
      off = c.coin() ? 0 : c.below(a + 1);
      if (is64) e(0x42, 0, a - off); else i32c((uint32_t)(a - off));
    } else {
      int bits = (int)c.range(0, 16); uint64_t mask = (1ull << bits) - 1; while (mask + size > len) mask >>= 1;
      uint64_t room = len - size - mask;
      off = k == 1 ? 0 : c.coin() ? c.below(std::min<uint64_t>(room + 1, 256)) : c.below(room + 1);
      if (is64) { value(I64); e(0x42, 0, mask); e(0x83); } else { value(I32); i32c((uint32_t)mask); e(0x71); }
    }
    return true;
  }
  struct LS { int op; VT t; int size; };
  void load(VT t) {
    static const LS ls[] = {{0x28, I32, 4}, {0x29, I64, 8}, {0x2a, F32, 4}, {0x2b, F64, 8}, {0x2c, I32, 1}, {0x2d, I32, 1}, {0x2e, I32, 2}, {0x2f, I32, 2}, {0x30, I64, 1}, {0x31, I64, 1}, {0x32, I64, 2}, {0x33, I64, 2}, {0x34, I64, 4}, {0x35, I64, 4}};
    std::vector<LS> v; for (auto &x : ls) if (x.t == t) v.push_back(x);
    LS s = c.pick(v); uint32_t mi; uint64_t off;
    if (!addr(s.size, mi, off)) { konst(t); return; }
    e(s.op, mi, off, (uint32_t)c.below(__builtin_ctz(s.size) + 1)); feat["load"]++;
  }
  void store() {
    static const LS ls[] = {{0x36, I32, 4}, {0x37, I64, 8}, {0x38, F32, 4}, {0x39, F64, 8}, {0x3a, I32, 1}, {0x3b, I32, 2}, {0x3c, I64, 1}, {0x3d, I64, 2}, {0x3e, I64, 4}};
    std::vector<LS> v; for (auto &x : ls) if ((cfg.i64s || x.t != I64) && (cfg.floats || !isfloat(x.t))) v.push_back(x);
    LS s = c.pick(v); uint32_t mi; uint64_t off;
    if (!addr(s.size, mi, off)) return;
    maybe_stmt();
    clean(s.t); e(s.op, mi, off, (uint32_t)c.below(__builtin_ctz(s.size) + 1)); feat["store"]++;
  }
  void memi(uint32_t mi, uint64_t v) { if (m.mtype[mi].is64) e(0x42, 0, v); else i32c((uint32_t)v); }
  void midx_val(uint32_t mi, uint64_t mask) { if (m.mtype[mi].is64) { value(I64); e(0x42, 0, mask); e(0x83); } else { value(I32); i32c((uint32_t)mask); e(0x71); } }
  static uint64_t maskbelow(uint64_t n) { uint64_t k = 1; while (k * 2 <= n) k *= 2; return k - 1; }   // mask with mask < n
  void bulk() {
    std::vector<uint32_t> v; for (size_t i = 0; i < memlen.size(); i++) if (memlen[i]) v.push_back(i);
    if (v.empty()) return;
    feat["bulk memory"]++;
    uint32_t d = c.pick(v);
    if (c.coin()) {
      uint64_t n = c.coin() ? c.below(64) : c.below(memlen[d] + 1);
      if (c.coin()) memi(d, c.below(memlen[d] - n + 1)); else midx_val(d, maskbelow(memlen[d] - n + 1));
      maybe_stmt(); value(I32);
      if (c.pct(30)) midx_val(d, maskbelow(n + 1)); else memi(d, n);
      e(0xfc0b, d);
    } else {
      uint32_t s = c.pick(v); uint64_t mx = std::min(memlen[d], memlen[s]); uint64_t n = c.coin() ? c.below(64) : c.below(mx + 1);
      if (c.coin()) memi(d, c.below(memlen[d] - n + 1)); else midx_val(d, maskbelow(memlen[d] - n + 1));
      if (c.coin()) memi(s, c.below(memlen[s] - n + 1)); else midx_val(s, maskbelow(memlen[s] - n + 1));
      uint32_t nt = m.mtype[d].is64 && m.mtype[s].is64 ? d : m.mtype[d].is64 ? s : d;
      if (c.pct(30)) midx_val(nt, maskbelow(n + 1)); else memi(nt, n);
      e(0xfc0a, d, 0, s);
    }
  }
  // memory.grow result on the stack
  bool grow(VT t) {
    if (!cfg.allow_grow) return false;
    std::vector<uint32_t> v; for (size_t i = 0; i < m.mtype.size(); i++) if ((m.mtype[i].is64 ? I64 : I32) == t) v.push_back(i);
    if (v.empty()) return false;
    uint32_t mi = c.pick(v); feat["memory.grow"]++;
    if (c.pct(70)) memi(mi, c.below(3)); else if (c.pct(60) || m.mtype[mi].is64) memi(mi, c.pick({32769u, 65536u, 65537u, 0x7fffffffu, 0x80000000u, 0xffffffffu})); else { value(I32); i32c(1); e(0x71); }
    e(0x40, mi);
    return true;
  }
  void tabidx(uint32_t t) { uint32_t n = tabs[t].size; if (c.coin()) i32c((uint32_t)c.below(n)); else { value(I32); i32c((uint32_t)maskbelow(n)); e(0x71); } }
  void tabref(uint32_t t) {                  // a reference that may be put in table t
    if (!tabs[t].callable) { value(m.ttype[t].t); return; }
    std::vector<uint32_t> v; for (uint32_t i = 0; i < m.ftype.size(); i++) if (m.types[m.ftype[i]] == tabs[t].sig && flevel[i] <= tabs[t].level) v.push_back(i);
    if (v.empty() || c.pct(20)) { tabidx(t); e(0x25, t); return; }
    e(0xd2, c.pick(v));
  }
  int table_any(bool nonzero, int reft = 0) {
    std::vector<int> v; for (size_t i = 0; i < tabs.size(); i++) if ((!nonzero || tabs[i].size) && (!reft || m.ttype[i].t == reft)) v.push_back(i);
    return v.empty() ? -1 : c.pick(v);
  }
  void tablestmt() {
    int t = table_any(true); if (t < 0) return; feat["table op"]++;
    switch (c.below(4)) {
      case 0: case 1: tabidx(t); maybe_stmt(); tabref(t); e(0x26, t); break;
      case 2: { uint32_t n = (uint32_t)c.below(tabs[t].size + 1); i32c((uint32_t)c.below(tabs[t].size - n + 1)); tabref(t); if (c.pct(30)) { value(I32); i32c((uint32_t)maskbelow(n + 1)); e(0x71); } else i32c(n); e(0xfc11, t); break; }
      case 3: {
        std::vector<int> v; for (size_t i = 0; i < tabs.size(); i++) if (m.ttype[i].t == m.ttype[t].t && (!tabs[t].callable || (tabs[i].callable && tabs[i].sig == tabs[t].sig && tabs[i].level <= tabs[t].level))) v.push_back(i);
        int s = c.pick(v); uint32_t mx = std::min(tabs[t].size, tabs[s].size); uint32_t n = (uint32_t)c.below(mx + 1);
        i32c((uint32_t)c.below(tabs[t].size - n + 1)); i32c((uint32_t)c.below(tabs[s].size - n + 1)); if (c.pct(30)) { value(I32); i32c((uint32_t)maskbelow(n + 1)); e(0x71); } else i32c(n); e(0xfc0e, t, 0, s); break; }
    }
  }
  // ---- calls ----
  std::vector<uint32_t> callees(std::function<bool(const FuncType &)> ok, bool guarded) {
    std::vector<uint32_t> v;
    for (uint32_t i = 0; i < m.ftype.size(); i++) if (ok(m.types[m.ftype[i]]) && (guarded || flevel[i] < flevel[cur])) v.push_back(i);
    return v;
  }
  bool host_callee(uint32_t i) { return i < m.nif; }
  void args(const FuncType &t, bool cl) { for (auto p : t.p) { if (cl) clean(p); else value(p); if (c.pct(10)) maybe_stmt(); } }
  void consume(const std::vector<VT> &r) {   // results on the stack, statement context
    for (int i = (int)r.size() - 1; i >= 0; i--) {
      int x = locals_of(r[i], true), g = global_of(r[i], true); int k = (int)c.below(3);
      if (k == 0 && x >= 0) e(0x21, x); else if (k == 1 && g >= 0) e(0x24, g); else e(0x1a);
    }
  }
  // emits a call whose results stay on the stack; returns the type or null
  const FuncType *emit_call(std::function<bool(const FuncType &)> ok, bool guarded) {
    int k = c.weighted({cfg.w_call + cfg.w_host, cfg.w_icall});
    if (k == 0) {
      auto v = callees(ok, guarded); if (v.empty()) return nullptr;
      uint32_t f = c.pick(v); const FuncType &t = m.types[m.ftype[f]];
      args(t, f < m.nif); e(0x10, f); feat[f < m.nif ? "call import" : "call"]++; return &m.types[m.ftype[f]];
    }
    std::vector<int> v; for (size_t i = 0; i < tabs.size(); i++) if (tabs[i].callable && ok(tabs[i].sig) && (guarded || tabs[i].level < flevel[cur])) v.push_back(i);
    if (v.empty()) return nullptr;
    int t = c.pick(v); FuncType sg = tabs[t].sig; args(sg, true); tabidx(t); e(0x11, m.addtype(sg), 0, t); feat["call_indirect"]++;
    return &m.types[m.addtype(sg)];
  }
  // guarded: consumes one unit of the recursion budget
  bool guarded_call(VT want) {
    if (gfuel < 0) return false;
    auto ok = [&](const FuncType &t) { return want == VOIDT ? true : t.r.size() == 1 && t.r[0] == want; };
    bool any = !callees(ok, true).empty(); if (!any) return false;
    e(0x23, gfuel); e(0x04, 0, want); lab.push_back({4, want, -1});
    e(0x23, gfuel); i32c(1); e(0x6b); e(0x24, gfuel);
    bool was = left > 0; nest++;
    const FuncType *t = emit_call(ok, true);
    if (!t) { if (want != VOIDT) konst(want); }
    else if (want == VOIDT) { std::vector<VT> r = t->r; consume(r); }
    (void)was; nest--;
    if (want != VOIDT) { e(0x05); lab.back().dead = false; leaf(want); }
    e(0x0b); lab.pop_back(); feat["guarded call"]++;
    return true;
  }
  // ---- values ----
  void leaf(VT t) {
    for (int tries = 0; tries < 4; tries++) switch (c.weighted({3, cfg.w_local + 1, cfg.w_global})) {
      case 0: konst(t); return;
      case 1: { int x = locals_of(t, false); if (x >= 0) { e(0x20, x); return; } break; }
      case 2: { int g = global_of(t, false); if (g >= 0) { e(0x23, g); feat["global.get"]++; return; } break; }
    }
    konst(t);
  }
  void value(VT t) {
    if (left <= 0 || nest > 12) { leaf(t); return; }
    nest++;
    value_(t);
    nest--;
    if (c.pct(6)) maybe_stmt();
  }
  void value_(VT t) {
    bool num = !isref(t);
    switch (c.weighted({6, num ? cfg.w_num : 0, cfg.w_local, num ? cfg.w_mem : 0, cfg.w_call, cfg.w_block, cfg.w_select, cfg.w_br, cfg.w_table, cfg.w_grow, cfg.w_ref, 2, cfg.w_loop})) {
      case 0: leaf(t); return;
      case 1: { std::vector<const OpSig *> v; for (auto &s : numops()) if (s.r == t && (cfg.floats || (!isfloat(s.a))) && (cfg.i64s || s.a != I64)) v.push_back(&s); numop(*c.pick(v)); return; }
      case 2: { int x = locals_of(t, true); if (x < 0) { leaf(t); return; } value(t); e(0x22, x); return; }
      case 3: load(t); return;
      case 4: {
        auto ok = [&](const FuncType &f) { return f.r.size() == 1 && f.r[0] == t; };
        if (c.pct(50)) { if (emit_call(ok, false)) return; }
        if (guarded_call(t)) return; leaf(t); return; }
      case 5: block(t); return;
      case 6: { feat["select"]++; value(t); maybe_stmt(); value(t); cond(); e(isref(t) || c.pct(25) ? 0x1c : 0x1b, 0, t); return; }
      case 7: {                               // br_if that leaves its operand
        std::vector<int> v; for (size_t d = 0; d < lab.size(); d++) if (brtype(d) == std::vector<VT>{t}) v.push_back(d);
        if (v.empty()) { leaf(t); return; }
        int d = c.pick(v); value(t); cond(); e(0x0d, d); feat["br_if with value"]++; return; }
      case 8: {
        if (t == I32 && !m.ttype.empty() && c.coin()) {
          uint32_t x = (uint32_t)c.below(m.ttype.size());
          if (c.pct(80)) e(0xfc10, x); else { tabref(x); value(I32); e(0xfc0f, x); } feat["table op"]++; return; }
        if (isref(t)) { int x = table_any(true, t); if (x >= 0) { tabidx(x); e(0x25, x); feat["table op"]++; return; } }
        leaf(t); return; }
      case 9: {
        std::vector<int> v; for (size_t i = 0; i < m.mtype.size(); i++) if ((m.mtype[i].is64 ? I64 : I32) == t) v.push_back(i);
        if (v.empty()) { leaf(t); return; }
        if (c.coin() || !grow(t)) e(0x3f, c.pick(v)); return; }
      case 10:
        if (t == I32 && cfg.refs) { value(c.coin() ? FUNCREF : EXTERNREF); e(0xd1); feat["ref.is_null"]++; return; }
        if (t == FUNCREF && !m.ftype.empty()) { e(0xd2, (uint32_t)c.below(m.ftype.size())); feat["ref.func"]++; return; }
        leaf(t); return;
      case 11: value(t); maybe_stmt(); return;
      case 12: loop(t); return;
    }
  }
  void cond() { if (c.pct(40) && left > 0) { std::vector<const OpSig *> v; for (auto &s : numops()) if (((s.op >= 0x45 && s.op <= 0x5a) || (cfg.floats && s.op >= 0x5b && s.op <= 0x66)) && (cfg.i64s || s.a != I64)) v.push_back(&s); numop(*c.pick(v)); } else value(I32); }
  std::vector<VT> brtype(size_t d) { Lab &l = lab[lab.size() - 1 - d]; if (l.kind == 0) return cft.r; if (l.kind == 3 || l.res == VOIDT) return {}; return {l.res}; }
  bool isloop(size_t d) { return lab[lab.size() - 1 - d].kind == 3; }
  int& ctr(size_t d) { return lab[lab.size() - 1 - d].ctr; }

  void maybe_stmt() { if (left > 0 && nest < 10 && c.pct(12)) stmt(); }
  void body(int n, VT t) { for (int i = 0; i < n && left > 0; i++) stmt(); if (t != VOIDT) value(t); }
  void body_end(VT t) {                        // finish a block of result t, possibly by a branch
    if (cfg.dead && c.pct(12) && left > 0) { uncond(); if (c.pct(60)) { deadcode(); return; } }
    if (t != VOIDT) value(t);
  }
  void block(VT t) {
    feat["block"]++;
    nest++;
    if (c.pct(50)) {
      e(0x02, 0, t); lab.push_back({2, t, -1});
      body((int)c.below(3), VOIDT); body_end(t); e(0x0b); lab.pop_back();
    } else {
      cond(); e(0x04, 0, t); lab.push_back({4, t, -1});
      body((int)c.below(3), VOIDT); body_end(t);
      if (t != VOIDT || c.pct(60)) { e(0x05); body((int)c.below(3), VOIDT); body_end(t); }
      e(0x0b); lab.pop_back();
    }
    nest--;
  }
  void loop(VT t) {
    feat["loop"]++; nest++;
    int k = -1; if (c.pct(40)) k = locals_of(I32, true);
    if (k < 0) k = newlocal(I32);
    i32c((uint32_t)c.range(1, 5)); e(0x21, k); busy[k] = 1;
    e(0x03, 0, t); lab.push_back({3, t, k});
    body((int)c.range(1, 3), VOIDT);
    bool cont = lab.back().cont;
    if (c.pct(85)) {
      e(0x20, k); i32c(1); e(0x6b); e(0x22, k); if (cont || c.pct(30)) { i32c(0); e(0x4a); }
      if (c.pct(20)) { cond(); e(0x71); }
      e(0x0d, 0);
    }
    busy[k] = 1;
    if (t != VOIDT) value(t);
    e(0x0b); lab.pop_back(); busy[k] = 0; nest--;
  }
  void uncond() {                               // an unconditional transfer out of here
    int n = (int)lab.size(); feat["unconditional branch"]++;
    switch (c.weighted({cfg.w_br, cfg.w_brtable, cfg.w_return, cfg.w_tail})) {
      case 0: {
        std::vector<int> v; for (int d = 0; d < n; d++) if (!isloop(d)) v.push_back(d);
        int d = c.pick(v); for (auto t : brtype(d)) value(t); e(0x0c, d); break; }
      case 1: brtable(); break;
      case 2: for (auto t : cft.r) value(t); e(0x0f); feat["return"]++; break;
      case 3: if (!tail()) { for (auto t : cft.r) value(t); e(0x0f); } break;
    }
    lab.back().dead = true;
  }
  void brtable() {
    int n = (int)lab.size(); int d0 = -1; for (int tries = 0; tries < 8; tries++) { int d = (int)c.below(n); if (!isloop(d)) { d0 = d; break; } }
    if (d0 < 0) d0 = n - 1;
    auto ty = brtype(d0); std::vector<int> v; for (int d = 0; d < n; d++) if (!isloop(d) && brtype(d) == ty) v.push_back(d);
    for (auto t : ty) value(t);
    if (c.pct(60)) { value(I32); i32c(7); e(0x71); } else value(I32);
    Instr i(0x0e); int k = c.small(8); for (int j = 0; j <= k; j++) i.tbl.push_back(c.pick(v)); code.push_back(i); left--; feat["br_table"]++;
  }
  bool tail() {
    auto ok = [&](const FuncType &t) { return t.r == cft.r; };
    if (c.pct(70)) {
      auto v = callees(ok, false); if (v.empty()) return false; uint32_t f = c.pick(v); args(m.types[m.ftype[f]], f < m.nif); e(0x12, f); feat["return_call"]++; return true;
    }
    std::vector<int> v; for (size_t i = 0; i < tabs.size(); i++) if (tabs[i].callable && ok(tabs[i].sig) && tabs[i].level < flevel[cur]) v.push_back(i);
    if (v.empty()) return false;
    int t = c.pick(v); FuncType sg = tabs[t].sig; args(sg, true); tabidx(t); e(0x13, m.addtype(sg), 0, t); feat["return_call_indirect"]++; return true;
  }
  void deadcode() {                             // unreachable code at the end of a block: any stack is allowed
    feat["dead code"]++;
    int n = (int)c.below(4);
    for (int i = 0; i < n; i++) switch (c.below(6)) {
      case 0: e(0x1a); break;                   // drop from the polymorphic stack
      case 1: e(0x6a); e(0x1a); break;          // i32.add of nothing
      case 2: if (left > 0) stmt(); break;
      case 3: e(0x00); break;
      case 4: { int x = locals_of(I32, true); if (x >= 0) e(0x21, x); break; }
      case 5: e(0x20, (uint32_t)0 < L.size() ? (uint32_t)c.below(L.size()) : 0); if (L.empty()) code.back() = Instr(0x41); e(0x1a); break;
    }
    // what is left on the stack must be a suffix of the results: leave it empty (results appear polymorphically)
  }
  // ---- statements (no net effect on the operand stack) ----
  void stmt() {
    if (left <= 0) return;
    nest++;
    stmt_();
    nest--;
  }
  void stmt_() {
    switch (c.weighted({cfg.w_local, cfg.w_global, cfg.w_mem, cfg.w_bulk, cfg.w_grow, cfg.w_table, cfg.w_call, cfg.w_block, cfg.w_loop, cfg.w_br, 1, cfg.w_dead, 2})) {
      case 0: { VT t = anytype(); int x = locals_of(t, true); if (x < 0) { value(t); e(0x1a); } else { value(t); e(0x21, x); } return; }
      case 1: { VT t = anytype(); int g = global_of(t, true); value(t); if (g < 0) e(0x1a); else { e(0x24, g); feat["global.set"]++; } return; }
      case 2: store(); return;
      case 3: bulk(); return;
      case 4: { VT t = !m.mtype.empty() && m.mtype[0].is64 ? I64 : I32; if (grow(t)) e(0x1a); return; }
      case 5: tablestmt(); return;
      case 6: {
        auto ok = [&](const FuncType &) { return true; };
        if (c.pct(50)) { auto *t = emit_call(ok, false); if (t) { std::vector<VT> r = t->r; consume(r); return; } }
        guarded_call(VOIDT); return; }
      case 7: block(VOIDT); return;
      case 8: loop(VOIDT); return;
      case 9: {                                 // br_if
        int d = (int)c.below(lab.size());
        if (isloop(d)) {
          int k = ctr(d); lab[lab.size() - 1 - d].cont = true;
          e(0x20, k); i32c(1); e(0x6b); e(0x22, k); i32c(0); e(0x4a); cond(); e(0x71); e(0x0d, d); feat["br_if loop"]++; return;
        }
        auto ty = brtype(d); for (auto t : ty) value(t);
        cond(); e(0x0d, d); feat["br_if"]++; consume(ty); return; }
      case 10: e(0x01); return;
      case 11:                                  // if (cond) <leave> end
        if (!cfg.dead) return;
        if (c.pct(8)) { uncond(); return; }     // the rest of this block is dead
        cond(); e(0x04, 0, VOIDT); lab.push_back({4, VOIDT, -1}); uncond(); if (c.pct(40)) deadcode(); e(0x0b); lab.pop_back(); return;
      case 12: {                                // several values alive at once
        int n = (int)c.range(2, c.pct(10) ? 24 : 7); std::vector<VT> ts; for (int i = 0; i < n; i++) { VT t = anytype(); ts.push_back(t); if (c.pct(60)) leaf(t); else value(t); }
        if (c.pct(60)) stmt();
        consume(ts); return; }
    }
  }
  void function(uint32_t fi, int budget) {      // fi: index among defined functions
    cur = m.nif + fi; cft = m.types[m.ftype[cur]]; L = cft.p; np = L.size(); code.clear(); lab.clear(); nest = 0; left = budget;
    int nl = (int)c.below(cfg.maxlocals + 1); for (int i = 0; i < nl; i++) L.push_back(anytype());
    busy.assign(L.size(), 0);
    lab.push_back({0, VOIDT, -1});
    int n = (int)c.range(1, 6);
    for (int i = 0; i < n && left > 0; i++) stmt();
    bool ended = false;
    if (cfg.dead && c.pct(15)) { uncond(); ended = true; if (c.pct(40)) deadcode(); }
    if (!ended) for (auto t : cft.r) value(t);
    e(0x0b);
    Func &f = m.funcs[fi]; f.locals.assign(L.begin() + np, L.end()); f.code = code;
    if (cfg.init_locals) { Code pre; for (size_t i = np; i < L.size(); i++) { switch (L[i]) { case I32: pre.push_back(Instr(0x41)); break; case I64: pre.push_back(Instr(0x42)); break; case F32: pre.push_back(Instr(0x43)); break; case F64: pre.push_back(Instr(0x44)); break; default: pre.push_back(Instr(0xd0, 0, L[i])); } pre.push_back(Instr(0x21, i)); }
      f.code.insert(f.code.begin(), pre.begin(), pre.end()); }
  }
  FuncType functype() {
    FuncType t; int n = (int)c.below(cfg.maxparams + 1); for (int i = 0; i < n; i++) t.p.push_back(anytype());
    int r = c.pct(70) ? (int)c.below(2) : (int)c.below(cfg.maxres + 1); for (int i = 0; i < r; i++) t.r.push_back(anytype()); return t;
  }
  // The whole module. av: what can be imported.
  void module(const Avail &av) {
    // imports
    if (cfg.imports) {
      for (auto &f : av.funcs) if (c.pct(60)) { Import i{f.mod, f.name, K_FUNC}; i.type = m.addtype(f.t); m.imports.push_back(i); flevel.push_back(f.level); }
      for (auto &x : av.mems) if (c.pct(50) && cfg.nmems > 0) { Import i{x.mod, x.name, K_MEM}; i.m = x.t; m.imports.push_back(i); }
      for (auto &x : av.tables) if (c.pct(50) && cfg.ntables > 0) { Import i{x.mod, x.name, K_TABLE}; i.t = x.t; m.imports.push_back(i); TabInfo ti; ti.size = x.t.min; ti.callable = x.sig >= 0; ti.sig = x.st; ti.level = x.level; tabs.push_back(ti); }
      for (auto &x : av.globals) if (c.pct(50)) { Import i{x.mod, x.name, K_GLOBAL}; i.g = x.t; m.imports.push_back(i); }
    }
    int nf = (int)c.range(1, cfg.nfuncs);
    int base = 0; for (auto l : flevel) base = std::max(base, l + 1);
    for (int i = 0; i < nf; i++) { FuncType t = i && c.pct(35) ? m.types[m.funcs[c.below(i)].type] : functype(); Func f; f.type = m.addtype(t); m.funcs.push_back(f); flevel.push_back(base + i); }
    int nmem = (int)c.below(cfg.nmems + 1); if (cfg.w_mem >= 5 && cfg.nmems && c.pct(80)) nmem = std::max(nmem, 1);
    { int have = 0; for (auto &i : m.imports) if (i.kind == K_MEM) have++; while (nmem > 0 && have + nmem > cfg.nmems) nmem--; }
    for (int i = 0; i < nmem; i++) { MemType t; t.min = c.pct(85) ? (uint32_t)c.range(1, 2) : 0; t.has_max = c.pct(50); if (t.has_max) t.max = t.min + (uint32_t)c.below(3); t.is64 = cfg.mem64 && c.pct(50); m.mems.push_back(t); }
    m.index();
    // tables
    int nt = (int)c.below(cfg.ntables + 1);
    for (int i = 0; i < nt; i++) {
      TableType t; TabInfo ti;
      if (cfg.w_icall && c.pct(60)) {            // callable: every entry holds a function of one type
        std::vector<uint32_t> fs; uint32_t f = (uint32_t)c.below(m.ftype.size()); ti.sig = m.types[m.ftype[f]]; ti.callable = true; ti.level = flevel[f];
        if (c.coin()) for (uint32_t k = 0; k < m.ftype.size(); k++) if (m.types[m.ftype[k]] == ti.sig) ti.level = std::max(ti.level, flevel[k]);
        for (uint32_t k = 0; k < m.ftype.size(); k++) if (m.types[m.ftype[k]] == ti.sig && flevel[k] <= ti.level) fs.push_back(k);
        ti.size = (uint32_t)c.range(1, 9); t.min = ti.size; t.t = FUNCREF;
        uint32_t at = 0; uint32_t tidx = m.ttype.size() + 0;
        while (at < ti.size) { Elem s; s.table = tidx; s.off = {Instr(0x41, 0, at), Instr(0x0b)}; uint32_t n = (uint32_t)c.range(1, ti.size - at); for (uint32_t k = 0; k < n; k++) s.f.push_back(c.pick(fs)); s.exprs = c.pct(20); if (c.pct(20)) s.flags = s.exprs ? 6 : 2; m.elems.push_back(s); at += n; }
      } else { t.t = cfg.refs && c.coin() ? EXTERNREF : FUNCREF; t.min = (uint32_t)c.below(9); ti.size = t.min;
        if (t.t == FUNCREF && t.min && c.coin()) { Elem s; s.table = m.ttype.size(); uint32_t n = (uint32_t)c.range(1, t.min); s.off = {Instr(0x41, 0, c.below(t.min - n + 1)), Instr(0x0b)}; for (uint32_t k = 0; k < n; k++) s.f.push_back(c.pct(20) ? -1 : (int64_t)c.below(m.ftype.size())); m.elems.push_back(s); } }
      if (c.pct(30)) { t.has_max = true; t.max = t.min + (uint32_t)c.below(4); }
      m.tables.push_back(t); m.ttype.push_back(t); tabs.push_back(ti);
    }
    // globals
    if (c.pct(75)) { Global g; g.t = {I32, true}; g.init = {Instr(0x41, 0, 0), Instr(0x0b)}; gfuel = (int)m.nig; m.globals.push_back(g); }
    int ng = (int)c.below(cfg.nglobals + 1);
    for (int i = 0; i < ng; i++) {
      Global g; g.t.t = anytype(); g.t.mut = c.pct(75);
      std::vector<uint32_t> src; for (uint32_t k = 0; k < m.nig; k++) if (m.gtype[k].t == g.t.t && !m.gtype[k].mut) src.push_back(k);
      if (!src.empty() && c.coin()) g.init = {Instr(0x23, c.pick(src))};
      else switch (g.t.t) { case I32: g.init = {Instr(0x41, 0, interesting(c, I32))}; break; case I64: g.init = {Instr(0x42, 0, interesting(c, I64))}; break; case F32: g.init = {Instr(0x43, 0, interesting(c, F32))}; break; case F64: g.init = {Instr(0x44, 0, interesting(c, F64))}; break;
        case FUNCREF: if (c.coin()) { g.init = {Instr(0xd2, (uint32_t)c.below(m.ftype.size()))}; break; } default: g.init = {Instr(0xd0, 0, g.t.t)}; }
      g.init.push_back(Instr(0x0b)); m.globals.push_back(g);
    }
    m.index();
    memlen.clear(); for (auto &t : m.mtype) memlen.push_back((uint64_t)t.min << 16);
    // data
    for (size_t i = 0; i < m.mtype.size(); i++) if (memlen[i]) { int n = (int)c.below(3); for (int k = 0; k < n; k++) { Data d; d.mem = i; uint32_t len = (uint32_t)c.below(40); uint64_t off = c.coin() ? c.below(512) : memlen[i] - len - c.below(8);
      d.off = {m.mtype[i].is64 ? Instr(0x42, 0, off) : Instr(0x41, 0, off), Instr(0x0b)}; for (uint32_t j = 0; j < len; j++) d.bytes.push_back((uint8_t)c.bits(8)); if (c.pct(20)) d.flags = 2; m.datas.push_back(d); } }
    for (size_t i = 0; i < m.funcs.size(); i++) function(i, (int)c.range(4, cfg.budget));
    if (cfg.start && c.pct(25)) { for (uint32_t i = 0; i < m.ftype.size(); i++) if (m.types[m.ftype[i]].p.empty() && m.types[m.ftype[i]].r.empty() && i >= m.nif) { m.start = i; break; } }
    if (cfg.export_all) {
      for (uint32_t i = 0; i < m.ftype.size(); i++) m.exports.push_back({"f" + std::to_string(i), K_FUNC, i});
      for (uint32_t i = 0; i < m.ttype.size(); i++) m.exports.push_back({"t" + std::to_string(i), K_TABLE, i});
      for (uint32_t i = 0; i < m.mtype.size(); i++) m.exports.push_back({"m" + std::to_string(i), K_MEM, i});
      for (uint32_t i = 0; i < m.gtype.size(); i++) m.exports.push_back({"g" + std::to_string(i), K_GLOBAL, i});
    }
  }
};
