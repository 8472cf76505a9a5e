// Generator, listing, byte-level model and emitter of vector and atomic LIR programs.
#pragma once
#include "lirrun.h"
namespace vec {
typedef uint8_t u8;
const int NV = 15; const u64 EDGE = 0x7d0000000000; const int ER = NREG;   // region NREG: the last bytes before an unmapped page
const int LOC = 128;
u8 *win(int r) { return r == ER ? (u8 *)(EDGE + 0x1000 - WIN) : (u8 *)regions[r].win; }
enum Kind { VMOV, VREPL, VLANE, VLREPL, VEXT, VSIGN, VOP2, GMOV, GADD, FSET, FLAGS, GETF, ALOAD, ASTORE, TESTED };
struct Addr { int reg = -1, off = 0, form = 0, b = 0, i = 0, sh = 0; };            // form 0 base+off 1 base+index<<sh 2 absolute 3 local (reg -2)
struct S { Kind k; s32 type = 0; int v = 0, v2 = 0, v3 = 0, lane = 0, g = 0, g2 = 0, g3 = 0; int src = 0; /* 0 vreg/greg/freg 1 memory 2 immediate */ Addr m; sw imm = 0; bool tested = false; };
struct St { u64 g[16] = {}; u8 gt[16] = {}; u8 v[NV][32] = {}, vt[NV][32]; u64 f[NV] = {}; u8 fm[NV] = {}; u8 m[NREG + 1][WIN], t[NREG + 1][WIN] = {}; u8 lo[LOC] = {}, lt[LOC]; int flag = -1;
  St() { memset(vt, 1, sizeof vt); memset(lt, 1, sizeof lt); } };
struct Prg { std::vector<S> s; s32 opts = 0; int scr = 0, sav = 0; std::vector<int> gp, pool, base; int idx = 0; std::vector<std::pair<int, int>> bv; u64 iv = 0; int loc = LOC; };
int rsz(s32 t) { return 1 << ((t >> 12) & 0x3f); } int esz(s32 t) { return 1 << ((t >> 18) & 0x3f); } int asz(s32 t) { return 1 << ((t >> 24) & 0x3f); }
u64 baddr(const Prg &P, int k) { return (u64)win(P.bv[k].first) + P.bv[k].second; }
Opd opd(const Prg &P, const Addr &a) { switch (a.form) { case 0: return {SLJIT_MEM1(P.base[a.b]), (sw)((u64)win(a.reg) + a.off - baddr(P, a.b))}; case 1: return {SLJIT_MEM2(P.base[a.b], P.idx), a.sh}; case 2: return {SLJIT_MEM0(), (sw)((u64)win(a.reg) + a.off)}; default: return {SLJIT_MEM1(SLJIT_SP), a.off}; } }
struct G {
  Choices &c; Prg &P; bool big;
  int vr() { return c.below(big ? NV : 5); } int gr() { return P.pool[c.below(P.pool.size())]; }
  Addr addr(int n, int align) {   // n bytes with a known alignment
    Addr a; if (align <= 1 && c.pct(15)) { a.reg = -2; a.form = 3; a.off = c.below(LOC - n + 1); return a; }
    if (c.pct(20)) { for (int k = 0; k < 4; k++) { a.b = c.below(P.base.size()); a.sh = c.below(4); a.reg = P.bv[a.b].first; long o = P.bv[a.b].second + (long)(P.iv << a.sh); if (o >= 0 && o + n <= (long)WIN && ((u64)win(a.reg) + o) % align == 0) { a.form = 1; a.off = o; return a; } } }
    a.form = c.pct(25) ? 2 : 0; a.b = c.below(P.base.size()); a.reg = a.form == 2 ? (int)c.below(NREG + 1) : P.bv[a.b].first;
    int lim = WIN - n; a.off = a.reg == ER && c.coin() ? lim : c.pct(60) ? c.below(std::min(lim, 96) + 1) : c.below(lim + 1); a.off -= (int)(((u64)win(a.reg) + a.off) % align); if (a.off < 0) a.off += align; return a;
  }
  s32 rs() { return c.pct(45) ? SLJIT_SIMD_REG_256 : SLJIT_SIMD_REG_128; }
  s32 el(int lo, int hi) { return (lo + c.below(hi - lo + 1)) << 18; }
  s32 al(s32 t, bool mem) { if (!mem) return 0; int top = (t >> 12) & 0x3f; return c.below(top + 1) << 24; }
  S simd() {
    S s; s.v = vr(); s.v2 = vr(); s.v3 = vr(); s.type = rs(); if (c.pct(6)) s.type = c.coin() ? SLJIT_SIMD_REG_64 : SLJIT_SIMD_REG_512; int R = (s.type >> 12) & 0x3f; s.g = gr(); bool F = c.pct(35); if (F) s.type |= SLJIT_SIMD_FLOAT; s.tested = c.pct(10);
    switch (c.weighted({18, 12, 22, 12, 10, 8, 18})) {
      case 0: s.k = VMOV; s.type |= F ? el(2, 3) : el(0, c.pct(10) ? R : 3); s.src = c.pct(70); if (c.coin()) s.type |= SLJIT_SIMD_STORE; s.type |= al(s.type, s.src); break;
      case 1: s.k = VREPL; s.type |= F ? el(2, 3) : el(0, 3); if (esz(s.type) >= rsz(s.type)) s.type = SLJIT_SIMD_REG_128 | (s.type & ~(0x3f << 12)); s.src = c.weighted({4, 4, 3}); if (s.src == 2) { static const sw I[] = {0, -1, 1, 0x80, 0xff, 0xffff, 0x7fff, 0x8000, 0x10000, 0xffffffffll, 0x80000000ll, 0x0101010101010101ll, 0x00ff00ff00ff00ffll, (sw)0xffffffff00000000ull, -128}; s.imm = F ? 0 : c.coin() ? I[c.below(15)] : (sw)c.bits(64); } break;
      case 2: s.k = VLANE; s.type |= F ? el(2, 3) : el(0, 3); if (esz(s.type) >= rsz(s.type)) s.type = SLJIT_SIMD_REG_128 | (s.type & ~(0x3f << 12)); if (c.coin()) { s.type |= SLJIT_SIMD_STORE; if (!F && c.coin()) s.type |= SLJIT_SIMD_LANE_SIGNED; } else if (c.coin()) s.type |= SLJIT_SIMD_LANE_ZERO; if (!F && esz(s.type) <= 4 && c.pct(40)) s.type |= SLJIT_32;
        s.lane = c.below(rsz(s.type) / esz(s.type)); s.src = (s.type & (SLJIT_SIMD_STORE | SLJIT_SIMD_FLOAT)) ? c.coin() : c.weighted({4, 4, 3}); if (s.src == 2) s.imm = c.coin() ? (sw)c.range(-3, 3) : (sw)c.bits(64); break;
      case 3: s.k = VLREPL; s.type |= F ? el(2, 3) : el(0, 4); if (esz(s.type) >= rsz(s.type)) s.type = (s.type & ~(0x3f << 18)); s.lane = c.below(rsz(s.type) / esz(s.type)); break;
      case 4: s.k = VEXT; if (F) s.type |= (2 << 18) | (3 << 24); else { int a = c.below(3), b = a + 1 + c.below(3 - a); s.type |= a << 18 | b << 24; if (c.coin()) s.type |= SLJIT_SIMD_EXTEND_SIGNED; } if (asz(s.type) >= rsz(s.type)) s.type = SLJIT_SIMD_REG_128 | (s.type & ~(0x3f << 12)); s.src = c.coin(); break;
      case 5: s.k = VSIGN; s.type |= SLJIT_SIMD_STORE | (F ? el(2, 3) : el(0, 3)); if (esz(s.type) >= rsz(s.type)) s.type = SLJIT_SIMD_REG_128 | (s.type & ~(0x3f << 12)); if (c.coin()) s.type |= SLJIT_32; s.src = c.coin(); break;
      default: { s.k = VOP2; int o = 1 + c.below(4); if (o == 4) s.type = (s.type & ~SLJIT_SIMD_FLOAT) | (c.pct(90) ? SLJIT_SIMD_REG_128 : SLJIT_SIMD_REG_256), s.type &= ~(0x3f << 12), s.type |= c.pct(90) ? SLJIT_SIMD_REG_128 : SLJIT_SIMD_REG_256; else s.type |= F ? el(2, 3) : el(0, 3); s.type |= o; s.src = c.pct(45); s.type |= al(s.type, s.src); }
    }
    if (esz(s.type) > rsz(s.type)) s.type &= ~(0x3f << 18);
    if (s.src == 1) { int n = memlen(s); int a = (s.k == VMOV || s.k == VOP2) ? asz(s.type) : 1; s.m = addr(n, a); }
    return s;
  }
  static int memlen(const S &s) { switch (s.k) { case VMOV: case VOP2: return rsz(s.type); case VREPL: case VLANE: return esz(s.type); case VEXT: return rsz(s.type) / asz(s.type) * esz(s.type); case VSIGN: return s.type & SLJIT_32 ? 4 : 8; default: return 8; } }
  void gen() {
    // registers: some hold addresses, one a small index, the others values
    P.scr = c.range(6, SLJIT_NUMBER_OF_REGISTERS - SLJIT_NUMBER_OF_SAVED_REGISTERS); P.sav = c.below(SLJIT_NUMBER_OF_SAVED_REGISTERS + 1); if (c.coin()) P.opts |= SLJIT_ENTER_USE_VEX; big = c.coin();
    for (int i = 0; i < P.scr; i++) P.gp.push_back(SLJIT_R(i)); for (int i = 0; i < P.sav; i++) P.gp.push_back(SLJIT_S(i));
    std::vector<int> q = P.gp; for (size_t i = q.size(); i > 1; i--) std::swap(q[i - 1], q[c.below(i)]);
    for (int i = 0; i < 2; i++) { P.base.push_back(q.back()); q.pop_back(); P.bv.push_back({(int)c.below(NREG + 1), c.pct(70) ? (int)c.below(128) : (int)c.range(-2000, 600)}); } P.idx = q.back(); q.pop_back(); P.iv = c.below(40); P.pool = q;
    int n = c.range(2, 24); int fl = 0;
    for (int k = 0; k < n; k++) {
      int w = c.weighted({70, 12, 6, 8, 5, 12});
      if (w == 0) P.s.push_back(simd());
      else if (w == 1) { S s; s.k = GMOV; s.g = gr(); s.src = c.below(3); s.g2 = gr(); s.imm = c.coin() ? (sw)c.range(-5, 300) : (sw)c.bits(64); s.type = c.coin() ? SLJIT_STORE_FLAG : 0; if (s.src == 1) s.m = addr(8, 1); P.s.push_back(s); }
      else if (w == 2) { S s; s.k = GADD; s.g = gr(); s.g2 = gr(); s.g3 = gr(); s.imm = c.range(-9, 9); P.s.push_back(s); fl = 0; }
      else if (w == 3) { S s; s.k = FSET; s.v = vr(); s.v2 = vr(); s.type = c.coin() ? SLJIT_32 : 0; s.src = c.below(3); if (s.src == 2) s.imm = (s.type & SLJIT_32) ? f2u((float)c.range(-4, 9) / 4) : d2u((double)c.range(-40, 90) / 8); if (s.src == 1) s.m = addr(s.type & SLJIT_32 ? 4 : 8, 1), s.lane = c.coin(); P.s.push_back(s); }
      else if (w == 4) { S s; s.k = fl ? GETF : FLAGS; s.g = gr(); s.g2 = gr(); s.g3 = gr(); s.imm = fl; if (fl) fl = 0; else fl = 1; P.s.push_back(s); }
      else atomic(fl);
    }
  }
  static const int SLJIT_STORE_FLAG = 1;
  void atomic(int &fl) {
    static const s32 O[] = {SLJIT_MOV, SLJIT_MOV_U8, SLJIT_MOV_U16, SLJIT_MOV_U32, SLJIT_MOV32, SLJIT_MOV_P, SLJIT_MOV32_U8, SLJIT_MOV32_U16}; s32 o = O[c.below(8)]; int n = asize(o);
    // the address register is a pool register holding an aligned address
    int mr = gr(); S a; a.k = GMOV; a.g = mr; a.src = 2; a.type = 0; Addr m; m.reg = c.below(NREG + 1); m.off = c.below(64); m.off -= (int)(((u64)win(m.reg) + m.off) % n); if (m.off < 0) m.off += n; a.imm = (sw)((u64)win(m.reg) + m.off); 
    int cas = c.pct(40) ? SLJIT_ATOMIC_USE_CAS : 0; bool self = n == 8 && c.pct(8);
    if (self) { S w; w.k = GMOV; w.g = mr; w.type = 1; w.src = 1; w.m = m; w.m.form = 2; P.s.push_back(a); P.s.push_back(w); } else P.s.push_back(a);
    int tmp = gr(), src = gr(); if (tmp == mr && !self) { for (int r : P.pool) if (r != mr) tmp = r; if (tmp == mr) return; }
    if (self && c.coin()) tmp = mr; else { S l; l.k = ALOAD; l.type = o | cas; l.g = tmp; l.g2 = mr; l.m = m; l.tested = c.pct(15); P.s.push_back(l); }
    if (src != tmp && src != mr && c.coin()) { S d; d.k = GMOV; d.type = 0; d.g = src; d.src = 2; d.imm = (sw)c.bits(64); P.s.push_back(d); }
    bool differ = cas && tmp != mr && c.coin(); if (differ) { S d; d.k = GMOV; d.type = 0; d.src = 2; d.g = tmp; d.imm = n == 8 ? (sw)c.bits(64) : (sw)c.bits(n * 8); P.s.push_back(d); }   // likely another value: the store fails
    if (src == tmp) { for (int r : P.pool) if (r != tmp) src = r; if (src == tmp) return; }   // sljit wants two registers
    S s; s.k = ASTORE; s.type = o | cas | (c.pct(80) ? SLJIT_SET_ATOMIC_STORED : 0); s.g = src; s.g2 = mr; s.g3 = tmp; s.m = m; s.tested = c.pct(15); P.s.push_back(s); fl = 0;
    if (s.type & SLJIT_SET_ATOMIC_STORED) { fl = 2; if (c.pct(30)) { P.s.push_back(simd()); } S f; f.k = GETF; f.imm = 2; f.g = gr(); P.s.push_back(f); fl = 0; }
  }
  static int asize(s32 o) { switch ((o & 0xff)) { case SLJIT_MOV_U8: return 1; case SLJIT_MOV_U16: return 2; case SLJIT_MOV_U32: case SLJIT_MOV32: return 4; default: return o & SLJIT_32 ? 4 : 8; } }
};
std::string mstr(const Prg &P, const Addr &a) { return on(opd(P, a)); }
std::string tstr(s32 t) { return strf("%d.%s%d%s", rsz(t) * 8, t & SLJIT_SIMD_FLOAT ? "f" : "", esz(t) * 8, t & SLJIT_32 ? " (32)" : ""); }
std::string show(const Prg &P, const S &s) {
  std::string o = s.src == 1 ? mstr(P, s.m) : s.src == 2 ? strf("#%#llx", (unsigned long long)s.imm) : "", t = tstr(s.type), q = s.tested ? " (tested first)" : ""; bool st = s.type & 1, F = s.type & SLJIT_SIMD_FLOAT; std::string gf = s.src ? o : F ? strf("F%d", s.v2) : lir::rn(s.g);
  switch (s.k) {
    case VMOV: return strf("simd_%s %s V%d, %s align %d", st ? "store" : "load", t.c_str(), s.v, s.src ? o.c_str() : strf("V%d", s.v2).c_str(), asz(s.type)) + q;
    case VREPL: return "simd_replicate " + t + strf(" V%d, ", s.v) + gf + q;
    case VLANE: return strf("simd_lane_%s%s%s ", st ? "store" : "load", s.type & 2 ? "_zero" : "", s.type & 4 ? "_signed" : "") + t + strf(" V%d[%d], ", s.v, s.lane) + gf + q;
    case VLREPL: return "simd_lane_replicate " + t + strf(" V%d, V%d[%d]", s.v, s.v2, s.lane) + q;
    case VEXT: return "simd_extend " + t + strf(" to %d %s V%d, ", asz(s.type) * 8, s.type & 2 ? "signed" : "", s.v) + (s.src ? o : strf("V%d", s.v2)) + q;
    case VSIGN: return "simd_sign " + t + strf(" V%d -> ", s.v) + (s.src ? o : lir::rn(s.g)) + q;
    case VOP2: { static const char *n[] = {"", "and", "or", "xor", "shuffle"}; return strf("simd_%s ", n[s.type & 7]) + t + strf(" V%d, V%d, ", s.v, s.v2) + (s.src ? o + strf(" align %d", asz(s.type)) : strf("V%d", s.v3)) + q; }
    case GMOV: return s.type && s.src == 1 ? "store " + lir::rn(s.g) + " -> " + o : "mov " + lir::rn(s.g) + ", " + (s.src ? o : lir::rn(s.g2));
    case GADD: return "add " + lir::rn(s.g) + ", " + lir::rn(s.g2) + strf(", #%lld", (long long)s.imm);
    case FSET: return s.src == 1 && s.lane ? strf("fstore%s F%d -> ", s.type ? "32" : "", s.v) + o : strf("fmov%s F%d, ", s.type ? "32" : "", s.v) + (s.src ? o : strf("F%d", s.v2));
    case FLAGS: return "cmp " + lir::rn(s.g) + ", " + lir::rn(s.g2); case GETF: return "mov " + lir::rn(s.g) + (s.imm == 2 ? ", atomic_stored" : ", zero flag");
    case ALOAD: return "atomic_load " + opname(s.type & 0x1ff) + (s.type & SLJIT_ATOMIC_USE_CAS ? "(cas) " : " ") + lir::rn(s.g) + ", [" + lir::rn(s.g2) + "]" + q;
    default: return "atomic_store " + opname(s.type & 0x1ff) + (s.type & SLJIT_ATOMIC_USE_CAS ? "(cas) " : " ") + lir::rn(s.g) + " -> [" + lir::rn(s.g2) + "], expected " + lir::rn(s.g3) + q;
  }
}
std::string show(const Prg &P) { std::string r = strf("%d scratch %d saved options %#x\n", P.scr, P.sav, P.opts); for (size_t i = 0; i < P.base.size(); i++) r += lir::rn(P.base[i]) + strf(" = %#llx\n", (unsigned long long)baddr(P, i)); r += lir::rn(P.idx) + strf(" = %llu\n", (unsigned long long)P.iv); for (auto &s : P.s) r += "  " + show(P, s) + "\n"; return r; }
bool supported(const S &s) {   // what every x86-64 machine with AVX2 offers
  int R = (s.type >> 12) & 0x3f, E = (s.type >> 18) & 0x3f; bool F = s.type & SLJIT_SIMD_FLOAT; if (s.k >= GMOV) return true; if (R != 4 && !(R == 5 && (sljit_has_cpu_feature(SLJIT_HAS_AVX2) > 0))) return false;
  switch (s.k) { case VMOV: return !F || E == 2 || E == 3; case VOP2: return (s.type & 7) != 4 || R == 4; case VLREPL: return !F || E == 2 || E == 3; default: return true; }
}
// ---- the model ----
struct Model {
  const Prg &P; St &z; int judged = 0;
  void rd(const Addr &a, int n, u8 *d, u8 *t) { if (a.reg == -2) { memcpy(d, z.lo + a.off, n); memcpy(t, z.lt + a.off, n); } else { memcpy(d, z.m[a.reg] + a.off, n); memcpy(t, z.t[a.reg] + a.off, n); } }
  void wr(const Addr &a, int n, const u8 *d, const u8 *t) { if (a.reg == -2) { memcpy(z.lo + a.off, d, n); memcpy(z.lt + a.off, t, n); } else { memcpy(z.m[a.reg] + a.off, d, n); memcpy(z.t[a.reg] + a.off, t, n); } }
  void setv(int v, int n, const u8 *d, const u8 *t) { memcpy(z.v[v], d, n); memcpy(z.vt[v], t, n); memset(z.vt[v] + n, 1, 32 - n); z.fm[v] = 0; }
  void setf(int v, bool f32, u64 x, bool bad) { memset(z.vt[v], 1, 32); z.f[v] = x; z.fm[v] = bad ? 0 : f32 ? 1 : 2; }
  void setg(int g, u64 v, u8 t) { z.g[g] = v; z.gt[g] = t; }   // t: one bit per undefined byte
  void scalar(const S &s, int n, u8 *d, u8 *t) {
    if (s.src == 1) return rd(s.m, n, d, t); if (s.src == 2) { memcpy(d, &s.imm, n); memset(t, 0, n); return; }
    if (s.type & SLJIT_SIMD_FLOAT) { memcpy(d, &z.f[s.v2], n); memset(t, z.fm[s.v2] != (n == 4 ? 1 : 2), n); } else { memcpy(d, &z.g[s.g], n); for (int i = 0; i < n; i++) t[i] = z.gt[s.g] >> i & 1; }
  }
  void step(const S &s) {
    u8 d[64], t[64], e[64], u[64]; int R = rsz(s.type), E = esz(s.type); if (!supported(s)) return; bool F = s.type & SLJIT_SIMD_FLOAT;
    switch (s.k) {
      case VMOV: if (s.type & SLJIT_SIMD_STORE) { if (s.src) wr(s.m, R, z.v[s.v], z.vt[s.v]); else { memcpy(d, z.v[s.v], R); memcpy(t, z.vt[s.v], R); setv(s.v2, R, d, t); } } else { if (s.src) rd(s.m, R, d, t); else { memcpy(d, z.v[s.v2], R); memcpy(t, z.vt[s.v2], R); } setv(s.v, R, d, t); } break;
      case VREPL: scalar(s, E, e, u); for (int i = 0; i < R; i++) d[i] = e[i % E], t[i] = u[i % E]; setv(s.v, R, d, t); break;
      case VLANE: if (s.type & SLJIT_SIMD_STORE) { u8 *p = z.v[s.v] + s.lane * E, *q = z.vt[s.v] + s.lane * E;
          if (s.src) { memcpy(d, p, E); memcpy(t, q, E); wr(s.m, E, d, t); } else if (F) { u64 x = 0; memcpy(&x, p, E); bool bad = false; for (int i = 0; i < E; i++) bad |= q[i]; setf(s.v2, E == 4, x, bad); }
          else { u64 x = 0; memcpy(&x, p, E); u8 tt = 0; bool top = q[E - 1]; for (int i = 0; i < E; i++) tt |= q[i] << i; if (s.type & SLJIT_SIMD_LANE_SIGNED) { int sh = 64 - E * 8; x = (u64)((int64_t)(x << sh) >> sh); if (top) tt |= 0xff << E; } if ((s.type & SLJIT_32) || (s.type & 0xff) == SLJIT_MOV32) tt |= 0xf0; setg(s.g, x, tt); } }
        else { scalar(s, E, e, u); if (s.type & SLJIT_SIMD_LANE_ZERO) memset(d, 0, R), memset(t, 0, R); else memcpy(d, z.v[s.v], R), memcpy(t, z.vt[s.v], R); memcpy(d + s.lane * E, e, E); memcpy(t + s.lane * E, u, E); setv(s.v, R, d, t); } break;
      case VLREPL: memcpy(e, z.v[s.v2] + s.lane * E, E); memcpy(u, z.vt[s.v2] + s.lane * E, E); for (int i = 0; i < R; i++) d[i] = e[i % E], t[i] = u[i % E]; setv(s.v, R, d, t); break;
      case VEXT: { int A = asz(s.type), n = R / A; if (s.src) rd(s.m, n * E, e, u); else memcpy(e, z.v[s.v2], n * E), memcpy(u, z.vt[s.v2], n * E);
        for (int i = 0; i < n; i++) { u8 *x = e + i * E, *y = u + i * E; bool any = false; for (int k = 0; k < E; k++) any |= y[k]; if (F) { uint32_t w; memcpy(&w, x, 4); u64 r = d2u((double)u2f(w)); memcpy(d + i * A, &r, 8); memset(t + i * A, any || isnan(u2f(w)), 8); } else { bool sg = (s.type & SLJIT_SIMD_EXTEND_SIGNED); memset(d + i * A, sg && (x[E - 1] & 0x80) ? 0xff : 0, A); memset(t + i * A, sg && y[E - 1], A); memcpy(d + i * A, x, E); memcpy(t + i * A, y, E); } } setv(s.v, R, d, t); break; }
      case VSIGN: { u64 x = 0, bad = 0; for (int i = 0; i < R / E; i++) { if (z.v[s.v][i * E + E - 1] & 0x80) x |= 1ull << i; if (z.vt[s.v][i * E + E - 1]) bad |= 1ull << i; } u8 tt = 0; for (int i = 0; i < 8; i++) if (bad >> (8 * i) & 0xff) tt |= 1 << i; int n = s.type & SLJIT_32 ? 4 : 8; if (s.src) { memcpy(d, &x, 8); for (int i = 0; i < n; i++) t[i] = tt >> i & 1; wr(s.m, n, d, t); } else setg(s.g, x, tt | (n == 4 ? 0xf0 : 0)); break; }
      case VOP2: { if (s.src) rd(s.m, R, e, u); else memcpy(e, z.v[s.v3], R), memcpy(u, z.vt[s.v3], R); u8 *a = z.v[s.v2], *at = z.vt[s.v2]; for (int i = 0; i < R; i++) switch (s.type & 7) { case 1: d[i] = a[i] & e[i]; t[i] = at[i] | u[i]; break; case 2: d[i] = a[i] | e[i]; t[i] = at[i] | u[i]; break; case 3: d[i] = a[i] ^ e[i]; t[i] = (at[i] | u[i]) && !(!s.src && s.v2 == s.v3); break; default: t[i] = u[i] || e[i] >= R || at[e[i] % R]; d[i] = a[e[i] % R]; } setv(s.v, R, d, t); break; }
      case GMOV: if (s.type && s.src == 1) { memcpy(d, &z.g[s.g], 8); for (int i = 0; i < 8; i++) t[i] = z.gt[s.g] >> i & 1; wr(s.m, 8, d, t); } else if (s.src == 1) { u64 v; rd(s.m, 8, (u8 *)&v, t); u8 tt = 0; for (int i = 0; i < 8; i++) tt |= t[i] << i; setg(s.g, v, tt); } else if (s.src == 2) setg(s.g, s.imm, 0); else setg(s.g, z.g[s.g2], z.gt[s.g2]); break;
      case GADD: { u8 tt = z.gt[s.g2]; if (tt) tt = 0xff; setg(s.g, z.g[s.g2] + s.imm, tt); z.flag = -1; break; }
      case FSET: { bool f32 = s.type; int n = f32 ? 4 : 8; if (s.src == 2) setf(s.v, f32, s.imm, false); else if (s.src == 0) setf(s.v, f32, z.f[s.v2], z.fm[s.v2] != (f32 ? 1 : 2)); else if (s.lane) { memcpy(d, &z.f[s.v], n); memset(t, z.fm[s.v] != (f32 ? 1 : 2), n); wr(s.m, n, d, t); } else { u64 v = 0; rd(s.m, n, (u8 *)&v, t); bool bad = false; for (int i = 0; i < n; i++) bad |= t[i]; setf(s.v, f32, v, bad); } break; }
      case FLAGS: z.flag = z.gt[s.g] | z.gt[s.g2] ? -1 : z.g[s.g] == z.g[s.g2]; break;
      case GETF: setg(s.g, z.flag > 0, z.flag < 0 ? 0xff : 0); break;
      case ALOAD: { int n = G::asize(s.type); u64 v = 0; rd(s.m, n, (u8 *)&v, t); u8 tt = 0; for (int i = 0; i < n; i++) tt |= t[i] << i; if ((s.type & SLJIT_32) || (s.type & 0xff) == SLJIT_MOV32) tt |= 0xf0; setg(s.g, v, tt); break; }
      case ASTORE: { int n = G::asize(s.type); u64 v = 0, x = z.g[s.g3], sv = z.g[s.g], mask = n == 8 ? ~0ull : (1ull << n * 8) - 1; rd(s.m, n, (u8 *)&v, t); bool bad = false; for (int i = 0; i < n; i++) bad |= t[i] || (z.gt[s.g3] >> i & 1); if (bad) { u8 one[8]; memset(one, 1, 8); memcpy(d, &v, 8); wr(s.m, n, d, one); z.gt[s.g3] = 0xff; z.flag = -1; break; }
        if ((x & mask) == (v & mask)) { memcpy(d, &sv, n); for (int i = 0; i < n; i++) t[i] = z.gt[s.g] >> i & 1; wr(s.m, n, d, t); z.flag = 1; } else { z.gt[s.g3] = 0xff; z.flag = 0; } judged++; break; }
      default: break;
    }
  }
};
// ---- the machine ----
struct Emit {
  sljit_compiler *c; const Prg &P; std::string bad;
  void ok(s32 r, const S &s) { if (r != SLJIT_SUCCESS && bad.empty()) bad = strf("error %d for ", r) + show(P, s); }
  template <class F> void simd(const S &s, F f) { bool sup = supported(s); if (s.tested) { s32 r = f(s.type | SLJIT_SIMD_TEST); if ((r == SLJIT_SUCCESS) != sup && bad.empty()) bad = strf("the availability test gives %d for ", r) + show(P, s); } if (!sup) { s32 r = f(s.type); if (r != SLJIT_ERR_UNSUPPORTED && bad.empty()) bad = strf("result %d for the unsupported ", r) + show(P, s); return; } ok(f(s.type), s); }
  void step(const S &s) {
    Opd m = s.src == 1 ? opd(P, s.m) : Opd(); bool F = s.type & SLJIT_SIMD_FLOAT; s32 sr = s.src == 1 ? m.r : s.src == 2 ? SLJIT_IMM : F ? SLJIT_FR(s.v2) : s.g; sw swv = s.src == 1 ? m.w : s.src == 2 ? s.imm : 0; auto V = [](int v) { return SLJIT_VR(v); };
    switch (s.k) {
      case VMOV: simd(s, [&](s32 t) { return sljit_emit_simd_mov(c, t, V(s.v), s.src ? m.r : V(s.v2), m.w); }); break;
      case VREPL: simd(s, [&](s32 t) { return sljit_emit_simd_replicate(c, t, V(s.v), sr, swv); }); break;
      case VLANE: simd(s, [&](s32 t) { return sljit_emit_simd_lane_mov(c, t, V(s.v), s.lane, sr, swv); }); break;
      case VLREPL: simd(s, [&](s32 t) { return sljit_emit_simd_lane_replicate(c, t, V(s.v), V(s.v2), s.lane); }); break;
      case VEXT: simd(s, [&](s32 t) { return sljit_emit_simd_extend(c, t, V(s.v), s.src ? m.r : V(s.v2), m.w); }); break;
      case VSIGN: simd(s, [&](s32 t) { return sljit_emit_simd_sign(c, t, V(s.v), s.src ? m.r : s.g, m.w); }); break;
      case VOP2: simd(s, [&](s32 t) { return sljit_emit_simd_op2(c, t, V(s.v), V(s.v2), s.src ? m.r : V(s.v3), m.w); }); break;
      case GMOV: if (s.type && s.src == 1) ok(sljit_emit_op1(c, SLJIT_MOV, m.r, m.w, s.g, 0), s); else ok(sljit_emit_op1(c, SLJIT_MOV, s.g, 0, s.src == 1 ? m.r : s.src == 2 ? SLJIT_IMM : s.g2, swv), s); break;
      case GADD: ok(sljit_emit_op2(c, SLJIT_ADD, s.g, 0, s.g2, 0, SLJIT_IMM, s.imm), s); break;
      case FSET: { s32 o = s.type ? SLJIT_MOV_F32 : SLJIT_MOV_F64; if (s.src == 2) { if (s.type) ok(sljit_emit_fset32(c, SLJIT_FR(s.v), u2f(s.imm)), s); else ok(sljit_emit_fset64(c, SLJIT_FR(s.v), u2d(s.imm)), s); } else if (s.src == 0) ok(sljit_emit_fop1(c, o, SLJIT_FR(s.v), 0, SLJIT_FR(s.v2), 0), s); else if (s.lane) ok(sljit_emit_fop1(c, o, m.r, m.w, SLJIT_FR(s.v), 0), s); else ok(sljit_emit_fop1(c, o, SLJIT_FR(s.v), 0, m.r, m.w), s); break; }
      case FLAGS: ok(sljit_emit_op2u(c, SLJIT_SUB | SLJIT_SET_Z, s.g, 0, s.g2, 0), s); break;
      case GETF: ok(sljit_emit_op_flags(c, SLJIT_MOV, s.g, 0, s.imm == 2 ? SLJIT_ATOMIC_STORED : SLJIT_ZERO), s); break;
      case ALOAD: if (s.tested && sljit_emit_atomic_load(c, s.type | SLJIT_ATOMIC_TEST, s.g, s.g2) != SLJIT_SUCCESS) bad = "the atomic test refused " + show(P, s); ok(sljit_emit_atomic_load(c, s.type, s.g, s.g2), s); break;
      default: if (s.tested && sljit_emit_atomic_store(c, s.type | SLJIT_ATOMIC_TEST, s.g, s.g2, s.g3) != SLJIT_SUCCESS) bad = "the atomic test refused " + show(P, s); ok(sljit_emit_atomic_store(c, s.type, s.g, s.g2, s.g3), s); break;
    }
  }
};
u64 *ob() { return (u64 *)OUTA; }
void map_edge() { map_regions(); static bool done; if (done) return; done = true; void *p = mmap((void *)EDGE, 0x1000, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | 0x100000, -1, 0); if (p != (void *)EDGE) { fprintf(stderr, "cannot map\n"); _exit(3); } }
}
