// Generator of LIR programs (see lir.h). Only register constants used for addressing have to be tracked exactly;
// everything else is decided by the evaluator's taint.
#pragma once
#include "lir.h"
namespace lir {
struct GOpt { int maxsteps = 40; bool calls = true, loops = true, consts = true, far = true; };
struct Gen2 {
  Choices &c; Prog &P; GOpt o; Func *f = nullptr; std::vector<Step> *out = nullptr;
  struct St { uint8_t k[16]; bool cst[16]; u64 val[16]; bool lp[16]; u64 lpo[16]; uint8_t fk[18]; bool z = false; bool z32 = false; int vt = -1; bool v32 = false; };
  St st; bool dead = false; bool pin[16]; bool lock_[16]; int resv = 0, resv_end = 0; bool track = false; bool wr[16]; bool allpin = false;
  struct Pend { int lab; int level; std::vector<St> in; }; std::vector<Pend> pend; int level = 0; int budget = 0;
  std::vector<std::pair<int, int>> *rewr = nullptr;
  struct Sub { int lab; bool wr[16]; std::vector<Step> body; }; std::vector<Sub> subs;
  std::vector<s32> regs;
  Gen2(Choices &c_, Prog &p, GOpt g) : c(c_), P(p), o(g) { memset(pin, 0, sizeof pin); }
  int nl() { return P.nlab++; }
  Step &emit(Step s) { out->push_back(s); return out->back(); }
  u64 ival() { switch (c.weighted({3, 3, 2, 2, 2})) { case 0: return (u64)c.range(-16, 16); case 1: { int s = (int)c.below(64); u64 b = 1ull << s; return b + (u64)c.range(-2, 2); } case 2: { static const u64 e[] = {0x7f, 0x80, 0xff, 0x100, 0x7fff, 0x8000, 0xffff, 0x7fffffff, 0x80000000, 0xffffffff, 0x100000000ull, 0x7fffffffffffffffull, 0x8000000000000000ull, ~0ull, ~0ull - 127, ~0ull - 128, 0xffffffff80000000ull, 0xffffffff7fffffffull}; return e[c.below(18)]; } case 3: return c.bits(64); default: return c.bits(32); } }
  bool isreg(s32 r) { return (r >= SLJIT_R0 && r < SLJIT_R0 + f->scr) || (r > SLJIT_S0 - f->sav && r <= SLJIT_S0); }
  s32 anyreg() { return regs[c.below(regs.size())]; }
  s32 wreg(bool unlocked) { for (int i = 0; i < 8; i++) { s32 r = anyreg(); if (!pin[r] && !(unlocked && lock_[r])) return r; } for (s32 r : regs) if (!pin[r] && !(unlocked && lock_[r])) return r; return 0; }
  void setk(s32 r, int k) { st.k[r] = k; st.cst[r] = false; st.lp[r] = false; wr[r] = true; }
  void seti(s32 r, u64 v) { Step s; s.k = OP1; s.op = SLJIT_MOV; s.d.r = r; s.a.r = SLJIT_IMM; s.a.w = v; emit(s); setk(r, 2); st.cst[r] = true; st.val[r] = v; }
  // memory operand for n bytes
  Opd mem(int n) {
    Opd m; m.r = SLJIT_MEM;
    if (f->local >= resv_end + n && c.pct(25)) {
      int off = resv_end + (int)c.below(f->local - resv_end - n + 1); if (c.pct(60)) off = off / n * n < resv_end ? off : off / n * n; if (f->local > 5000 && c.pct(70)) off = c.coin() ? resv_end + (int)c.below(64) : f->local - n - (int)c.below(64); if (off < resv_end) off = resv_end; if (off + n > f->local) off = f->local - n;
      std::vector<s32> l; for (s32 r : regs) if (st.lp[r]) l.push_back(r);
      if (!l.empty() && c.pct(50)) { s32 r = c.pick(l); m.r = SLJIT_MEM1(r); m.w = (sw)((u64)off - st.lpo[r]); lock_[r] = true; return m; }
      if (c.pct(15)) { s32 r = wreg(true); if (r) { u64 d = c.coin() ? (u64)c.range(0, 300) : ival(); Step s; s.k = LBASE; s.d.r = r; s.imm = off - d; if (st.z || st.vt >= 0) goto sp; emit(s); setk(r, 2); st.lp[r] = true; st.lpo[r] = off - d; m.r = SLJIT_MEM1(r); m.w = (sw)d; lock_[r] = true; return m; } }
      sp: m.r = SLJIT_MEM1(SLJIT_SP); m.w = off; return m;
    }
    u64 a; { int g = (int)c.below(NREG); int off = (int)c.below(WIN - n + 1); if (c.pct(60)) off = off / n * n; a = regions[g].win + off; }
    int form = c.weighted({3, 5, 4});
    if (form == 0) { m.w = a; return m; }
    if (form == 1) {
      s32 r = 0; for (int i = 0; i < 4 && !r; i++) { s32 q = anyreg(); if (st.cst[q]) r = q; }
      if (r && !c.pct(35)) { lock_[r] = true; m.r = SLJIT_MEM1(r); m.w = (sw)(a - st.val[r]); return m; }
      r = wreg(true); if (!r) { m.w = a; return m; }
      u64 d; switch (c.weighted({2, 3, 2, 2, 1})) { case 0: d = 0; break; case 1: d = (u64)c.range(-130, 130); break; case 2: { static const int64_t e[] = {127, 128, -128, -129, 0x7fffffff, 0x80000000ll, -0x80000000ll, -0x80000001ll, 0xffffffffll, -0xffffffffll, 0x100000000ll}; d = (u64)e[c.below(11)]; break; } case 3: d = (u64)c.range(-100000, 100000); break; default: d = ival(); }
      seti(r, a - d); lock_[r] = true; m.r = SLJIT_MEM1(r); m.w = (sw)d; return m;
    }
    int sh = (int)c.below(4); s32 i = 0; for (int k = 0; k < 4 && !i; k++) { s32 q = anyreg(); if (st.cst[q]) i = q; }
    if (!i || c.pct(40)) { i = wreg(true); if (!i) { m.w = a; return m; } seti(i, c.weighted({3, 1, 1}) == 0 ? c.below(64) : ival()); }
    lock_[i] = true; u64 want = a - (st.val[i] << sh); s32 b = 0; for (s32 q : regs) if (st.cst[q] && st.val[q] == want) b = q;
    if (!b) { b = wreg(true); if (!b) { m.r = SLJIT_MEM1(i); m.w = (sw)(a - st.val[i]); return m; } seti(b, want); }
    lock_[b] = true; m.r = SLJIT_MEM2(b, i); m.w = sh; return m;
  }
  Opd R(s32 r) { Opd x; x.r = r; return x; }
  Opd I(u64 v) { Opd x; x.r = SLJIT_IMM; x.w = (sw)v; return x; }
  // source operand of n bytes (4: 32-bit operation)
  Opd src(int n, bool noimm = false, int memn = 0) {
    int w = c.weighted({45, noimm ? 0 : 25, 30}); int want = n == 4 ? 1 : 2;
    if (w == 1) { u64 v = ival(); return I(n == 4 ? (u64)(int64_t)(int32_t)v : v); }
    if (w == 2) return mem(memn ? memn : n);
    s32 r = anyreg(); for (int i = 0; i < 3 && st.k[r] != want; i++) r = anyreg();
    if (st.k[r] == want) { lock_[r] = true; return R(r); }
    if (st.k[r] == 0 || c.pct(25)) { if (!noimm && c.coin()) { u64 v = ival(); return I(n == 4 ? (u64)(int64_t)(int32_t)v : v); } s32 d = wreg(true); if (!d) return mem(memn ? memn : n); Step s; s.k = OP1; s.op = n == 4 ? SLJIT_MOV32 : SLJIT_MOV; s.d = R(d); s.a = c.coin() ? mem(n) : I(n == 4 ? (u64)(int64_t)(int32_t)ival() : ival()); if (s.a.r != SLJIT_IMM) lock_[d] = false; emit(s); setk(d, want); lock_[d] = true; return R(d); }
    s32 d = wreg(true); if (!d) return mem(memn ? memn : n);
    Step s; s.k = OP1; s.op = n == 4 ? SLJIT_MOV32 : c.coin() ? SLJIT_MOV_S32 : SLJIT_MOV_U32; s.d = R(d); s.a = R(r); emit(s); setk(d, want); lock_[d] = true; return R(d);
  }
  s32 rsrc(int n) { for (int i = 0; i < 3; i++) { s32 r = anyreg(); if (st.k[r] == (n == 4 ? 1 : 2)) { lock_[r] = true; return r; } } s32 d = wreg(true); if (!d) return anyreg(); Step s; s.k = OP1; s.op = n == 4 ? SLJIT_MOV32 : SLJIT_MOV; s.d = R(d); s.a = c.coin() ? mem(n) : I(n == 4 ? (u64)(int64_t)(int32_t)ival() : ival()); emit(s); setk(d, n == 4 ? 1 : 2); lock_[d] = true; return d; }
  Opd dst(int n, const Opd *a = nullptr, const Opd *b = nullptr) {
    int w = c.weighted({50, 22, a ? 18 : 0, b ? 10 : 0});
    if (w == 2 || w == 3) { const Opd &q = w == 2 ? *a : *b; if (q.r == SLJIT_IMM || (!(q.r & SLJIT_MEM) && pin[q.r])) w = 0; else return q; }
    if (w == 1) return mem(n);
    s32 r = 0; if (c.pct(35)) { std::vector<s32> l; for (s32 q : regs) if (lock_[q] && !pin[q]) l.push_back(q); if (!l.empty()) r = c.pick(l); }
    if (!r) r = wreg(false); if (!r) return mem(n); return R(r);
  }
  void wrote(const Opd &d, int k) { if (!(d.r & SLJIT_MEM)) setk(d.r, k); }
  int nf() { return f->fscr; }
  s32 fany() { return SLJIT_FR(c.below(nf())); }
  Opd fsrc(bool f32) {
    if (c.pct(30)) return mem(f32 ? 4 : 8);
    s32 r = fany(); int want = f32 ? 1 : 2; for (int i = 0; i < 3 && st.fk[r] != want; i++) r = fany();
    if (st.fk[r] == want) return R(r);
    if (st.fk[r] && c.coin()) { Step s; s.k = FOP1; s.op = f32 ? SLJIT_CONV_F32_FROM_F64 : SLJIT_CONV_F64_FROM_F32; s.d = R(r); s.a = R(r); if (st.z || st.vt >= 0) return mem(f32 ? 4 : 8); emit(s); st.fk[r] = want; return R(r); }
    Step s; s.k = FOP1; s.op = SLJIT_MOV_F64 | (f32 ? SLJIT_32 : 0); s.d = R(r); s.a = mem(f32 ? 4 : 8); emit(s); st.fk[r] = want; return R(r);
  }
  s32 frsrc(bool f32) { s32 r = fany(); if (st.fk[r] == (f32 ? 1 : 2)) return r; Step s; s.k = FOP1; s.op = SLJIT_MOV_F64 | (f32 ? SLJIT_32 : 0); s.d = R(r); s.a = mem(f32 ? 4 : 8); emit(s); st.fk[r] = f32 ? 1 : 2; return r; }
  Opd fdst(bool f32, const Opd *a = nullptr, const Opd *b = nullptr) { int w = c.weighted({55, 20, a ? 15 : 0, b ? 10 : 0}); if (w == 1) return mem(f32 ? 4 : 8); if (w >= 2) { const Opd &q = w == 2 ? *a : *b; return q; } return R(fany()); }
  void fwrote(const Opd &d, bool f32) { if (!(d.r & SLJIT_MEM)) st.fk[d.r] = f32 ? 1 : 2; }
  void killf() { st.z = false; st.vt = -1; }
  static bool shiftop(int x) { return x >= SLJIT_SHL && x <= SLJIT_MASHR; }
  // pick op2 opcode with flags
  s32 op2op(bool needflags, bool needz) {
    for (;;) {
      int x = SLJIT_ADD + (int)c.below(16); bool w32 = c.coin(); s32 op = x | (w32 ? SLJIT_32 : 0);
      if ((x == SLJIT_ADDC || x == SLJIT_SUBC)) { if (st.vt != SLJIT_CARRY || needz) continue; op = x | (st.v32 ? SLJIT_32 : 0); if (needflags || c.coin()) op |= SLJIT_SET_CARRY; return op; }
      if (st.vt == SLJIT_CARRY && c.pct(40)) { x = c.coin() ? SLJIT_ADDC : SLJIT_SUBC; if (!needz) { op = x | (st.v32 ? SLJIT_32 : 0); if (needflags || c.coin()) op |= SLJIT_SET_CARRY; return op; } }
      if (x == SLJIT_ROTL || x == SLJIT_ROTR) { if (needflags || needz) continue; return op; }
      if (x == SLJIT_MUL) { if (needz) continue; if (needflags || c.coin()) op |= SLJIT_SET_OVERFLOW; return op; }
      bool z = c.pct(needflags ? 60 : 30); int v = 0;
      if (x == SLJIT_ADD && c.coin()) v = c.coin() ? SLJIT_CARRY : SLJIT_OVERFLOW;
      if (x == SLJIT_SUB && c.pct(60)) v = c.pick<int>({SLJIT_LESS, SLJIT_GREATER, SLJIT_SIG_LESS, SLJIT_SIG_GREATER, SLJIT_OVERFLOW, SLJIT_CARRY});
      if (needflags && !z && !v) z = true; if (needz) z = false;
      if (z) op |= SLJIT_SET_Z; if (v) op |= SLJIT_SET(v); return op;
    }
  }
  Opd shamt(s32 op) { int x = op & 0xff; int n = op & SLJIT_32 ? 4 : 8; if (x == SLJIT_SHL || x == SLJIT_LSHR || x == SLJIT_ASHR) { if (c.pct(45)) return I(c.pct(80) ? c.below(n * 8) : ival()); s32 d = wreg(true); if (!d) return I(c.below(n * 8)); if (c.coin()) { Step s; s.k = OP1; s.op = n == 4 ? SLJIT_MOV32 : SLJIT_MOV; s.d = R(d); s.a = I(c.below(n * 8)); emit(s); setk(d, n == 4 ? 1 : 2); } else { Step s; s.k = OP2; s.op = SLJIT_AND | (n == 4 ? SLJIT_32 : 0); s.d = R(d); s.a = src(n); s.b = I(n * 8 - 1); killf(); emit(s); setk(d, n == 4 ? 1 : 2); } lock_[d] = true; return R(d); } return src(n); }
  void setflags(s32 op) { st.z = (op & SLJIT_SET_Z) != 0; st.z32 = op & SLJIT_32; int v = (op >> 10) & 0x3f; st.vt = v ? v : -1; st.v32 = op & SLJIT_32; }
  // a condition usable now, or -1
  int havecond(bool jump) { std::vector<int> l; if (st.z) { l.push_back(0); l.push_back(1); } if (st.vt >= 0) { l.push_back(st.vt); l.push_back(st.vt + 1); } (void)jump; if (l.empty()) return -1; return c.pick(l); }
  void makeflags() {
    memset(lock_, 0, sizeof lock_);
    if (nf() && c.pct(25)) { bool f32 = c.coin(); Step s; s.k = FCMP; int v = c.pick<int>({SLJIT_F_EQUAL, SLJIT_F_LESS, SLJIT_F_GREATER, SLJIT_UNORDERED, SLJIT_ORDERED_EQUAL, SLJIT_ORDERED_LESS, SLJIT_ORDERED_GREATER, SLJIT_UNORDERED_OR_EQUAL, SLJIT_UNORDERED_OR_LESS, SLJIT_UNORDERED_OR_GREATER}); s.op = SLJIT_CMP_F64 | (f32 ? SLJIT_32 : 0) | SLJIT_SET(v); s.a = fsrc(f32); s.b = fsrc(f32); emit(s); st.z = false; st.vt = v; st.v32 = f32; return; }
    bool u = c.coin(); s32 op = op2op(true, false); two(op, u);
  }
  void two(s32 op, bool unset) {
    int n = op & SLJIT_32 ? 4 : 8; int x = op & 0xff; Step s; s.k = unset ? OP2U : OP2; s.op = op;
    bool addc = x == SLJIT_ADDC || x == SLJIT_SUBC; (void)addc;
    if (x == SLJIT_SUB && c.pct(8)) s.a = I(0); else s.a = src(n); s.b = shiftop(x) ? shamt(op) : x == SLJIT_XOR && c.pct(8) ? I(~0ull) : src(n);
    if (addc && st.vt != SLJIT_CARRY) return;
    if (!unset) { s.d = dst(n, &s.a, &s.b); if (addc && st.vt != SLJIT_CARRY) return; if (shiftop(x) && c.pct(20) && (s.a.r & SLJIT_MEM) == 0 && s.a.r != SLJIT_IMM && !pin[s.a.r]) s.d = s.a; }
    emit(s); setflags(op); if (!unset) wrote(s.d, n == 4 ? 1 : 2);
  }
  St meet(const St &a, const St &b) { St r = a; for (int i = 0; i < 16; i++) { if (a.k[i] != b.k[i]) r.k[i] = 0; if (!(a.cst[i] && b.cst[i] && a.val[i] == b.val[i])) r.cst[i] = false; if (!(a.lp[i] && b.lp[i] && a.lpo[i] == b.lpo[i])) r.lp[i] = false; } for (int i = 0; i < 18; i++) if (a.fk[i] != b.fk[i]) r.fk[i] = 0; r.z = false; r.vt = -1; return r; }
  int newpend() { pend.push_back({nl(), level, {}}); return (int)pend.size() - 1; }
  int target() { std::vector<int> l; for (size_t i = 0; i < pend.size(); i++) l.push_back(i); if (l.empty() || c.pct(40)) return newpend(); return c.pick(l); }
  void close(size_t i) { Pend p = pend[i]; pend.erase(pend.begin() + i); Step s; s.k = LABEL; s.lab = p.lab; emit(s); bool have = !dead; St r = st; for (auto &q : p.in) { if (!have) { r = q; have = true; } else r = meet(r, q); } if (have) { st = r; dead = false; } killf(); }
  void use(int pi) { St q = st; pend[pi].in.push_back(q); }
  void branch() {
    memset(lock_, 0, sizeof lock_); int w = c.weighted({4, 4, nf() ? 2 : 0, 3, 1, o.consts ? 2 : 0, 1, o.consts ? 1 : 0});
    Step s;
    switch (w) {
      case 0: { if (havecond(true) < 0 || c.coin()) makeflags(); int cc = havecond(true); if (cc < 0) return; int p = target(); s.k = JUMP; s.op = cc; if (o.consts && c.pct(15)) { int p2 = target(); s.op |= SLJIT_REWRITABLE_JUMP; use(p2); s.x = pend[p2].lab; } s.lab = pend[p].lab; use(p); emit(s); if ((cc & 0xfe) == SLJIT_CARRY) killf(); break; }
      case 1: { bool w32 = c.coin(); s.k = CMPJ; s.op = (int)c.below(10) | (w32 ? SLJIT_32 : 0); if (o.consts && c.pct(8)) s.op |= SLJIT_REWRITABLE_JUMP; s.a = src(w32 ? 4 : 8); s.b = c.pct(25) ? I((u64)c.range(-2, 2)) : src(w32 ? 4 : 8); int p = target(); s.lab = pend[p].lab; killf(); use(p); emit(s); break; }
      case 2: { bool f32 = c.coin(); s.k = FCMPJ; s.op = (SLJIT_F_EQUAL + (int)c.below(20)) | (f32 ? SLJIT_32 : 0); s.a = fsrc(f32); s.b = fsrc(f32); int p = target(); s.lab = pend[p].lab; killf(); use(p); emit(s); break; }
      case 3: { s32 op = op2op(false, true); int x = op & 0xff; if (x == SLJIT_MUL || x == SLJIT_ROTL || x == SLJIT_ROTR || x == SLJIT_ADDC || x == SLJIT_SUBC) op = SLJIT_SUB | (op & SLJIT_32); x = op & 0xff; int n = op & SLJIT_32 ? 4 : 8; s.k = OP2CMPZ; s.op = op | (c.coin() ? SLJIT_JUMP_IF_ZERO : 0); s.a = src(n); s.b = shiftop(x) ? shamt(op) : src(n); s.d = dst(n, &s.a, &s.b); setflags(op); st.z = false; wrote(s.d, n == 4 ? 1 : 2); int p = target(); s.lab = pend[p].lab; use(p); emit(s); break; }
      case 4: { int p = target(); s.k = JUMP; s.op = SLJIT_JUMP; s.lab = pend[p].lab; use(p); emit(s); dead = true; break; }
      case 5: { int p = target(), p2 = target(); s.k = JUMP; s.op = SLJIT_JUMP | SLJIT_REWRITABLE_JUMP; s.lab = pend[p].lab; s.x = pend[p2].lab; use(p); use(p2); emit(s); dead = true; break; }
      case 6: { int p = target(); Opd d = c.coin() ? mem(8) : R(wreg(true)); if (!d.r) return; if (!(d.r & SLJIT_MEM)) { setk(d.r, 0); } s.k = OPADDR; s.op = SLJIT_MOV_ADDR; s.d = d; s.lab = pend[p].lab; emit(s); Step j; j.k = IJUMP; j.op = SLJIT_JUMP; j.a = d; use(p); emit(j); dead = true; break; }
      case 7: {  // jump table
        if (pinned() + 3 > (int)regs.size()) return; int p = target(), p2 = target(); Opd a; if (c.coin()) a = R(rsrc(8)); else a = mem(8);
        s32 ix = wreg(true); if (!ix) return; Step m; m.k = OP2; m.op = SLJIT_AND; m.d = R(ix); m.a = a; m.b = I(1); killf(); emit(m); setk(ix, 2); lock_[ix] = true;
        s32 b = wreg(true); if (!b) return; int k = blob(0); P.data[k].labs = {pend[p].lab, pend[p2].lab}; absaddr(R(b), k); lock_[b] = true;
        Opd q; q.r = SLJIT_MEM2(b, ix); q.w = 3; s.k = IJUMP; s.op = SLJIT_JUMP;
        if (c.coin()) s.a = q; else { s32 r = c.coin() ? b : wreg(false); if (!r) r = b; Step l; l.k = OP1; l.op = SLJIT_MOV_P; l.d = R(r); l.a = q; emit(l); setk(r, 0); s.a = R(r); }
        use(p); use(p2); emit(s); dead = true; break; }
    }
  }
  int pinned() { int n = 0; for (s32 q : regs) n += pin[q]; return n; }
  int blob(int n) { Blob b; for (int i = 0; i < n; i++) b.b.push_back((uint8_t)mix64(P.data.size() * 977 + i)); P.data.push_back(b); return (int)P.data.size() - 1; }
  void absaddr(Opd d, int k) { Step s; s.k = ABSADDR; s.op = SLJIT_MOV_ABS_ADDR; s.d = d; s.x = k; emit(s); if (!(d.r & SLJIT_MEM)) setk(d.r, 0); }
  void simple() {
    memset(lock_, 0, sizeof lock_); Step s; bool F = nf() > 0;
    switch (c.weighted({26, 12, 5, 4, 4, 3, F ? 10 : 0, F ? 8 : 0, F ? 2 : 0, F ? 3 : 0, F ? 4 : 0, 6, 5, F ? 3 : 0, 4, F ? 2 : 0, 1, o.consts ? 2 : 0, 1, 3, o.consts ? 2 : 0, 2})) {
      case 0: two(op2op(false, false), false); break;
      case 1: {  // mov
        s.k = OP1; int x = SLJIT_MOV + (int)c.below(9); static const int sz[] = {8, 1, 1, 2, 2, 4, 4, 4, 8}; int m = sz[x - SLJIT_MOV]; bool to32 = x == SLJIT_MOV32 || (x >= SLJIT_MOV_U8 && x <= SLJIT_MOV_S16 && c.coin()); s.op = x | (x != SLJIT_MOV32 && to32 ? SLJIT_32 : 0);
        int w = c.weighted({5, 2, 4}); if (w == 0) { s.a = R(anyreg()); lock_[s.a.r] = true; if (m == 8 && st.k[s.a.r] != 2) s.a = R(rsrc(8)); } else if (w == 1) s.a = I(ival()); else s.a = mem(m);
        s.d = dst(m, &s.a); emit(s); if (!(s.d.r & SLJIT_MEM)) { bool cc = x == SLJIT_MOV && s.a.r != SLJIT_IMM && !(s.a.r & SLJIT_MEM) && st.cst[s.a.r]; bool ci = x == SLJIT_MOV && s.a.r == SLJIT_IMM; u64 v = cc ? st.val[s.a.r] : ci ? (u64)s.a.w : 0; setk(s.d.r, to32 ? 1 : 2); if (cc || ci) { st.cst[s.d.r] = true; st.val[s.d.r] = v; } } break; }
      case 2: {  // clz ctz rev
        s.k = OP1; int x = SLJIT_CLZ + (int)c.below(7); bool w32 = (x == SLJIT_REV_U32 || x == SLJIT_REV_S32) ? false : c.coin(); s.op = x | (w32 ? SLJIT_32 : 0); int n = w32 ? 4 : 8; int m = x == SLJIT_REV_U16 || x == SLJIT_REV_S16 ? 2 : x >= SLJIT_REV_U32 ? 4 : n;
        s.a = m < n ? (c.coin() ? mem(m) : R(anyreg())) : src(n, true); if (!(s.a.r & SLJIT_MEM)) lock_[s.a.r] = true; s.d = m < n || x == SLJIT_REV_U16 || x == SLJIT_REV_S16 ? dst(m) : dst(n, &s.a); emit(s); killf(); wrote(s.d, n == 4 ? 1 : 2); break; }
      case 3: {  // op0
        if (f->scr < 2 || pin[SLJIT_R0] || pin[SLJIT_R1]) return; int x = c.weighted({1, 4, 4, 4, 4, 4, 4, 1, 1}); if (x == 0) { s.k = OP0; s.op = SLJIT_NOP; emit(s); return; } if (x == 7) { s.k = OP0; s.op = SLJIT_MEMORY_BARRIER; emit(s); return; } if (x == 8) { s.k = OP0; s.op = SLJIT_ENDBR; emit(s); return; }
        bool w32 = x >= 3 && c.coin(); int n = w32 ? 4 : 8; s.k = OP0; s.op = (x + 1) | (w32 ? SLJIT_32 : 0);
        Step a; a.k = OP1; a.op = n == 4 ? SLJIT_MOV32 : SLJIT_MOV; a.d = R(SLJIT_R0); a.a = src(n); emit(a); setk(SLJIT_R0, n == 4 ? 1 : 2); lock_[SLJIT_R0] = true;
        if (x <= 2) { a.d = R(SLJIT_R1); a.a = src(n); emit(a); }
        else { bool sg = x == 4 || x == 6; if (c.coin()) { u64 v = ival(); if (n == 4) v = (u64)(int64_t)(int32_t)v; if (v == 0 || (n == 4 && (uint32_t)v == 0)) v = 3; if (sg && (int64_t)v == -1) v = 7; a.d = R(SLJIT_R1); a.a = I(v); emit(a); } else { Step b; b.k = OP2; b.op = SLJIT_OR | (n == 4 ? SLJIT_32 : 0); b.d = R(SLJIT_R1); b.a = src(n); b.b = I(1); emit(b); if (sg) { b.op = SLJIT_AND | (n == 4 ? SLJIT_32 : 0); b.a = R(SLJIT_R1); b.b = I(c.pick<u64>({0x7fffffffull, 0xff, 0xffff})); emit(b); } } }
        setk(SLJIT_R1, n == 4 ? 1 : 2); emit(s); killf(); setk(SLJIT_R0, n == 4 ? 1 : 2); setk(SLJIT_R1, n == 4 ? 1 : 2); break; }
      case 4: {  // shift into
        bool w32 = c.coin(); int n = w32 ? 4 : 8; int x = c.pick<int>({SLJIT_SHL, SLJIT_MSHL, SLJIT_LSHR, SLJIT_MLSHR}); s.k = SHINTO; s.op = x | (w32 ? SLJIT_32 : 0); s.a = R(rsrc(n)); s.x = c.pct(20) ? s.a.r : rsrc(n); s.b = shamt(s.op);
        s32 d = 0; for (int i = 0; i < 6; i++) { s32 q = c.pct(40) ? (c.coin() ? s.a.r : (s.b.r != SLJIT_IMM && (s.b.r & 0x7f) && (s.b.r & 0x7f) != SLJIT_SP ? s.b.r & 0x7f : s.a.r)) : wreg(false); if (q && q != s.x && !pin[q]) { d = q; break; } } if (!d) return; s.d = R(d); if (s.b.r == SLJIT_IMM && (s.b.w & (n * 8 - 1)) && c.coin()) s.op |= SLJIT_SHIFT_INTO_NON_ZERO; emit(s); killf(); setk(d, n == 4 ? 1 : 2); break; }
      case 5: { bool w32 = c.coin(); int n = w32 ? 4 : 8; s.k = OP2R; s.op = SLJIT_MULADD | (w32 ? SLJIT_32 : 0); s.a = src(n); s.b = src(n); s32 d = rsrc(n); if (pin[d]) return; s.d = R(d); emit(s); killf(); setk(d, n == 4 ? 1 : 2); break; }
      case 6: { bool f32 = c.coin(); s.k = FOP2; s.op = (SLJIT_ADD_F64 + (int)c.below(4)) | (f32 ? SLJIT_32 : 0); s.a = fsrc(f32); s.b = fsrc(f32); s.d = fdst(f32, &s.a, &s.b); emit(s); killf(); fwrote(s.d, f32); break; }
      case 7: {
        bool f32 = c.coin(); int x = c.weighted({4, 3, 3, 3, 3, 3, 3, 3, 3, 3}); static const int ops[] = {SLJIT_MOV_F64, SLJIT_CONV_F64_FROM_F32, SLJIT_CONV_SW_FROM_F64, SLJIT_CONV_S32_FROM_F64, SLJIT_CONV_F64_FROM_SW, SLJIT_CONV_F64_FROM_S32, SLJIT_CONV_F64_FROM_UW, SLJIT_CONV_F64_FROM_U32, SLJIT_NEG_F64, SLJIT_ABS_F64}; s.k = FOP1; s.op = ops[x] | (f32 ? SLJIT_32 : 0);
        if (x == 0 || x >= 8) { s.a = fsrc(f32); s.d = fdst(f32, &s.a); emit(s); if (x) killf(); fwrote(s.d, f32); }
        else if (x == 1) { s.a = fsrc(!f32); s.d = fdst(f32); emit(s); killf(); fwrote(s.d, f32); }
        else if (x <= 3) { s.a = fsrc(f32); s.d = dst(x == 2 ? 8 : 4); emit(s); killf(); wrote(s.d, x == 2 ? 2 : 1); }
        else { int n = x == 4 || x == 6 ? 8 : 4; s.a = src(n); s.d = fdst(f32); emit(s); killf(); fwrote(s.d, f32); } break; }
      case 8: { bool f32 = c.coin(); s.k = FOP2R; s.op = SLJIT_COPYSIGN_F64 | (f32 ? SLJIT_32 : 0); s.a = fsrc(f32); s.b = fsrc(f32); s.d = R(c.pct(30) && !(s.a.r & SLJIT_MEM) ? s.a.r : c.pct(30) && !(s.b.r & SLJIT_MEM) ? s.b.r : fany()); emit(s); killf(); fwrote(s.d, f32); break; }
      case 9: { bool f32 = c.coin(); s.k = f32 ? FSET32 : FSET64; s.d = R(fany()); s.imm = f32 ? (u64)f2u(c.pick<float>({0.f, -0.f, 1.f, -1.5f, 3.0e9f, 1e-40f, INFINITY, 0.1f})) : d2u(c.pick<double>({0., -0., 1., -1.5, 3e9, 5e-324, INFINITY, 0.1, 9e18, 1.8e19, -9e18, 4294967295., 2147483648.})); if (c.pct(20)) s.imm = f32 ? f2u((float)(int32_t)c.bits(32)) : d2u((double)(int64_t)c.bits(64)); emit(s); fwrote(s.d, f32); break; }
      case 10: { bool f32 = c.coin(); int n = f32 ? 4 : 8; s.k = FCOPY; if (c.coin()) { s.op = SLJIT_COPY_TO_F64 | (f32 ? SLJIT_32 : 0); s.a = R(rsrc(n)); s.d = R(fany()); emit(s); fwrote(s.d, f32); } else { s.op = SLJIT_COPY_FROM_F64 | (f32 ? SLJIT_32 : 0); s.d = R(frsrc(f32)); s32 r = wreg(false); if (!r) return; s.a = R(r); emit(s); setk(r, f32 ? 1 : 2); } break; }
      case 11: { if (havecond(false) < 0) makeflags(); int cc = havecond(false); if (cc < 0) return; memset(lock_, 0, sizeof lock_); s.k = OPFLAGS; s.x = cc; int x = c.weighted({5, 2, 2, 2, 2}); static const int ops[] = {SLJIT_MOV, SLJIT_MOV32, SLJIT_AND, SLJIT_OR, SLJIT_XOR}; bool w32 = x == 1 || (x >= 2 && c.coin()); int n = w32 ? 4 : 8; s.op = ops[x] | (x >= 2 && w32 ? SLJIT_32 : 0) | (x >= 2 && c.coin() ? SLJIT_SET_Z : 0); St keep = st;
        if (x < 2) s.d = dst(n); else { Opd q = c.coin() ? mem(n) : R(rsrc(n)); if (!(q.r & SLJIT_MEM) && pin[q.r]) return; s.d = q; } (void)keep; emit(s); if (x >= 2) { killf(); setflags(s.op); } wrote(s.d, n == 4 ? 1 : 2); break; }
      case 12: { if (havecond(false) < 0) makeflags(); int cc = havecond(false); if (cc < 0) return; memset(lock_, 0, sizeof lock_); bool w32 = c.coin(); int n = w32 ? 4 : 8; s.k = SELECT; s.op = cc | (w32 ? SLJIT_32 : 0); s.a = src(n); s.b = R(rsrc(n)); Opd d = dst(n, &s.a, &s.b); if (d.r & SLJIT_MEM) { s32 r = wreg(false); if (!r) return; d = R(r); } s.d = d; emit(s); if ((cc & 0xfe) == SLJIT_CARRY) killf(); setk(d.r, n == 4 ? 1 : 2); break; }
      case 13: { if (havecond(false) < 0) makeflags(); int cc = havecond(false); if (cc < 0) return; memset(lock_, 0, sizeof lock_); bool f32 = c.coin(); s.k = FSELECT; s.op = cc | (f32 ? SLJIT_32 : 0); s.a = fsrc(f32); s.b = R(frsrc(f32)); Opd d = fdst(f32, &s.a, &s.b); if (d.r & SLJIT_MEM) d = R(fany()); s.d = d; if (!(s.a.r & SLJIT_MEM) && st.fk[s.a.r] != (f32 ? 1 : 2)) return; emit(s); if ((cc & 0xfe) == SLJIT_CARRY) killf(); st.fk[d.r] = f32 ? 1 : 2; break; }
      case 20: {  // read-only data
        s32 b = wreg(true); if (!b) return; lock_[b] = true; int k; std::vector<int> l; for (size_t i = 0; i < P.data.size(); i++) if (P.data[i].labs.empty()) l.push_back(i); if (l.empty() || c.coin()) k = blob(8 * (1 + (int)c.below(4))); else k = c.pick(l);
        int n = P.data[k].b.size(); bool f = F && c.pct(25); static const int sz[] = {8, 1, 1, 2, 2, 4, 4, 4, 8}; int x = SLJIT_MOV + (int)c.below(9); int m = f ? 8 : sz[x - SLJIT_MOV]; u64 off = c.below(n - m + 1), d = 0; Opd q; q.r = SLJIT_MEM1(b);
        switch (c.below(3)) {
          case 0: absaddr(R(b), k); break;
          case 1: d = c.coin() ? (u64)c.range(-200, 200) : ival(); seti(b, off - d); off = 0; s.k = ABSADDR; s.op = SLJIT_ADD_ABS_ADDR; s.d = R(b); s.x = k; killf(); emit(s); setk(b, 0); break;
          default: { Opd h = mem(8); if (c.coin()) absaddr(h, k); else { Step z; z.k = OP1; z.op = SLJIT_MOV; z.d = h; z.a = I(off); emit(z); s.k = ABSADDR; s.op = SLJIT_ADD_ABS_ADDR; s.d = h; s.x = k; killf(); emit(s); off = 0; } Step z; z.k = OP1; z.op = SLJIT_MOV; z.d = R(b); z.a = h; emit(z); setk(b, 0); }
        }
        q.w = (sw)(off + d); Step t; if (f) { t.k = FOP1; t.op = SLJIT_MOV_F64; t.d = R(fany()); t.a = q; emit(t); st.fk[t.d.r] = 2; break; }
        t.k = OP1; t.op = x; t.a = q; s32 r = c.coin() ? b : wreg(false); if (!r) r = b; t.d = R(r); emit(t); setk(r, x == SLJIT_MOV32 ? 1 : 2); break; }
      case 14: {  // emit_mem
        s.k = MEMOP; bool store = c.coin();
        if (c.pct(45)) { s.a = mem(16); s32 a, b; if (store) { a = rsrc(8); b = rsrc(8); } else { a = c.pct(35) && (s.a.r & 0x7f) && (s.a.r & 0x7f) != SLJIT_SP ? s.a.r & 0x7f : wreg(false); b = c.pct(25) && (s.a.r >> 8) ? (s.a.r >> 8) & 0x7f : c.pct(30) && (s.a.r & 0x7f) && (s.a.r & 0x7f) != SLJIT_SP ? s.a.r & 0x7f : wreg(false); } if (!a || !b || a == b || (!store && (pin[a] || pin[b]))) return; s.d.r = SLJIT_REG_PAIR(a, b); s.op = SLJIT_MOV | (store ? SLJIT_MEM_STORE : 0) | c.pick<int>({0, SLJIT_MEM_UNALIGNED, SLJIT_MEM_ALIGNED_16, SLJIT_MEM_ALIGNED_32}); emit(s); if (!store) { setk(a, 2); setk(b, 2); } }
        else { int x = SLJIT_MOV + (int)c.below(9); static const int sz[] = {8, 1, 1, 2, 2, 4, 4, 4, 8}; int m = sz[x - SLJIT_MOV]; s.a = mem(m); bool to32 = x == SLJIT_MOV32 || (x >= SLJIT_MOV_U8 && x <= SLJIT_MOV_S16 && c.coin()); s.op = x | (x != SLJIT_MOV32 && to32 ? SLJIT_32 : 0) | (store ? SLJIT_MEM_STORE : 0); int al = SLJIT_MEM_UNALIGNED; if (m == 8) al = c.pick<int>({SLJIT_MEM_UNALIGNED, SLJIT_MEM_ALIGNED_16, SLJIT_MEM_ALIGNED_32}); else if (m == 4) al = c.pick<int>({SLJIT_MEM_UNALIGNED, SLJIT_MEM_ALIGNED_16}); s.op |= al; s32 r = store ? rsrc(m == 8 ? 8 : c.coin() ? 4 : 8) : c.pct(30) && (s.a.r & 0x7f) && (s.a.r & 0x7f) != SLJIT_SP ? s.a.r & 0x7f : wreg(false); if (!r || (!store && pin[r])) return; s.d = R(r); emit(s); if (!store) setk(r, to32 ? 1 : 2); } break; }
      case 15: { s.k = FMEM; bool f32 = c.coin(), store = c.coin(); s.a = mem(f32 ? 4 : 8); s.op = SLJIT_MOV_F64 | (f32 ? SLJIT_32 : 0) | (store ? SLJIT_MEM_STORE : 0) | (f32 ? c.pick<int>({SLJIT_MEM_UNALIGNED, SLJIT_MEM_ALIGNED_16}) : c.pick<int>({SLJIT_MEM_UNALIGNED, SLJIT_MEM_ALIGNED_16, SLJIT_MEM_ALIGNED_32})); if (store) { s32 r = fany(); if (st.fk[r] != (f32 ? 1 : 2)) return; s.d = R(r); emit(s); } else { s.d = R(fany()); emit(s); fwrote(s.d, f32); } break; }
      case 16: { s.k = PREF; s.op = SLJIT_PREFETCH_L1 + (int)c.below(4); s.a = mem(8); emit(s); break; }
      case 17: { s.k = CONST; int x = c.weighted({4, 2, 2, 2}); static const int ops[] = {SLJIT_MOV, SLJIT_MOV32, SLJIT_MOV_S32, SLJIT_MOV_U8}; s.op = ops[x]; s.imm = x == 0 ? ival() : x == 3 ? c.below(256) : (u64)(int64_t)(int32_t)ival(); s.d = dst(x == 1 ? 4 : x == 3 ? 1 : 8); emit(s); wrote(s.d, x == 1 ? 1 : 2); break; }
      case 18: { s.k = LBASE; if (!f->local) return; s.imm = ival(); s.d = dst(8); emit(s); killf(); if (!(s.d.r & SLJIT_MEM)) { setk(s.d.r, 0); st.lp[s.d.r] = true; st.lpo[s.d.r] = s.imm; } break; }
      case 19: { makeflags(); break; }
      case 21: { s.k = CUSTOM; s.x = c.weighted({4, 2, 1, F ? 3 : 0}); if (s.x == 0) { s32 d = rsrc(8); if (pin[d]) return; s.d = R(d); emit(s); killf(); setk(d, 2); } else if (s.x == 1) { s32 d = wreg(false); if (!d || pin[d]) return; s.d = R(d); s.imm = ival(); emit(s); killf(); setk(d, 2); } else if (s.x == 2) { emit(s); killf(); } else { s.d = R(fany()); emit(s); killf(); fwrote(s.d, false); } break; }
    }
  }
  void call() {
    if (!o.calls) return; memset(lock_, 0, sizeof lock_); for (int i = 0; i < f->scr; i++) if (pin[SLJIT_R(i)]) return;
    bool own = P.f.size() > 1 && c.coin(); Step s; s32 args;
    if (own) { int k = 1 + (int)c.below(P.f.size() - 1); if (f == &P.f[k]) return; s.k = CALLF; s.x = k; s.lab = P.f[k].entry; args = 0; Func &g = P.f[k]; args = g.args; s32 na = args & 15; int i = 1; for (int t : arg_types(args)) na |= (t & 7) << (4 * i++); args = na; s.imm = args; s.op = (g.opts & SLJIT_ENTER_REG_ARG) ? SLJIT_CALL_REG_ARG : SLJIT_CALL; if ((g.opts & 3) > f->sav) return; for (int q = 0; q < (g.opts & 3); q++) if (pin[SLJIT_S(q)]) return; if (o.consts && c.pct(10)) s.op |= SLJIT_REWRITABLE_JUMP; }
    else { s.k = CALLC; s.x = (int)c.below(cfns().size()); args = cfns()[s.x].args; s.op = SLJIT_CALL; }
    int wi = 0, fi = 0; for (int t : arg_types(args)) if (t >= TF64) fi++; else wi++; if (wi > f->scr || fi > f->fscr) return; int rt = ret_type(args); if ((rt == TF64 || rt == TF32) && !f->fscr) return; if (rt != TV && rt < TF64 && !f->scr) return;
    wi = fi = 0; for (int t : arg_types(args)) { if (t >= TF64) { s32 r = SLJIT_FR(fi++); int want = t == TF32 ? 1 : 2; if (st.fk[r] != want) { Step m; m.k = FOP1; m.op = SLJIT_MOV_F64 | (t == TF32 ? SLJIT_32 : 0); m.d = R(r); m.a = mem(t == TF32 ? 4 : 8); emit(m); st.fk[r] = want; } } else { s32 r = SLJIT_R(wi++); lock_[r] = true; int want = t == T32 ? 1 : 2; if (st.k[r] != want || c.pct(20)) { Step m; m.k = OP1; m.op = t == T32 ? SLJIT_MOV32 : SLJIT_MOV; m.d = R(r); m.a = src(want == 1 ? 4 : 8); emit(m); setk(r, want); } } }
    // argument registers may have been reused as address registers meanwhile: the evaluator copes (taint), constants stay exact
    if (!own) {
      int w = c.weighted({3, 2, 2, 2}); u64 fp = (u64)cfns()[s.x].p;
      if (w == 0) s.a = Opd(); else if (w == 1) s.a = I(fp);
      else if (w == 2) { s32 r = wreg(c.pct(70)); if (!r) s.a = I(fp); else { Step m; m.k = OP1; m.op = SLJIT_MOV; m.d = R(r); m.a = I(fp); emit(m); setk(r, 2); s.a = R(r); } }
      else { Opd q = mem(8); bool base = (q.r & 0x7f) && (q.r & 0x7f) != SLJIT_SP; (void)base; Step m; m.k = OP1; m.op = SLJIT_MOV; m.d = q; m.a = I(fp); emit(m); s.a = q; }
    }
    emit(s); killf();
    for (int i = 0; i < f->scr; i++) { s32 r = SLJIT_R(i); setk(r, 0); } for (int i = 0; i < 18; i++) st.fk[i] = 0;
    if (own) for (int q = 0; q < (P.f[s.x].opts & 3); q++) setk(SLJIT_S(q), 2);
    if (rt == TW || rt == TP) setk(SLJIT_R0, 2); else if (rt == T32) setk(SLJIT_R0, 1); else if (rt == TF64) st.fk[SLJIT_FR0] = 2; else if (rt == TF32) st.fk[SLJIT_FR0] = 1;
  }
  void loop() {
    if (!o.loops || level >= 2) return; memset(lock_, 0, sizeof lock_); int n = 1 + (int)c.below(4); bool w32 = c.coin(); Opd cnt; s32 r = 0;
    if (f->local && resv + 8 <= resv_end && c.coin()) { cnt.r = SLJIT_MEM1(SLJIT_SP); cnt.w = resv; resv += 8; } else { int free = 0; for (s32 q : regs) free += !pin[q]; r = wreg(true); if (!r || free < 4) return; cnt = R(r); }
    int sz = w32 ? 4 : 8; Step s; s.k = OP1; s.op = w32 ? SLJIT_MOV32 : SLJIT_MOV; s.d = cnt; s.a = I(n); emit(s); if (r) setk(r, w32 ? 1 : 2), pin[r] = true;
    std::vector<s32> keep; for (s32 q : regs) if (st.cst[q] && !pin[q] && c.pct(30)) { int free = 0; for (s32 z : regs) free += !pin[z]; if (free < 4) break; pin[q] = true; keep.push_back(q); }
    int h = nl(); Step l; l.k = LABEL; l.lab = h; emit(l); for (s32 q : regs) { if (!pin[q]) st.cst[q] = false, st.lp[q] = false; } killf(); level++; size_t np = pend.size();
    int body = 1 + (int)c.below(8); for (int i = 0; i < body; i++) stmt(); while (pend.size() > np) close(pend.size() - 1); level--; memset(lock_, 0, sizeof lock_);
    int w = c.weighted({2, 1, 1}); Step t; s32 op = SLJIT_SUB | (w32 ? SLJIT_32 : 0);
    if (w == 0) { t.k = OP2CMPZ; t.op = op; t.d = cnt; t.a = cnt; t.b = I(1); t.lab = h; emit(t); }
    else if (w == 1) { t.k = OP2; t.op = op | SLJIT_SET_Z; t.d = cnt; t.a = cnt; t.b = I(1); emit(t); Step j; j.k = JUMP; j.op = SLJIT_NOT_ZERO; j.lab = h; emit(j); }
    else { t.k = OP2; t.op = op; t.d = cnt; t.a = cnt; t.b = I(1); emit(t); Step j; j.k = CMPJ; j.op = SLJIT_SIG_GREATER | (w32 ? SLJIT_32 : 0); j.a = cnt; j.b = I(0); j.lab = h; emit(j); }
    if (dead) { dead = false; for (s32 q : regs) if (!pin[q]) st.cst[q] = st.lp[q] = false; }
    killf(); for (s32 q : keep) pin[q] = false; if (r) pin[r] = false; (void)sz;
  }
  void fastcall() { if (subs.empty()) return; auto &u = subs[c.below(subs.size())]; for (s32 r : regs) if (u.wr[r] && pin[r]) return; Step s; s.k = FASTCALL; s.lab = u.lab; emit(s); for (s32 r : regs) if (u.wr[r]) { st.cst[r] = st.lp[r] = false; wr[r] = true; } for (int i = 0; i < 18; i++) st.fk[i] = 0; killf(); }
  void filler() { if (!o.far) return; int p = newpend(); Step s; s.k = JUMP; s.op = SLJIT_JUMP; s.lab = pend[p].lab; use(p); emit(s); int n = 5 + (int)c.below(60); s32 r = wreg(false); if (!r) return; for (int i = 0; i < n; i++) { Step m; m.k = OP1; m.op = SLJIT_MOV; m.d = R(r); m.a = I(0x123456789abcull + i); emit(m); } dead = true; if (c.coin()) close(p); }
  void stmt() {
    if (--budget < 0) return;
    switch (c.weighted({100, 14, 12, 6, 5, 5, 1})) {
      case 0: simple(); break; case 1: branch(); break;
      case 2: { std::vector<int> l; for (size_t i = 0; i < pend.size(); i++) if (pend[i].level == level) l.push_back(i); if (!l.empty()) close(c.pick(l)); else if (c.pct(20)) { Step s; s.k = LABEL; s.lab = nl(); emit(s); killf(); } break; }
      case 3: call(); break; case 4: loop(); break; case 5: fastcall(); break; case 6: filler(); break;
    }
  }
  void init_regs() { regs.clear(); for (int i = 0; i < f->scr; i++) regs.push_back(SLJIT_R(i)); for (int i = 0; i < f->sav; i++) regs.push_back(SLJIT_S(i)); }
  void fresh() { memset(&st, 0, sizeof st); st.vt = -1; st.z = false; dead = false; memset(pin, 0, sizeof pin); memset(lock_, 0, sizeof lock_); memset(wr, 0, sizeof wr); }
  void entry_state() { fresh(); int wi = 0, si = 0, fi = 0; for (int t : arg_types(f->args)) { if ((t & 7) >= TF64) st.fk[SLJIT_FR(fi++)] = (t & 7) == TF32 ? 1 : 2; else { s32 r = (f->opts & SLJIT_ENTER_REG_ARG) ? SLJIT_R(wi) : (t & 8) ? SLJIT_R(wi) : SLJIT_S(si++); wi++; st.k[r] = (t & 7) == T32 ? 1 : 2; } } for (int i = 0; i < (f->opts & 3); i++) st.k[SLJIT_S(i)] = 2; }
  void ret() {
    memset(lock_, 0, sizeof lock_); int rt = ret_type(f->args); Step s; if (rt == TV) { s.k = RETVOID; emit(s); return; } s.k = RETV;
    if (rt == TF64 || rt == TF32) { s.op = SLJIT_MOV_F64 | (rt == TF32 ? SLJIT_32 : 0); s.a = fsrc(rt == TF32); }
    else { int x; static const int sz[] = {8, 1, 1, 2, 2, 4, 4, 4, 8}; if (rt == TW) x = SLJIT_MOV + (int)c.below(7); else if (rt == TP) x = SLJIT_MOV_P; else x = c.coin() ? SLJIT_MOV32 : SLJIT_MOV_U8 + (int)c.below(4); s.op = x | (rt == T32 && x != SLJIT_MOV32 ? SLJIT_32 : 0); int m = sz[x - SLJIT_MOV]; int w = c.weighted({5, 1, 2}); if (w == 0) s.a = m == 8 ? R(rsrc(8)) : R(anyreg()); else if (w == 1) s.a = I(ival()); else s.a = mem(m); }
    emit(s);
  }
  s32 rand_args(bool callee, bool reg_arg, int scr, int sav, int fscr) {
    std::vector<int> a; int n = (int)c.below(5), saved = 0, words = 0, fl = 0; for (int i = 0; i < n; i++) { int t = c.pick<int>({TW, T32, TP, TF64, TF32}); if (t >= TF64) { if (fl >= fscr) continue; fl++; a.push_back(t); } else { bool r = reg_arg || c.pct(40) || saved >= sav; if (r) { if (words >= scr) continue; a.push_back(t | 8); words++; } else { a.push_back(t); saved++; words++; } } }
    int rt = c.pick<int>({TV, TW, TW, T32, TP, TF64, TF32}); if (rt >= TF64 && !fscr) rt = TV; if (rt && rt < TF64 && !scr) rt = TV; (void)callee; return mkargs(rt, a);
  }
  void shape(Func &g) { g.sav = (int)c.below(SLJIT_NUMBER_OF_SAVED_REGISTERS + 1); g.scr = c.pct(50) ? 2 + (int)c.below(4) : (int)c.range(2, SLJIT_NUMBER_OF_REGISTERS - g.sav); if (g.scr + g.sav > SLJIT_NUMBER_OF_REGISTERS) g.scr = SLJIT_NUMBER_OF_REGISTERS - g.sav; g.fscr = c.pct(15) ? 0 : c.pct(60) ? 1 + (int)c.below(5) : 1 + (int)c.below(SLJIT_NUMBER_OF_FLOAT_REGISTERS); g.local = c.weighted({2, 4, 1, 1}); g.local = g.local == 0 ? 0 : g.local == 1 ? 8 + (int)c.below(200) : g.local == 2 ? 200 + (int)c.below(5000) : 16000 + (int)c.below(60000); }
  void program() {
    int ncallee = o.calls ? c.weighted({5, 3, 2}) : 0; P.f.resize(1 + ncallee);
    for (int i = ncallee; i >= 1; i--) {
      Func &g = P.f[i]; shape(g); if (g.local > 5000) g.local = 64; bool ra = c.coin(); g.opts = ra ? SLJIT_ENTER_REG_ARG | c.pick<int>({0, 0, 1, 2, 3}) : 0; if ((g.opts & 3) > g.sav) g.opts = SLJIT_ENTER_REG_ARG; if (c.pct(60)) { g.scr = 2 + (int)c.below(2); } g.args = rand_args(true, ra, g.scr, g.sav, g.fscr); g.entry = nl();
      f = &g; out = &g.s; init_regs(); entry_state(); resv = 0; resv_end = g.local >= 24 ? 16 : 0; subs.clear(); pend.clear(); level = 0; budget = 2 + (int)c.below(10); int b = budget; bool oc = o.calls; o.calls = oc && i < ncallee && false; for (int q = 0; q < b; q++) stmt(); o.calls = oc; while (!pend.empty()) close(pend.size() - 1); ret();
    }
    Func &g = P.f[0]; f = &g; shape(g); g.args = rand_args(false, false, g.scr, g.sav, g.fscr); init_regs(); resv = 0; resv_end = g.local >= 64 ? 32 : 0;
    // fast-call subroutines
    std::vector<Step> sub; subs.clear(); int nsub = c.weighted({6, 2, 1}); for (int i = 0; i < nsub; i++) {
      fresh(); for (s32 r : regs) st.k[r] = 2; out = &sub; pend.clear(); level = 1; budget = 1 + (int)c.below(6); Sub u; u.lab = nl(); Step l; l.k = LABEL; l.lab = u.lab; emit(l); Step e; e.k = FENTER; s32 r = 0; if (resv + 8 <= resv_end && c.coin()) { e.d.r = SLJIT_MEM1(SLJIT_SP); e.d.w = resv; resv += 8; } else { r = anyreg(); e.d = R(r); pin[r] = true; } emit(e); if (r) wr[r] = true; int b = budget; bool oc = o.calls, ol = o.loops; o.calls = o.loops = false; std::vector<Sub> ss; ss.swap(subs); for (int q = 0; q < b; q++) stmt(); ss.swap(subs); o.calls = oc; o.loops = ol; while (!pend.empty()) close(pend.size() - 1); Step x; x.k = FRET; x.a = e.d; emit(x); memcpy(u.wr, wr, sizeof wr); subs.push_back(u); }
    out = &g.s; entry_state(); pend.clear(); level = 0; budget = 3 + (int)c.below(o.maxsteps);
    for (s32 r : regs) if (st.k[r] == 0 && c.pct(80)) { Step s; s.k = OP1; bool w32 = c.pct(25); s.op = w32 ? SLJIT_MOV32 : SLJIT_MOV; s.d = R(r); s.a.r = SLJIT_MEM; s.a.w = regions[c.below(NREG)].win + 8 * c.below(64); emit(s); setk(r, w32 ? 1 : 2); }
    for (int i = 0; i < g.fscr; i++) { s32 r = SLJIT_FR(i); if (!st.fk[r] && c.pct(60)) { bool f32 = c.pct(40); Step s; s.k = FOP1; s.op = SLJIT_MOV_F64 | (f32 ? SLJIT_32 : 0); s.d = R(r); s.a.r = SLJIT_MEM; s.a.w = regions[c.below(NREG)].win + 8 * c.below(64); emit(s); st.fk[r] = f32 ? 1 : 2; } }
    for (int i = 0; i < 3; i++) if (g.local >= resv_end + 8 * i + 8 && c.coin()) { Step s; s.k = OP1; s.op = SLJIT_MOV; s.d.r = SLJIT_MEM1(SLJIT_SP); s.d.w = resv_end + 8 * i; s.a = I(ival()); emit(s); }
    int b = budget; for (int q = 0; q < b; q++) stmt(); while (!pend.empty()) close(pend.size() - 1);
    // dump: registers, then some locals
    u64 a = OUTA; for (s32 r : regs) { Step s; s.k = OP1; s.op = SLJIT_MOV; s.d.r = SLJIT_MEM; s.d.w = a; s.a = R(r); if (st.k[r] == 1) { s.op = SLJIT_MOV32; } emit(s); a += 8; }
    for (int i = 0; i < g.fscr; i++) { Step s; s.k = FOP1; bool f32 = st.fk[SLJIT_FR(i)] == 1; s.op = SLJIT_MOV_F64 | (f32 ? SLJIT_32 : 0); s.d.r = SLJIT_MEM; s.d.w = a; s.a = R(SLJIT_FR(i)); emit(s); a += 8; }
    memset(lock_, 0, sizeof lock_); for (int i = 0; i < 24 && i * 8 + 8 <= g.local; i++) { int off = i < 12 ? i * 8 : g.local - 8 - (i - 12) * 8; if (off < 0 || regs.empty()) break; if (off + 8 > g.local) break; Step s; s.k = OP1; s.op = SLJIT_MOV; s.d.r = SLJIT_MEM; s.d.w = a; s.a.r = SLJIT_MEM1(SLJIT_SP); s.a.w = off; emit(s); a += 8; }
    int rt = ret_type(g.args); bool tail = false; if (o.calls && c.pct(12)) { std::vector<int> l; for (size_t i = 0; i < cfns().size(); i++) if (ret_type(cfns()[i].args) == rt) { int wi = 0, fi = 0; for (int t : arg_types(cfns()[i].args)) if (t >= TF64) fi++; else wi++; if (wi <= g.scr && fi <= g.fscr) l.push_back(i); } if (!l.empty()) { Step s; s.k = CALLC; s.x = c.pick(l); s.op = SLJIT_CALL | SLJIT_CALL_RETURN; if (c.coin()) s.a = I((u64)cfns()[s.x].p); else if (c.coin()) { s32 r = anyreg(); Step m; m.k = OP1; m.op = SLJIT_MOV; m.d = R(r); m.a = I((u64)cfns()[s.x].p); emit(m); s.a = R(r); } emit(s); tail = true; } }
    if (!tail) ret();
    for (auto &t : sub) g.s.push_back(t);
    for (auto &h : P.f) { if (h.entry >= 0 && c.pct(20)) h.align = 1 + (int)c.below(4); for (auto &t : h.s) if (t.k == LABEL && c.pct(6)) t.op = 1 + (int)c.below(4); }
    P.dalign = (int)c.below(5);
  }
};
}
