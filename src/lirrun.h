// Runs a generated LIR program as machine code and compares every observable with the evaluator.
#pragma once
#include "lirgen.h"
using namespace lir;
extern "C" void lir_tramp(void *fn, ABI *in, u64 *out);
asm(R"(
.text
.globl lir_tramp
lir_tramp:
  push %rbp; push %rbx; push %r12; push %r13; push %r14; push %r15
  push %rdx
  mov %rdi,%rax
  mov %rsi,%r10
  mov 0(%r10),%rdi
  mov 8(%r10),%rsi
  mov 16(%r10),%rdx
  mov 24(%r10),%rcx
  movsd 32(%r10),%xmm0
  movsd 40(%r10),%xmm1
  movsd 48(%r10),%xmm2
  movsd 56(%r10),%xmm3
  mov $0x1111111111111111,%rbx
  mov $0x2222222222222222,%rbp
  mov $0x3333333333333333,%r12
  mov $0x4444444444444444,%r13
  mov $0x5555555555555555,%r14
  mov $0x6666666666666666,%r15
  mov $0x7777777777777777,%r8
  mov $0x8888888888888888,%r9
  call *%rax
  pop %rdx
  mov %rax,0(%rdx)
  movsd %xmm0,8(%rdx)
  mov %rbx,16(%rdx)
  mov %rbp,24(%rdx)
  mov %r12,32(%rdx)
  mov %r13,40(%rdx)
  mov %r14,48(%rdx)
  mov %r15,56(%rdx)
  pop %r15; pop %r14; pop %r13; pop %r12; pop %rbx; pop %rbp
  ret
)");
static void fill(Choices &c, std::vector<uint8_t> &b) {
  static const double ds[] = {0, -0., 1, -1, 0.5, 1.5, -2.5, 3e9, -3e9, 4e18, 9.3e18, 1.8446744073709550e19, 1e300, -1e300, 5e-324, 2.2e-308, INFINITY, -INFINITY, NAN, 0.1, 4503599627370497.5, 9007199254740993., 2147483647., 2147483648., -2147483649., 4294967296., 16777217., 1.0000000596046448};
  static const float fs[] = {0, -0.f, 1, -1, 0.5f, 1.5f, -2.5f, 3e9f, -3e9f, 4e18f, 9.3e18f, 1.8e19f, 1e38f, -3e38f, 1e-45f, 1e-38f, INFINITY, -INFINITY, NAN, 0.1f, 8388609.f, 16777215.f, 2147483648.f, -2147483648.f};
  u64 s = c.bits(48); auto rnd = [&] { s = mix64(s); return s; };
  for (size_t i = 0; i + 8 <= b.size(); i += 8) { u64 v; u64 k = rnd() % 10; if (k < 2) v = rnd(); else if (k < 4) v = rnd() % 33 - 16; else if (k < 5) v = (1ull << rnd() % 64) + rnd() % 3 - 1; else if (k < 6) v = rnd() & 0xffffffff; else if (k < 8) v = d2u(ds[rnd() % 28]); else v = f2u(fs[rnd() % 24]) | (u64)f2u(fs[rnd() % 24]) << 32; memcpy(&b[i], &v, 8); }
}

struct Built {   // what has to be remembered before the compiler is freed
  std::vector<std::pair<u64, Em::J>> rj; std::vector<std::pair<u64, Em::C>> rc; std::vector<u64> la; sljit_sw xo = 0;
  void take(const Prog &P, Em &e) {
    xo = sljit_get_executable_offset(e.c); la.assign(P.nlab + P.data.size(), 0); for (size_t i = 0; i < la.size(); i++) if (e.lab[i]) la[i] = sljit_get_label_addr(e.lab[i]);
    for (auto &j : e.js) { if (j.s < 0) continue; auto &t = P.f[j.f].s[j.s]; if (t.k == JUMP && (t.op & SLJIT_REWRITABLE_JUMP) && t.x) rj.push_back({sljit_get_jump_addr(j.j), j}); }
    for (auto &k : e.cs) rc.push_back({sljit_get_const_addr(k.k), k});
    for (size_t i = 0; i < P.f.size(); i++) { if (P.f[i].entry >= 0 && P.f[i].align) REQUIRE(la[P.f[i].entry] % (1u << P.f[i].align) == 0, "the entry of function %zu is not aligned to %d", i, 1 << P.f[i].align); for (auto &t : P.f[i].s) if (t.k == LABEL && t.op && la[t.lab]) REQUIRE(la[t.lab] % (1u << t.op) == 0, "label L%d is not aligned to %d", t.lab, 1 << t.op); }
    if (P.data.size()) REQUIRE(la[P.nlab] % (1u << P.dalign) == 0, "the read-only data is not aligned to %d", 1 << P.dalign);
    for (size_t i = 0; i + 1 < P.data.size(); i++) { u64 n = P.data[i].labs.empty() ? P.data[i].b.size() : 8 * P.data[i].labs.size(); REQUIRE(la[P.nlab + i] + n <= la[P.nlab + i + 1], "read-only buffers %zu and %zu overlap", i, i + 1); }
    Em::fill(P, la, xo);
  }
};
struct RunStat { int ok = 0; u64 h = 0; int branches = 0; const char *why = ""; };
// throws CaseFail on a difference; the code is not freed here
static RunStat run_built(Ctx &x, Gen2 &g, const Prog &P, void *code, Built &B, int runs) {
  RunStat S; Choices &c = x.c; auto &rc = B.rc; auto &rj = B.rj; auto &la = B.la; sljit_sw xo = B.xo; std::map<std::pair<int, int>, u64> co; std::map<std::pair<int, int>, int> jo; 
  for (int r = 0; r < runs; r++) {
    if (r) {
      for (auto &q : rc) if (c.coin()) { auto &t = P.f[q.second.f].s[q.second.s]; int o = t.op & 0xff; u64 v = o == SLJIT_MOV ? g.ival() : o == SLJIT_MOV_U8 ? c.below(256) : (u64)(int64_t)(int32_t)g.ival(); sljit_set_const(q.first, t.op, (sw)v, xo); co[{q.second.f, q.second.s}] = v; x.count("constant rewritten"); }
      for (auto &q : rj) if (c.coin()) { auto &t = P.f[q.second.f].s[q.second.s]; int l = c.coin() ? t.x : t.lab; sljit_set_jump_addr(q.first, la[l], xo); jo[{q.second.f, q.second.s}] = l; x.count("jump rewritten"); }
    }
    std::vector<uint8_t> init(NREG * WIN); fill(c, init); std::vector<uint8_t> ab(64); fill(c, ab); ABI in; memcpy(&in, ab.data(), 64);
    static Mem M; memset(&M, 0, sizeof M); for (int i = 0; i < NREG; i++) memcpy(M.b[i], &init[i * WIN], WIN); memset(M.ob, 0xa5, OUTN);
    Eval ev(P, M); ev.const_ovr = co; ev.jump_ovr = jo; Eval::Ret want; bool stopped = false; std::vector<V> ia; std::vector<FV> fa;
    for (int t : arg_types(P.f[0].args)) { if ((t & 7) >= TF64) { FV v; v.f32 = (t & 7) == TF32; v.v = in.f[fa.size()]; if (v.f32) v.v = (uint32_t)v.v; fa.push_back(v); } else { V v; v.v = in.i[ia.size()]; if ((t & 7) == T32) v.t = 2; ia.push_back(v); } }
    try { want = ev.run(0, ia, fa, nullptr, 0); } catch (StopEval &s) { if (!strncmp(s.why, "model", 5)) { FAIL("generator: %s\n%s", s.why, show(P).c_str()); } stopped = true; S.why = s.why; }
    x.count(stopped ? "run without a defined outcome" : "run compared"); if (stopped) continue;
    for (int i = 0; i < NREG; i++) { memset((void *)regions[i].map, 0x5a, 0x2000); memcpy((void *)regions[i].win, &init[i * WIN], WIN); } memset((void *)OUTA, 0xa5, 0x1000);
    g_log.clear(); g_calls = 0; u64 out[8]; lir_tramp(code, &in, out);
    // compare
    std::string bad; auto say = [&](std::string s) { if (bad.empty()) bad = s; };
    static const u64 magic[] = {0x1111111111111111ull, 0x2222222222222222ull, 0x3333333333333333ull, 0x4444444444444444ull, 0x5555555555555555ull, 0x6666666666666666ull}; static const char *mn[] = {"rbx", "rbp", "r12", "r13", "r14", "r15"};
    for (int i = 0; i < 6; i++) if (out[2 + i] != magic[i]) say(strf("callee-saved %s was not restored", mn[i]));
    switch (ret_type(P.f[0].args)) { case TW: case TP: if (!want.v.t && out[0] != want.v.v) say(strf("returned %#llx, expected %#llx", (unsigned long long)out[0], (unsigned long long)want.v.v)); break; case T32: if (!(want.v.t & 1) && (uint32_t)out[0] != (uint32_t)want.v.v) say(strf("returned %#x, expected %#x", (uint32_t)out[0], (uint32_t)want.v.v)); break;
      case TF64: if (want.f.t & 4 ? !isnan(u2d(out[1])) : !(want.f.t & 3) && out[1] != want.f.v) say(strf("returned f64 %#llx, expected %#llx", (unsigned long long)out[1], (unsigned long long)want.f.v)); break; case TF32: if (want.f.t & 4 ? !isnan(u2f((uint32_t)out[1])) : !(want.f.t & 3) && (uint32_t)out[1] != (uint32_t)want.f.v) say(strf("returned f32 %#x, expected %#x", (uint32_t)out[1], (uint32_t)want.f.v)); break; default: break; }
    if (g_log.size() != ev.log.size()) say(strf("%zu C calls happened, expected %zu", g_log.size(), ev.log.size()));
    else for (size_t i = 0; i < g_log.size(); i++) { auto &a = g_log[i], &b = ev.log[i]; if (a.id != b.id) { say(strf("call %zu went to f%d, expected f%d", i, a.id, b.id)); break; } if (!a.aligned) say(strf("stack misaligned at C call %zu", i)); for (int k = 0; k < b.n; k++) { int t = ev.logt[i][k]; if (t == 3) continue; if (t == 4 ? !isnan(u2d(a.a[k])) : t == 5 ? !isnan(u2f((uint32_t)a.a[k])) : a.a[k] != b.a[k]) say(strf("call %zu (f%d) got argument %d %#llx, expected %#llx", i, a.id, k, (unsigned long long)a.a[k], (unsigned long long)b.a[k])); } }
    { uint8_t *p = (uint8_t *)OUTA; int nr = g.regs.size(); for (size_t i = 0; i < OUTN; i++) if (!M.ot[i] && p[i] != M.ob[i]) { int k = i / 8; std::string nm = k < nr ? lir::rn(g.regs[k]) : k < nr + P.f[0].fscr ? strf("F%d", k - nr) : strf("local word %d", k - nr - P.f[0].fscr); u64 a, b; memcpy(&a, p + k * 8, 8); memcpy(&b, M.ob + k * 8, 8); say(strf("%s is %#llx at the end, expected %#llx", nm.c_str(), (unsigned long long)a, (unsigned long long)b)); break; } }
    for (int i = 0; i < NREG; i++) { uint8_t *p = (uint8_t *)regions[i].win; for (size_t k = 0; k < WIN; k++) if (!M.t[i][k] && p[k] != M.b[i][k]) { say(strf("memory byte %#llx is %#x, expected %#x", (unsigned long long)(regions[i].win + k), p[k], M.b[i][k])); break; } uint8_t *q = (uint8_t *)regions[i].map; for (size_t k = 0; k < 0x2000; k++) { u64 ad = regions[i].map + k; if (ad - regions[i].win >= WIN && q[k] != 0x5a) { say(strf("memory byte %#llx, which nothing writes, changed", (unsigned long long)ad)); break; } } }
    if (!bad.empty()) { FAIL("run %d: %s\n%s", r, bad.c_str(), show(P).c_str()); }
    S.ok++; S.h = mix64(S.h ^ ev.cover); S.branches += ev.branches;
  }
  return S;
}
