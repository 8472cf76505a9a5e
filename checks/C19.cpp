// C19: generated straight-line programs of vector and atomic LIR instructions against a byte-level model.
#include "../src/vec.h"
#include <atomic>
#include <thread>
namespace {
using namespace vec;
void fillv(Choices &c, u8 *p, size_t n) { std::vector<uint8_t> b((n + 7) / 8 * 8); if (c.coin()) fill(c, b); else { u64 s = c.bits(32); int mode = c.below(3); for (size_t i = 0; i < b.size(); i++) { s = mix64(s); b[i] = mode == 0 ? s : mode == 1 ? s % 16 : (s & 1 ? 0x80 | s >> 8 : s >> 8 & 0x7f); } } memcpy(p, b.data(), n); }
void program(Ctx &x) {
  Choices &c = x.c; map_edge(); Prg P; G g{c, P, false}; g.gen(); if (x.verbose) x.dump(show(P));
  // layout of the output area: 0.. general registers, 128.. vectors (32 bytes each), 128 + 480.. floats, 752.. local area
  std::vector<u8> vinit(NV * 32), ginit(16 * 8);
  // initial values are read from the output area, which is filled before each run
  sljit_compiler *C = sljit_create_compiler(NULL); Emit e{C, P};
  bool a2 = sljit_has_cpu_feature(SLJIT_HAS_AVX2) > 0; s32 W = a2 ? SLJIT_SIMD_REG_256 : SLJIT_SIMD_REG_128; int wn = a2 ? 32 : 16;
  sljit_emit_enter(C, P.opts, SLJIT_ARGS0V(), P.scr | SLJIT_ENTER_FLOAT(NV) | SLJIT_ENTER_VECTOR(NV), P.sav, LOC);
  for (int v = 0; v < NV; v++) sljit_emit_simd_mov(C, W | SLJIT_SIMD_ELEM_8, SLJIT_VR(v), SLJIT_MEM0(), OUTA + 128 + v * 32);
  for (size_t i = 0; i < P.gp.size(); i++) { int r = P.gp[i]; size_t b = std::find(P.base.begin(), P.base.end(), r) - P.base.begin(); if (b < P.base.size()) sljit_emit_op1(C, SLJIT_MOV, r, 0, SLJIT_IMM, baddr(P, b)); else if (r == P.idx) sljit_emit_op1(C, SLJIT_MOV, r, 0, SLJIT_IMM, P.iv); else sljit_emit_op1(C, SLJIT_MOV, r, 0, SLJIT_MEM0(), OUTA + i * 8); }
  for (auto &s : P.s) e.step(s);
  // which registers hold floats at the end is known without running
  std::vector<u8> fm(NV, 0); for (auto &s : P.s) { if (!supported(s)) continue; if (s.k == FSET && !(s.src == 1 && s.lane)) fm[s.v] = s.type ? 1 : 2; else if (s.k == VLANE && (s.type & 1)) { if ((s.type & SLJIT_SIMD_FLOAT) && !s.src) fm[s.v2] = esz(s.type) == 4 ? 1 : 2; } else if (s.k == VMOV && (s.type & 1)) { if (!s.src) fm[s.v2] = 0; } else if (s.k <= VOP2 && s.k != VSIGN) fm[s.v] = 0; }
  for (size_t i = 0; i < P.gp.size(); i++) sljit_emit_op1(C, SLJIT_MOV, SLJIT_MEM0(), OUTA + i * 8, P.gp[i], 0);
  for (int v = 0; v < NV; v++) if (fm[v]) sljit_emit_fop1(C, fm[v] == 1 ? SLJIT_MOV_F32 : SLJIT_MOV_F64, SLJIT_MEM0(), OUTA + 128 + v * 32, SLJIT_FR(v), 0); else sljit_emit_simd_mov(C, W | SLJIT_SIMD_ELEM_8 | SLJIT_SIMD_STORE, SLJIT_VR(v), SLJIT_MEM0(), OUTA + 128 + v * 32);
  for (int i = 0; i < LOC; i += 8) { sljit_emit_op1(C, SLJIT_MOV, SLJIT_R0, 0, SLJIT_MEM1(SLJIT_SP), i); sljit_emit_op1(C, SLJIT_MOV, SLJIT_MEM0(), OUTA + 640 + i, SLJIT_R0, 0); }
  sljit_emit_return_void(C);
  if (e.bad.size()) { sljit_free_compiler(C); FAIL("%s\n%s", e.bad.c_str(), show(P).c_str()); }
  void *code = sljit_generate_code(C, 0, NULL); s32 err = sljit_get_compiler_error(C); sljit_free_compiler(C); REQUIRE(code, "code generation failed: %d\n%s", err, show(P).c_str());
  std::string bad; int judged = 0;
  for (int r = 0; r < 3 && bad.empty(); r++) {
    static St z; new (&z) St(); for (int i = 0; i <= NREG; i++) fillv(c, z.m[i], WIN); static u8 out[1024]; memset(out, 0xa5, sizeof out); fillv(c, out, 128); for (int v = 0; v < NV; v++) { fillv(c, out + 128 + v * 32, 32); if (r && c.pct(20)) memset(out + 128 + v * 32, c.coin() ? 0 : 0xff, 32); }
    for (int v = 0; v < NV; v++) { memcpy(z.v[v], out + 128 + v * 32, wn); memset(z.vt[v], 0, wn); } memset(z.gt, 0, sizeof z.gt); for (size_t i = 0; i < P.gp.size(); i++) memcpy(&z.g[P.gp[i]], out + i * 8, 8); for (size_t i = 0; i < P.base.size(); i++) z.g[P.base[i]] = baddr(P, i); z.g[P.idx] = P.iv;
    for (int i = 0; i < NREG; i++) { memset((void *)regions[i].map, 0x5a, 0x2000); } memset((void *)EDGE, 0x5a, 0x1000); for (int i = 0; i <= NREG; i++) memcpy(win(i), z.m[i], WIN); memcpy((void *)OUTA, out, 1024);
    Model M{P, z}; for (auto &s : P.s) M.step(s);
    ABI in{}; u64 o8[8]; lir_tramp(code, &in, o8);
    static const u64 magic[] = {0x1111111111111111ull, 0x2222222222222222ull, 0x3333333333333333ull, 0x4444444444444444ull, 0x5555555555555555ull, 0x6666666666666666ull}; for (int i = 0; i < 6 && bad.empty(); i++) if (o8[2 + i] != magic[i]) bad = "a callee-saved register was not restored";
    const u8 *p = (const u8 *)OUTA;
    for (size_t i = 0; i < P.gp.size() && bad.empty(); i++) { for (int k = 0; k < 8; k++) if (!(z.gt[P.gp[i]] >> k & 1) && p[i * 8 + k] != (u8)(z.g[P.gp[i]] >> 8 * k)) { u64 got; memcpy(&got, p + i * 8, 8); bad = strf("%s is %#llx, expected %#llx (undefined bytes %#x)", lir::rn(P.gp[i]).c_str(), (unsigned long long)got, (unsigned long long)z.g[P.gp[i]], z.gt[P.gp[i]]); break; } }
    for (int v = 0; v < NV && bad.empty(); v++) { const u8 *q = p + 128 + v * 32; if (fm[v]) { if (z.fm[v]) { u64 got = 0; memcpy(&got, q, fm[v] == 1 ? 4 : 8); if (got != z.f[v]) bad = strf("F%d is %#llx, expected %#llx", v, (unsigned long long)got, (unsigned long long)z.f[v]); } } else for (int k = 0; k < wn; k++) if (!z.vt[v][k]) { judged++; if (q[k] != z.v[v][k]) { bad = strf("byte %d of V%d is %#x, expected %#x", k, v, q[k], z.v[v][k]); break; } } }
    for (int k = 0; k < LOC && bad.empty(); k++) if (!z.lt[k] && p[640 + k] != z.lo[k]) bad = strf("local byte %d is %#x, expected %#x", k, p[640 + k], z.lo[k]);
    for (int i = 0; i <= NREG && bad.empty(); i++) { u8 *q = win(i); for (size_t k = 0; k < WIN; k++) if (!z.t[i][k] && q[k] != z.m[i][k]) { bad = strf("memory byte %#llx is %#x, expected %#x", (unsigned long long)(u64)(q + k), q[k], z.m[i][k]); break; } u64 b = i == ER ? EDGE : regions[i].map; size_t n = i == ER ? 0x1000 : 0x2000; for (size_t k = 0; k < n && bad.empty(); k++) if (b + k - (u64)q >= WIN && *(u8 *)(b + k) != 0x5a) bad = strf("memory byte %#llx, which nothing writes, changed", (unsigned long long)(b + k)); }
    if (bad.size()) bad = strf("run %d: ", r) + bad;
  }
  sljit_free_code(code, NULL); if (bad.size()) FAIL("%s\n%s", bad.c_str(), show(P).c_str());
  int nv = 0; for (auto &s : P.s) { static const char *n[] = {"mov", "replicate", "lane_mov", "lane_replicate", "extend", "sign", "op2", "general move", "add", "float move", "compare", "flag read", "atomic load", "atomic store"}; x.count(n[s.k]); if (s.k <= VOP2) { nv++; if (!supported(s)) x.count("unsupported form"); } else if (s.k >= ALOAD) nv++; }
  x.evals = 3; x.nontrivial = nv >= 2 && judged >= 64; std::string sp = show(P); x.hash = 1; for (unsigned char ch : sp) x.hash = (x.hash ^ ch) * 1099511628211ull; if (x.shm->nsamples < 3 && x.nontrivial) x.sample = sp;
}
// several threads run generated read-modify-write loops on the same cell: no update may be lost
void hammer(Ctx &x) {
  Choices &c = x.c; static const s32 O[] = {SLJIT_MOV, SLJIT_MOV_U8, SLJIT_MOV_U16, SLJIT_MOV_U32, SLJIT_MOV32, SLJIT_MOV_P}; s32 o = O[c.below(6)]; int n = G::asize(o); int cas = c.coin() ? SLJIT_ATOMIC_USE_CAS : 0; int nt = c.range(2, 4), loops = c.range(300, 3000); int rot = c.below(6);
  static const int RS[] = {SLJIT_R0, SLJIT_R1, SLJIT_R2, SLJIT_R3, SLJIT_S1, SLJIT_S2}; int old = RS[rot], nw = RS[(rot + 1 + c.below(2)) % 6], mem = RS[(rot + 3 + c.below(2)) % 6], cnt = RS[(rot + 5) % 6]; if (nw == mem || cnt == nw || cnt == mem) { mem = RS[(rot + 3) % 6]; nw = RS[(rot + 1) % 6]; }
  std::vector<void *> code; std::vector<u64> add; u64 sum = 0; alignas(64) static u8 cell[64]; memset(cell, 0xc3, 64); int off = 16 + n * c.below(3); u64 init = c.bits(n * 8 > 63 ? 63 : n * 8); memcpy(cell + off, &init, n);
  for (int t = 0; t < nt; t++) {
    u64 k = c.coin() ? 1 : c.bits(30); add.push_back(k); sum += k * loops; sljit_compiler *C = sljit_create_compiler(NULL);
    sljit_emit_enter(C, 0, SLJIT_ARGS1V(W), 5, 3, 0); sljit_emit_op1(C, SLJIT_MOV, mem, 0, SLJIT_S0, 0); sljit_emit_op1(C, SLJIT_MOV, cnt, 0, SLJIT_IMM, loops); sljit_label *L = sljit_emit_label(C);
    sljit_emit_atomic_load(C, o | cas, old, mem); sljit_emit_op2(C, SLJIT_ADD, nw, 0, old, 0, SLJIT_IMM, k); sljit_emit_atomic_store(C, o | cas | SLJIT_SET_ATOMIC_STORED, nw, mem, old);
    sljit_jump *j = sljit_emit_jump(C, SLJIT_ATOMIC_NOT_STORED); sljit_set_label(j, L); sljit_emit_op2(C, SLJIT_SUB | SLJIT_SET_Z, cnt, 0, cnt, 0, SLJIT_IMM, 1); j = sljit_emit_jump(C, SLJIT_NOT_ZERO); sljit_set_label(j, L); sljit_emit_return_void(C);
    void *p = sljit_generate_code(C, 0, NULL); sljit_free_compiler(C); REQUIRE(p, "code generation failed"); code.push_back(p);
  }
  std::atomic<int> go{0}; std::vector<std::thread> th; for (int t = 0; t < nt; t++) th.emplace_back([&, t] { go++; while (go < nt) {} ((void (*)(u8 *))code[t])(cell + off); }); for (auto &t : th) t.join(); for (auto p : code) sljit_free_code(p, NULL);
  u64 got = 0, mask = n == 8 ? ~0ull : (1ull << n * 8) - 1; memcpy(&got, cell + off, n); std::string d = strf("%d threads, %d updates each, %d byte cell, %s", nt, loops, n, opname(o).c_str()); if (got != ((init + sum) & mask)) FAIL("updates were lost: %#llx, expected %#llx (%s)", (unsigned long long)got, (unsigned long long)((init + sum) & mask), d.c_str());
  for (int i = 0; i < 64; i++) if ((i < off || i >= off + n) && cell[i] != 0xc3) FAIL("byte %d beside the cell changed (%s)", i - off, d.c_str());
  x.evals = 1; x.nontrivial = true; x.hash = mix64(sum ^ init * 31 ^ o); x.count("threads hammering a cell"); if (!x.shm->nsamples) x.sample = d;
}
}
int main(int argc, char **argv) {
  CheckDef d{"C19", "program: at least two vector or atomic instructions, and at least 64 defined bytes of vector registers compared at the end; hammer: always. Identity is the instruction listing"};
  d.fams = {{"program", program, 1000000, 30000000, 200}, {"hammer", hammer, 3000, 60000, 20, true}};
  d.assumptions = {"vector and float registers with the same number overlap on x86, writing one makes the other undefined", "bytes of a register above the width last written, shuffle indices beyond the register, and NaN payloads after a float extension are not compared"};
  return check_main(d, argc, argv);
}
