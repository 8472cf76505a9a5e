// A model of sljit's LIR: programs as data, an emitter that drives sljit, and an evaluator written from the
// documentation in sljitLir.h. Undefined or host-dependent values are tracked as taint, never compared.
#pragma once
#include <sljitLir.h>
#include <sys/mman.h>
#include <math.h>
#include <string.h>
#include <array>
#include <functional>
#include <map>
#include <string>
#include <vector>
#include "runner.h"
#include "gen.h"
namespace lir {
typedef sljit_s32 s32; typedef sljit_sw sw; typedef uint64_t u64;
struct Opd { s32 r = 0; sw w = 0; };
enum K { OP0, OP1, OP2, OP2U, OP2R, SHINTO, FOP1, FCMP, FOP2, FOP2R, FSET32, FSET64, FCOPY, OPFLAGS, SELECT, FSELECT, MEMOP, FMEM, LABEL, JUMP, CMPJ, FCMPJ, OP2CMPZ, PREF, CONST, LBASE, CALLC, CALLF, OPADDR, IJUMP, FASTCALL, FENTER, FRET, RETV, RETVOID, ABSADDR, CUSTOM, NK };
struct Step { K k; s32 op = 0; Opd d, a, b; int lab = -1, x = 0; u64 imm = 0; };
struct Func { s32 opts = 0, args = 0, scr = 0, sav = 0, fscr = 0, local = 0; int entry = -1, align = 0; std::vector<Step> s; };
struct Blob { std::vector<uint8_t> b; std::vector<int> labs; };   // read-only data after the code: bytes, or a table of label addresses
struct Prog { std::vector<Func> f; int nlab = 0; std::vector<Blob> data; int dalign = 0; };
static inline int ret_type(s32 args) { return args & 7; }
static inline std::vector<int> arg_types(s32 args) { std::vector<int> v; args >>= 4; while (args) { v.push_back(args & 15); args >>= 4; } return v; }

// ---------------------------------------------------------------- memory
static const u64 WIN = 512;
struct Region { u64 map, win; };
static const Region regions[] = {{0x7ffff000, 0x7fffff00}, {0xfffff000, 0xffffff00}, {0x7e1234560000, 0x7e1234560800}, {0x10000, 0x10000 + 0x900}};
static const u64 OUTA = 0x7e2000000000; static const u64 OUTN = 1024;
static const int NREG = 4;
static inline void map_regions() {
  static bool done = false; if (done) return; done = true;
  auto mk = [](u64 a, size_t n) { void *p = mmap((void *)a, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | 0x100000 /*FIXED_NOREPLACE*/, -1, 0); if (p != (void *)a) { fprintf(stderr, "cannot map %llx\n", (unsigned long long)a); _exit(3); } };
  for (int i = 0; i < NREG; i++) mk(regions[i].map, 0x2000);
  mk(OUTA, 0x1000);
}
// ---------------------------------------------------------------- C functions called by generated code
struct CLog { int id; int n; u64 a[4]; bool aligned; };
static std::vector<CLog> g_log; static int g_calls;
static inline u64 cret(int id, int n) { return mix64(id * 1000003ull + n * 7919ull + 5); }
static inline u64 d2u(double d) { u64 x; memcpy(&x, &d, 8); return x; }
static inline double u2d(u64 x) { double d; memcpy(&d, &x, 8); return d; }
static inline uint32_t f2u(float d) { uint32_t x; memcpy(&x, &d, 4); return x; }
static inline float u2f(uint32_t x) { float d; memcpy(&d, &x, 4); return d; }
static inline double cretd(int id, int n) { return (double)(int64_t)(cret(id, n) >> 20) / 1024.0; }
static inline float cretf(int id, int n) { return (float)(int32_t)(cret(id, n) >> 44) / 16.0f; }
#define LOGA(id_, ...) do { u64 v_[] = {__VA_ARGS__}; CLog l{}; l.id = id_; l.n = sizeof v_ / 8 - 1; for (int i_ = 0; i_ < l.n; i_++) l.a[i_] = v_[i_ + 1]; l.aligned = ((u64)__builtin_frame_address(0) & 15) == 0; g_log.push_back(l); } while (0)
#define NOI __attribute__((noinline, optimize("no-omit-frame-pointer")))
NOI static sw c0(sw a, sw b, sw c, sw d) { LOGA(0, 0, (u64)a, (u64)b, (u64)c, (u64)d); return (sw)cret(0, g_calls++); }
NOI static sw c1(s32 a, sw b) { LOGA(1, 0, (uint32_t)a, (u64)b); return (sw)cret(1, g_calls++); }
NOI static double c2(double a, double b, sw c) { LOGA(2, 0, d2u(a), d2u(b), (u64)c); return cretd(2, g_calls++); }
NOI static float c3(float a, sw b, double c, s32 d) { LOGA(3, 0, f2u(a), (u64)b, d2u(c), (uint32_t)d); return cretf(3, g_calls++); }
NOI static void c4(void *p) { LOGA(4, 0, (u64)p); g_calls++; }
NOI static s32 c5() { LOGA(5, 0); return (s32)cret(5, g_calls++); }
NOI static double c6(float a, float b, float c, float d) { LOGA(6, 0, f2u(a), f2u(b), f2u(c), f2u(d)); return cretd(6, g_calls++); }
NOI static sw c7(sw a, double b, sw c, double d) { LOGA(7, 0, (u64)a, d2u(b), (u64)c, d2u(d)); return (sw)cret(7, g_calls++); }
struct CFn { void *p; s32 args; };
enum { TV = 0, TW = 1, T32 = 2, TP = 3, TF64 = 4, TF32 = 5 };
static inline s32 mkargs(int ret, std::vector<int> a) { s32 r = ret; for (size_t i = 0; i < a.size(); i++) r |= a[i] << (4 * (i + 1)); return r; }
static const std::vector<CFn> &cfns() {
  static const std::vector<CFn> v = {{(void *)c0, mkargs(TW, {TW, TW, TW, TW})}, {(void *)c1, mkargs(TW, {T32, TW})}, {(void *)c2, mkargs(TF64, {TF64, TF64, TW})}, {(void *)c3, mkargs(TF32, {TF32, TW, TF64, T32})},
    {(void *)c4, mkargs(TV, {TP})}, {(void *)c5, mkargs(T32, {})}, {(void *)c6, mkargs(TF64, {TF32, TF32, TF32, TF32})}, {(void *)c7, mkargs(TW, {TW, TF64, TW, TF64})}};
  return v;
}
// ---------------------------------------------------------------- text
static inline std::string rn(s32 r) { if (r == SLJIT_SP) return "SP"; if (r >= 1 && r <= 7) return strf("R%d", r - 1); return strf("S%d", SLJIT_NUMBER_OF_REGISTERS - r); }
static inline std::string on(const Opd &o) {
  if (o.r == SLJIT_IMM) return strf("#%#llx", (unsigned long long)o.w);
  if (o.r & SLJIT_MEM) { int b = o.r & 0x7f, i = (o.r >> 8) & 0x7f; if (!b) return strf("[%#llx]", (unsigned long long)o.w); if (i) return "[" + rn(b) + "+" + rn(i) + strf("<<%d]", (int)o.w); return "[" + rn(b) + strf("%+lld]", (long long)o.w); }
  if (o.r > 0xff) return rn(o.r & 0x7f) + ":" + rn(o.r >> 8);
  return rn(o.r);
}
static inline std::string fon(const Opd &o) { return (o.r & SLJIT_MEM) ? on(o) : strf("F%d", o.r - 1); }
static const char *knames[] = {"op0", "op1", "op2", "op2u", "op2r", "shift_into", "fop1", "fcmp", "fop2", "fop2r", "fset32", "fset64", "fcopy", "op_flags", "select", "fselect", "mem", "fmem", "label", "jump", "cmp", "fcmp-jump", "op2cmpz", "prefetch", "const", "local_base", "call C", "call", "op_addr", "ijump", "fast_call", "fast_enter", "fast_return", "return", "return_void", "abs_addr", "custom"};
static inline std::string opname(s32 op) {
  static const std::map<int, const char *> n = {{0, "break"}, {1, "nop"}, {2, "lmul_uw"}, {3, "lmul_sw"}, {4, "divmod_u"}, {5, "divmod_s"}, {6, "div_u"}, {7, "div_s"}, {8, "barrier"}, {9, "endbr"}, {10, "skip"},
    {32, "mov"}, {33, "mov_u8"}, {34, "mov_s8"}, {35, "mov_u16"}, {36, "mov_s16"}, {37, "mov_u32"}, {38, "mov_s32"}, {39, "mov32"}, {40, "mov_p"}, {41, "clz"}, {42, "ctz"}, {43, "rev"}, {44, "rev_u16"}, {45, "rev_s16"}, {46, "rev_u32"}, {47, "rev_s32"},
    {64, "add"}, {65, "addc"}, {66, "sub"}, {67, "subc"}, {68, "mul"}, {69, "and"}, {70, "or"}, {71, "xor"}, {72, "shl"}, {73, "mshl"}, {74, "lshr"}, {75, "mlshr"}, {76, "ashr"}, {77, "mashr"}, {78, "rotl"}, {79, "rotr"}, {96, "muladd"},
    {144, "fmov"}, {145, "conv_f_f"}, {146, "sw_from_f"}, {147, "s32_from_f"}, {148, "f_from_sw"}, {149, "f_from_s32"}, {150, "f_from_uw"}, {151, "f_from_u32"}, {152, "fcmp"}, {153, "fneg"}, {154, "fabs"}, {176, "fadd"}, {177, "fsub"}, {178, "fmul"}, {179, "fdiv"}, {192, "copysign"}};
  auto i = n.find(op & 0xff); std::string s = i == n.end() ? strf("%d", op & 0xff) : i->second;
  if (op & SLJIT_32) s += "32"; if (op & SLJIT_SET_Z) s += ".z"; if ((op >> 10) & 0x3f) s += strf(".f%d", (op >> 10) & 0x3f); return s;
}
static inline std::string show(const Step &t) {
  std::string s = knames[t.k]; s += " ";
  switch (t.k) {
    case LABEL: return strf("L%d:", t.lab) + (t.op ? strf(" (align %d)", 1 << t.op) : "");
    case ABSADDR: return s + (t.op == SLJIT_ADD_ABS_ADDR ? "add " : "mov ") + on(t.d) + strf(", data %d", t.x);
    case JUMP: return s + strf("type %d -> L%d%s", t.op & 0xff, t.lab, t.op & SLJIT_REWRITABLE_JUMP ? " (rewritable)" : "");
    case FOP1: { int o = t.op & 0xff; return s + opname(t.op) + " " + (o == 146 || o == 147 ? on(t.d) : fon(t.d)) + ", " + (o >= 148 && o <= 151 ? on(t.a) : fon(t.a)); }
    case FCMP: return s + opname(t.op) + " " + fon(t.a) + ", " + fon(t.b);
    case FOP2: case FOP2R: return s + opname(t.op) + " " + fon(t.d) + ", " + fon(t.a) + ", " + fon(t.b);
    case FSET32: case FSET64: return s + fon(t.d) + strf(" = %#llx", (unsigned long long)t.imm);
    case FCOPY: return s + strf("%d%s ", t.op & 0xff, t.op & SLJIT_32 ? "(32)" : "") + fon(t.d) + " " + on(t.a);
    case FCMPJ: return s + strf("type %d%s ", t.op & 0xff, t.op & SLJIT_32 ? "(32)" : "") + fon(t.a) + ", " + fon(t.b) + strf(" -> L%d", t.lab);
    case CMPJ: return s + strf("type %d%s ", t.op & 0xff, t.op & SLJIT_32 ? "(32)" : "") + on(t.a) + ", " + on(t.b) + strf(" -> L%d", t.lab);
    case FSELECT: return s + strf("type %d%s ", t.op & 0xff, t.op & SLJIT_32 ? "(32)" : "") + fon(t.d) + ", " + fon(t.a) + ", " + fon(t.b);
    case SELECT: return s + strf("type %d%s ", t.op & 0xff, t.op & SLJIT_32 ? "(32)" : "") + on(t.d) + ", " + on(t.a) + ", " + on(t.b);
    case OPFLAGS: return s + opname(t.op) + " " + on(t.d) + strf(" type %d", t.x);
    case FMEM: return s + strf("%#x ", t.op) + fon(t.d) + ", " + on(t.a);
    case MEMOP: return s + opname(t.op & 0x1ff) + strf(" %#x ", t.op & ~0x1ff) + on(t.d) + ", " + on(t.a);
    case CONST: return s + opname(t.op) + " " + on(t.d) + strf(" init %lld", (long long)t.imm);
    case CUSTOM: { static const char *n[] = {"not ", "mov imm64 ", "long nop", "pxor "}; return s + n[t.x] + (t.x == 3 ? fon(t.d) : t.x == 2 ? "" : on(t.d)) + (t.x == 1 ? strf(", %#llx", (unsigned long long)t.imm) : ""); }
    case LBASE: return s + on(t.d) + strf(" %+lld", (long long)t.imm);
    case CALLC: return s + strf("f%d via ", t.x) + on(t.a) + (t.op & SLJIT_CALL_RETURN ? " (tail)" : "");
    case CALLF: return s + strf("func %d type %#x", t.x, t.op);
    case OPADDR: return s + on(t.d) + strf(" = L%d", t.lab);
    case IJUMP: return s + on(t.a);
    case FASTCALL: return s + strf("-> L%d", t.lab);
    case FENTER: return s + on(t.d);
    case RETV: { int o = t.op & 0xff; return s + opname(t.op) + " " + (o == 144 ? fon(t.a) : on(t.a)); }
    case OP2CMPZ: return s + opname(t.op & ~SLJIT_SET_Z) + (t.op & SLJIT_SET_Z ? " if-zero " : " if-nonzero ") + on(t.d) + ", " + on(t.a) + ", " + on(t.b) + strf(" -> L%d", t.lab);
    case SHINTO: return s + opname(t.op) + " " + on(t.d) + ", " + rn(t.a.r) + ", " + rn(t.x) + ", " + on(t.b);
    case OP0: return s + opname(t.op);
    case OP2U: return s + opname(t.op) + " " + on(t.a) + ", " + on(t.b);
    case OP1: return s + opname(t.op) + " " + on(t.d) + ", " + on(t.a);
    case OP2: case OP2R: return s + opname(t.op) + " " + on(t.d) + ", " + on(t.a) + ", " + on(t.b);
    default: return s + on(t.a);
  }
}
static inline std::string show(const Prog &P) {
  std::string s; for (size_t i = 0; i < P.f.size(); i++) { auto &f = P.f[i]; s += strf("func %zu opts %#x args %#x scr %d sav %d fscr %d local %d\n", i, f.opts, f.args, f.scr, f.sav, f.fscr, f.local); for (auto &t : f.s) s += "  " + show(t) + "\n"; } for (size_t i = 0; i < P.data.size(); i++) { s += strf("data %zu:", i); for (int l : P.data[i].labs) s += strf(" L%d", l); for (auto b : P.data[i].b) s += strf(" %02x", b); s += "\n"; } return s;
}
// ---------------------------------------------------------------- emitter
struct Em {
  sljit_compiler *c = nullptr; std::vector<sljit_label *> lab; struct J { sljit_jump *j; int lab; int f, s; bool set; }; std::vector<J> js; struct C { sljit_const *k; int f, s; }; std::vector<C> cs;
  bool bad = false; int nlab = 0; std::vector<sljit_read_only_buffer> ro;
  void start(const Prog &P) { c = sljit_create_compiler(NULL); lab.assign(P.nlab + P.data.size(), nullptr); nlab = P.nlab; }
  void jump(sljit_jump *j, int l, int f, int s) { if (!j) { bad = true; return; } bool set = lab[l] != nullptr; if (set) sljit_set_label(j, lab[l]); js.push_back({j, l, f, s, set}); }
  void label(int l, int align = 0) { setlab(l, align ? sljit_emit_aligned_label(c, align, NULL) : sljit_emit_label(c)); }
  void setlab(int l, sljit_label *p) { lab[l] = p; for (auto &j : js) if (j.lab == l && !j.set) { sljit_set_label(j.j, lab[l]); j.set = true; } }
  void enter(const Func &f) { if (f.entry >= 0) label(f.entry, f.align); sljit_emit_enter(c, f.opts, f.args, f.scr | SLJIT_ENTER_FLOAT(f.fscr), f.sav, f.local); }
  void step(const Step &t, int fi, int si) {
    switch (t.k) {
      case OP0: sljit_emit_op0(c, t.op); break;
      case OP1: sljit_emit_op1(c, t.op, t.d.r, t.d.w, t.a.r, t.a.w); break;
      case OP2: sljit_emit_op2(c, t.op, t.d.r, t.d.w, t.a.r, t.a.w, t.b.r, t.b.w); break;
      case OP2U: sljit_emit_op2u(c, t.op, t.a.r, t.a.w, t.b.r, t.b.w); break;
      case OP2R: sljit_emit_op2r(c, t.op, t.d.r, t.a.r, t.a.w, t.b.r, t.b.w); break;
      case SHINTO: sljit_emit_shift_into(c, t.op, t.d.r, t.a.r, t.x, t.b.r, t.b.w); break;
      case FOP1: sljit_emit_fop1(c, t.op, t.d.r, t.d.w, t.a.r, t.a.w); break;
      case FCMP: sljit_emit_fop1(c, t.op, t.a.r, t.a.w, t.b.r, t.b.w); break;
      case FOP2: sljit_emit_fop2(c, t.op, t.d.r, t.d.w, t.a.r, t.a.w, t.b.r, t.b.w); break;
      case FOP2R: sljit_emit_fop2r(c, t.op, t.d.r, t.a.r, t.a.w, t.b.r, t.b.w); break;
      case FSET32: sljit_emit_fset32(c, t.d.r, u2f((uint32_t)t.imm)); break;
      case FSET64: sljit_emit_fset64(c, t.d.r, u2d(t.imm)); break;
      case FCOPY: sljit_emit_fcopy(c, t.op, t.d.r, t.a.r); break;
      case OPFLAGS: sljit_emit_op_flags(c, t.op, t.d.r, t.d.w, t.x); break;
      case SELECT: sljit_emit_select(c, t.op, t.d.r, t.a.r, t.a.w, t.b.r); break;
      case FSELECT: sljit_emit_fselect(c, t.op, t.d.r, t.a.r, t.a.w, t.b.r); break;
      case MEMOP: sljit_emit_mem(c, t.op, t.d.r, t.a.r, t.a.w); break;
      case FMEM: sljit_emit_fmem(c, t.op, t.d.r, t.a.r, t.a.w); break;
      case LABEL: label(t.lab, t.op); break;
      case ABSADDR: jump(sljit_emit_op_addr(c, t.op, t.d.r, t.d.w), nlab + t.x, fi, si); break;
      case JUMP: jump(sljit_emit_jump(c, t.op), t.lab, fi, si); break;
      case CMPJ: jump(sljit_emit_cmp(c, t.op, t.a.r, t.a.w, t.b.r, t.b.w), t.lab, fi, si); break;
      case FCMPJ: jump(sljit_emit_fcmp(c, t.op, t.a.r, t.a.w, t.b.r, t.b.w), t.lab, fi, si); break;
      case OP2CMPZ: jump(sljit_emit_op2cmpz(c, t.op, t.d.r, t.d.w, t.a.r, t.a.w, t.b.r, t.b.w), t.lab, fi, si); break;
      case PREF: sljit_emit_op_src(c, t.op, t.a.r, t.a.w); break;
      case CONST: { sljit_const *k = sljit_emit_const(c, t.op, t.d.r, t.d.w, (sw)t.imm); if (!k) bad = true; cs.push_back({k, fi, si}); break; }
      case CUSTOM: { uint8_t b[16]; int n = 0; s32 q = t.x == 3 ? sljit_get_register_index(SLJIT_FLOAT_REGISTER, t.d.r) : t.x == 2 ? 0 : sljit_get_register_index(SLJIT_GP_REGISTER, t.d.r); if (q < 0 || q > 15) { bad = true; break; }
        if (t.x == 0) { b[n++] = 0x48 | (q >> 3); b[n++] = 0xf7; b[n++] = 0xd0 | (q & 7); } else if (t.x == 1) { b[n++] = 0x48 | (q >> 3); b[n++] = 0xb8 | (q & 7); memcpy(b + n, &t.imm, 8); n += 8; }
        else if (t.x == 2) { static const uint8_t nop[] = {0x66, 0x66, 0x66, 0x66, 0x66, 0x66, 0x2e, 0x0f, 0x1f, 0x84, 0, 0, 0, 0, 0}; memcpy(b, nop, 15); n = 15; } else { b[n++] = 0x66; if (q > 7) b[n++] = 0x45; b[n++] = 0x0f; b[n++] = 0xef; b[n++] = 0xc0 | (q & 7) * 9; }
        uint8_t *u = b + 0; std::vector<uint8_t> odd(17); memcpy(&odd[1], u, n); sljit_emit_op_custom(c, &odd[1], n); break; }
      case LBASE: sljit_get_local_base(c, t.d.r, t.d.w, (sw)t.imm); break;
      case CALLC: if (t.a.r == 0) { sljit_jump *j = sljit_emit_call(c, t.op, cfns()[t.x].args); if (!j) bad = true; else sljit_set_target(j, (sljit_uw)cfns()[t.x].p); } else sljit_emit_icall(c, t.op, cfns()[t.x].args, t.a.r, t.a.w); break;
      case CALLF: jump(sljit_emit_call(c, t.op, (s32)t.imm), t.lab, fi, si); break;
      case OPADDR: jump(sljit_emit_op_addr(c, t.op, t.d.r, t.d.w), t.lab, fi, si); break;
      case IJUMP: sljit_emit_ijump(c, t.op, t.a.r, t.a.w); break;
      case FASTCALL: jump(sljit_emit_jump(c, SLJIT_FAST_CALL), t.lab, fi, si); break;
      case FENTER: sljit_emit_op_dst(c, SLJIT_FAST_ENTER, t.d.r, t.d.w); break;
      case FRET: sljit_emit_op_src(c, SLJIT_FAST_RETURN, t.a.r, t.a.w); break;
      case RETV: sljit_emit_return(c, t.op, t.a.r, t.a.w); break;
      case RETVOID: sljit_emit_return_void(c); break;
      default: break;
    }
  }
  void all(const Prog &P) { for (size_t f = 0; f < P.f.size(); f++) { enter(P.f[f]); for (size_t s = 0; s < P.f[f].s.size(); s++) step(P.f[f].s[s], f, s); } data(P); }
  void data(const Prog &P) { if (P.data.empty()) return; ro.assign(P.data.size(), {}); for (size_t i = 0; i < ro.size(); i++) { ro[i].size = P.data[i].labs.empty() ? P.data[i].b.size() : P.data[i].labs.size() * 8; ro[i].next = i + 1 < ro.size() ? &ro[i + 1] : NULL; } auto l = sljit_emit_aligned_label(c, P.dalign, &ro[0]); if (!l) { bad = true; return; } if (l != ro[0].u.label) bad = true; for (size_t i = 0; i < ro.size(); i++) setlab(P.nlab + i, ro[i].u.label); }
  // after code generation: fill the read-only data
  static void fill(const Prog &P, const std::vector<u64> &la, sw xo) { for (size_t i = 0; i < P.data.size(); i++) { auto &d = P.data[i]; size_t n = d.labs.empty() ? d.b.size() : d.labs.size() * 8; u64 a = la[P.nlab + i]; uint8_t *w = (uint8_t *)sljit_read_only_buffer_start_writing(a, n, xo); for (size_t k = 0; k < d.labs.size(); k++) memcpy(w + 8 * k, &la[d.labs[k]], 8); if (d.labs.empty()) memcpy(w, d.b.data(), n); sljit_read_only_buffer_end_writing(a, n, xo); } }
  // after a serialise / deserialise round trip: find the same labels, jumps and constants by creation order
  void move_to(sljit_compiler *n) {
    std::vector<sljit_label *> nl; for (auto l = sljit_get_first_label(n); l; l = sljit_get_next_label(l)) nl.push_back(l);
    std::map<sljit_jump *, sljit_jump *> mj; { auto a = sljit_get_first_jump(c), b = sljit_get_first_jump(n); while (a && b) { mj[a] = b; a = sljit_get_next_jump(a); b = sljit_get_next_jump(b); } REQUIRE(!a && !b, "the restored compiler has a different number of jumps"); }
    std::map<sljit_const *, sljit_const *> mc; { auto a = sljit_get_first_const(c), b = sljit_get_first_const(n); while (a && b) { mc[a] = b; a = sljit_get_next_const(a); b = sljit_get_next_const(b); } REQUIRE(!a && !b, "the restored compiler has a different number of constants"); }
    for (auto &l : lab) if (l) { auto i = sljit_get_label_index(l); REQUIRE(i < nl.size(), "label %llu is missing from the restored compiler", (unsigned long long)i); l = nl[i]; }
    for (auto &j : js) { j.j = mj[j.j]; REQUIRE(!!sljit_jump_has_label(j.j) == j.set && !sljit_jump_has_target(j.j), "a jump's label was not restored"); if (j.set) REQUIRE(sljit_jump_get_label(j.j) == lab[j.lab], "a jump refers to another label after restoring"); }
    for (auto &k : cs) k.k = mc[k.k];
    c = n;
  }
};
// ---------------------------------------------------------------- evaluator
struct V { u64 v = 0; uint8_t t = 0; };                   // t: 1 low half undefined, 2 high half undefined, 4 NaN of unknown payload
struct FV { u64 v = 0; uint8_t t = 0; bool f32 = false; };
struct ABI { u64 i[4]; u64 f[4]; };
struct Result { u64 rax, xmm0; };
struct Mem { uint8_t b[NREG][WIN]; uint8_t t[NREG][WIN]; uint8_t ob[OUTN], ot[OUTN]; };
struct StopEval { const char *why; };
struct Eval {
  const Prog &P; Mem &M; std::vector<CLog> log; std::vector<std::array<uint8_t, 4>> logt; int calls = 0; int steps = 0; u64 cover = 0; bool nan_seen = false; int branches = 0;
  std::map<std::pair<int, int>, u64> const_ovr; std::map<std::pair<int, int>, int> jump_ovr;
  std::vector<std::pair<int, int>> lpos;                   // label -> function, step
  static const u64 LB = 0x6000000000000000ull, TK = 0x5000000000000000ull, DB = 0x4000000000000000ull; std::vector<std::vector<uint8_t>> db, dt;
  struct Fr { V r[16]; FV f[18]; std::vector<uint8_t> lb, lt; int depth; bool zv = false, zval = false, zt = false; int vt = -1; bool vval = false, vtaint = false; u64 lbase; };
  Eval(const Prog &p, Mem &m) : P(p), M(m) { for (auto &d : p.data) { auto b = d.b; if (d.labs.size()) { b.resize(8 * d.labs.size()); for (size_t i = 0; i < d.labs.size(); i++) { u64 v = TK + d.labs[i]; memcpy(&b[8 * i], &v, 8); } } db.push_back(b); dt.push_back(std::vector<uint8_t>(b.size(), d.labs.empty() ? 0 : 1)); } lpos.assign(p.nlab, {-1, -1}); for (size_t f = 0; f < p.f.size(); f++) { if (p.f[f].entry >= 0) lpos[p.f[f].entry] = {f, 0}; for (size_t s = 0; s < p.f[f].s.size(); s++) if (p.f[f].s[s].k == LABEL) lpos[p.f[f].s[s].lab] = {f, s}; } }
  static int fidx(s32 r) { return r; }
  bool mem(Fr &F, u64 a, int n, uint8_t *&b, uint8_t *&t) {
    if (a - F.lbase < F.lb.size() && a - F.lbase + n <= F.lb.size()) { b = &F.lb[a - F.lbase]; t = &F.lt[a - F.lbase]; return true; }
    for (int i = 0; i < NREG; i++) if (a - regions[i].win < WIN && a - regions[i].win + n <= WIN) { b = M.b[i] + (a - regions[i].win); t = M.t[i] + (a - regions[i].win); return true; }
    if (a - OUTA < OUTN && a - OUTA + n <= OUTN) { b = M.ob + (a - OUTA); t = M.ot + (a - OUTA); return true; }
    if (a >> 60 == 4) { size_t k = (a - DB) >> 20, o = (a - DB) & 0xfffff; if (k < db.size() && o + n <= db[k].size()) { b = &db[k][o]; t = &dt[k][o]; return true; } }
    throw StopEval{"model: address outside memory"};
  }
  u64 addr(Fr &F, const Opd &o) {
    int b = o.r & 0x7f, i = (o.r >> 8) & 0x7f; u64 base = 0;
    if (b == SLJIT_SP) return F.lbase + o.w;
    if (b) base = F.r[b].v;
    if (i) { if (F.r[i].t) throw StopEval{"undefined index"}; return base + (F.r[i].v << (o.w & 3)); }
    return base + o.w;
  }
  V load(Fr &F, const Opd &o, int n) { uint8_t *b, *t; u64 a = addr(F, o); mem(F, a, n, b, t); V v; memcpy(&v.v, b, n); for (int i = 0; i < n; i++) if (t[i]) v.t |= i < 4 ? 1 : 2; return v; }
  void store(Fr &F, const Opd &o, V v, int n) { uint8_t *b, *t; u64 a = addr(F, o); mem(F, a, n, b, t); memcpy(b, &v.v, n); for (int i = 0; i < n; i++) t[i] = (v.t & 4) || (v.t & (i < 4 ? 1 : 2)); }
  // n = 8 or 4 byte operand
  V get(Fr &F, const Opd &o, int n) {
    V v;
    if (o.r == SLJIT_IMM) v.v = o.w;
    else if (o.r & SLJIT_MEM) v = load(F, o, n);
    else v = F.r[o.r];
    if (n == 4) { v.v = (uint32_t)v.v; v.t &= 1; } else if (n == 8) { if (v.t) v.t = 3; }
    if (v.t) v.t = 3;
    return v;
  }
  void put(Fr &F, const Opd &o, V v, int n) { if (o.r & SLJIT_MEM) store(F, o, v, n); else { if (n == 4) { v.v = (uint32_t)v.v; v.t = (v.t ? 1 : 0) | 2; } F.r[o.r] = v; } }
  FV fget(Fr &F, const Opd &o, bool f32) {
    FV v; v.f32 = f32;
    if (o.r & SLJIT_MEM) { V x = load(F, o, f32 ? 4 : 8); v.v = x.v; v.t = x.t ? 3 : 0; return v; }
    v = F.f[o.r]; if (v.f32 != f32) { v.t = 3; F.f[o.r].t = 3; }   /* a register used with the other precision is left undefined (x86 widens in place) */ if (f32) { v.v = (uint32_t)v.v; v.t &= 5; } if (v.t & 3) v.t = 3; v.f32 = f32; return v;
  }
  void fput(Fr &F, const Opd &o, FV v, bool f32) {
    if (o.r & SLJIT_MEM) { V x; x.v = v.v; x.t = v.t; store(F, o, x, f32 ? 4 : 8); return; }
    v.f32 = f32; if (f32) v.v = (uint32_t)v.v; F.f[o.r] = v;
  }
  static bool isn(const FV &a) { return (a.t & 4) || (a.f32 ? isnan(u2f((uint32_t)a.v)) : isnan(u2d(a.v))); }
  FV fres64(double d) { FV v; v.v = d2u(d); if (isnan(d)) v.t = 4, nan_seen = true; return v; }
  FV fres32(float d) { FV v; v.f32 = true; v.v = f2u(d); if (isnan(d)) v.t = 4, nan_seen = true; return v; }
  static FV ftaint(bool f32) { FV v; v.t = 3; v.f32 = f32; return v; }
  // condition: 0/1, or -1 when not known
  int cond(Fr &F, int type) {
    if (type <= SLJIT_NOT_ZERO) { if (!F.zv) throw StopEval{"model: zero flag not set"}; if (F.zt) return -1; return F.zval ^ (type & 1); }
    if ((type & ~1) != F.vt) throw StopEval{"model: variable flag not set"};
    if (F.vtaint) return -1; return F.vval ^ (type & 1);
  }
  static bool icmp(int type, u64 a, u64 b, int n) {
    int64_t sa = n == 4 ? (int32_t)a : (int64_t)a, sb = n == 4 ? (int32_t)b : (int64_t)b; u64 ua = n == 4 ? (uint32_t)a : a, ub = n == 4 ? (uint32_t)b : b;
    switch (type) { case SLJIT_EQUAL: return ua == ub; case SLJIT_NOT_EQUAL: return ua != ub; case SLJIT_LESS: return ua < ub; case SLJIT_GREATER_EQUAL: return ua >= ub; case SLJIT_GREATER: return ua > ub; case SLJIT_LESS_EQUAL: return ua <= ub;
      case SLJIT_SIG_LESS: return sa < sb; case SLJIT_SIG_GREATER_EQUAL: return sa >= sb; case SLJIT_SIG_GREATER: return sa > sb; case SLJIT_SIG_LESS_EQUAL: return sa <= sb; }
    return false;
  }
  // floating comparison; -1 unspecified
  static int fcmp(int type, const FV &a, const FV &b) {
    if ((a.t & 3) || (b.t & 3)) return -1;
    bool un = isn(a) || isn(b); double x = 0, y = 0; if (!un) { x = a.f32 ? u2f((uint32_t)a.v) : u2d(a.v); y = b.f32 ? u2f((uint32_t)b.v) : u2d(b.v); }
    if (type < SLJIT_UNORDERED) { if (un) return -1; switch (type) { case SLJIT_F_EQUAL: return x == y; case SLJIT_F_NOT_EQUAL: return x != y; case SLJIT_F_LESS: return x < y; case SLJIT_F_GREATER_EQUAL: return x >= y; case SLJIT_F_GREATER: return x > y; default: return x <= y; } }
    switch (type) { case SLJIT_UNORDERED: return un; case SLJIT_ORDERED: return !un; case SLJIT_ORDERED_EQUAL: return !un && x == y; case SLJIT_UNORDERED_OR_NOT_EQUAL: return un || x != y; case SLJIT_ORDERED_LESS: return !un && x < y; case SLJIT_UNORDERED_OR_GREATER_EQUAL: return un || x >= y;
      case SLJIT_ORDERED_GREATER: return !un && x > y; case SLJIT_UNORDERED_OR_LESS_EQUAL: return un || x <= y; case SLJIT_UNORDERED_OR_EQUAL: return un || x == y; case SLJIT_ORDERED_NOT_EQUAL: return !un && x != y; case SLJIT_UNORDERED_OR_LESS: return un || x < y; case SLJIT_ORDERED_GREATER_EQUAL: return !un && x >= y;
      case SLJIT_UNORDERED_OR_GREATER: return un || x > y; default: return !un && x <= y; }
  }
  void kill_flags(Fr &F) { F.zv = false; F.vt = -1; }
  V op2(Fr &F, s32 op, V a, V b) {
    int n = op & SLJIT_32 ? 4 : 8; int bits = n * 8; u64 m = n == 4 ? 0xffffffffull : ~0ull; u64 x = a.v & m, y = b.v & m, r = 0; bool ta = a.t || b.t, carry = false, ovf = false; V res;
    int64_t sx = n == 4 ? (int32_t)x : (int64_t)x, sy = n == 4 ? (int32_t)y : (int64_t)y; unsigned __int128 w; __int128 sr;
    int o = op & 0xff;
    switch (o) {
      case SLJIT_ADD: r = (x + y) & m; carry = r < x; sr = (__int128)sx + sy; ovf = sr != (n == 4 ? (int32_t)r : (int64_t)r); break;
      case SLJIT_ADDC: { if (F.vt != SLJIT_CARRY) throw StopEval{"model: carry not set"}; if (F.vtaint) ta = true; w = (unsigned __int128)x + y + F.vval; r = (u64)w & m; carry = (w >> bits) != 0; break; }
      case SLJIT_SUB: r = (x - y) & m; carry = x < y; sr = (__int128)sx - sy; ovf = sr != (n == 4 ? (int32_t)r : (int64_t)r); break;
      case SLJIT_SUBC: { if (F.vt != SLJIT_CARRY) throw StopEval{"model: carry not set"}; if (F.vtaint) ta = true; r = (x - y - F.vval) & m; carry = (unsigned __int128)x < (unsigned __int128)y + F.vval; break; }
      case SLJIT_MUL: { sr = (__int128)sx * sy; r = (u64)sr & m; ovf = sr != (n == 4 ? (int32_t)r : (int64_t)r); break; }
      case SLJIT_AND: r = x & y; break; case SLJIT_OR: r = x | y; break; case SLJIT_XOR: r = x ^ y; break;
      case SLJIT_SHL: case SLJIT_LSHR: case SLJIT_ASHR: if (y >= (u64)bits) { ta = true; y &= bits - 1; } /* fall through */
      case SLJIT_MSHL: case SLJIT_MLSHR: case SLJIT_MASHR: y &= bits - 1; if (o == SLJIT_SHL || o == SLJIT_MSHL) r = (x << y) & m; else if (o == SLJIT_LSHR || o == SLJIT_MLSHR) r = x >> y; else r = (u64)(sx >> y) & m; break;
      case SLJIT_ROTL: y &= bits - 1; r = y ? ((x << y) | (x >> (bits - y))) & m : x; break;
      case SLJIT_ROTR: y &= bits - 1; r = y ? ((x >> y) | (x << (bits - y))) & m : x; break;
    }
    F.zv = (op & SLJIT_SET_Z) != 0; F.zval = r == 0; F.zt = ta;
    int vt = (op >> 10) & 0x3f; F.vt = vt ? vt : -1; F.vtaint = ta;
    if (vt == SLJIT_CARRY) F.vval = carry; else if (vt == SLJIT_OVERFLOW) F.vval = ovf; else if (vt) F.vval = icmp(vt, x, y, n);
    res.v = r; res.t = ta ? 3 : 0; return res;
  }
  V imm_shift(s32 op, const Opd &o, V v) { int x = op & 0xff; if (o.r == SLJIT_IMM && (x == SLJIT_SHL || x == SLJIT_LSHR || x == SLJIT_ASHR)) v.v &= op & SLJIT_32 ? 31 : 63; return v; }
  static u64 bsw(u64 v, int n) { u64 r = 0; for (int i = 0; i < n; i++) r |= ((v >> (8 * i)) & 0xff) << (8 * (n - 1 - i)); return r; }
  static u64 ext(u64 v, int bits, bool sgn) { if (bits == 64) return v; u64 m = (1ull << bits) - 1; v &= m; if (sgn && (v >> (bits - 1))) v |= ~m; return v; }
  struct Ret { V v; FV f; };
  Ret run(int fi, std::vector<V> iargs, std::vector<FV> fargs, Fr *caller, int depth) {
    const Func &f = P.f[fi]; Fr F; F.depth = depth; F.lbase = LB + ((u64)depth << 40); F.lb.assign(f.local, 0); F.lt.assign(f.local, 1);
    for (auto &r : F.r) r.t = 3; for (auto &r : F.f) r.t = 3;
    int kept = f.opts & 3; if (caller) for (int i = 0; i < kept; i++) F.r[SLJIT_S(i)] = caller->r[SLJIT_S(i)];
    { size_t ii = 0, fi2 = 0, wi = 0; int si = 0; for (int t : arg_types(f.args)) { if ((t & 7) >= TF64) { F.f[SLJIT_FR(fi2)] = fargs[fi2]; fi2++; } else { V v = iargs[ii++]; if ((t & 7) == T32) { v.t |= 2; } s32 reg = (f.opts & SLJIT_ENTER_REG_ARG) ? SLJIT_R(wi) : (t & 8) ? SLJIT_R(wi) : SLJIT_S(si++); F.r[reg] = v; wi++; } } }
    std::vector<int> frames; size_t pc = 0;
    auto take = [&](int l) { if (lpos[l].first != fi) throw StopEval{"model: jump to another function"}; pc = lpos[l].second; branches++; };
    for (;;) {
      if (pc >= f.s.size()) throw StopEval{"model: ran off the end"};
      if (++steps > 4000) throw StopEval{"too many steps"};
      const Step &t = f.s[pc]; size_t cur = pc; pc++; cover = mix64(cover ^ (t.k * 131 + (t.op & 0x1ff)));
      int n = t.op & SLJIT_32 ? 4 : 8;
      switch (t.k) {
        case OP0: {
          int o = t.op & 0xff; if (o < 2 || o > 7) break; V &a = F.r[SLJIT_R0], &b = F.r[SLJIT_R1]; kill_flags(F);
          V x = a, y = b; if (n == 4) { x.v = (uint32_t)x.v; y.v = (uint32_t)y.v; x.t &= 1; y.t &= 1; } bool ta = x.t || y.t; V q, r;
          if (o == 2) { unsigned __int128 w = (unsigned __int128)x.v * y.v; q.v = (u64)w; r.v = (u64)(w >> 64); }
          else if (o == 3) { __int128 w = (__int128)(int64_t)x.v * (int64_t)y.v; q.v = (u64)w; r.v = (u64)(w >> 64); }
          else { if (ta) throw StopEval{"undefined division"}; if (y.v == 0) throw StopEval{"model: division by zero"};
            if (o == 4 || o == 6) { q.v = x.v / y.v; r.v = x.v % y.v; }
            else if (n == 4) { if ((int32_t)y.v == -1 && (int32_t)x.v == INT32_MIN) throw StopEval{"model: division overflow"}; q.v = (uint32_t)((int32_t)x.v / (int32_t)y.v); r.v = (uint32_t)((int32_t)x.v % (int32_t)y.v); }
            else { if ((int64_t)y.v == -1 && (int64_t)x.v == INT64_MIN) throw StopEval{"model: division overflow"}; q.v = (u64)((int64_t)x.v / (int64_t)y.v); r.v = (u64)((int64_t)x.v % (int64_t)y.v); } }
          q.t = r.t = ta ? 3 : 0; if (n == 4) { q.t |= 2; r.t |= 2; }
          a = q; if (o <= 5) b = r; break; }
        case OP1: {
          int o = t.op & 0xff; V v;
          if (o <= SLJIT_MOV_P) {
            static const int sz[] = {8, 1, 1, 2, 2, 4, 4, 4, 8}; static const bool sg[] = {0, 0, 1, 0, 1, 0, 1, 0, 0}; int k = o - SLJIT_MOV, s = sz[k];
            if (t.a.r == SLJIT_IMM) v.v = t.a.w; else if (t.a.r & SLJIT_MEM) v = load(F, t.a, s); else { v = F.r[t.a.r]; if (s == 8 ? v.t : (v.t & 1)) v.t = 3; else v.t = 0; }
            v.v = ext(v.v, s * 8, sg[k]); if (v.t) v.t = 3;
            if (t.d.r & SLJIT_MEM) store(F, t.d, v, s); else { if (o == SLJIT_MOV32 || (t.op & SLJIT_32)) v.t |= 2; F.r[t.d.r] = v; }
            break;
          }
          kill_flags(F);
          if (o == SLJIT_CLZ || o == SLJIT_CTZ) { v = get(F, t.a, n); u64 x = v.v; int r; if (n == 4) { uint32_t y = x; r = !y ? 32 : o == SLJIT_CLZ ? __builtin_clz(y) : __builtin_ctz(y); } else r = !x ? 64 : o == SLJIT_CLZ ? __builtin_clzll(x) : __builtin_ctzll(x); v.v = r; put(F, t.d, v, n); }
          else if (o == SLJIT_REV) { v = get(F, t.a, n); v.v = bsw(v.v, n); put(F, t.d, v, n); }
          else { int s = o == SLJIT_REV_U16 || o == SLJIT_REV_S16 ? 2 : 4; bool sgn = o == SLJIT_REV_S16 || o == SLJIT_REV_S32; if (t.a.r & SLJIT_MEM) v = load(F, t.a, s); else { v = F.r[t.a.r]; v.t &= 1; } v.v = ext(bsw(v.v, s), s * 8, sgn); if (v.t) v.t = 3; if (t.d.r & SLJIT_MEM) store(F, t.d, v, s); else { if (n == 4) v.t |= 2; F.r[t.d.r] = v; } }
          break; }
        case OP2: { V a = get(F, t.a, n), b = imm_shift(t.op, t.b, get(F, t.b, n)); V r = op2(F, t.op, a, b); put(F, t.d, r, n); break; }
        case OP2U: { V a = get(F, t.a, n), b = imm_shift(t.op, t.b, get(F, t.b, n)); op2(F, t.op, a, b); break; }
        case OP2R: { V a = get(F, t.a, n), b = get(F, t.b, n), d = get(F, t.d, n), r; r.v = d.v + a.v * b.v; r.t = a.t | b.t | d.t; kill_flags(F); put(F, t.d, r, n); break; }
        case SHINTO: {
          Opd sa, sb; sa.r = t.a.r; sb.r = t.x; V a = get(F, sa, n), b = get(F, sb, n), s = get(F, t.b, n), r; int bits = n * 8; u64 m = bits - 1, mask = n == 4 ? 0xffffffffull : ~0ull; int o = t.op & 0xff; bool ta = a.t || b.t || s.t;
          if (t.b.r == SLJIT_IMM) s.v &= m; if ((o == SLJIT_SHL || o == SLJIT_LSHR) && s.v >= (u64)bits) ta = true; s.v &= m;
          if ((t.op & SLJIT_SHIFT_INTO_NON_ZERO) && s.v == 0) ta = true;
          if (t.a.r == t.x) { r.v = o == SLJIT_SHL || o == SLJIT_MSHL ? (s.v ? ((a.v << s.v) | (a.v >> (bits - s.v))) : a.v) : (s.v ? ((a.v >> s.v) | (a.v << (bits - s.v))) : a.v); }
          else if (o == SLJIT_SHL || o == SLJIT_MSHL) r.v = (a.v << s.v) | ((b.v >> 1) >> (s.v ^ m)); else r.v = (a.v >> s.v) | (((b.v << 1) & mask) << (s.v ^ m));
          r.v &= mask; r.t = ta ? 3 : 0; kill_flags(F); put(F, t.d, r, n); break; }
        case FOP1: {
          int o = t.op & 0xff; bool f32 = t.op & SLJIT_32; if (o != SLJIT_MOV_F64) kill_flags(F);
          switch (o) {
            case SLJIT_MOV_F64: fput(F, t.d, fget(F, t.a, f32), f32); break;
            case SLJIT_CONV_F64_FROM_F32: { FV a = fget(F, t.a, !f32), r; if (a.t & 3) r = ftaint(f32); else if (isn(a)) { r.t = 4; r.v = f32 ? 0x7fc00000u : 0x7ff8000000000000ull; } else if (f32) r = fres32((float)u2d(a.v)); else r = fres64((double)u2f((uint32_t)a.v)); r.f32 = f32; fput(F, t.d, r, f32); break; }
            case SLJIT_CONV_SW_FROM_F64: case SLJIT_CONV_S32_FROM_F64: {
              FV a = fget(F, t.a, f32); V r; bool s32_ = o == SLJIT_CONV_S32_FROM_F64; double x = 0; if ((a.t & 3) || isn(a)) r.t = 3; else { x = f32 ? (double)u2f((uint32_t)a.v) : u2d(a.v); x = trunc(x); if (s32_ ? !(x >= -2147483648.0 && x <= 2147483647.0) : !(x >= -9223372036854775808.0 && x < 9223372036854775808.0)) r.t = 3; else r.v = s32_ ? (u64)(uint32_t)(int32_t)x : (u64)(int64_t)x; }
              put(F, t.d, r, s32_ ? 4 : 8); break; }
            case SLJIT_CONV_F64_FROM_SW: case SLJIT_CONV_F64_FROM_S32: case SLJIT_CONV_F64_FROM_UW: case SLJIT_CONV_F64_FROM_U32: {
              int s = o == SLJIT_CONV_F64_FROM_SW || o == SLJIT_CONV_F64_FROM_UW ? 8 : 4; bool sg = o == SLJIT_CONV_F64_FROM_SW || o == SLJIT_CONV_F64_FROM_S32; V a = get(F, t.a, s); FV r; if (a.t) r = ftaint(f32);
              else { if (sg) { int64_t x = s == 4 ? (int32_t)a.v : (int64_t)a.v; r = f32 ? fres32((float)x) : fres64((double)x); } else { u64 x = a.v; r = f32 ? fres32((float)x) : fres64((double)x); } } fput(F, t.d, r, f32); break; }
            case SLJIT_NEG_F64: case SLJIT_ABS_F64: { FV a = fget(F, t.a, f32), r; u64 sb = f32 ? 0x80000000ull : 1ull << 63; if (a.t & 3) r = ftaint(f32); else { r.v = o == SLJIT_NEG_F64 ? a.v ^ sb : a.v & ~sb; r.t = isn(a) ? 4 : 0; r.f32 = f32; } fput(F, t.d, r, f32); break; }
          }
          break; }
        case FCMP: { bool f32 = t.op & SLJIT_32; FV a = fget(F, t.a, f32), b = fget(F, t.b, f32); int vt = (t.op >> 10) & 0x3f; int r = fcmp(vt, a, b); F.zv = false; F.vt = vt; F.vtaint = r < 0; F.vval = r > 0; break; }
        case FOP2: {
          bool f32 = t.op & SLJIT_32; FV a = fget(F, t.a, f32), b = fget(F, t.b, f32), r; kill_flags(F);
          if ((a.t & 3) || (b.t & 3)) r = ftaint(f32); else if (isn(a) || isn(b)) { r.t = 4; r.f32 = f32; r.v = f32 ? 0x7fc00000u : 0x7ff8000000000000ull; }
          else if (f32) { volatile float x = u2f((uint32_t)a.v), y = u2f((uint32_t)b.v), z; switch (t.op & 0xff) { case SLJIT_ADD_F64: z = x + y; break; case SLJIT_SUB_F64: z = x - y; break; case SLJIT_MUL_F64: z = x * y; break; default: z = x / y; } r = fres32(z); }
          else { volatile double x = u2d(a.v), y = u2d(b.v), z; switch (t.op & 0xff) { case SLJIT_ADD_F64: z = x + y; break; case SLJIT_SUB_F64: z = x - y; break; case SLJIT_MUL_F64: z = x * y; break; default: z = x / y; } r = fres64(z); }
          fput(F, t.d, r, f32); break; }
        case FOP2R: { bool f32 = t.op & SLJIT_32; FV a = fget(F, t.a, f32), b = fget(F, t.b, f32), r; kill_flags(F); u64 sb = f32 ? 0x80000000ull : 1ull << 63; if ((a.t & 3) || (b.t & 3) || (b.t & 4)) r = ftaint(f32); else { r.v = (a.v & ~sb) | (b.v & sb); r.t = isn(a) ? 4 : 0; } fput(F, t.d, r, f32); break; }
        case FSET32: { FV r; r.v = (uint32_t)t.imm; r.f32 = true; fput(F, t.d, r, true); break; }
        case FSET64: { FV r; r.v = t.imm; fput(F, t.d, r, false); break; }
        case FCOPY: {
          bool f32 = t.op & SLJIT_32;
          if ((t.op & 0xff) == SLJIT_COPY_TO_F64) { V a = get(F, t.a, n); FV r; r.v = a.v; r.t = a.t ? 3 : 0; fput(F, t.d, r, f32); }
          else { FV a = fget(F, t.d, f32); V r; r.v = a.v; r.t = a.t ? 3 : 0; put(F, t.a, r, n); } break; }
        case OPFLAGS: {
          int c = cond(F, t.x); V r; r.v = c > 0; r.t = c < 0 ? 3 : 0; int o = t.op & 0xff; n = (o == SLJIT_MOV32 || (t.op & SLJIT_32)) ? 4 : 8;
          if (o != SLJIT_MOV && o != SLJIT_MOV32) { V a = get(F, t.d, n); kill_flags(F); r = op2(F, t.op, a, r); }
          put(F, t.d, r, n); break; }
        case SELECT: { int c = cond(F, t.op & 0xff); V a = get(F, t.a, n), b = get(F, t.b, n), r; if (c < 0) { r.t = 3; } else r = c ? a : b; put(F, t.d, r, n); break; }
        case FSELECT: { bool f32 = t.op & SLJIT_32; int c = cond(F, t.op & 0xff); FV a = fget(F, t.a, f32), b = fget(F, t.b, f32), r; if (c < 0) r = ftaint(f32); else r = c ? a : b; fput(F, t.d, r, f32); break; }
        case MEMOP: {
          bool st = t.op & SLJIT_MEM_STORE; int o = t.op & 0xff; u64 a0 = addr(F, t.a); Opd A; A.r = SLJIT_MEM; A.w = a0;
          if (t.d.r > 0xff) { Opd B = A; B.w += 8; s32 r1 = t.d.r & 0x7f, r2 = t.d.r >> 8; if (st) { V x = F.r[r1], y = F.r[r2]; if (x.t) x.t = 3; if (y.t) y.t = 3; store(F, A, x, 8); store(F, B, y, 8); } else { V x = load(F, A, 8), y = load(F, B, 8); if (x.t) x.t = 3; if (y.t) y.t = 3; F.r[r1] = x; F.r[r2] = y; } break; }
          static const int sz[] = {8, 1, 1, 2, 2, 4, 4, 4, 8}; static const bool sg[] = {0, 0, 1, 0, 1, 0, 1, 0, 0}; int k = o - SLJIT_MOV, s = sz[k];
          if (st) { V v = F.r[t.d.r]; if (s == 8 ? v.t : (v.t & 1)) v.t = 3; else v.t = 0; store(F, A, v, s); }
          else { V v = load(F, A, s); v.v = ext(v.v, s * 8, sg[k]); if (v.t) v.t = 3; if (o == SLJIT_MOV32 || (t.op & SLJIT_32)) v.t |= 2; F.r[t.d.r] = v; } break; }
        case FMEM: { bool f32 = t.op & SLJIT_32; if (t.op & SLJIT_MEM_STORE) fput(F, t.a, fget(F, t.d, f32), f32); else fput(F, t.d, fget(F, t.a, f32), f32); break; }
        case LABEL: kill_flags(F); break;
        case JUMP: {
          int type = t.op & 0xff; int l = t.lab; auto ov = jump_ovr.find({fi, (int)cur}); if (ov != jump_ovr.end()) l = ov->second;
          if (type == SLJIT_JUMP) { take(l); break; } int c = cond(F, type); if (c < 0) throw StopEval{"undefined branch"}; if ((type & 0xfe) == SLJIT_CARRY) kill_flags(F); if (c) take(l); break; }
        case CMPJ: { V a = get(F, t.a, n), b = get(F, t.b, n); if (a.t || b.t) throw StopEval{"undefined branch"}; kill_flags(F); if (icmp(t.op & 0xff, a.v, b.v, n)) take(t.lab); break; }
        case FCMPJ: { bool f32 = t.op & SLJIT_32; int c = fcmp(t.op & 0xff, fget(F, t.a, f32), fget(F, t.b, f32)); if (c < 0) throw StopEval{"undefined branch"}; kill_flags(F); if (c) take(t.lab); break; }
        case OP2CMPZ: { V a = get(F, t.a, n), b = imm_shift(t.op, t.b, get(F, t.b, n)); bool z = t.op & SLJIT_SET_Z; V r = op2(F, t.op & ~SLJIT_REWRITABLE_JUMP, a, b); put(F, t.d, r, n); F.zv = false; if (r.t & 1) throw StopEval{"undefined branch"}; u64 rv = n == 4 ? (uint32_t)r.v : r.v; if (z == (rv == 0)) take(t.lab); break; }
        case PREF: break;
        case ABSADDR: { V r; r.v = DB + ((u64)t.x << 20); if (t.op == SLJIT_ADD_ABS_ADDR) { r.v += get(F, t.d, 8).v; kill_flags(F); } r.t = 3; put(F, t.d, r, 8); break; }
        case CONST: { u64 v = t.imm; auto ov = const_ovr.find({fi, (int)cur}); if (ov != const_ovr.end()) v = ov->second; int o = t.op & 0xff; V r; int s = o == SLJIT_MOV32 ? 4 : o == SLJIT_MOV_U8 ? 1 : 8;  /* every backend stores MOV_S32 as a whole sign-extended word */ r.v = o == SLJIT_MOV ? v : o == SLJIT_MOV_U8 ? v : (u64)(int64_t)(int32_t)v;
          if (t.d.r & SLJIT_MEM) store(F, t.d, r, s); else { if (o == SLJIT_MOV32 || (t.op & SLJIT_32)) r.t = 2; F.r[t.d.r] = r; } break; }
        case CUSTOM: kill_flags(F); if (t.x == 0) F.r[t.d.r].v = ~F.r[t.d.r].v; else if (t.x == 1) { V r; r.v = t.imm; put(F, t.d, r, 8); } else if (t.x == 3) { FV r; r.v = 0; fput(F, t.d, r, false); } break;
        case LBASE: { V r; r.v = F.lbase + t.imm; r.t = 3; kill_flags(F); put(F, t.d, r, 8); break; }
        case CALLC: case CALLF: {
          s32 args = t.k == CALLC ? cfns()[t.x].args : (s32)t.imm; std::vector<V> ia; std::vector<FV> fa; std::vector<int> at = arg_types(args);
          for (int a : at) { if (a >= TF64) { Opd o; o.r = SLJIT_FR(fa.size()); fa.push_back(fget(F, o, a == TF32)); } else { Opd o; o.r = SLJIT_R(ia.size()); ia.push_back(get(F, o, a == T32 ? 4 : 8)); } }
          Ret rr; kill_flags(F);
          if (t.k == CALLC) {
            CLog l{}; l.id = t.x; l.n = at.size(); l.aligned = true; std::array<uint8_t, 4> lt{}; size_t ii = 0, fj = 0; for (int i = 0; i < l.n; i++) { if (at[i] >= TF64) { l.a[i] = fa[fj].v; lt[i] = fa[fj].t & 3 ? 3 : fa[fj].t & 4 ? (at[i] == TF32 ? 5 : 4) : 0; fj++; } else { l.a[i] = ia[ii].v; lt[i] = ia[ii].t ? 3 : 0; ii++; } }
            log.push_back(l); logt.push_back(lt); int c = calls++;
            switch (ret_type(args)) { case TW: rr.v.v = cret(t.x, c); break; case T32: rr.v.v = (uint32_t)cret(t.x, c); rr.v.t = 2; break; case TF64: rr.f.v = d2u(cretd(t.x, c)); break; case TF32: rr.f.v = f2u(cretf(t.x, c)); rr.f.f32 = true; break; default: break; }
          } else rr = run(t.x, ia, fa, &F, depth + 1);
          if (t.op & SLJIT_CALL_RETURN) return rr;
          for (int i = 0; i < f.scr; i++) F.r[SLJIT_R(i)] = V{0, 3}; for (int i = 0; i < 16; i++) F.f[i] = ftaint(false);
          switch (ret_type(args)) { case TW: case TP: F.r[SLJIT_R0] = rr.v; break; case T32: F.r[SLJIT_R0] = rr.v; F.r[SLJIT_R0].t |= 2; break; case TF64: case TF32: F.f[SLJIT_FR0] = rr.f; break; default: break; }
          break; }
        case OPADDR: { V r; r.v = TK + t.lab; r.t = 3; auto ov = jump_ovr.find({fi, (int)cur}); if (ov != jump_ovr.end()) r.v = TK + ov->second; put(F, t.d, r, 8); break; }
        case IJUMP: { u64 v; if (t.a.r & SLJIT_MEM) v = load(F, t.a, 8).v; else v = F.r[t.a.r].v; if (v - TK >= (u64)P.nlab) throw StopEval{"model: indirect jump target"}; take((int)(v - TK)); break; }
        case FASTCALL: frames.push_back(pc); take(t.lab); break;
        case FENTER: { kill_flags(F); V r; r.v = TK + 0x100000 + frames.size(); r.t = 3; put(F, t.d, r, 8); break; }
        case FRET: { u64 v; if (t.a.r & SLJIT_MEM) v = load(F, t.a, 8).v; else v = F.r[t.a.r].v; if (frames.empty() || v != TK + 0x100000 + frames.size()) throw StopEval{"model: fast return address"}; pc = frames.back(); frames.pop_back(); kill_flags(F); break; }
        case RETV: case RETVOID: {
          Ret r; if (t.k == RETV) { int rt = ret_type(f.args); if (rt >= TF64) r.f = fget(F, t.a, rt == TF32); else { int o = t.op & 0xff; static const int sz[] = {8, 1, 1, 2, 2, 4, 4, 4, 8}; static const bool sg[] = {0, 0, 1, 0, 1, 0, 1, 0, 0}; int k = o - SLJIT_MOV, s = sz[k]; V v; if (t.a.r == SLJIT_IMM) v.v = t.a.w; else if (t.a.r & SLJIT_MEM) v = load(F, t.a, s); else { v = F.r[t.a.r]; if (s == 8 ? v.t : (v.t & 1)) v.t = 3; else v.t = 0; } v.v = ext(v.v, s * 8, sg[k]); if (v.t) v.t = 3; if (rt == T32) v.t |= 2; r.v = v; } }
          if (caller) for (int i = 0; i < kept; i++) caller->r[SLJIT_S(i)] = F.r[SLJIT_S(i)];
          return r; }
        default: break;
      }
    }
  }
};
}
