// C11: the pwart_builtin host library, called from generated modules (directly, through tables) and from the host, against a model of
// blocks, references, strings, files and namespaces. Files go through a twin that uses the C library itself.
#include "runner.h"
#include "wasm.h"
#include <set>
#include <dirent.h>
#include <malloc.h>
#include <sys/stat.h>
#include <sanitizer/asan_interface.h>
extern "C" {
#include <pwart.h>
}
namespace {
const int NP = 6, NR = 6, NF = 3;
struct A { int reg = -1; uint64_t off = 0; };                     // -1 shared memory, -2 own memory, k block
struct Slot { bool live = false, fresh = false; uint64_t size = 0, ptr = 0; std::vector<uint8_t> d; };
struct FileS { FILE *t = nullptr; int dir = 0; bool rd = false, wr = false, fresh = false; };
struct NSm { pwart_namespace p; std::map<std::string, int> mods; };
struct W;
struct HM { struct pwart_host_module b; W *w; };
typedef std::function<uint64_t()> Val64;
struct Arg { VT t; std::function<void()> emit; Val64 val; };
struct Res { VT t; int g = -1; uint64_t *store = nullptr; std::function<void(uint64_t)> check; };
struct Sym { const char *n; std::vector<VT> p, r; bool stub; };
const std::vector<Sym> SY = {
  {"version", {}, {I32}, false}, {"memory_alloc", {I32}, {I64}, false}, {"memory_free", {I64}, {}, false}, {"native_index_size", {}, {I32}, false},
  {"load_module", {EXTERNREF, EXTERNREF, EXTERNREF, I32}, {EXTERNREF}, false}, {"unload_module", {EXTERNREF, EXTERNREF}, {EXTERNREF}, false},
  {"import", {EXTERNREF, EXTERNREF, EXTERNREF, I32}, {EXTERNREF}, false}, {"get_self_runtime_context", {}, {EXTERNREF}, true},
  {"ref_from_index", {I32, I32}, {EXTERNREF}, true}, {"ref_copy_bytes", {EXTERNREF, EXTERNREF, I32}, {}, false}, {"ref_string_length", {EXTERNREF}, {I32}, false},
  {"ref_from_i64", {I64}, {EXTERNREF}, false}, {"i64_from_ref", {EXTERNREF}, {I64}, false}, {"host_definition", {I32}, {EXTERNREF}, false},
  {"fopen", {EXTERNREF, EXTERNREF}, {EXTERNREF, I32}, false}, {"fread", {EXTERNREF, I32, I32, EXTERNREF}, {I32}, false}, {"fwrite", {EXTERNREF, I32, I32, EXTERNREF}, {I32}, false},
  {"fclose", {EXTERNREF}, {I32}, false}, {"stdio", {}, {EXTERNREF, EXTERNREF, EXTERNREF}, false}};
int sy(const std::string &n) { for (size_t i = 0; i < SY.size(); i++) if (n == SY[i].n) return (int)i; abort(); }
void host777(void *sp) { pwart_rstack_put_i32(&sp, 777); }

struct W {
  Ctx &x; Choices &c; struct pwart_wasm_memory hm; uint64_t P[NP], R[NR], F[NF], CTX[2]; int32_t acc = 0, macc = 0;
  std::vector<uint8_t> mm, om; Slot s[NP]; struct { bool ok = false; A a; } RA[NR]; FileS f[NF]; NSm ns[2]; HM host[2]; struct pwart_wasm_memory *own = nullptr;
  std::string log, dirA, dirB; void *stk, *hf777; std::vector<std::string> hdef; std::set<std::string> cats; int nops = 0; std::map<std::string, void *> bfn; uint64_t dist = 7;
  // ---- the module being built ----
  bool jit = false; Module m; Code k; std::vector<VT> locals; uint32_t fi[32], tslot[32]; uint32_t gP, gR, gF, gC, gAcc, ngl; uint32_t mSt, mNat, mOwn; bool own64; std::vector<uint8_t> pool; uint32_t logat; uint32_t strat, ostrat; int cns = 0; bool attached = true;
  std::vector<std::function<void()>> post;
  W(Ctx &x) : x(x), c(x.c) {}
  void say(const std::string &t) { log += t; log += "\n"; x.dump(t + "\n"); for (char ch : t) dist = (dist ^ (unsigned char)ch) * 1099511628211ull; }
  [[noreturn]] void bad(const std::string &t) { FAIL("%s\nhistory:\n%s", t.c_str(), log.c_str()); }
  // ---- addresses ----
  uint64_t ptr(A a) { return a.off + (a.reg == -1 ? (uint64_t)hm.bytes : a.reg == -2 ? (uint64_t)own->bytes : s[a.reg].ptr); }
  uint8_t *mod(A a) { return a.reg == -1 ? mm.data() + a.off : a.reg == -2 ? om.data() + a.off : s[a.reg].d.data() + a.off; }
  std::string str(A a) { return strf("%s+%llu", a.reg == -1 ? "mem" : a.reg == -2 ? "own" : strf("block%d", a.reg).c_str(), (unsigned long long)a.off); }
  bool usable(int k) { return s[k].live && (jit || !s[k].fresh); }
  A pick(uint64_t len, bool needptr = false) {
    std::vector<int> v; v.push_back(-1); if (jit) v.push_back(-2); for (int i = 0; i < NP; i++) if (usable(i) && s[i].size >= len) { v.push_back(i); v.push_back(i); }
    A a; a.reg = c.pick(v); uint64_t lo = a.reg == -1 ? 16384 : a.reg == -2 ? 16384 : 0, hi = a.reg < 0 ? 65536 : s[a.reg].size; uint64_t room = hi - lo - len;
    a.off = lo + (c.pct(25) ? room : c.pct(30) ? 0 : room ? (c.coin() ? std::min<uint64_t>(room, c.below(40)) : c.below(room + 1)) : 0); return a;
  }
  // a constant string of bytes placed before the step runs; ops never write there
  std::set<int> held;
  A place(const std::vector<uint8_t> &b) {
    A a; bool o = jit && c.coin() && ostrat + b.size() < 16000; if (!o && strat + b.size() >= 16000) throw Discard{"string area full"};
    if (o) { a.reg = -2; a.off = ostrat; ostrat += b.size() + c.below(3); std::copy(b.begin(), b.end(), om.begin() + a.off); }
    else { a.reg = -1; a.off = strat; strat += b.size() + c.below(3); std::copy(b.begin(), b.end(), mm.begin() + a.off); memcpy(hm.bytes + a.off, b.data(), b.size()); }
    if (c.pct(35)) { std::vector<int> v; for (int i = 0; i < NP; i++) if (usable(i) && s[i].size >= b.size() && !held.count(i)) v.push_back(i);
      if (!v.empty()) { A d; d.reg = c.pick(v); held.insert(d.reg); d.off = c.below(s[d.reg].size - b.size() + 1); copy(d, a, (uint32_t)b.size()); return d; } }
    return a;
  }
  A cstr(const std::string &t) { std::vector<uint8_t> b(t.begin(), t.end()); b.push_back(0); return place(b); }
  // ---- code pieces ----
  uint32_t loc(VT t) { locals.push_back(t); return (uint32_t)locals.size() - 1; }
  void e(int op, uint32_t a = 0, uint64_t imm = 0, uint32_t b = 0) { k.push_back(Instr(op, a, imm, b)); }
  uint32_t poolat(uint64_t v, int n) { while (pool.size() % n) pool.push_back(0); uint32_t a = (uint32_t)pool.size(); for (int i = 0; i < n; i++) pool.push_back((uint8_t)(v >> (8 * i))); return a; }
  void ownidx(uint64_t v) { if (own64) e(0x42, 0, v); else e(0x41, 0, (uint32_t)v); }
  void num(VT t, uint64_t v) {
    bool w = t == I64; int kk = (int)c.below(pool.size() < 900 ? 9 : 8); int C = w ? 0x42 : 0x41;
    switch (kk) {
      case 0: case 1: case 2: e(C, 0, v); break;
      case 3: { uint32_t l = loc(t); e(C, 0, v); e(0x21, l); e(0x20, l); break; }
      case 4: { uint64_t d = c.bits(32); e(C, 0, w ? v - d : (uint32_t)(v - d)); e(C, 0, d); e(w ? 0x7c : 0x6a); break; }
      case 5: { Global g; g.t.t = t; g.t.mut = c.coin(); g.init = {Instr(C, 0, v), Instr(0x0b)}; m.globals.push_back(g); e(0x23, ngl + (uint32_t)m.globals.size() - 1); break; }
      case 6: e(C, 0, v); e(C, 0, v + 1); e(0x41, 0, 1); e(0x1b); break;
      case 7: if (v <= 1 && !w) { uint32_t l = loc(I32); e(0x41, 0, (uint32_t)(v ? 0 : 5)); e(0x21, l); e(0x20, l); e(0x45); } else if (w && v < (1ull << 32)) { e(0x41, 0, v); e(0xad); } else if (!w) { e(0x42, 0, v | 0x500000000ull); e(0xa7); } else { e(0x02, 0, t); e(C, 0, v); e(0x0b); } break;
      default: { uint32_t a = poolat(v, w ? 8 : 4); ownidx(0); e(w ? 0x29 : 0x28, mOwn, a, 0); }
    }
  }
  void callb(const char *n, bool direct) {
    int i = sy(n); if (direct) { e(0x10, fi[i]); return; }
    FuncType t; t.p = SY[i].p; t.r = SY[i].r; uint32_t ty = m.addtype(t), tb = (uint32_t)c.below(2); num(I32, tslot[i]); e(0x11, ty, 0, tb);
  }
  bool dcall() { return c.pct(65); }
  void addr64(A a) {          // the native address, as i64
    if (a.reg >= 0 && (s[a.reg].fresh || c.coin())) { e(0x23, gP + a.reg); if (c.pct(20)) { uint32_t l = loc(I64); e(0x21, l); e(0x20, l); } if (a.off || c.pct(20)) { num(I64, a.off); e(0x7c); } return; }
    if (a.reg == -2 || (a.reg == -1 && c.coin())) { ref_index(a); callb("i64_from_ref", dcall()); return; }
    num(I64, ptr(a));
  }
  void ref_index(A a) { e(0x41, 0, a.reg == -1 ? mSt : mOwn); if (a.reg == -1) num(I32, a.off); else num(own64 ? I64 : I32, a.off); e(0x10, fi[sy("ref_from_index")]); }
  void refraw(Val64 v, std::function<void()> as64) { as64(); callb("ref_from_i64", dcall()); mix(); }
  void mix() {               // pass the reference on top through something that keeps it
    switch (c.below(7)) {
      case 0: { uint32_t l = loc(EXTERNREF); e(0x21, l); e(0x20, l); break; }
      case 1: callb("i64_from_ref", dcall()); callb("ref_from_i64", dcall()); break;
      case 2: { uint32_t l = loc(EXTERNREF); e(0x21, l); e(0x41, 0, 3); e(0x20, l); e(0x26, 2); e(0x41, 0, 3); e(0x25, 2); break; }
      case 3: { uint32_t l = loc(EXTERNREF); e(0x22, l); e(0x20, l); num(I32, c.below(2)); e(0x1c, 0, EXTERNREF); break; }
      default: break;
    }
  }
  void refto(A a) {
    std::vector<int> hit; for (int j = 0; j < NR; j++) if (RA[j].ok && RA[j].a.reg == a.reg && RA[j].a.off == a.off) hit.push_back(j);
    if (!hit.empty() && c.coin()) { e(0x23, gR + c.pick(hit)); mix(); return; }
    int q = (int)c.below(3);
    if (a.reg < 0 && (q || a.reg == -2)) { ref_index(a); mix(); return; }
    if (a.reg >= 0 && q == 0) { e(0x41, 0, mNat); addr64(a); e(0x10, fi[sy("ref_from_index")]); mix(); return; }
    addr64(a); callb("ref_from_i64", dcall()); mix();
  }
  Arg aI32(uint32_t v) { return {I32, [=] { num(I32, v); }, [=] { return (uint64_t)v; }}; }
  Arg aRef(A a) { return {EXTERNREF, [=] { refto(a); }, [=] { return ptr(a); }}; }
  Arg aPtr(A a) { return {I64, [=] { addr64(a); }, [=] { return ptr(a); }}; }
  Arg aGlob(uint32_t g, uint64_t *st, VT t = EXTERNREF) { return {t, [=] { e(0x23, g); if (t == EXTERNREF) mix(); }, [=] { return *st; }}; }
  Arg aCtx(int which) { return {EXTERNREF, [=] { if (which == cns && attached && c.coin()) { e(0x10, fi[sy("get_self_runtime_context")]); mix(); } else { e(0x23, gC + which); mix(); } }, [=] { return CTX[which]; }}; }
  // result on top of the stack goes to the log (or to a global); 'check' sees it when the step has run
  void sink(const Res &r, uint32_t l) {
    if (r.g >= 0) { e(0x20, l); e(0x24, r.g); }
    tolog(r.t, [=] { e(0x20, l); }, r.check);
  }
  void tolog(VT t, std::function<void()> get, std::function<void(uint64_t)> ck) {
    uint32_t at = logat; logat += 8; if (logat > 2000) throw Discard{"log full"}; int n = t == I32 || t == F32 ? 4 : 8;
    if (t == EXTERNREF) { // the reference as a number, or stored through a table
      e(0x41, 0, at); get(); callb("i64_from_ref", dcall()); e(0x37, mSt, 0, 0); }
    else { e(0x41, 0, at); get(); e(t == I32 ? 0x36 : t == I64 ? 0x37 : t == F32 ? 0x38 : 0x39, mSt, 0, 0); }
    post.push_back([=] { uint64_t v = 0; memcpy(&v, hm.bytes + at, n); if (ck) ck(v); memcpy(mm.data() + at, &v, n); });
  }
  struct Noise { VT t; uint64_t v; };
  std::vector<Noise> noise() { std::vector<Noise> v; if (!jit || !c.pct(50)) return v; int n = (int)c.range(1, 6); for (int i = 0; i < n; i++) { Noise z; z.t = c.pick({I32, I64, F32, F64}); z.v = z.t == F32 ? c.bits(30) : z.t == F64 ? c.bits(62) : z.t == I32 ? c.bits(32) : c.bits(64); v.push_back(z);
      if (z.t == I32 || z.t == I64) num(z.t, z.v); else { e(z.t == F32 ? 0x43 : 0x44, 0, z.v); if (c.coin()) { uint32_t l = loc(z.t); e(0x21, l); e(0x20, l); } } } return v; }
  void unnoise(const std::vector<Noise> &v) { for (size_t i = v.size(); i-- > 0;) { auto z = v[i]; uint32_t l = loc(z.t); e(0x21, l); tolog(z.t, [=] { e(0x20, l); }, [=](uint64_t g) { if (g != z.v) bad(strf("a value below a builtin call on the operand stack changed: %llx, was %llx", (unsigned long long)g, (unsigned long long)z.v)); }); } }
  void op(const char *n, const std::vector<Arg> &a, const std::vector<Res> &r, std::function<void()> eff = nullptr) {
    nops++; x.count(strf("%s%s", n, jit ? "" : " (from the host)"));
    if (jit) {
      auto nz = noise(); for (auto &q : a) q.emit(); callb(n, SY[sy(n)].stub || dcall());
      std::vector<uint32_t> ls; for (auto &q : r) ls.push_back(loc(q.t)); for (size_t i = ls.size(); i-- > 0;) e(0x21, ls[i]);
      for (size_t i = 0; i < r.size(); i++) sink(r[i], ls[i]);
      if (eff) post.push_back(eff); unnoise(nz);
    } else {
      std::vector<uint8_t> save; void *sp = stk; int off = (int)c.below(3) * 16; sp = (char *)sp + off; void *q = sp;
      for (auto &y : a) switch (y.t) { case I32: pwart_rstack_put_i32(&q, (int)y.val()); break; case I64: pwart_rstack_put_i64(&q, y.val()); break; default: pwart_rstack_put_ref(&q, (void *)y.val()); }
      pwart_call_wasm_function(bfn.at(n), sp); q = sp; std::vector<uint64_t> v;
      for (auto &y : r) switch (y.t) { case I32: v.push_back((uint32_t)pwart_rstack_get_i32(&q)); break; case I64: v.push_back(pwart_rstack_get_i64(&q)); break; default: v.push_back((uint64_t)pwart_rstack_get_ref(&q)); }
      for (size_t i = 0; i < r.size(); i++) { if (r[i].store) *r[i].store = v[i]; if (r[i].check) r[i].check(v[i]); }
      if (eff) eff();
    }
  }
  // ---- the operations ----
  void copy(A d, A q, uint32_t n) { say(strf("  ref_copy_bytes %s <- %s, %u", str(d).c_str(), str(q).c_str(), n)); cats.insert("copy"); op("ref_copy_bytes", {aRef(d), aRef(q), aI32(n)}, {}, [=] { memmove(mod(d), mod(q), n); }); }
  uint64_t size() { switch (c.below(6)) { case 0: return c.below(9); case 1: return c.pick<uint64_t>({1, 7, 8, 15, 16, 17, 4095, 4096, 4097}); case 2: return c.below(5000); case 3: return c.pct(30) ? 300000 + c.below(70000) : 65536; default: return c.below(200); } }
  void alloc() {
    std::vector<int> v; for (int i = 0; i < NP; i++) if (!s[i].live && !s[i].fresh) v.push_back(i); if (v.empty()) return; int i = c.pick(v); uint64_t n = size(); uint8_t b = (uint8_t)c.bits(8);
    say(strf("  block%d = memory_alloc %llu, filled with %d", i, (unsigned long long)n, b)); cats.insert("alloc");
    Res r{I64, (int)gP + i, &P[i], [=](uint64_t p) { if (!p && n) bad(strf("memory_alloc(%llu) returned 0", (unsigned long long)n)); if (p && n) { if (p & 15) bad("memory_alloc returned a block that is not aligned"); if (malloc_usable_size((void *)p) < n || __asan_region_is_poisoned((void *)p, n)) bad(strf("memory_alloc(%llu) returned a block of %zu bytes", (unsigned long long)n, malloc_usable_size((void *)p))); } }};
    op("memory_alloc", {aI32((uint32_t)n)}, {r}, [=] { s[i].ptr = P[i]; s[i].d.assign(n, b); });
    s[i].live = true; s[i].size = n; s[i].fresh = jit; if (!jit) { if (n) memset((void *)P[i], b, n); }
    else if (n) { auto nz = noise(); e(0x23, gP + i); num(I32, b); num(I64, n); e(0xfc0b, mNat); unnoise(nz); }
  }
  void free_() { std::vector<int> v; for (int i = 0; i < NP; i++) if (s[i].live && !s[i].fresh) v.push_back(i); if (v.empty()) return; int i = c.pick(v); say(strf("  memory_free block%d", i)); cats.insert("alloc");
    op("memory_free", {aPtr({i, 0})}, {}, [=] { if (s[i].ptr && !__asan_address_is_poisoned((void *)s[i].ptr)) bad("memory_free did not free the block"); s[i].d.clear(); });
    s[i].live = false; s[i].fresh = jit; for (auto &q : RA) if (q.ok && q.a.reg == i) q.ok = false; }
  void loadstore() {          // native_memory, own and shared memory through every width
    if (!jit) return; static const struct { int op; VT t; int w; bool sx; } L[] = {{0x28, I32, 4, 0}, {0x29, I64, 8, 0}, {0x2c, I32, 1, 1}, {0x2d, I32, 1, 0}, {0x2e, I32, 2, 1}, {0x2f, I32, 2, 0}, {0x30, I64, 1, 1}, {0x31, I64, 1, 0}, {0x32, I64, 2, 1}, {0x33, I64, 2, 0}, {0x34, I64, 4, 1}, {0x35, I64, 4, 0}};
    static const struct { int op; VT t; int w; } S[] = {{0x36, I32, 4}, {0x37, I64, 8}, {0x3a, I32, 1}, {0x3b, I32, 2}, {0x3c, I64, 1}, {0x3d, I64, 2}, {0x3e, I64, 4}};
    cats.insert("native"); nops++; x.count("native memory access");
    bool ld = c.coin(); int q = (int)c.below(ld ? 12 : 7), w = ld ? L[q].w : S[q].w; A a = pick(w); uint64_t off = c.coin() ? 0 : std::min<uint64_t>(a.off, c.below(100)); A base = a; base.off -= off;
    auto nz = noise(); addr64(base);
    if (ld) { say(strf("  native load 0x%x %s (offset %llu)", L[q].op, str(a).c_str(), (unsigned long long)off)); e(L[q].op, mNat, off, 0); uint32_t l = loc(L[q].t); e(0x21, l); auto z = L[q];
      tolog(z.t, [=] { e(0x20, l); }, [=](uint64_t g) { uint64_t v = 0; memcpy(&v, mod(a), z.w); if (z.sx && z.w < 8) v = (uint64_t)((int64_t)(v << (64 - 8 * z.w)) >> (64 - 8 * z.w)); if (z.t == I32) v = (uint32_t)v; if (g != v) bad(strf("load from native memory gave %llx, expected %llx", (unsigned long long)g, (unsigned long long)v)); }); }
    else { uint64_t v = c.bits(64); if (S[q].t == I32) v = (uint32_t)v; say(strf("  native store 0x%x %s = %llx", S[q].op, str(a).c_str(), (unsigned long long)v)); num(S[q].t, v); e(S[q].op, mNat, off, 0); post.push_back([=] { memcpy(mod(a), &v, w); }); }
    unnoise(nz);
  }
  void bulk() {               // memory.copy and memory.fill with native memory on one side
    if (!jit) return; uint32_t n = (uint32_t)c.below(c.coin() ? 20 : 300); bool fill = c.coin(); cats.insert("native"); nops++; x.count("bulk on native memory");
    A d = pick(n); auto nz = noise();
    auto place_ = [&](A a, uint32_t &mi, bool &wide) { if (a.reg < 0 && c.coin()) { mi = a.reg == -1 ? mSt : mOwn; wide = a.reg == -2 && own64; num(wide ? I64 : I32, a.off); } else { mi = mNat; wide = true; addr64(a); } };
    uint32_t m1, m2; bool w1, w2;
    if (fill) { uint32_t b = (uint32_t)c.bits(c.coin() ? 8 : 32); say(strf("  memory.fill %s, %u x %u", str(d).c_str(), b & 255, n)); place_(d, m1, w1); num(I32, b); num(w1 ? I64 : I32, n); e(0xfc0b, m1); post.push_back([=] { memset(mod(d), (int)b, n); }); }
    else { A q = pick(n); say(strf("  memory.copy %s <- %s, %u", str(d).c_str(), str(q).c_str(), n)); place_(d, m1, w1); place_(q, m2, w2); num(w1 && w2 ? I64 : I32, n); e(0xfc0a, m1, 0, m2); post.push_back([=] { memmove(mod(d), mod(q), n); }); }
    unnoise(nz);
  }
  void casts() {
    A a = pick(c.below(3)); cats.insert("ref"); int j = (int)c.below(NR); auto ck = [=](uint64_t v) { if (v != ptr(a)) bad(strf("%s is at %llx, the cast gave %llx", str(a).c_str(), (unsigned long long)ptr(a), (unsigned long long)v)); };
    auto setr = [&] { RA[j].ok = a.reg != -2; RA[j].a = a; };
    switch (c.below(jit ? 4 : 2)) {
      case 0: say(strf("  ref%d = ref_from_i64 %s", j, str(a).c_str())); op("ref_from_i64", {aPtr(a)}, {Res{EXTERNREF, (int)gR + j, &R[j], ck}}); setr(); break;
      case 1: say(strf("  i64_from_ref %s", str(a).c_str())); op("i64_from_ref", {aRef(a)}, {Res{I64, -1, nullptr, ck}}); break;
      case 2: { say(strf("  ref%d = ref_from_index %s", j, str(a).c_str())); nops++; x.count("ref_from_index"); auto nz = noise(); if (a.reg < 0) ref_index(a); else { e(0x41, 0, mNat); addr64(a); e(0x10, fi[sy("ref_from_index")]); } uint32_t l = loc(EXTERNREF); e(0x21, l); sink(Res{EXTERNREF, (int)gR + j, &R[j], ck}, l); setr(); unnoise(nz); break; }
      case 3: { uint64_t v = c.coin() ? c.bits(64) : c.pick<uint64_t>({0, 1, ~0ull, 1ull << 63, 0xffffffff, 1ull << 32}); say(strf("  ref_from_i64 %llx and back", (unsigned long long)v)); nops++; auto nz = noise(); num(I64, v); callb("ref_from_i64", dcall()); mix(); bool isn = c.coin();
        if (isn) { e(0xd1); uint32_t l = loc(I32); e(0x21, l); tolog(I32, [=] { e(0x20, l); }, [=](uint64_t g) { if (g != (v == 0)) bad("ref.is_null of a reference made from a number"); }); }
        else { callb("i64_from_ref", dcall()); uint32_t l = loc(I64); e(0x21, l); tolog(I64, [=] { e(0x20, l); }, [=](uint64_t g) { if (g != v) bad(strf("the number %llx became %llx through a reference", (unsigned long long)v, (unsigned long long)g)); }); } unnoise(nz); break; }
    }
  }
  std::string text(size_t n) { std::string t; for (size_t i = 0; i < n; i++) t += (char)(1 + c.below(255)); return t; }
  void strlen_() { std::string t = text(c.coin() ? c.below(12) : c.below(250)); A a = cstr(t); say(strf("  ref_string_length %s (%zu)", str(a).c_str(), t.size())); cats.insert("string");
    op("ref_string_length", {aRef(a)}, {Res{I32, -1, nullptr, [=](uint64_t v) { if (v != t.size()) bad(strf("ref_string_length gave %llu for %zu bytes", (unsigned long long)v, t.size())); }}}); }
  void consts() {
    switch (c.below(jit ? 5 : 4)) {
      case 0: op("version", {}, {Res{I32, -1, nullptr, [=](uint64_t v) { if ((int)v != pwart_get_version() || (int)v <= 0) bad("version"); }}}); say("  version"); break;
      case 1: op("native_index_size", {}, {Res{I32, -1, nullptr, [=](uint64_t v) { if (v != sizeof(void *)) bad(strf("native_index_size is %llu", (unsigned long long)v)); }}}); say("  native_index_size"); break;
      case 2: { uint64_t w[3] = {(uint64_t)stdin, (uint64_t)stdout, (uint64_t)stderr}; std::vector<Res> r; for (int i = 0; i < 3; i++) { uint64_t q = w[i]; int j = jit && c.coin() ? (int)c.below(NR) : -1; if (j >= 0) RA[j].ok = false; for (auto &z : r) if (j >= 0 && z.g == (int)gR + j) j = -1; r.push_back(Res{EXTERNREF, j < 0 ? -1 : (int)gR + j, j < 0 ? nullptr : &R[j], [=](uint64_t v) { if (v != q) bad(strf("stdio result %d is not the stream", i)); }}); }
        op("stdio", {}, r); say("  stdio"); break; }
      case 3: { uint32_t i = (uint32_t)c.below(hdef.size() + 1); op("host_definition", {aI32(i)}, {Res{EXTERNREF, -1, nullptr, [=](uint64_t v) { if (i == hdef.size() ? v != 0 : !v || hdef[i] != (char *)v) bad(strf("host_definition(%u)", i)); }}}); say(strf("  host_definition %u", i)); break; }
      case 4: { if (!attached) break; uint64_t *st = &CTX[cns]; (void)st; nops++; auto nz = noise(); e(0x10, fi[sy("get_self_runtime_context")]); uint32_t l = loc(EXTERNREF); e(0x21, l); sink(Res{EXTERNREF, -1, nullptr, [=](uint64_t v) { if (!v || v == CTX[0] || v == CTX[1]) bad("get_self_runtime_context is not the module's own context"); }}, l); unnoise(nz); say("  get_self_runtime_context"); }
    }
    cats.insert("const");
  }
  // ---- files ----
  void files() {
    cats.insert("file"); int i = (int)c.below(NF); if (f[i].fresh) return;
    if (!f[i].t) {
      static const char *modes[] = {"r", "w", "a", "r+", "w+", "a+", "rb", "wb", "q", "wx"}; std::string md = modes[c.weighted({4, 6, 3, 3, 3, 3, 1, 1, 1, 1})], nm = c.pct(90) ? strf("f%d", (int)c.below(3)) : c.pick<std::string>({"none/x", "", "d", std::string(300, 'n')});
      A p = cstr(dirA + nm), q = cstr(md); std::string twin = dirB + nm; say(strf("  file%d = fopen '%s' %s", i, nm.substr(0, 10).c_str(), md.c_str())); struct Sh { FILE *t = nullptr; int err = 0; }; auto sh = std::make_shared<Sh>();
      bool plus = md.find('+') != std::string::npos;
      op("fopen", {aRef(p), aRef(q)}, {Res{EXTERNREF, (int)gF + i, &F[i], [=](uint64_t v) { errno = 0; sh->t = fopen(twin.c_str(), md.c_str()); sh->err = sh->t ? 0 : errno; if ((v != 0) != (sh->t != nullptr)) bad(strf("fopen %s, but the C library %s", v ? "succeeded" : "failed", sh->t ? "succeeds" : "fails")); }},
        Res{I32, -1, nullptr, [=](uint64_t v) { if ((int)v != sh->err) bad(strf("fopen gave error %d, expected %d", (int)v, sh->err)); }}},
        [=] { f[i].t = sh->t; f[i].dir = 0; f[i].rd = md[0] == 'r' || plus; f[i].wr = md[0] != 'r' || plus; });
      f[i].fresh = jit; return;
    }
    FILE *t = f[i].t;
    if (c.pct(20)) { say(strf("  fclose file%d", i)); op("fclose", {aGlob(gF + i, &F[i])}, {Res{I32, -1, nullptr, [=](uint64_t v) { int w = fclose(t) == 0 ? 0 : errno; if ((int)v != w) bad(strf("fclose gave %d, expected %d", (int)v, w)); }}}); f[i].t = nullptr; f[i].fresh = jit; return; }
    bool rd = f[i].dir ? f[i].dir == 1 : (f[i].rd && (!f[i].wr || c.coin())); if (c.pct(4) && !f[i].dir) rd = !rd; f[i].dir = rd ? 1 : 2;
    uint32_t sz = (uint32_t)(c.coin() ? 1 : c.below(17)), n = (uint32_t)c.below(c.pct(10) ? 400 : 30); A a = pick((uint64_t)sz * n); say(strf("  %s %s, %u x %u, file%d", rd ? "fread" : "fwrite", str(a).c_str(), sz, n, i));
    op(rd ? "fread" : "fwrite", {aRef(a), aI32(sz), aI32(n), aGlob(gF + i, &F[i])}, {Res{I32, -1, nullptr, [=](uint64_t v) { uint64_t w = rd ? fread(mod(a), sz, n, t) : fwrite(mod(a), sz, n, t); if (v != (uint32_t)w) bad(strf("%s gave %llu, the C library gives %llu", rd ? "fread" : "fwrite", (unsigned long long)v, (unsigned long long)w)); }}});
  }
  // ---- modules at run time ----
  std::string mname() { return c.pick<std::string>({"a", "b", "ab", "", "m3"}); }
  void modules() {
    int w = c.pct(75) ? cns : 1 - cns; std::string nm = mname(); cats.insert("module"); std::map<std::string, int> &M = ns[w].mods;
    switch (c.weighted({5, 3, 6})) {
      case 0: { int spoil = c.pct(30) ? (int)c.range(1, 4) : 0; int v = (int)c.below(1000000); int inc = c.coin() ? 1 + (int)c.below(1000) : 0; Module q; FuncType fv, fr; fr.r = {I32}; uint32_t TV = q.addtype(fv), TR = q.addtype(fr); Import g; g.mod = "st"; g.name = "acc"; g.kind = K_GLOBAL; g.g.t = I32; q.imports.push_back(g); uint32_t nf = 0;
        if (c.coin() || spoil == 2) { Import z; z.mod = spoil == 2 ? "nope" : "pwart_builtin"; z.name = "version"; z.kind = K_FUNC; z.type = TR; q.imports.push_back(z); nf++; }
        Func f1; f1.type = TR; f1.code = {Instr(0x41, 0, v), Instr(0x0b)}; if (spoil == 3) f1.code.insert(f1.code.begin(), [] { Instr z(RAWOP); z.tbl = {0xfd, 0x0c}; return z; }()); q.funcs.push_back(f1); q.exports.push_back({"f", K_FUNC, nf});
        if (inc) { Func f2; f2.type = TV; f2.code = {Instr(0x23, 0), Instr(0x41, 0, inc), Instr(0x6a), Instr(0x24, 0), Instr(0x0b)}; q.funcs.push_back(f2); q.start = nf + 1; }
        auto b = encode(q); if (spoil == 1) b[c.below(8)] ^= 0x20; if (spoil == 4) b.resize(c.below(8)); uint32_t len = (uint32_t)b.size(); if (b.empty()) b.push_back(0);
        A pn = cstr(nm), pb = place(b); say(strf("  load_module into n%d '%s' value %d%s%s", w, nm.c_str(), v, inc ? " start" : "", spoil ? strf(" spoiled %d", spoil).c_str() : ""));
        op("load_module", {aCtx(w), aRef(pn), aRef(pb), aI32(len)}, {Res{EXTERNREF, -1, nullptr, [=](uint64_t e) { if (spoil ? e == 0 || !*(char *)e : e != 0) bad(spoil ? "load_module accepted a bad module" : strf("load_module: %s", (char *)e)); }}}, [=] { if (!spoil) macc += inc; });
        if (!spoil) M[nm] = v; break; }
      case 1: { A pn = cstr(nm); say(strf("  unload_module n%d '%s'%s", w, nm.c_str(), M.count(nm) ? "" : " (not there)")); op("unload_module", {aCtx(w), aRef(pn)}, {Res{EXTERNREF, -1, nullptr, [=](uint64_t e) { if (e) bad(strf("unload_module: %s", (char *)e)); }}}); M.erase(nm); break; }
      default: { bool st = c.pct(15); if (st) nm = "st"; std::string fl = st ? (c.pct(80) ? "hf" : "f") : c.pct(85) ? "f" : c.pick<std::string>({"", "ff", "g"}); int want = -1; if (st) { if (fl == "hf") want = 777; } else if (fl == "f" && M.count(nm)) want = M[nm];
        A pm = cstr(nm), pf = cstr(fl); say(strf("  import n%d '%s'.'%s' -> %d", w, nm.c_str(), fl.c_str(), want)); uint64_t *hold = (uint64_t *)&holdv; std::vector<Arg> a = {aCtx(w), aRef(pm), aRef(pf), aI32(0)};
        auto ck = [=](uint64_t v) { if ((v != 0) != (want >= 0)) bad(v ? "import found something that is not there" : "import did not find the function"); };
        auto cv = [=](uint64_t v) { if ((int)v != want) bad(strf("the imported function gives %d, expected %d", (int)v, want)); };
        if (!jit) { op("import", a, {Res{EXTERNREF, -1, hold, ck}}); if (want >= 0) { void *q = stk; pwart_call_wasm_function((void *)*hold, stk); cv((uint32_t)pwart_rstack_get_i32(&q)); } }
        else { nops++; x.count("import"); auto nz = noise(); for (auto &y : a) y.emit(); callb("import", dcall()); uint32_t l = loc(EXTERNREF); e(0x21, l); sink(Res{EXTERNREF, -1, nullptr, ck}, l);
          if (want >= 0) { uint32_t tb = (uint32_t)c.below(2), at = 30 + (uint32_t)c.below(2); num(I32, at); e(0x20, l); e(0x26, tb); FuncType fr; fr.r = {I32}; uint32_t ty = m.addtype(fr); num(I32, at); e(0x11, ty, 0, tb); uint32_t l2 = loc(I32); e(0x21, l2); tolog(I32, [=] { e(0x20, l2); }, cv); } unnoise(nz); } }
    }
  }
  uint64_t holdv = 0;
  // ---- steps ----
  void ops(int n) { for (int i = 0; i < n; i++, held.clear()) switch (c.weighted({6, 3, 5, 3, 4, 3, 2, 5, 4, 4})) { case 0: alloc(); break; case 1: free_(); break; case 2: loadstore(); break; case 3: bulk(); break; case 4: casts(); break; case 5: strlen_(); break; case 6: consts(); break; case 7: files(); break; case 8: if (attached) modules(); break; case 9: { uint32_t z = (uint32_t)c.below(c.coin() ? 30 : 400); A d = pick(z), q = pick(z); copy(d, q, z); } } }
  void compare(const char *when) {
    if (acc != macc) bad(strf("%s: the start functions of loaded modules counted to %d, expected %d", when, acc, macc));
    if (memcmp(hm.bytes, mm.data(), mm.size())) { size_t i = 0; while (hm.bytes[i] == mm[i]) i++; bad(strf("%s: shared memory differs at %zu: %02x, expected %02x", when, i, hm.bytes[i], mm[i])); }
    if (own && memcmp(own->bytes, om.data(), om.size())) { size_t i = 0; while (own->bytes[i] == om[i]) i++; bad(strf("%s: own memory differs at %zu: %02x, expected %02x", when, i, own->bytes[i], om[i])); }
    for (int j = 0; j < NP; j++) if (s[j].live && s[j].size && memcmp((void *)s[j].ptr, s[j].d.data(), s[j].size)) { size_t i = 0; while (((uint8_t *)s[j].ptr)[i] == s[j].d[i]) i++; bad(strf("%s: block%d differs at %zu: %02x, expected %02x", when, j, i, ((uint8_t *)s[j].ptr)[i], s[j].d[i])); }
    for (int i = 0; i < NP; i++) for (int j = 0; j < i; j++) if (s[i].live && s[j].live && s[i].size && s[j].size && s[i].ptr < s[j].ptr + s[j].size && s[j].ptr < s[i].ptr + s[i].size) bad("memory_alloc returned memory in use");
    for (int j = 0; j < NP; j++) if (s[j].live && P[j] != s[j].ptr) bad("a pointer global changed");
    for (int j = 0; j < NR; j++) if (RA[j].ok && R[j] != ptr(RA[j].a)) bad(strf("%s: ref%d changed", when, j));
    for (int w = 0; w < 2; w++) for (auto &q : ns[w].mods) { struct pwart_named_module *z = pwart_namespace_find_module(ns[w].p, q.first.c_str()); if (!z || z->type != PWART_MODULE_TYPE_WASM_MODULE) bad(strf("%s: n%d '%s' is not there", when, w, q.first.c_str())); void *fn = pwart_get_export_function(z->val.wasm, "f"); if (!fn) bad("module without its function"); void *sp = stk; pwart_call_wasm_function(fn, stk); int v = pwart_rstack_get_i32(&sp); if (v != q.second) bad(strf("%s: n%d '%s' gives %d, expected %d", when, w, q.first.c_str(), v, q.second)); }
    for (int w = 0; w < 2; w++) for (auto n : {"a", "b", "ab", "", "m3"}) if (!ns[w].mods.count(n)) { auto *z = pwart_namespace_find_module(ns[w].p, n); if (z && z->type) bad(strf("%s: n%d '%s' is still there", when, w, n)); }
  }
  void imp(const char *md, const std::string &n, int kind, VT t = I32, bool is64 = false, uint32_t ty = 0) { Import i; i.mod = md; i.name = n; i.kind = kind; i.g.t = t; i.m.is64 = is64; i.m.min = kind == K_MEM && is64 ? 100 : 1; i.type = ty; m.imports.push_back(i); }
  void step() {
    strat = 2048; ostrat = 1024; jit = c.pct(80); post.clear(); k.clear(); locals.clear(); m = Module(); pool.clear(); logat = 0; own = nullptr; 
    cns = (int)c.below(2); attached = !jit || c.pct(90); int n = (int)c.range(1, 5);
    if (!jit) { say("host:"); ops(n); compare("after host calls"); return; }
    say(strf("module in %s:", attached ? strf("n%d", cns).c_str() : "no namespace"));
    own64 = c.coin(); om.assign(65536, 0); for (int i = 0; i < 64; i++) om[16384 + c.below(49152)] = (uint8_t)c.bits(8);
    // imports: functions in any order, then memories and globals mixed
    std::vector<int> ord; for (size_t i = 0; i < SY.size(); i++) ord.push_back((int)i); for (size_t i = ord.size(); i > 1; i--) std::swap(ord[i - 1], ord[c.below(i)]);
    uint32_t q = 0; bool nf = c.coin(); auto mems = [&] { for (int i = 0; i < 2; i++) if ((i == 0) == nf) { imp("pwart_builtin", "native_memory", K_MEM, I32, true); mNat = i; } else { imp("st", "mem", K_MEM); mSt = i; } mOwn = 2; };
    bool first = c.coin(); if (first) mems();
    for (int i : ord) { FuncType t; t.p = SY[i].p; t.r = SY[i].r; imp("pwart_builtin", SY[i].n, K_FUNC, I32, false, m.addtype(t)); fi[i] = q++; } if (!first) mems();
    uint32_t g = 0; gP = g; for (int i = 0; i < NP; i++, g++) imp("st", strf("P%d", i), K_GLOBAL, I64); gR = g; for (int i = 0; i < NR; i++, g++) imp("st", strf("R%d", i), K_GLOBAL, EXTERNREF); gF = g; for (int i = 0; i < NF; i++, g++) imp("st", strf("F%d", i), K_GLOBAL, EXTERNREF); gC = g; for (int i = 0; i < 2; i++, g++) imp("st", strf("C%d", i), K_GLOBAL, EXTERNREF); ngl = g;
    MemType mt; mt.is64 = own64; mt.min = 1; if (c.coin()) { mt.has_max = true; mt.max = 1 + (uint32_t)c.below(2); } m.mems.push_back(mt);
    for (int i = 0; i < 2; i++) { TableType t; t.min = 32; m.tables.push_back(t); Elem el; el.table = i; el.off = {Instr(0x41, 0, 0), Instr(0x0b)}; for (size_t z = 0; z < ord.size(); z++) { el.f.push_back((int)fi[ord[z]]); tslot[ord[z]] = (uint32_t)z; } m.elems.push_back(el); } { TableType t; t.t = EXTERNREF; t.min = 4; m.tables.push_back(t); }
    ops(n); e(0x0b);
    Func fn; FuncType v; fn.type = m.addtype(v); fn.locals = locals; fn.code = k; m.funcs.push_back(fn); m.exports.push_back({"go", K_FUNC, q}); m.exports.push_back({"m", K_MEM, 2});
    std::copy(pool.begin(), pool.end(), om.begin());
    Data d; d.mem = 2; d.off = {Instr(own64 ? 0x42 : 0x41, 0, 0), Instr(0x0b)}; d.bytes = om; m.datas.push_back(d);
    auto b = encode(m); char *err = nullptr; pwart_module_state st = nullptr; pwart_module_compiler mc = nullptr;
    if (attached) { st = (pwart_module_state)pwart_namespace_define_wasm_module(ns[cns].p, "step", (char *)b.data(), (int)b.size(), &err); }
    else { mc = pwart_new_module_compiler(); pwart_set_symbol_resolver(mc, &res); err = pwart_compile(mc, (char *)b.data(), (int)b.size()); if (!err) st = pwart_get_module_state(mc); pwart_free_module_compiler(mc); }
    if (err || !st) bad(strf("the module was refused: %s\n%s", err ? err : "?", hexs(b).c_str()));
    if (x.verbose) x.dump("module: " + hexs(b) + "\n");
    own = pwart_get_export_memory(st, "m"); void *go = pwart_get_export_function(st, "go"); if (!own || !go) bad("exports missing");
    pwart_call_wasm_function(go, stk);
    for (auto &p : post) p(); post.clear();
    for (auto &z : s) z.fresh = false; for (auto &z : f) z.fresh = false;
    for (auto &r : RA) if (r.ok && r.a.reg == -2) r.ok = false;
    compare("after the step"); own = nullptr; if (!attached) pwart_free_module_state(st);
  }
  struct pwart_symbol_resolver res;
  void *resolve(const std::string &n, int kind) {
    if (kind == K_MEM && n == "mem") return &hm; if (kind == K_FUNC && n == "hf") return hf777; if (kind != K_GLOBAL) return nullptr; if (n == "acc") return &acc;
    if (n.size() == 2) { int i = n[1] - '0'; switch (n[0]) { case 'P': return &P[i]; case 'R': return &R[i]; case 'F': return &F[i]; case 'C': return &CTX[i]; } } return nullptr; }
  static W *cur; static void hres(struct pwart_host_module *t, struct pwart_symbol_resolve_request *q) { q->result = ((HM *)t)->w->resolve(q->import_field, q->kind); }
  static void rres(struct pwart_symbol_resolver *, struct pwart_symbol_resolve_request *q) { q->result = strcmp(q->import_module, "st") ? nullptr : cur->resolve(q->import_field, q->kind); }
  void run() {
    cur = this; res.resolve = rres; struct pwart_global_compile_config cfg; pwart_get_global_compile_config(&cfg); auto old = cfg; cfg.stack_flags = (char)c.below(2); cfg.misc_flags = (char)c.below(4); pwart_set_global_compile_config(&cfg); say(strf("config stack %d misc %d", cfg.stack_flags, cfg.misc_flags));
    memset(P, 0, sizeof P); memset(R, 0, sizeof R); memset(F, 0, sizeof F); memset(&hm, 0, sizeof hm); hm.fixed = c.coin(); hm.initial = hm.pages = 1; hm.maximum = hm.fixed ? 1 : 4; mm.resize(65536); for (auto &b : mm) b = 0; for (int i = 0; i < 100; i++) mm[16384 + c.below(49152)] = (uint8_t)c.bits(8); hm.bytes = (uint8_t *)malloc(65536); memcpy(hm.bytes, mm.data(), 65536);
    stk = pwart_allocate_stack(65536); hf777 = pwart_wrap_host_function_c(host777); const char *tmp = getenv("VERIF_TMP"); char t[300]; snprintf(t, sizeof t, "%s/c11.XXXXXX", tmp ? tmp : "/tmp"); std::string top = mkdtemp(t); dirA = top + "/A/"; dirB = top + "/B/"; mkdir(dirA.c_str(), 0700); mkdir(dirB.c_str(), 0700); mkdir((dirA + "d").c_str(), 0700); mkdir((dirB + "d").c_str(), 0700);
    // the documented list of symbols
    int nb = 0; struct pwart_named_symbol *bs = pwart_get_builtin_symbols(&nb); bool nat = false; for (int i = 0; i < nb; i++) { if (bs[i].kind == PWART_KIND_FUNCTION) bfn[bs[i].name] = bs[i].val.fn; else if (bs[i].kind == PWART_KIND_MEMORY && !strcmp(bs[i].name, "native_memory")) nat = bs[i].val.mem->bytes == nullptr; } for (auto &q : SY) if (!bfn[q.n]) bad(strf("builtin %s is missing", q.n)); if (!nat) bad("native_memory is missing or has a base");
    for (int i = 0; i < 60; i++) { void *q = stk; pwart_rstack_put_i32(&q, i); pwart_call_wasm_function(bfn["host_definition"], stk); q = stk; char *z = (char *)pwart_rstack_get_ref(&q); if (!z) break; hdef.push_back(z); }
    auto has = [&](const char *z) { for (auto &q : hdef) if (q == z || q.compare(0, strlen(z) + 1, std::string(z) + "=") == 0) return true; return false; };
    if (!has("__linux__") || has("_WIN32") || has("_WIN64") || has("__arm__") || has("__aarch64__") || has("__ANDROID__") || has("__APPLE__") || has("__riscv_xlen") || has("__ARM_ARCH") || has("__NetBSD__")) bad("host definitions do not describe this host");
#ifdef __x86_64__
    if (!has("__x86_64__")) bad("host definitions do not describe this host");
#endif
    for (int w = 0; w < 2; w++) { ns[w].p = pwart_namespace_new(); memset(&host[w], 0, sizeof host[w]); host[w].w = this; host[w].b.resolve = hres; pwart_namespace_define_host_module(ns[w].p, (char *)"st", &host[w].b);
      Module a; FuncType v; FuncType r; r.r = {EXTERNREF}; uint32_t tv = a.addtype(v), tr = a.addtype(r); Import i; i.mod = "pwart_builtin"; i.name = "get_self_runtime_context"; i.kind = K_FUNC; i.type = tr; a.imports.push_back(i); Import g; g.mod = "st"; g.name = strf("C%d", w); g.kind = K_GLOBAL; g.g.t = EXTERNREF; a.imports.push_back(g);
      Func fn; fn.type = tv; fn.code = {Instr(0x10, 0), Instr(0x24, 0), Instr(0x0b)}; a.funcs.push_back(fn); a.exports.push_back({"go", K_FUNC, 1}); auto b = encode(a); char *err = nullptr; pwart_module_state st = (pwart_module_state)pwart_namespace_define_wasm_module(ns[w].p, "anchor", (char *)b.data(), (int)b.size(), &err); if (!st || err) bad(strf("anchor: %s", err ? err : "?")); pwart_call_wasm_function(pwart_get_export_function(st, "go"), stk); if (!CTX[w]) bad("get_self_runtime_context gave null"); }
    if (CTX[0] == CTX[1]) bad("two modules have the same context");
    int n = (int)c.range(2, x.thorough ? 24 : 12); for (int i = 0; i < n; i++) step();
    jit = false; for (int i = 0; i < NF; i++) if (f[i].t) { FILE *z = f[i].t; op("fclose", {aGlob(gF + i, &F[i])}, {Res{I32, -1, nullptr, [=](uint64_t v) { if (v != (uint64_t)(fclose(z) ? errno : 0)) bad("fclose"); }}}); }
    for (int i = 0; i < 3; i++) { auto rd = [&](std::string p) { std::string r; FILE *z = fopen(p.c_str(), "rb"); if (!z) return std::string("(none)"); char buf[4096]; size_t n; while ((n = fread(buf, 1, sizeof buf, z)) > 0) r.append(buf, n); fclose(z); return r; }; std::string a = rd(dirA + strf("f%d", i)), b = rd(dirB + strf("f%d", i)); if (a != b) bad(strf("file f%d holds %zu bytes that differ from the %zu the C library wrote", i, a.size(), b.size())); }
    for (int i = 0; i < NP; i++) if (s[i].live) free((void *)s[i].ptr); for (int w = 0; w < 2; w++) pwart_namespace_delete(ns[w].p); free(hm.bytes); pwart_free_stack(stk); pwart_free_wrapped_function(hf777); pwart_set_global_compile_config(&old);
    for (auto d : {dirA, dirB}) { for (auto n : {"f0", "f1", "f2"}) unlink((d + n).c_str()); rmdir((d + "d").c_str()); rmdir(d.c_str()); } rmdir(top.c_str());
    x.nontrivial = nops >= 3 && cats.size() >= 2; x.hash = dist; x.evals = nops; if (x.shm->nsamples < 4 && x.nontrivial && log.size() < 3000) x.sample = log;
  }
};
W *W::cur;
void script(Ctx &x) { std::unique_ptr<W> w(new W(x)); w->run(); }
}
int main(int argc, char **argv) {
  CheckDef d{"C11", "at least three builtin operations of at least two kinds were executed and checked. Identity is the text of the history"};
  d.fams = {{"script", script, 24000, 1500000, 50}};
  d.assumptions = {"builtins are called with their documented types, live pointers and terminated strings", "file operations are compared with the C library run on a twin file", "import is asked for functions only, and not for pwart_builtin's own symbols (their lookup that way is not documented)"};
  d.child_init = [] { const char *t = getenv("VERIF_TMP"); if (chdir(t ? t : "/tmp")) _exit(3); };
  return check_main(d, argc, argv);
}
