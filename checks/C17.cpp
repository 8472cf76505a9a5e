// C17: the libffi and libuv bindings, called from generated modules, against libffi, dlfcn and a model of locks and threads.
#include "syslibworld.h"
#include <ffi.h>
#include <uv.h>
#include <dlfcn.h>
#include <deque>
#include <atomic>
#include <set>
#include <cmath>
#include <sys/stat.h>
extern "C" struct pwart_host_module *off_libffi_module_new(); extern "C" char *off_libffi_module_delete(struct pwart_host_module *); extern "C" int off_libffi_module_ffi_is_enabled();
namespace {
const std::vector<Bind> FFI = {{"libffi", "ffi_is_enabled", {}, {I32}}, {"libffi", "ffi_prep_cif", {REF, I32, I32, REF, REF}, {I32}}, {"libffi", "ffi_prep_cif_var", {REF, I32, I32, I32, REF, REF}, {I32}}, {"libffi", "ffi_call", {REF, REF, REF, REF}, {}},
  {"libffi", "ffi_default_abi", {}, {I32}}, {"libffi", "ffi_built_in_types", {}, {REF, REF, REF, REF, REF, REF, REF, REF}}, {"libffi", "ffix_new_cif", {REF}, {REF, I32}}, {"libffi", "ffix_del_cif", {REF}, {}}, {"libffi", "ffix_call", {REF, REF, REF, REF}, {}},
  {"libffi", "ffi_closure_alloc", {}, {REF, REF}}, {"libffi", "ffi_closure_free", {REF}, {}}, {"libffi", "ffi_prep_closure_loc", {REF, REF, REF, REF, REF}, {I32}}, {"libffi", "ffix_new_c_callback", {REF, REF, REF}, {REF, REF, I32}}, {"libffi", "ffix_del_c_callback", {REF}, {}}};
const std::vector<Bind> UV = {{"libuv", "uv_version", {}, {I32}}, {"libuv", "uv_dlopen", {REF}, {REF, I32}}, {"libuv", "uv_dlsym", {REF, REF}, {REF, I32}}, {"libuv", "uv_dlclose", {REF}, {}}, {"libuv", "uv_thread_create", {REF, I64}, {REF}},
  {"libuv", "uv_mutex_init", {}, {REF}}, {"libuv", "uv_mutex_destroy", {REF}, {}}, {"libuv", "uv_mutex_lock", {REF}, {}}, {"libuv", "uv_mutex_unlock", {REF}, {}}, {"libuv", "uv_mutex_trylock", {REF}, {I32}},
  {"libuv", "uv_cond_init", {}, {REF}}, {"libuv", "uv_cond_destroy", {REF}, {}}, {"libuv", "uv_cond_signal", {REF}, {}}, {"libuv", "uv_cond_wait", {REF, REF}, {}}};
const Bind &B(const char *n) { for (auto *l : {&FFI, &UV}) for (auto &b : *l) if (!strcmp(b.n, n)) return b; abort(); }
ffi_type *TY[8] = {&ffi_type_void, &ffi_type_uint32, &ffi_type_sint32, &ffi_type_uint64, &ffi_type_sint64, &ffi_type_float, &ffi_type_double, &ffi_type_pointer};
const char *TN[8] = {"void", "u32", "s32", "u64", "s64", "f32", "f64", "ptr"}; const char TC[8] = {'v', 'i', '?', 'l', '?', 'f', 'd', 'p'};
VT vt(int t) { return t <= 2 ? I32 : t <= 4 || t == 7 ? I64 : t == 5 ? F32 : F64; }
int sz(int t) { return t == 0 ? 0 : vtsize(vt(t)); }
uint64_t cut(int t, uint64_t v) { return t == 0 ? 0 : sz(t) == 4 ? (uint32_t)v : v; }

// ---------------------------------------------------------------- libffi
const uint32_t STRS = 0, RET = 6000, ARGS = 6144, AVAL = 8448, RES = 12288, LOG = 16384; const int STRIDE = 1024 + 64, MAXLOG = 40;
struct Sig { std::vector<int> a; int r; int how; int nfix; ffi_cif *cif = nullptr, mine; std::vector<ffi_type *> at; std::string s; uint32_t nx = 0; };
struct Cb { int sig, kind, nest = -1, depth; uint32_t rec; std::vector<uint64_t> nargs; };        // kind 0 packed slots, 1 pointer array
struct Obj { int cb; uint64_t user, closure, code; bool live = false; };
struct Act { uint64_t res; int obj = -1; std::vector<uint64_t> args; };
struct FW;
struct Nat { FW *w; int id, sig; ffi_closure *cl; void *code; };
struct Ev { int id; std::vector<uint64_t> v; bool operator==(const Ev &o) const { return id == o.id && v == o.v; } };
struct FW : SysWorld {
  std::vector<Sig> S; std::vector<Cb> C; std::vector<Obj> O; std::vector<Nat *> N; Builder b; std::deque<Act> plan, mplan; std::vector<Ev> ev, mev; struct LogE { int cb; uint64_t user; std::vector<uint64_t> a; uint64_t nest; bool hasnest; }; std::vector<LogE> mlog; int budget = 0, nops = 0, calls = 0; uint64_t dist = 5; bool nesting = false;
  FW(Ctx &x) : SysWorld(x), b(x.c) {}
  uint64_t val(int t) { uint64_t v = c.pct(25) ? c.pick<uint64_t>({0, 1, ~0ull, 0x80000000ull, 0x7fffffffull, 0x8000000000000000ull, 0x7fffffffffffffffull, 0xffffffffull, 0x7fc00000ull, 0x3ff0000000000000ull}) : c.bits(64); return cut(t, v); }
  std::vector<uint64_t> vals(const Sig &s) { std::vector<uint64_t> v; for (int t : s.a) v.push_back(val(t)); return v; }
  static std::string show(const std::vector<uint64_t> &v) { std::string s; for (size_t i = 0; i < v.size() && i < 24; i++) s += strf("%s%llx", i ? "," : "", (unsigned long long)v[i]); return s; }
  // ---- real side ----
  static void native(ffi_cif *, void *ret, void **args, void *u) {
    Nat *n = (Nat *)u; FW *w = n->w; InPw off(0); Sig &s = w->S[n->sig]; Ev e; e.id = n->id; for (size_t i = 0; i < s.a.size(); i++) { uint64_t v = 0; memcpy(&v, args[i], sz(s.a[i])); e.v.push_back(v); } w->ev.push_back(e);
    uint64_t r = 0x5a5a5a5a; if (!w->plan.empty()) { Act a = w->plan.front(); w->plan.pop_front(); r = a.res; if (a.obj >= 0) { uint64_t q = w->invoke((void *)w->O[a.obj].code, w->S[w->C[w->O[a.obj].cb].sig], a.args); Ev z; z.id = 1000; z.v = {q}; w->ev.push_back(z); } }
    if (s.r) { if (sz(s.r) == 4 && vt(s.r) == I32) *(ffi_arg *)ret = s.r == 2 ? (ffi_arg)(int64_t)(int32_t)r : (uint32_t)r; else memcpy(ret, &r, sz(s.r)); }
  }
  uint64_t invoke(void *code, Sig &s, const std::vector<uint64_t> &a) { std::vector<void *> av; for (auto &v : a) av.push_back((void *)&v); uint64_t r[2] = {0, 0}; { InPw in; ffi_call(&s.mine, FFI_FN(code), r, av.data()); } return cut(s.r, r[0]); }
  // ---- model ----
  uint64_t mnative(int id, const std::vector<uint64_t> &a) { Ev e; e.id = id; e.v = a; mev.push_back(e); uint64_t r = 0x5a5a5a5a; if (!mplan.empty()) { Act q = mplan.front(); mplan.pop_front(); r = q.res; if (q.obj >= 0) { Ev z; uint64_t v = mobj(q.obj, q.args); z.id = 1000; z.v = {v}; mev.push_back(z); } } return cut(S[N[id]->sig].r, r); }
  std::vector<uint64_t> resv;
  uint64_t mobj(int o, const std::vector<uint64_t> &a) { Cb &k = C[O[o].cb]; size_t n = mlog.size(); if (n >= MAXLOG) throw Discard{"log full"}; mlog.push_back({O[o].cb, O[o].user, a, 0, false}); uint64_t r = resv[n]; if (k.nest >= 0 && budget > 0) { budget--; nesting = true; uint64_t v = mnative(k.nest, k.nargs); mlog[n].nest = v; mlog[n].hasnest = true; }
    uint64_t h = 1; for (uint32_t i = 0; i < k.rec; i++) h = h * 31 + (k.rec - i); if (k.rec) r ^= cut(S[k.sig].r, h) & (vt(S[k.sig].r) == I32 || vt(S[k.sig].r) == I64 ? ~0ull : 0); return cut(S[k.sig].r, r); }
  // ---- module ----
  std::string text(const Sig &s) { std::string t; for (int q : s.a) t += TC[q]; if (s.r || c.coin()) { t += '>'; t += TC[s.r]; } return t; }
  void mksig(int i) {
    Sig s; s.how = (int)c.weighted({5, 4, 1}); int n = c.pct(70) ? (int)c.below(7) : c.pct(80) ? (int)c.below(26) : (int)c.below(121); auto ty = [&](bool ret) { for (;;) { int t = ret ? (int)c.below(8) : 1 + (int)c.below(7); if (s.how == 0 && TC[t] == '?') continue; if (s.how == 2 && t == 5) continue; return t; } };
    for (int k = 0; k < n; k++) s.a.push_back(ty(false)); s.r = ty(true); if (s.how == 2 && s.a.empty()) s.a.push_back(6); s.nfix = s.how == 2 ? 1 + (int)c.below(s.a.size()) : 0; s.nx = (uint32_t)c.bits(3); S.push_back(s);
    Sig &z = S.back(); for (int t : z.a) z.at.push_back(TY[t]); ffi_status q = z.how == 2 ? ffi_prep_cif_var(&z.mine, FFI_DEFAULT_ABI, z.nfix, z.a.size(), TY[z.r], z.at.data()) : ffi_prep_cif(&z.mine, FFI_DEFAULT_ABI, z.a.size(), TY[z.r], z.at.data()); if (q) throw Discard{"libffi refuses the signature"};
    z.s = strf("sig%d:", i); for (int t : z.a) { z.s += TN[t]; z.s += " "; } z.s += strf("-> %s (%s)", TN[z.r], z.how == 0 ? "ffix_new_cif" : z.how == 1 ? "ffi_prep_cif" : "ffi_prep_cif_var");
  }
  // code: arguments (locals from `at`, or constants) are stored and the function called; the result is loaded
  void callcode(const Sig &s, int how, std::function<void()> cif, std::function<void()> fnp, int at, const std::vector<uint64_t> *konst, int boxed) {
    std::vector<int> ord; for (size_t i = 0; i < s.a.size(); i++) ord.push_back(i); for (size_t i = ord.size(); i > 1; i--) std::swap(ord[i - 1], ord[c.below(i)]);
    static const int ST[] = {0x36, 0x37, 0x38, 0x39}, LD[] = {0x28, 0x29, 0x2a, 0x2b}; auto ix = [](VT t) { return t == I32 ? 0 : t == I64 ? 1 : t == F32 ? 2 : 3; };
    auto src = [&](int i) { VT t = vt(s.a[i]); if (konst) b.e(t == I32 ? 0x41 : t == I64 ? 0x42 : t == F32 ? 0x43 : 0x44, 0, (*konst)[i]); else b.e(0x20, at + i); if (!konst && s.a[i] == 7 && boxed) b.call("i64_from_ref"); };
    if (how == 0) for (int i : ord) { b.e(0x41, 0, ARGS + 8 * i); src(i); b.e(ST[ix(vt(s.a[i]))], b.mOwn); }
    else { uint32_t base = (uint32_t)(ARGS + 8 * c.below(8)); for (int i : ord) { uint32_t p = base + 16 * (uint32_t)(s.a.size() - 1 - i); b.e(0x41, 0, p); src(i); b.e(ST[ix(vt(s.a[i]))], b.mOwn); b.e(0x41, 0, AVAL + 8 * i); b.addr(p); b.call("i64_from_ref"); b.e(0x37, b.mOwn); } }
    auto z = b.noise(); cif(); fnp(); b.addr(RET); b.addr(how == 0 ? ARGS : AVAL); b.call(how == 0 ? "ffix_call" : "ffi_call"); b.unnoise(z);
    if (s.r) { b.e(0x41, 0, RET); b.e(LD[ix(vt(s.r))], b.mOwn); }
  }
  std::vector<VT> rtype(const Sig &s) { return s.r ? std::vector<VT>{vt(s.r)} : std::vector<VT>{}; }
  uint32_t gCnt, gBud; std::vector<uint32_t> gCif, gFn; std::vector<std::vector<VT>> runp;
  void build() {
    std::vector<const Bind *> bs; for (auto &q : BUILTINS) bs.push_back(&q); for (auto &q : FFI) bs.push_back(&q); b.imports(bs, true, 2);
    gCnt = b.global(I32, LOG); gBud = b.global(I32, 0); b.m.exports.push_back({"cnt", K_GLOBAL, gCnt}); b.m.exports.push_back({"budget", K_GLOBAL, gBud});
    for (size_t i = 0; i < S.size(); i++) { gCif.push_back(b.global(b.ref, 0)); b.m.exports.push_back({strf("cif%zu", i), K_GLOBAL, gCif[i]}); }
    for (size_t i = 0; i < N.size(); i++) { gFn.push_back(b.global(b.ref, 0)); b.m.exports.push_back({strf("fn%zu", i), K_GLOBAL, gFn[i]}); }
    for (auto &q : FFI) b.wrap(q.n);
    for (size_t i = 0; i < S.size(); i++) for (int how = 0; how < 2; how++) {
      std::vector<VT> p = {REF}; bool boxed = c.coin(); for (int t : S[i].a) p.push_back(t == 7 && boxed ? REF : vt(t)); if (how == 0) runp.push_back(p); else runp.push_back(p);
      b.begin(p, rtype(S[i])); auto z = b.noise(); callcode(S[i], how, [&] { b.e(0x23, gCif[i]); }, [&] { b.e(0x20, 0); }, 1, nullptr, boxed); uint32_t l = 0; if (S[i].r) { l = b.loc(vt(S[i].r)); b.e(0x21, l); } b.unnoise(z); if (S[i].r) b.e(0x20, l); b.end(strf("run%zu_%d", i, how));
    }
    // rec(n, x): deep enough to use a good part of the stack a callback has
    b.begin({I32, I64}, {I64}); uint32_t t1 = b.loc(I64); b.e(0x20, 0); b.e(0x45); b.e(0x04, 0, I64); b.e(0x20, 1); b.e(0x05); b.e(0x20, 0); b.e(0x41, 0, 1); b.e(0x6b); b.e(0x20, 1); b.e(0x42, 0, 31); b.e(0x7e); b.e(0x20, 0); b.e(0xad); b.e(0x7c); b.e(0x22, t1); uint32_t recf = (uint32_t)(b.fi.size() + b.m.funcs.size()); b.e(0x10, recf); b.e(0x0b); b.end("");
    for (size_t j = 0; j < C.size(); j++) {
      Cb &q = C[j]; Sig &s = S[q.sig]; b.begin({REF, REF, REF, REF}, {}); uint32_t kk = b.loc(I32), base = b.loc(I64), h = b.loc(I64);
      b.e(0x23, gCnt); b.e(0x22, kk); b.e(0x41, 0, STRIDE); b.e(0x6a); b.e(0x24, gCnt);
      auto logr = [&](uint32_t off, std::function<void()> v) { b.e(0x20, kk); v(); b.e(0x37, b.mOwn, off); };
      logr(0, [&] { b.e(0x42, 0, j + 1); }); logr(8, [&] { b.e(0x20, 3); b.call("i64_from_ref"); }); logr(16, [&] { b.e(0x20, 0); b.call("i64_from_ref"); }); logr(24, [&] { b.e(0x20, 1); b.call("i64_from_ref"); });
      bool early = c.coin(); auto args = [&] {
        b.e(0x20, 2); b.call("i64_from_ref"); b.e(0x21, base);
        for (size_t i = 0; i < s.a.size(); i++) { VT t = vt(s.a[i]); int ld = t == I32 ? 0x28 : t == I64 ? 0x29 : t == F32 ? 0x2a : 0x2b, stc = ld + 0x0e; b.e(0x20, kk);
          if (q.kind == 0) { b.e(0x20, base); b.e(ld, b.mNat, 8 * i); } else { b.e(0x20, base); b.e(0x29, b.mNat, 8 * i); b.e(ld, b.mNat, 0); } b.e(stc, b.mOwn, 64 + 8 * i); } };
      if (early) args();
      if (q.nest >= 0) { b.e(0x23, gBud); b.e(0x04, 0, VOIDT); b.e(0x23, gBud); b.e(0x41, 0, 1); b.e(0x6b); b.e(0x24, gBud); Sig &ns = S[N[q.nest]->sig]; int si = N[q.nest]->sig; if (ns.r) b.e(0x20, kk); callcode(ns, (int)c.below(2), [&] { b.e(0x23, gCif[si]); }, [&] { b.e(0x23, gFn[q.nest]); }, 0, &q.nargs, 0);
        if (ns.r) { VT t = vt(ns.r); b.e(t == I32 ? 0x36 : t == I64 ? 0x37 : t == F32 ? 0x38 : 0x39, b.mOwn, 32); } logr(40, [&] { b.e(0x42, 0, 1); }); b.e(0x0b); }
      if (!early) args();
      if (s.r) { VT t = vt(s.r); int ld = t == I32 ? 0x28 : t == I64 ? 0x29 : t == F32 ? 0x2a : 0x2b; bool integer = t == I32 || t == I64;
        b.e(0x20, 1); b.call("i64_from_ref"); b.e(0x20, kk); b.e(0x41, 0, LOG); b.e(0x6b); b.e(0x41, 0, STRIDE); b.e(0x6e); b.e(0x41, 0, 8); b.e(0x6c); b.e(ld, b.mOwn, RES);
        if (q.rec && integer) { b.e(0x41, 0, q.rec); b.e(0x42, 0, 1); b.e(0x10, recf); if (t == I32) { b.e(0xa7); b.e(0x73); } else b.e(0x85); }
        b.e(ld + 0x0e, b.mNat, 0); }
      b.end(strf("cb%zu", j)); b.begin({}, {REF}); if (b.ref == FUNCREF) { b.e(0xd2, (uint32_t)(b.fi.size() + b.m.funcs.size() - 1)); } else b.e(0xd0, 0, EXTERNREF); b.end(strf("getcb%zu", j));
    }
  }
  template <class T> T *glob(const std::string &n) { T *p = (T *)pwart_get_export_global(st, (char *)n.c_str()); if (!p) bad("global " + n + " is missing"); return p; }
  uint64_t cbref(int j) { if (b.ref == FUNCREF && c.coin()) return callf(fn(strf("getcb%d", j)), {}, {REF}, {})[0]; return (uint64_t)fn(strf("cb%d", j)); }
  uint64_t place(const std::string &t) { uint32_t off = (uint32_t)c.below(64); uint8_t *p = mem()->bytes + STRS + off; memcpy(p, t.c_str(), t.size() + 1); return (uint64_t)p; }
  void checkcif(Sig &s, uint64_t status) {
    if (status) bad(strf("%s: status %llu for a signature libffi accepts", s.s.c_str(), (unsigned long long)status)); if (!s.cif) bad("null call interface");
    if (s.cif->abi != s.mine.abi || s.cif->nargs != s.mine.nargs || s.cif->rtype != s.mine.rtype || s.cif->bytes != s.mine.bytes || s.cif->flags != s.mine.flags) bad(strf("%s: the call interface differs from the one libffi prepares (nargs %u, bytes %u, flags %x; libffi %u, %u, %x)", s.s.c_str(), s.cif->nargs, s.cif->bytes, s.cif->flags, s.mine.nargs, s.mine.bytes, s.mine.flags));
    for (size_t i = 0; i < s.a.size(); i++) if (s.cif->arg_types[i] != TY[s.a[i]]) bad(strf("%s: argument type %zu of the call interface is wrong", s.s.c_str(), i));
  }
  void newcif(int i) {
    Sig &s = S[i]; nops++; say("  " + s.s); x.count(s.how == 0 ? "ffix_new_cif" : s.how == 1 ? "ffi_prep_cif" : "ffi_prep_cif_var");
    if (s.how == 0) { std::string t = text(s); auto r = w(B("ffix_new_cif"), {place(t)}); memset(mem()->bytes + STRS, '#', 512); s.cif = (ffi_cif *)r[0]; checkcif(s, r[1]); }
    else { s.cif = (ffi_cif *)calloc(1, sizeof(ffi_cif)); std::vector<uint64_t> a; auto r = s.how == 1 ? w(B("ffi_prep_cif"), {(uint64_t)s.cif, FFI_DEFAULT_ABI, s.a.size(), (uint64_t)TY[s.r], (uint64_t)s.at.data()}) : w(B("ffi_prep_cif_var"), {(uint64_t)s.cif, FFI_DEFAULT_ABI, (uint64_t)s.nfix, s.a.size(), (uint64_t)TY[s.r], (uint64_t)s.at.data()}); checkcif(s, r[0]); }
    *glob<void *>(strf("cif%d", i)) = s.cif;
  }
  void delcif(int i) { Sig &s = S[i]; say(strf("  delete cif %d", i)); x.count("ffix_del_cif"); if (s.how == 0) w(B("ffix_del_cif"), {(uint64_t)s.cif}); else free(s.cif); s.cif = nullptr; *glob<void *>(strf("cif%d", i)) = nullptr; }
  bool used(int sig) { for (auto &o : O) if (o.live && C[o.cb].sig == sig) return true; return false; }
  // one top-level call; the plan for what natives do was made before
  void planit() { plan.clear(); int n = (int)c.below(4); for (int i = 0; i < n; i++) { Act a; a.res = c.bits(64); std::vector<int> lv; for (size_t o = 0; o < O.size(); o++) if (O[o].live && S[C[O[o].cb].sig].cif) lv.push_back(o); if (!lv.empty() && c.pct(45)) { a.obj = c.pick(lv); a.args = vals(S[C[O[a.obj].cb].sig]); } plan.push_back(a); } mplan = plan; budget = (int)c.below(4); *glob<int>("budget") = budget; *glob<int>("cnt") = LOG; ev.clear(); mev.clear(); mlog.clear(); resv.clear(); for (int i = 0; i < MAXLOG; i++) resv.push_back(c.bits(64)); memcpy(mem()->bytes + RES, resv.data(), 8 * MAXLOG); memset(mem()->bytes + LOG, 0xee, STRIDE * MAXLOG); memset(mem()->bytes + RET, 0xdd, 64); }
  void compare() {
    if (ev.size() != mev.size()) bad(strf("%zu native calls and callback results were seen, %zu expected", ev.size(), mev.size()));
    for (size_t i = 0; i < ev.size(); i++) if (!(ev[i] == mev[i])) bad(ev[i].id == 1000 && mev[i].id == 1000 ? strf("the native caller got %llx from a callback that returns %llx", (unsigned long long)ev[i].v[0], (unsigned long long)mev[i].v[0]) : strf("event %zu: native%d(%s), expected native%d(%s)", i, ev[i].id, show(ev[i].v).c_str(), mev[i].id, show(mev[i].v).c_str()));
    int cnt = (*glob<int>("cnt") - (int)LOG) / STRIDE; if (cnt != (int)mlog.size()) bad(strf("%d callback calls reached the module, %zu expected", cnt, mlog.size()));
    for (int i = 0; i < cnt; i++) { uint8_t *p = mem()->bytes + LOG + i * STRIDE; auto g = [&](int o) { uint64_t v; memcpy(&v, p + o, 8); return v; }; LogE &m = mlog[i]; Sig &s = S[C[m.cb].sig];
      if (g(0) != (uint64_t)m.cb + 1) bad(strf("callback call %d ran function cb%lld, expected cb%d", i, (long long)g(0) - 1, m.cb)); if (g(8) != m.user) bad(strf("cb%d got user data %llx, expected %llx", m.cb, (unsigned long long)g(8), (unsigned long long)m.user)); if (g(16) != (uint64_t)s.cif) bad(strf("cb%d got a wrong call interface", m.cb)); if (!g(24)) bad("null place for the result");
      for (size_t k = 0; k < s.a.size(); k++) { uint64_t v = 0; memcpy(&v, p + 64 + 8 * k, sz(s.a[k])); if (v != m.a[k]) bad(strf("cb%d (%s) got %llx as argument %zu, the native caller passed %llx", m.cb, s.s.c_str(), (unsigned long long)v, k, (unsigned long long)m.a[k])); }
      if (m.hasnest) { if (g(40) != 1) bad("the nested call was not made"); Sig &ns = S[N[C[m.cb].nest]->sig]; uint64_t v = 0; memcpy(&v, p + 32, sz(ns.r)); if (ns.r && v != cut(ns.r, m.nest)) bad(strf("a native function called inside cb%d returned %llx, it had returned %llx", m.cb, (unsigned long long)v, (unsigned long long)m.nest)); } else if (g(40) == 1) bad("an unexpected nested call was made"); }
    if (!plan.empty() && plan.size() != mplan.size()) bad("natives ran a different number of times"); noisecheck(); calls++; for (auto &q : mev) for (auto v : q.v) dist = mix64(dist ^ v); dist = mix64(dist ^ mlog.size());
  }
  void runop(int i) {
    Sig &s = S[i]; int how = (int)c.below(2); std::vector<std::pair<int, int>> tg; for (size_t n = 0; n < N.size(); n++) if (N[n]->sig == i) tg.push_back({0, n}); for (size_t o = 0; o < O.size(); o++) if (O[o].live && C[O[o].cb].sig == i) { tg.push_back({1, o}); tg.push_back({1, o}); }
    if (tg.empty()) return; auto t = c.pick(tg); auto a = vals(s); planit(); uint64_t want = t.first ? mobj(t.second, a) : mnative(t.second, a); if (t.first && s.r == 0) want = 0;
    nops++; say(strf("  wasm calls %s %d through %s with (%s), expects %llx", t.first ? "callback" : "native", t.second, how ? "ffi_call" : "ffix_call", show(a).c_str(), (unsigned long long)want)); x.count(how ? "ffi_call" : "ffix_call"); x.count(t.first ? "wasm calls a callback" : "wasm calls a native function");
    std::vector<uint64_t> av = {t.first ? O[t.second].code : (uint64_t)N[t.second]->code}; for (auto v : a) av.push_back(v); auto r = callf(fn(strf("run%d_%d", i, how)), runp[2 * i + how], rtype(s), av); if (s.r && r[0] != cut(s.r, want)) bad(strf("the call returned %llx, the function returned %llx", (unsigned long long)r[0], (unsigned long long)want));
    uint8_t *q = mem()->bytes + RET; for (int k = 8; k < 64; k++) if (q[k] != 0xdd) bad("the call wrote beyond the place for its result"); compare();
  }
  void hostcall(int o) { auto &ob = O[o]; Sig &s = S[C[ob.cb].sig]; auto a = vals(s); planit(); uint64_t want = mobj(o, a); nops++; x.count("native caller calls a callback"); say(strf("  host calls callback %d with (%s), expects %llx", o, show(a).c_str(), (unsigned long long)want)); uint64_t r = invoke((void *)ob.code, s, a); if (s.r && r != cut(s.r, want)) bad(strf("the callback returned %llx, expected %llx", (unsigned long long)r, (unsigned long long)want)); compare(); }
  void newobj() {
    std::vector<int> v; for (size_t j = 0; j < C.size(); j++) if (S[C[j].sig].cif) v.push_back(j); if (v.empty()) return; Obj o; o.cb = c.pick(v); Cb &q = C[o.cb]; o.user = c.pct(30) ? 0 : c.bits(64); o.live = true; uint64_t cif = (uint64_t)S[q.sig].cif; nops++;
    say(strf("  callback %zu = cb%d (%s, %s) user %llx", O.size(), o.cb, q.kind ? "pointer array" : "packed", S[q.sig].s.c_str(), (unsigned long long)o.user)); x.count(q.kind ? "ffi_prep_closure_loc" : "ffix_new_c_callback");
    if (q.kind == 0) { auto r = w(B("ffix_new_c_callback"), {cif, cbref(o.cb), o.user}); o.closure = r[0]; o.code = r[1]; if (r[2] || !r[0] || !r[1]) bad("ffix_new_c_callback failed"); }
    else { auto r = w(B("ffi_closure_alloc"), {}); if (!r[0] || !r[1]) bad("ffi_closure_alloc failed"); o.closure = r[0]; o.code = r[1]; auto z = w(B("ffi_prep_closure_loc"), {o.closure, cif, cbref(o.cb), o.user, o.code}); if (z[0]) bad("ffi_prep_closure_loc failed"); }
    for (auto &p : O) if (p.live && (p.code == o.code || p.closure == o.closure)) bad("two live callbacks share their code"); O.push_back(o);
  }
  void reprep(int i) { auto &o = O[i]; std::vector<int> v; for (size_t j = 0; j < C.size(); j++) if (C[j].kind == 1 && S[C[j].sig].cif) v.push_back(j); if (C[o.cb].kind != 1 || v.empty()) return; nops++; o.cb = c.pick(v); o.user = c.bits(64); say(strf("  callback %d prepared again as cb%d user %llx", i, o.cb, (unsigned long long)o.user)); x.count("closure prepared again"); auto z = w(B("ffi_prep_closure_loc"), {o.closure, (uint64_t)S[C[o.cb].sig].cif, cbref(o.cb), o.user, o.code}); if (z[0]) bad("ffi_prep_closure_loc failed"); }
  void delobj(int i) { auto &o = O[i]; nops++; say(strf("  delete callback %d", i)); x.count(C[o.cb].kind ? "ffi_closure_free" : "ffix_del_c_callback"); w(B(C[o.cb].kind ? "ffi_closure_free" : "ffix_del_c_callback"), {o.closure}); o.live = false; }
  void misc() {
    nops++; switch (c.below(5)) {
      case 0: { x.count("overlong signature"); int n = (int)c.range(256, 300); std::string t(n, 'i'); for (auto &ch : t) ch = c.pick({'i', 'l', 'f', 'd', 'p'}); t += c.pick({"", ">i", ">v"}); say("  overlong signature"); auto r = w(B("ffix_new_cif"), {place(t)}); if (r[0] || r[1] != 1) bad("a signature with more than 255 arguments was not refused"); break; }
      case 1: { x.count("long signature"); int n = (int)c.range(200, 255); std::string t; std::vector<ffi_type *> ty; for (int i = 0; i < n; i++) { int k = c.pick({1, 3, 5, 6, 7}); t += TC[k]; ty.push_back(TY[k]); } int r = c.pick({0, 1, 3, 5, 6, 7}); t += '>'; t += TC[r]; say(strf("  signature of %d arguments", n)); ffi_cif m; ffi_prep_cif(&m, FFI_DEFAULT_ABI, n, TY[r], ty.data()); auto q = w(B("ffix_new_cif"), {place(t)}); ffi_cif *f = (ffi_cif *)q[0]; if (!f || q[1]) bad("long signature refused"); if (f->nargs != (unsigned)n || f->bytes != m.bytes || f->flags != m.flags || f->rtype != m.rtype) bad("long signature: the call interface differs from libffi's"); for (int i = 0; i < n; i++) if (f->arg_types[i] != ty[i]) bad("long signature: wrong argument type"); w(B("ffix_del_cif"), {q[0]}); break; }
      case 2: { say("  built-in types, default abi, is_enabled"); x.count("ffi_built_in_types"); auto r = w(B("ffi_built_in_types"), {}); for (int i = 0; i < 8; i++) if (r[i] != (uint64_t)TY[i]) bad(strf("ffi_built_in_types result %d is not %s", i, TN[i])); if (w(B("ffi_default_abi"), {})[0] != FFI_DEFAULT_ABI) bad("ffi_default_abi"); if (w(B("ffi_is_enabled"), {})[0] != 1 || pwart_libffi_module_ffi_is_enabled() != 1) bad("ffi_is_enabled"); break; }
      default: { bool var = c.coin(); x.count("prep with any abi"); int n = (int)c.below(6) + (var ? 1 : 0); std::vector<ffi_type *> ty; for (int i = 0; i < n; i++) ty.push_back(TY[1 + c.below(7)]); ffi_type *r = TY[c.below(8)]; uint32_t abi = c.pct(40) ? FFI_DEFAULT_ABI : (uint32_t)c.below(30), nf = var ? 1 + (uint32_t)c.below(n) : 0; if (c.pct(10)) abi = c.pick({0xffffffffu, 0x7fffffffu}); ffi_cif *m = (ffi_cif *)malloc(sizeof *m), *p = (ffi_cif *)malloc(sizeof *p); memset(m, 7, sizeof *m); memset(p, 7, sizeof *p);
        uint32_t s1 = var ? ffi_prep_cif_var(m, (ffi_abi)abi, nf, n, r, ty.data()) : ffi_prep_cif(m, (ffi_abi)abi, n, r, ty.data()); say(strf("  %s with abi %u: status %u", var ? "ffi_prep_cif_var" : "ffi_prep_cif", abi, s1)); auto z = var ? w(B("ffi_prep_cif_var"), {(uint64_t)p, abi, nf, (uint64_t)n, (uint64_t)r, (uint64_t)ty.data()}) : w(B("ffi_prep_cif"), {(uint64_t)p, abi, (uint64_t)n, (uint64_t)r, (uint64_t)ty.data()});
        if (z[0] != s1) bad(strf("status %llu, libffi returns %u", (unsigned long long)z[0], s1)); if (!s1 && (p->nargs != m->nargs || p->rtype != m->rtype || p->bytes != m->bytes || p->flags != m->flags || p->abi != m->abi || p->arg_types != m->arg_types)) bad("the call interface differs from libffi's"); free(m); free(p); }
    }
  }
  void go() {
    int n = (int)c.range(1, 4); for (int i = 0; i < n; i++) mksig(i);
    for (int i = 0; i < n; i++) { int q = (int)c.range(1, 2); for (int k = 0; k < q; k++) { Nat *t = new Nat{this, (int)N.size(), i, nullptr, nullptr}; t->cl = (ffi_closure *)ffi_closure_alloc(sizeof(ffi_closure), &t->code); ffi_prep_closure_loc(t->cl, &S[i].mine, native, t, t->code); N.push_back(t); } }
    int nc = (int)c.range(1, 4); for (int j = 0; j < nc; j++) { Cb q; q.sig = (int)c.below(n); q.kind = (int)c.below(2); q.rec = c.pct(40) ? (uint32_t)(c.coin() ? c.range(1, 30) : c.range(31, 400)) : 0; q.depth = 0; if (c.pct(50)) { q.nest = (int)c.below(N.size()); if (S[N[q.nest]->sig].a.size() > 40) q.nest = -1; else q.nargs = vals(S[N[q.nest]->sig]); } C.push_back(q); }
    for (auto &s : S) say(s.s);
    { InPw in; Track::start(); } { InPw in; ns = pwart_namespace_new(); } char *e; { InPw in; e = pwart_syslib_load(ns); } if (e) bad(strf("pwart_syslib_load: %s", e));
    build(); st = define("m", b.m); for (size_t i = 0; i < N.size(); i++) *glob<void *>(strf("fn%zu", i)) = N[i]->code;
    for (size_t i = 0; i < S.size(); i++) newcif(i);
    int ops = (int)c.range(3, x.thorough ? 40 : 16); for (int i = 0; i < ops; i++) {
      std::vector<int> lv; for (size_t o = 0; o < O.size(); o++) if (O[o].live) lv.push_back(o);
      switch (c.weighted({5, lv.size() < 6 ? 4 : 0, lv.empty() ? 0 : 4, lv.empty() ? 0 : 1, lv.empty() ? 0 : 1, 1, 1})) {
        case 0: { int s = (int)c.below(S.size()); bool all = true; for (auto &z : S) if (!z.cif) all = false; if (all) runop(s); break; } case 1: newobj(); break; case 2: { bool all = true; for (auto &z : S) if (!z.cif) all = false; if (all) hostcall(c.pick(lv)); break; } case 3: delobj(c.pick(lv)); break; case 4: reprep(c.pick(lv)); break;
        case 5: { int s = (int)c.below(S.size()); if (S[s].cif) { if (!used(s)) delcif(s); } else newcif(s); break; } default: misc(); } }
    for (size_t i = 0; i < O.size(); i++) if (O[i].live) delobj(i); for (size_t i = 0; i < S.size(); i++) if (S[i].cif) delcif(i); noisecheck();
    st = nullptr; { InPw in; e = pwart_syslib_unload(ns); } if (e) bad("pwart_syslib_unload reports an error"); { InPw in; pwart_namespace_delete(ns); } std::string l = Track::stop(); if (!l.empty()) bad("memory is still allocated after everything was deleted: " + l);
    for (auto t : N) { ffi_closure_free(t->cl); delete t; }
    x.nontrivial = calls >= 2; x.hash = dist; x.evals = nops; if (x.shm->nsamples < 2 && log.size() < 2800) x.sample = log; if (nesting) x.count("cases with nested calls");
  }
};
void ffi(Ctx &x) { FW w(x); w.go(); }
#include "C17_uv.h"
// the library built without libffi: the same names, every function but ffi_is_enabled does nothing
void off(Ctx &x) {
  SysWorld w(x); Choices &c = x.c; struct pwart_host_module *h = off_libffi_module_new(); if (off_libffi_module_ffi_is_enabled()) w.bad("a library without libffi says it is enabled"); w.ns = pwart_namespace_new(); pwart_namespace_define_host_module(w.ns, (char *)"libffi", h);
  Builder b(c); std::vector<const Bind *> bs; for (auto &q : FFI) bs.push_back(&q); b.imports(bs, false, 1); w.st = w.define("m", (([&]() -> Module & { b.begin({}, {}); b.e(0x01); b.end("x"); return b.m; })()));
  for (auto &q : FFI) { void *f = (void *)[&] { pwart_symbol_resolve_request r; memset(&r, 0, sizeof r); r.import_module = (char *)"libffi"; r.import_field = (char *)q.n; r.kind = PWART_KIND_FUNCTION; pwart_namespace_resolver(w.ns)->resolve(pwart_namespace_resolver(w.ns), &r); return r.result; }(); if (!f) w.bad(strf("%s is missing", q.n));
    uint8_t before[256]; for (auto &v : before) v = (uint8_t)c.bits(8); memcpy(w.stk, before, 256); pwart_call_wasm_function((pwart_wasm_function)f, w.stk); if (!strcmp(q.n, "ffi_is_enabled")) memset(before, 0, 4); if (memcmp(before, w.stk, 256)) w.bad(strf("%s did something", q.n)); }
  pwart_namespace_delete(w.ns); off_libffi_module_delete(h); x.nontrivial = true; x.hash = c.bits(62); x.evals = FFI.size();
}
}
int main(int argc, char **argv) {
  CheckDef d{"C17", "at least two calls crossed the boundary between a generated module and native code (ffi), or at least four lock, library or thread operations were made and checked (uv). Identity covers the values passed"};
  d.fams = {{"ffi", ffi, 40000, 2500000, 50}, {"uv", uv, 20000, 800000, 50}, {"threads", threads, 3000, 100000, 10, true}, {"off", off, 200, 2000, 20}};
  d.wall_limit_s = 25; d.child_init = [] { int n; pwart_get_builtin_symbols(&n); };
  d.assumptions = {"the system's libffi and libuv are correct", "structure types are not generated", "a callback uses at most the stack the binding gives it"};
  return check_main(d, argc, argv);
}
