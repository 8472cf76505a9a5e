// Runs generated programs in PWART through its public interface and compares every observable with the model.
#pragma once
#include "track.h"
#include "gen.h"
extern "C" {
#include <pwart.h>
}
#include <set>

static const int NHOST = 16;
struct HostFn { FuncType t; int flags = 0; uint64_t salt = 0; };   // flags: 1 calls back, 2 writes memory 0 of the caller program, 4 returns its arguments where types match

static inline uint64_t hv(uint64_t a, uint64_t b) { return mix64(a * 0x9e3779b97f4a7c15ull ^ mix64(b)); }
static inline uint64_t shape(VT t, uint64_t h) {      // a non-NaN value of the type
  switch (t) {
    case I32: return h % 3 == 0 ? h % 10 : (uint32_t)(h >> 7);
    case I64: return h % 3 == 0 ? h % 10 : h;
    case F32: { uint32_t b = (uint32_t)(h >> 9); if ((b & 0x7f800000) == 0x7f800000) b ^= 0x40000000; return b; }
    case F64: { if ((h & 0x7ff0000000000000ull) == 0x7ff0000000000000ull) h ^= 0x4000000000000000ull; return h; }
    default: return 0;
  }
}

struct ModDef { std::string name; std::shared_ptr<Module> m; std::vector<uint8_t> bytes; };
struct CallPlan { int mod; uint32_t func; std::vector<Val> args; int sp_off = 0; };

struct Program {
  std::vector<ModDef> mods; std::vector<HostFn> host;
  std::vector<std::pair<GlobalType, uint64_t>> hglobals;     // host-provided globals
  std::vector<MemType> hmems; std::vector<TableType> htables;
  std::vector<CallPlan> calls;
  int cfg_stack = 1, cfg_misc = 2;
  uint64_t fuelv = 5;
};

struct Trace { std::vector<HostCall> v; };

struct Exec;
static thread_local Exec *g_exec;
template <int N> static void host_tramp(void *fp);
typedef void (*hostptr)(void *);

// Calls fn(sp) with sentinel values in the callee-saved registers; returns a mask of those that changed.
static unsigned checked_call(void *fn, void *sp) {
#if defined(__x86_64__)
  uint64_t bad;
  register void *f asm("rax") = fn; register void *s asm("rdi") = sp;
  asm volatile(
    "push %%rbx\n push %%rbp\n push %%r12\n push %%r13\n push %%r14\n push %%r15\n sub $136, %%rsp\n"
    "movabs $0x1111222233334441, %%rbx\n movabs $0x1111222233334442, %%rbp\n movabs $0x1111222233334443, %%r12\n"
    "movabs $0x1111222233334444, %%r13\n movabs $0x1111222233334445, %%r14\n movabs $0x1111222233334446, %%r15\n"
    "mov %%rsp, %%rcx\n and $-16, %%rsp\n sub $16, %%rsp\n mov %%rcx, (%%rsp)\n"
    "call *%%rax\n"
    "mov (%%rsp), %%rcx\n mov %%rcx, %%rsp\n xor %%eax, %%eax\n"
    "movabs $0x1111222233334441, %%rdx\n cmp %%rdx, %%rbx\n je 1f\n or $1, %%eax\n1:\n"
    "movabs $0x1111222233334442, %%rdx\n cmp %%rdx, %%rbp\n je 1f\n or $2, %%eax\n1:\n"
    "movabs $0x1111222233334443, %%rdx\n cmp %%rdx, %%r12\n je 1f\n or $4, %%eax\n1:\n"
    "movabs $0x1111222233334444, %%rdx\n cmp %%rdx, %%r13\n je 1f\n or $8, %%eax\n1:\n"
    "movabs $0x1111222233334445, %%rdx\n cmp %%rdx, %%r14\n je 1f\n or $16, %%eax\n1:\n"
    "movabs $0x1111222233334446, %%rdx\n cmp %%rdx, %%r15\n je 1f\n or $32, %%eax\n1:\n"
    "add $136, %%rsp\n pop %%r15\n pop %%r14\n pop %%r13\n pop %%r12\n pop %%rbp\n pop %%rbx\n"
    : "+r"(f), "+r"(s) : : "rcx", "rdx", "rsi", "r8", "r9", "r10", "r11", "memory", "cc",
      "xmm0", "xmm1", "xmm2", "xmm3", "xmm4", "xmm5", "xmm6", "xmm7", "xmm8", "xmm9", "xmm10", "xmm11", "xmm12", "xmm13", "xmm14", "xmm15");
  bad = (uint64_t)f & 0x3f;
  return (unsigned)bad;
#else
  pwart_call_wasm_function(fn, sp); return 0;
#endif
}

struct Exec {
  Program &P; Ctx &x; Interp I; Trace mt, pt;
  std::vector<FuncInst *> hostf; std::vector<GlobalInst *> hg; std::vector<MemInst *> hm; std::vector<TableInst *> ht;
  std::vector<ModInst *> mi;
  // pwart side
  pwart_namespace ns = nullptr; std::vector<pwart_module_state> st;
  struct HM { struct pwart_host_module base; Exec *e; } hmod;
  std::vector<void *> wrapped; std::vector<uint64_t *> pg; std::vector<struct pwart_wasm_memory *> pm; std::vector<struct pwart_wasm_table *> pt_;
  std::map<uint64_t, FuncInst *> code2f; std::map<FuncInst *, uint64_t> f2code;
  int reent = 0; uint64_t hostcalls_p = 0, hostcalls_m = 0;
  bool loaded = false; void *stack = nullptr; size_t stack_size = 1 << 20;
  bool model_running = false;
  bool check_regs = true;
  std::string pending;                       // failure seen inside a host function (cannot be thrown through compiled code)
  std::vector<uint8_t> scribbled;

  Exec(Program &p, Ctx &x) : P(p), x(x) { g_exec = this; }
  ~Exec() { close(); g_exec = nullptr; }
  void close() {
    if (ns) { InPw in; pwart_namespace_delete(ns); ns = nullptr; }
    for (auto w : wrapped) pwart_free_wrapped_function(w);
    wrapped.clear();
    for (auto p : pg) free(p);
    pg.clear();
    for (auto m : pm) { free(m->bytes); free(m); }
    pm.clear();
    for (auto t : pt_) { free(t->entries); free(t); }
    pt_.clear();
    if (stack) pwart_free_stack(stack);
    stack = nullptr;
  }
  bool align() const { return P.cfg_stack & 1; }

  // ---- model of the host, shared by both sides ----
  void host_results(int h, uint64_t callno, const std::vector<Val> &a, std::vector<Val> &r) {
    HostFn &f = P.host[h]; uint64_t s = hv(f.salt, h * 1000 + callno);
    for (auto &v : a) s = hv(s, isref(v.t) ? v.b != 0 : v.b);
    for (size_t k = 0; k < f.t.r.size(); k++) {
      VT t = f.t.r[k]; Val v{t, shape(t, hv(s, k))};
      if (isref(t)) { std::vector<uint64_t> c; for (auto &q : a) if (q.t == t) c.push_back(q.b); uint64_t z = hv(s, k);
        if (!c.empty() && z % 3) v.b = c[(z >> 8) % c.size()]; else if (t == EXTERNREF && z % 2) v.b = 0x10000 + (z >> 40 & 0xfff0); else v.b = 0; }
      else if (f.flags & 4) for (auto &q : a) if (q.t == t) { v.b = q.b; break; }
      r.push_back(v);
    }
  }
  // ---- model side ----
  void model_setup() {
    I.host = [this](Interp &in, FuncInst *f, const std::vector<Val> &a, std::vector<Val> &r) {
      int h = f->host; uint64_t no = hostcalls_m++;
      mt.v.push_back({h, a, {}, 0});
      size_t at = mt.v.size() - 1;
      host_results(h, no, a, r);
      if ((P.host[h].flags & 2) && !hm.empty() && hm[0]->bytes.size()) hm[0]->bytes[hv(no, 5) % hm[0]->bytes.size()] = (uint8_t)no;
      if ((P.host[h].flags & 1) && reent < 2 && !mi.empty()) { reent++; reenter_model(no); reent--; }
      mt.v[at].res = r;
    };
    for (size_t h = 0; h < P.host.size(); h++) { auto *f = I.newfunc(); f->host = (int)h; f->type = P.host[h].t; hostf.push_back(f); }
    for (auto &g : P.hglobals) { auto *q = I.newglobal(g.first.t); q->b = g.second; hg.push_back(q); }
    for (auto &t : P.hmems) hm.push_back(I.newmem(t));
    for (auto &t : P.htables) ht.push_back(I.newtable(t));
    for (auto &d : P.mods) {
      std::vector<Interp::Ext> ext;
      for (auto &i : d.m->imports) {
        Interp::Ext q;
        if (i.mod == "env") { int k = atoi(i.name.c_str() + 1); switch (i.kind) { case K_FUNC: q.f = hostf.at(k); break; case K_GLOBAL: q.g = hg.at(k); break; case K_MEM: q.m = hm.at(k); break; case K_TABLE: q.t = ht.at(k); break; } }
        else for (size_t j = 0; j < mi.size(); j++) if (P.mods[j].name == i.mod)
          for (auto &ex : P.mods[j].m->exports) if (ex.kind == i.kind && ex.name == i.name) switch (i.kind) { case K_FUNC: q.f = mi[j]->funcs[ex.idx]; break; case K_GLOBAL: q.g = mi[j]->globals[ex.idx]; break; case K_MEM: q.m = mi[j]->mems[ex.idx]; break; case K_TABLE: q.t = mi[j]->tables[ex.idx]; break; }
        if (!q.f && !q.g && !q.m && !q.t) throw std::runtime_error("unresolved import in the model: " + i.mod + "." + i.name);
        ext.push_back(q);
      }
      mi.push_back(I.instantiate(d.m, ext));
    }
  }
  // which exported function a re-entrant host function calls: the first function of module 0 without reference parameters
  int reent_target() {
    auto &m = *P.mods[0].m;
    for (uint32_t i = m.nif; i < m.ftype.size(); i++) { bool ok = true; for (auto t : m.types[m.ftype[i]].p) if (isref(t)) ok = false; if (ok && exported(0, i)) return (int)i; }
    return -1;
  }
  bool exported(int mod, uint32_t f) { for (auto &e : P.mods[mod].m->exports) if (e.kind == K_FUNC && e.idx == f) return true; return false; }
  void reenter_model(uint64_t no) {
    int f = reent_target(); if (f < 0) return;
    FuncInst *fi = mi[0]->funcs[f]; std::vector<Val> a, r; for (size_t k = 0; k < fi->type.p.size(); k++) a.push_back({fi->type.p[k], shape(fi->type.p[k], hv(no, k))});
    I.call(fi, a, r);
    mt.v.push_back({-1, {}, r, 0});
  }
  // ---- pwart side ----
  void put(void **sp, const Val &v) {
    switch (v.t) { case I32: pwart_rstack_put_i32(sp, (int)(uint32_t)v.b); break; case I64: pwart_rstack_put_i64(sp, (long long)v.b); break;
      case F32: pwart_rstack_put_f32(sp, 0); memcpy((char *)*sp - 4, &v.b, 4); break; case F64: pwart_rstack_put_f64(sp, 0); memcpy((char *)*sp - 8, &v.b, 8); break;
      default: pwart_rstack_put_ref(sp, (void *)v.b); }
  }
  Val get(void **sp, VT t) {
    Val v{t, 0};
    switch (t) { case I32: v.b = (uint32_t)pwart_rstack_get_i32(sp); break; case I64: v.b = (uint64_t)pwart_rstack_get_i64(sp); break;
      case F32: { pwart_rstack_get_f32(sp); uint32_t w; memcpy(&w, (char *)*sp - 4, 4); v.b = w; break; }
      case F64: { pwart_rstack_get_f64(sp); memcpy(&v.b, (char *)*sp - 8, 8); break; }
      default: v.b = (uint64_t)pwart_rstack_get_ref(sp); }
    return v;
  }
  size_t frame_size(const std::vector<VT> &ts) { size_t o = 0; for (auto t : ts) { int s = vtsize(t); if (align()) o = (o + s - 1) / s * s; o += s; } return o; }
  void on_host(int h, void *fp) {
    HostFn &f = P.host[h]; uint64_t no = hostcalls_p++;
    if (align() && ((uintptr_t)fp & 7) && pending.empty()) pending = strf("host function h%d entered with frame pointer %p, not aligned to 8", h, fp);
    void *sp = fp; std::vector<Val> a, r; for (auto t : f.t.p) a.push_back(get(&sp, t));
    pt.v.push_back({h, a, {}, 0});
    size_t at = pt.v.size() - 1;
    // results depend on arguments by value; references are opaque
    host_results(h, no, a, r);
    if ((f.flags & 2) && !pm.empty() && pm[0]->pages) pm[0]->bytes[hv(no, 5) % ((uint64_t)pm[0]->pages << 16)] = (uint8_t)no;
    if ((f.flags & 1) && reent < 2 && st.size() && loaded) {
      reent++;
      int t = reent_target();
      if (t >= 0) {
        auto *fi = mi[0]->funcs[t]; size_t n = std::max(frame_size(f.t.p), std::max(frame_size(f.t.r), (size_t)8)); n = (n + 15) / 16 * 16;
        char *base = (char *)fp + n; void *own = nullptr;
        if (no % 2) { own = pwart_allocate_stack(1 << 16); base = (char *)own; }
        void *p = base; for (size_t k = 0; k < fi->type.p.size(); k++) put(&p, {fi->type.p[k], shape(fi->type.p[k], hv(no, k))});
        pwart_call_wasm_function((void *)f2code.at(fi), base);
        p = base; std::vector<Val> rr; for (auto q : fi->type.r) rr.push_back(get(&p, q));
        pt.v.push_back({-1, {}, rr, 0});
        if (own) pwart_free_stack(own);
      }
      reent--;
    }
    pt.v[at].res = r;
    // the frame belongs to the callee: scribble over it, then write the results
    size_t n = std::max(frame_size(f.t.p), frame_size(f.t.r)); memset(fp, 0xa5, n);
    sp = fp; for (auto &v : r) put(&sp, v);
  }
  static void resolve(struct pwart_host_module *hm_, struct pwart_symbol_resolve_request *req);
  std::string load() {
    struct pwart_global_compile_config gc; gc.stack_flags = P.cfg_stack; gc.misc_flags = P.cfg_misc; pwart_set_global_compile_config(&gc);
    ns = pwart_namespace_new();
    memset(&hmod, 0, sizeof hmod); hmod.base.resolve = &Exec::resolve; hmod.e = this;
    for (auto &g : P.hglobals) { uint64_t *q = (uint64_t *)malloc(vtsize(g.first.t)); memcpy(q, &g.second, vtsize(g.first.t)); pg.push_back(q); }
    for (auto &t : P.hmems) { auto *q = (struct pwart_wasm_memory *)calloc(1, sizeof *pm[0]); q->initial = q->pages = t.min; q->maximum = t.has_max ? t.max : 32768; q->fixed = t.has_max;
      q->bytes = (uint8_t *)calloc(1, ((size_t)(t.has_max ? t.max : t.min) << 16) + 1); pm.push_back(q); }
    for (auto &t : P.htables) { auto *q = (struct pwart_wasm_table *)calloc(1, sizeof *pt_[0]); q->elem_type = t.t; q->initial = q->size = t.min; q->maximum = t.has_max ? t.max : t.min; q->entries = (void **)calloc(t.min + 1, sizeof(void *)); pt_.push_back(q); }
    pwart_namespace_define_host_module(ns, "env", &hmod.base);
    for (size_t h = 0; h < P.host.size(); h++) { void *w = pwart_wrap_host_function_c((pwart_host_function_c)tramp((int)h)); REQUIRE(w, "pwart_wrap_host_function_c returned null"); wrapped.push_back(w); uint64_t p = (uint64_t)(uintptr_t)w; code2f[p] = hostf[h]; f2code[hostf[h]] = p; }
    stack = pwart_allocate_stack((int)stack_size); memset(stack, 0xc3, stack_size);
    REQUIRE(((uintptr_t)stack & 15) == 0, "pwart_allocate_stack returned %p, not aligned to 16", stack);
    for (size_t k = 0; k < P.mods.size(); k++) { std::string e = load_one(k); if (!e.empty()) return e; }
    loaded = true;
    return "";
  }
  std::string load_one(size_t k) {
    auto &d = P.mods[k]; char *err = nullptr; if (d.bytes.empty()) d.bytes = encode(*d.m);
    size_t n = d.bytes.size(); char *buf = (char *)malloc(n); memcpy(buf, d.bytes.data(), n);
    pwart_module_state s = pwart_namespace_define_wasm_module(ns, d.name.c_str(), buf, (int)n, &err);
    if (!s) { std::string e = strf("module %zu (%s) refused: %s", k, d.name.c_str(), err ? err : "(no message)"); free(buf); return e; }
    if (memcmp(buf, d.bytes.data(), n)) { free(buf); FAIL("loading changed the caller's bytes"); }
    memset(buf, 0xee, n); free(buf);           // not needed afterwards
    attach_state(k, s);
    return "";
  }
  void attach_state(size_t k, pwart_module_state s) {
    auto &d = P.mods[k]; st.push_back(s);
    for (auto &e : d.m->exports) if (e.kind == K_FUNC) {
      void *f = pwart_get_export_function(s, e.name.c_str()); FuncInst *fi = mi[k]->funcs[e.idx];
      REQUIRE(f, "exported function %s not found", e.name.c_str());
      auto it = f2code.find(fi);
      if (it != f2code.end()) REQUIRE(it->second == (uint64_t)(uintptr_t)f, "function %s has two addresses", e.name.c_str());
      f2code[fi] = (uint64_t)(uintptr_t)f;
      auto c2 = code2f.find((uint64_t)(uintptr_t)f); if (c2 != code2f.end()) REQUIRE(c2->second == fi, "two functions have the address of %s", e.name.c_str());
      code2f[(uint64_t)(uintptr_t)f] = fi;
    }
    if (d.m->start >= 0) {
      void *f = pwart_get_start_function(s); REQUIRE(f, "no start function reported");
      auto it = f2code.find(mi[k]->funcs[d.m->start]); if (it != f2code.end()) REQUIRE(it->second == (uint64_t)(uintptr_t)f, "wrong start function");
    } else REQUIRE(!pwart_get_start_function(s), "a start function is reported for a module without one");
  }
  static hostptr tramp(int h);

  // ---- comparison ----
  bool same(const Val &m, const Val &p, std::string &why) {
    uint64_t a = m.b, b = p.b;
    if (m.t == F32) { a = (uint32_t)a; b = (uint32_t)b; if (m.taint) { if ((b & 0x7fffffff) > 0x7f800000) return true; why = strf("a NaN expected, got f32 bits %08llx", (unsigned long long)b); return false; } }
    if (m.t == F64 && m.taint) { if ((b & 0x7fffffffffffffffull) > 0x7ff0000000000000ull) return true; why = strf("a NaN expected, got f64 bits %016llx", (unsigned long long)b); return false; }
    if (m.t == I32) { a = (uint32_t)a; b = (uint32_t)b; }
    if (m.t == FUNCREF) {
      if (!a || !b) { if (a == b) return true; why = strf("reference: model %s, pwart %s", a ? "non-null" : "null", b ? "non-null" : "null"); return false; }
      auto *fi = (FuncInst *)(uintptr_t)a; auto it = f2code.find(fi); if (it == f2code.end()) { auto c = code2f.find(b); if (c != code2f.end()) { why = "reference to another function"; return false; } return true; }
      if (it->second == b) return true; why = strf("reference: %s expected, got %#llx (%s)", fname(fi).c_str(), (unsigned long long)b, code2f.count(b) ? fname(code2f[b]).c_str() : "not a function"); return false;
    }
    if (a == b) return true;
    why = strf("%s: %#llx expected, got %#llx", vtname(m.t), (unsigned long long)a, (unsigned long long)b); return false;
  }
  std::string fname(FuncInst *f) { if (f->host >= 0) return strf("h%d", f->host); for (size_t k = 0; k < mi.size(); k++) if (mi[k] == f->mod) return strf("%s.f%u", P.mods[k].name.c_str(), f->idx + f->mod->m->nif); return "?"; }
  void compare_traces(const std::string &where) {
    for (size_t k = 0; k < std::min(mt.v.size(), pt.v.size()); k++) {
      auto &a = mt.v[k], &b = pt.v[k]; std::string why;
      REQUIRE(a.host == b.host, "%s: host call %zu goes to h%d, h%d expected", where.c_str(), k, b.host, a.host);
      REQUIRE(a.args.size() == b.args.size() && a.res.size() == b.res.size(), "%s: host call %zu shape", where.c_str(), k);
      for (size_t j = 0; j < a.args.size(); j++) if (!same(a.args[j], b.args[j], why)) FAIL("%s: argument %zu of host call %zu (h%d): %s", where.c_str(), j, k, a.host, why.c_str());
      if (a.host < 0) for (size_t j = 0; j < a.res.size(); j++) if (!same(a.res[j], b.res[j], why)) FAIL("%s: result %zu of the nested call %zu: %s", where.c_str(), j, k, why.c_str());
    }
    REQUIRE(mt.v.size() == pt.v.size(), "%s: %zu host calls, %zu expected", where.c_str(), pt.v.size(), mt.v.size());
    mt.v.clear(); pt.v.clear();
  }
  void cmp_mem(const std::string &nm, MemInst *m, struct pwart_wasm_memory *p) {
    REQUIRE(p->pages == m->pages(), "%s: %u pages, %u expected", nm.c_str(), p->pages, m->pages());
    if (m->bytes.size() && memcmp(p->bytes, m->bytes.data(), m->bytes.size())) for (size_t k = 0; k < m->bytes.size(); k++) if (p->bytes[k] != m->bytes[k]) FAIL("%s: byte %#zx is %02x, %02x expected", nm.c_str(), k, p->bytes[k], m->bytes[k]);
  }
  void cmp_table(const std::string &nm, TableInst *t, struct pwart_wasm_table *p) {
    REQUIRE(p->size == t->e.size(), "%s: size %u, %zu expected", nm.c_str(), p->size, t->e.size());
    std::string why; for (size_t k = 0; k < t->e.size(); k++) if (!same({t->t, t->e[k]}, {t->t, (uint64_t)(uintptr_t)p->entries[k]}, why)) FAIL("%s[%zu]: %s", nm.c_str(), k, why.c_str());
  }
  void cmp_global(const std::string &nm, GlobalInst *g, void *p) {
    uint64_t b = 0; memcpy(&b, p, vtsize(g->t)); std::string why; if (!same({g->t, g->b, g->taint}, {g->t, b}, why)) FAIL("%s: %s", nm.c_str(), why.c_str());
  }
  void compare_state(const std::string &where) {
    for (size_t k = 0; k < st.size(); k++) for (auto &e : P.mods[k].m->exports) {
      std::string nm = where + ": " + P.mods[k].name + "." + e.name.substr(0, 40);
      switch (e.kind) {
        case K_MEM: { auto *p = pwart_get_export_memory(st[k], e.name.c_str()); REQUIRE(p, "%s not found", nm.c_str()); cmp_mem(nm, mi[k]->mems[e.idx], p); break; }
        case K_TABLE: { auto *p = pwart_get_export_table(st[k], e.name.c_str()); REQUIRE(p, "%s not found", nm.c_str()); cmp_table(nm, mi[k]->tables[e.idx], p); break; }
        case K_GLOBAL: { void *p = pwart_get_export_global(st[k], e.name.c_str()); REQUIRE(p, "%s not found", nm.c_str()); cmp_global(nm, mi[k]->globals[e.idx], p); break; }
      }
    }
    for (size_t k = 0; k < hg.size(); k++) cmp_global(where + ": host global " + std::to_string(k), hg[k], pg[k]);
    for (size_t k = 0; k < hm.size(); k++) cmp_mem(where + ": host memory " + std::to_string(k), hm[k], pm[k]);
    for (size_t k = 0; k < ht.size(); k++) cmp_table(where + ": host table " + std::to_string(k), ht[k], pt_[k]);
  }
  uint64_t code_of(const Val &v) { if (v.t != FUNCREF || !v.b) return v.b; auto it = f2code.find((FuncInst *)(uintptr_t)v.b); return it == f2code.end() ? 0 : it->second; }
  void set_fuel(int mod, bool model) {       // the recursion budget: the first own mutable i32 global, if the generator made one
    auto &m = *P.mods[mod].m; int g = fuel_global.size() > (size_t)mod ? fuel_global[mod] : -1; if (g < 0) return;
    if (model) { mi[mod]->globals[g]->b = P.fuelv; return; }
    for (auto &e : m.exports) if (e.kind == K_GLOBAL && (int)e.idx == g) { void *p = pwart_get_export_global(st[mod], e.name.c_str()); REQUIRE(p, "global not found"); uint32_t w = P.fuelv; memcpy(p, &w, 4); return; }
  }
  std::vector<int> fuel_global;
  std::vector<std::vector<Val>> model_results;
  void model_call(const CallPlan &cp, std::vector<Val> &r) {
    for (size_t k = 0; k < P.mods.size(); k++) set_fuel((int)k, true);
    std::vector<Val> a = cp.args; I.fuel = 100000; I.depth = 0; I.call(mi[cp.mod]->funcs[cp.func], a, r);
  }
  std::vector<Val> pwart_call(void *fn, const FuncType &t, const std::vector<Val> &args, int sp_off, const std::string &where) {
    char *base = (char *)stack + 64 + (align() ? sp_off & ~7 : sp_off & ~3); size_t guard = base - (char *)stack;
    memset(stack, 0xc3, guard);
    void *sp = base; for (auto v : args) { v.b = code_of(v); put(&sp, v); }
    REQUIRE((size_t)((char *)sp - base) == frame_size(t.p), "%s: the stack helpers moved sp by %zd for the parameters, %zu expected", where.c_str(), (char *)sp - base, frame_size(t.p));
    if (check_regs) { unsigned bad; { InPw in; bad = checked_call(fn, base); } REQUIRE(!bad, "%s: callee-saved registers changed (mask %#x of rbx rbp r12 r13 r14 r15)", where.c_str(), bad); }
    else { InPw in; pwart_call_wasm_function(fn, base); }
    if (!pending.empty()) FAIL("%s: %s", where.c_str(), pending.c_str());
    for (size_t k = 0; k < guard; k++) if (((uint8_t *)stack)[k] != 0xc3) FAIL("%s: stack byte %zd below the stack pointer was written", where.c_str(), (ssize_t)(guard - k));
    sp = base; std::vector<Val> r; for (auto q : t.r) r.push_back(get(&sp, q));
    return r;
  }

  // Runs everything. Each step runs in the model first; a step the model discards ends the history.
  int steps_done = 0; const char *stopped = nullptr;
  void compare_results(const std::string &w, const std::vector<Val> &m, const std::vector<Val> &p) {
    std::string why; for (size_t j = 0; j < m.size(); j++) if (!same(m[j], p[j], why)) FAIL("%s: result %zu: %s", w.c_str(), j, why.c_str());
  }
  void run() {
    model_setup();
    std::string err = load(); if (!err.empty()) FAIL("%s", err.c_str());
    run_loaded();
  }
  void run_loaded() {
    compare_state("after loading");
    for (size_t k = 0; k < P.mods.size(); k++) if (P.mods[k].m->start >= 0) {
      std::vector<Val> a, r; std::string w = "start function of " + P.mods[k].name;
      try { for (size_t j = 0; j < P.mods.size(); j++) set_fuel((int)j, true); I.fuel = 100000; I.depth = 0; FuncInst *f = mi[k]->funcs[P.mods[k].m->start]; I.call(f, a, r); } catch (Discard &d) { stopped = d.why; return; }
      for (size_t j = 0; j < P.mods.size(); j++) set_fuel((int)j, false);
      pwart_call(pwart_get_start_function(st[k]), FuncType(), {}, 0, w); compare_traces(w); compare_state(w);
    }
    for (size_t n = 0; n < P.calls.size(); n++) if (!step(n)) return;
  }
  bool step(size_t n) {
    auto &cp = P.calls[n]; std::vector<Val> r; std::string w = strf("call %zu (%s.f%u)", n, P.mods[cp.mod].name.c_str(), cp.func);
    try { model_call(cp, r); } catch (Discard &d) { stopped = d.why; return false; }
    for (size_t j = 0; j < P.mods.size(); j++) set_fuel((int)j, false);
    FuncInst *f = mi[cp.mod]->funcs[cp.func];
    auto it = f2code.find(f); if (it == f2code.end()) { stopped = "not exported"; return false; }
    std::vector<Val> pr = pwart_call((void *)(uintptr_t)it->second, f->type, cp.args, cp.sp_off, w);
    compare_results(w, r, pr); compare_traces(w); compare_state(w); steps_done++;
    return true;
  }
};
inline void Exec::resolve(struct pwart_host_module *h, struct pwart_symbol_resolve_request *req) {
  Exec *e = ((HM *)h)->e; req->result = nullptr; const char *n = req->import_field; if (!n[0]) return; size_t k = atoi(n + 1);
  switch (n[0]) {
    case 'h': if (req->kind == PWART_KIND_FUNCTION && k < e->P.host.size()) req->result = e->wrapped[k]; break;
    case 'g': if (req->kind == PWART_KIND_GLOBAL && k < e->pg.size()) req->result = e->pg[k]; break;
    case 'm': if (req->kind == PWART_KIND_MEMORY && k < e->pm.size()) req->result = e->pm[k]; break;
    case 't': if (req->kind == PWART_KIND_TABLE && k < e->pt_.size()) req->result = e->pt_[k]; break;
  }
}
template <int N> static void host_tramp(void *fp) { InPw out(0); g_exec->on_host(N, fp); }
inline hostptr Exec::tramp(int h) {
  static hostptr t[NHOST] = {host_tramp<0>, host_tramp<1>, host_tramp<2>, host_tramp<3>, host_tramp<4>, host_tramp<5>, host_tramp<6>, host_tramp<7>, host_tramp<8>, host_tramp<9>, host_tramp<10>, host_tramp<11>, host_tramp<12>, host_tramp<13>, host_tramp<14>, host_tramp<15>};
  return t[h];
}

// ---- textual dump ----
static inline std::string opname(int op);
static inline std::string show(const Module &m) {
  std::string s;
  auto ty = [&](const FuncType &t) { std::string r = "("; for (auto x : t.p) r += std::string(vtname(x)) + " "; r += "->"; for (auto x : t.r) r += std::string(" ") + vtname(x); return r + ")"; };
  for (auto &i : m.imports) s += strf("  import %s.%s kind %d %s\n", i.mod.c_str(), i.name.c_str(), i.kind, i.kind == K_FUNC ? ty(m.types[i.type]).c_str() : "");
  for (auto &t : m.tables) s += strf("  table %s %u\n", vtname(t.t), t.min);
  for (auto &t : m.mems) s += strf("  memory %u %s%u%s\n", t.min, t.has_max ? "max " : "", t.max, t.is64 ? " i64" : "");
  for (auto &g : m.globals) s += strf("  global %s %s init op %x %llx\n", vtname(g.t.t), g.t.mut ? "mut" : "", g.init[0].op, (unsigned long long)g.init[0].imm);
  for (auto &d : m.datas) s += strf("  data mem %u offset %llu len %zu\n", d.mem, d.off.empty() ? 0ull : (unsigned long long)d.off[0].imm, d.bytes.size());
  for (auto &d : m.elems) s += strf("  elem mode %d table %u offset %llu len %zu\n", d.mode, d.table, d.off.empty() ? 0ull : (unsigned long long)d.off[0].imm, d.f.size());
  for (size_t k = 0; k < m.funcs.size(); k++) {
    s += strf("  func f%zu %s locals", k + m.nif, ty(m.types[m.funcs[k].type]).c_str()); for (auto x : m.funcs[k].locals) s += std::string(" ") + vtname(x); s += ":";
    int ind = 1;
    for (auto &i : m.funcs[k].code) {
      if (i.op == 0x0b || i.op == 5) ind--;
      s += "\n   " + std::string(ind * 2 > 0 ? ind * 2 : 0, ' ') + opname(i.op);
      if (i.op >= 2 && i.op <= 4) s += strf(" %s", vtname((int)i.imm));
      else if ((i.op >= 0x20 && i.op <= 0x26) || i.op == 0x0c || i.op == 0x0d || i.op == 0x10 || i.op == 0x12 || i.op == 0xd2 || i.op == 0x3f || i.op == 0x40) s += strf(" %u", i.a);
      else if (i.op == 0x11 || i.op == 0x13) s += strf(" type %s table %u", ty(m.types[i.a]).c_str(), i.b);
      else if (i.op == 0x41) s += strf(" %#x", (uint32_t)i.imm); else if (i.op == 0x42 || i.op == 0x43 || i.op == 0x44) s += strf(" %#llx", (unsigned long long)i.imm);
      else if (i.op >= 0x28 && i.op <= 0x3e) s += strf(" mem %u offset %llu", i.a, (unsigned long long)i.imm);
      else if (i.op == 0x0e) for (auto t : i.tbl) s += strf(" %u", t);
      else if ((i.op >> 8) == 0xfc && (i.op & 0xff) > 7) s += strf(" %u %u", i.a, i.b);
      if ((i.op >= 2 && i.op <= 5)) ind++;
    }
    s += "\n";
  }
  if (m.start >= 0) s += strf("  start f%lld\n", (long long)m.start);
  return s;
}
static inline std::string opname(int op) {
  static const char *n[] = {"unreachable", "nop", "block", "loop", "if", "else", 0, 0, 0, 0, 0, "end", "br", "br_if", "br_table", "return", "call", "call_indirect", "return_call", "return_call_indirect"};
  static const char *v[] = {"drop", "select", "select_t", 0, 0, 0, "local.get", "local.set", "local.tee", "global.get", "global.set", "table.get", "table.set"};
  static const char *ld[] = {"i32.load", "i64.load", "f32.load", "f64.load", "i32.load8_s", "i32.load8_u", "i32.load16_s", "i32.load16_u", "i64.load8_s", "i64.load8_u", "i64.load16_s", "i64.load16_u", "i64.load32_s", "i64.load32_u", "i32.store", "i64.store", "f32.store", "f64.store", "i32.store8", "i32.store16", "i64.store8", "i64.store16", "i64.store32", "memory.size", "memory.grow", "i32.const", "i64.const", "f32.const", "f64.const",
    "i32.eqz", "i32.eq", "i32.ne", "i32.lt_s", "i32.lt_u", "i32.gt_s", "i32.gt_u", "i32.le_s", "i32.le_u", "i32.ge_s", "i32.ge_u", "i64.eqz", "i64.eq", "i64.ne", "i64.lt_s", "i64.lt_u", "i64.gt_s", "i64.gt_u", "i64.le_s", "i64.le_u", "i64.ge_s", "i64.ge_u",
    "f32.eq", "f32.ne", "f32.lt", "f32.gt", "f32.le", "f32.ge", "f64.eq", "f64.ne", "f64.lt", "f64.gt", "f64.le", "f64.ge", "i32.clz", "i32.ctz", "i32.popcnt", "i32.add", "i32.sub", "i32.mul", "i32.div_s", "i32.div_u", "i32.rem_s", "i32.rem_u", "i32.and", "i32.or", "i32.xor", "i32.shl", "i32.shr_s", "i32.shr_u", "i32.rotl", "i32.rotr",
    "i64.clz", "i64.ctz", "i64.popcnt", "i64.add", "i64.sub", "i64.mul", "i64.div_s", "i64.div_u", "i64.rem_s", "i64.rem_u", "i64.and", "i64.or", "i64.xor", "i64.shl", "i64.shr_s", "i64.shr_u", "i64.rotl", "i64.rotr",
    "f32.abs", "f32.neg", "f32.ceil", "f32.floor", "f32.trunc", "f32.nearest", "f32.sqrt", "f32.add", "f32.sub", "f32.mul", "f32.div", "f32.min", "f32.max", "f32.copysign", "f64.abs", "f64.neg", "f64.ceil", "f64.floor", "f64.trunc", "f64.nearest", "f64.sqrt", "f64.add", "f64.sub", "f64.mul", "f64.div", "f64.min", "f64.max", "f64.copysign",
    "i32.wrap_i64", "i32.trunc_f32_s", "i32.trunc_f32_u", "i32.trunc_f64_s", "i32.trunc_f64_u", "i64.extend_i32_s", "i64.extend_i32_u", "i64.trunc_f32_s", "i64.trunc_f32_u", "i64.trunc_f64_s", "i64.trunc_f64_u", "f32.convert_i32_s", "f32.convert_i32_u", "f32.convert_i64_s", "f32.convert_i64_u", "f32.demote_f64", "f64.convert_i32_s", "f64.convert_i32_u", "f64.convert_i64_s", "f64.convert_i64_u", "f64.promote_f32",
    "i32.reinterpret_f32", "i64.reinterpret_f64", "f32.reinterpret_i32", "f64.reinterpret_i64", "i32.extend8_s", "i32.extend16_s", "i64.extend8_s", "i64.extend16_s", "i64.extend32_s"};
  static const char *fc[] = {"i32.trunc_sat_f32_s", "i32.trunc_sat_f32_u", "i32.trunc_sat_f64_s", "i32.trunc_sat_f64_u", "i64.trunc_sat_f32_s", "i64.trunc_sat_f32_u", "i64.trunc_sat_f64_s", "i64.trunc_sat_f64_u", "memory.init", "data.drop", "memory.copy", "memory.fill", "table.init", "elem.drop", "table.copy", "table.grow", "table.size", "table.fill"};
  if (op < 0x14 && n[op]) return n[op];
  if (op >= 0x1a && op <= 0x26 && v[op - 0x1a]) return v[op - 0x1a];
  if (op >= 0x28 && op <= 0xc4) return ld[op - 0x28];
  if ((op >> 8) == 0xfc && (op & 0xff) < 18) return fc[op & 0xff];
  if (op == 0xd0) return "ref.null";
  if (op == 0xd1) return "ref.is_null";
  if (op == 0xd2) return "ref.func";
  return strf("op%x", op);
}

// ---- program generation ----
struct ProgOpt { int nmods = 1; int ncalls = 4; int nhost = 4; bool cfg_random = true; bool reenter = true; };
static inline Val argval(Choices &c, VT t) {
  Val v{t, 0}; if (t == EXTERNREF) v.b = c.coin() ? 0 : 0x20000 + c.below(64) * 16; else if (t == FUNCREF) v.b = 0; else v.b = interesting(c, t); return v;
}
static inline void gen_program(Ctx &x, Program &P, GenCfg cfg, const ProgOpt &o, std::vector<int> &fuelg, std::map<std::string, int> &feat) {
  Choices &c = x.c;
  if (o.cfg_random) { P.cfg_stack = c.pct(75) ? 1 : 0; P.cfg_misc = (c.pct(75) ? 2 : 0) | (c.pct(30) ? 1 : 0); if (!(P.cfg_misc & 2)) cfg.init_locals = true; }
  P.fuelv = c.below(7);
  Avail av;
  { Gen tmp(c, cfg);
    int nh = (int)c.below(o.nhost + 1);
    for (int i = 0; i < nh; i++) { HostFn h; h.t = tmp.functype(); h.flags = (o.reenter && c.pct(15) ? 1 : 0) | (c.pct(20) ? 2 : 0) | (c.pct(40) ? 4 : 0); h.salt = c.bits(16); P.host.push_back(h); av.funcs.push_back({"env", "h" + std::to_string(i), h.t, 0}); }
    int ng = (int)c.below(3);
    for (int i = 0; i < ng; i++) { GlobalType g; g.t = tmp.numtype(); g.mut = c.coin(); P.hglobals.push_back({g, interesting(c, g.t)}); av.globals.push_back({"env", "g" + std::to_string(i), g}); }
    if (cfg.nmems && c.pct(30)) { MemType t; t.min = 1; t.has_max = c.coin(); t.max = t.min + (uint32_t)c.below(2); P.hmems.push_back(t); av.mems.push_back({"env", "m0", t}); }
    if (cfg.ntables && c.pct(25)) { TableType t; t.t = cfg.refs && c.coin() ? EXTERNREF : FUNCREF; t.min = (uint32_t)c.range(1, 6); P.htables.push_back(t); av.tables.push_back({"env", "t0", t}); }
  }
  for (int k = 0; k < o.nmods; k++) {
    Gen g(c, cfg); g.module(av); ModDef d; d.name = "mod" + std::to_string(k); d.m = std::make_shared<Module>(g.m); P.mods.push_back(d); fuelg.push_back(g.gfuel);
    for (auto &f : g.feat) feat[f.first] += f.second;
    if (k + 1 < o.nmods) for (auto &e : g.m.exports) switch (e.kind) {
      case K_FUNC: av.funcs.push_back({d.name, e.name, g.m.types[g.m.ftype[e.idx]], g.flevel[e.idx]}); break;
      case K_MEM: av.mems.push_back({d.name, e.name, g.m.mtype[e.idx]}); break;
      case K_TABLE: { Avail::T t{d.name, e.name, g.m.ttype[e.idx]}; t.t.min = g.tabs[e.idx].size; if (g.tabs[e.idx].callable) { t.sig = 1; t.st = g.tabs[e.idx].sig; t.level = g.tabs[e.idx].level; } av.tables.push_back(t); break; }
      case K_GLOBAL: if ((int)e.idx != g.gfuel) av.globals.push_back({d.name, e.name, g.m.gtype[e.idx]}); break;
    }
  }
  int nc = (int)c.range(1, o.ncalls);
  for (int k = 0; k < nc; k++) {
    CallPlan cp; cp.mod = (int)c.below(o.nmods); auto &m = *P.mods[cp.mod].m; cp.func = (uint32_t)c.below(m.ftype.size());
    for (auto t : m.types[m.ftype[cp.func]].p) cp.args.push_back(argval(c, t));
    cp.sp_off = (int)c.below(4) * 4; P.calls.push_back(cp);
  }
}
static inline uint64_t hash_bytes(const std::vector<uint8_t> &v, uint64_t h = 1) { for (auto b : v) h = (h ^ b) * 0x100000001b3ull; return h; }
static inline void show_program(Ctx &x, Program &P) {
  if (!x.verbose) return;
  x.dump(strf("config stack_flags=%d misc_flags=%d fuel=%d\n", P.cfg_stack, P.cfg_misc, (int)P.fuelv));
  for (size_t h = 0; h < P.host.size(); h++) { x.dump(strf("host h%zu flags %d params", h, P.host[h].flags)); for (auto t : P.host[h].t.p) x.dump(std::string(" ") + vtname(t)); x.dump(" results"); for (auto t : P.host[h].t.r) x.dump(std::string(" ") + vtname(t)); x.dump("\n"); }
  for (auto &d : P.mods) { x.dump("module " + d.name + "\n" + show(*d.m)); auto b = d.bytes.empty() ? encode(*d.m) : d.bytes; x.dump(" bytes " + hexs(b, 20000) + "\n"); }
  for (auto &cp : P.calls) { x.dump(strf("call %s.f%u(", P.mods[cp.mod].name.c_str(), cp.func)); for (auto &v : cp.args) x.dump(strf("%s:%#llx ", vtname(v.t), (unsigned long long)v.b)); x.dump(")\n"); }
}
