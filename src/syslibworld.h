// A namespace with the system library loaded, and a builder of modules that call its functions.
#pragma once
#include "runner.h"
#include "wasm.h"
#include "track.h"
extern "C" {
#include <pwart.h>
#include <pwart_syslib.h>
}
#define REF EXTERNREF
struct Bind { const char *mod, *n; std::vector<VT> p, r; bool stub = false; };
static const std::vector<Bind> BUILTINS = {{"pwart_builtin", "ref_from_index", {I32, I32}, {REF}, true}, {"pwart_builtin", "ref_from_i64", {I64}, {REF}}, {"pwart_builtin", "i64_from_ref", {REF}, {I64}}};
struct Builder {
  Choices &c; Module m; VT ref = EXTERNREF; std::map<std::string, uint32_t> fi, slot; std::map<std::string, const Bind *> sig; uint32_t mNat = 0, mOwn = 0, gBad = 0; bool tablecalls = true;
  Code k; std::vector<VT> locals; FuncType ft; std::vector<std::pair<std::string, uint32_t>> fixups; uint32_t nslots = 0;
  Builder(Choices &c) : c(c) {}
  VT T(VT t) { return t == REF ? ref : t; }
  FuncType type(const std::vector<VT> &p, const std::vector<VT> &r) { FuncType t; for (auto v : p) t.p.push_back(T(v)); for (auto v : r) t.r.push_back(T(v)); return t; }
  void imports(std::vector<const Bind *> bs, bool native, uint32_t pages, bool reimport = true) {
    ref = c.coin() ? EXTERNREF : FUNCREF; tablecalls = c.pct(60);
    for (size_t i = bs.size(); i > 1; i--) std::swap(bs[i - 1], bs[c.below(i)]);
    uint32_t n = 0; for (auto b : bs) { Import i; i.mod = b->mod; i.name = b->n; i.kind = K_FUNC; i.type = m.addtype(type(b->p, b->r)); m.imports.push_back(i); fi[b->n] = n++; sig[b->n] = b; }
    uint32_t q = 0; if (native) { Import i; i.mod = "pwart_builtin"; i.name = "native_memory"; i.kind = K_MEM; i.m.min = 0; i.m.is64 = true; m.imports.push_back(i); mNat = q++; }
    MemType t; t.min = pages; t.max = pages + 2; t.has_max = true; m.mems.push_back(t); mOwn = q; m.exports.push_back({"mem", K_MEM, mOwn});
    TableType tt; tt.t = FUNCREF; Elem el; el.off = {Instr(0x41, 0, 0), Instr(0x0b)};
    for (auto b : bs) if (!b->stub) { slot[b->n] = nslots++; el.f.push_back(fi[b->n]); }
    tt.min = nslots + 1; m.tables.push_back(tt); if (nslots) m.elems.push_back(el);
    gBad = 0; global(I32, 0); m.exports.push_back({"bad", K_GLOBAL, gBad});
  }
  uint32_t global(VT t, uint64_t v) { Global g; g.t.t = t; g.t.mut = true; g.init = isref(t) ? Code{Instr(0xd0, 0, t), Instr(0x0b)} : Code{Instr(t == I32 ? 0x41 : 0x42, 0, v), Instr(0x0b)}; m.globals.push_back(g); return (uint32_t)m.globals.size() - 1; }
  void e(int op, uint32_t a = 0, uint64_t imm = 0, uint32_t b = 0) { k.push_back(Instr(op, a, imm, b)); }
  void begin(const std::vector<VT> &p, const std::vector<VT> &r) { k.clear(); locals.clear(); ft = type(p, r); }
  uint32_t loc(VT t) { locals.push_back(T(t)); return (uint32_t)(ft.p.size() + locals.size() - 1); }
  uint32_t end(const std::string &name) { e(0x0b); Func f; f.type = m.addtype(ft); f.locals = locals; f.code = k; m.funcs.push_back(f); uint32_t i = (uint32_t)(fi.size() + m.funcs.size() - 1); if (!name.empty()) m.exports.push_back({name, K_FUNC, i}); return i; }
  void call(const char *n) {
    const Bind *b = sig[n]; if (b->stub || !tablecalls || c.coin()) { e(0x10, fi[n]); return; }
    e(0x41, 0, slot[n]); e(0x11, m.addtype(type(b->p, b->r)), 0, 0);
  }
  void addr(uint32_t a) { e(0x41, 0, mOwn); e(0x41, 0, a); e(0x10, fi["ref_from_index"]); }     // reference to a place in the module's memory
  void addrv() { uint32_t l = loc(I32); e(0x21, l); e(0x41, 0, mOwn); e(0x20, l); e(0x10, fi["ref_from_index"]); }
  struct N { VT t; uint64_t v; };
  std::vector<N> noise() { std::vector<N> v; if (!c.pct(50)) return v; int n = (int)c.range(1, 5); for (int i = 0; i < n; i++) { N z; z.t = c.pick({I32, I64}); z.v = z.t == I32 ? c.bits(32) : c.bits(64); v.push_back(z); e(z.t == I32 ? 0x41 : 0x42, 0, z.v); if (c.coin()) { uint32_t l = loc(z.t); e(0x21, l); e(0x20, l); } } return v; }
  void unnoise(const std::vector<N> &v) { for (size_t i = v.size(); i-- > 0;) { bool w = v[i].t == I64; e(w ? 0x42 : 0x41, 0, v[i].v); e(w ? 0x52 : 0x47); e(0x04, 0, VOIDT); e(0x23, gBad); e(0x41, 0, 1); e(0x6a); e(0x24, gBad); e(0x0b); } }
  void wrap(const char *n) {           // exported function with the binding's own signature
    const Bind *b = sig[n]; begin(b->p, b->r); auto z = noise();
    for (size_t i = 0; i < b->p.size(); i++) { e(0x20, (uint32_t)i); if (c.pct(15)) { uint32_t l = loc(b->p[i]); e(0x21, l); e(0x20, l); } }
    call(n); std::vector<uint32_t> l; for (auto t : b->r) l.push_back(loc(t)); for (size_t i = l.size(); i-- > 0;) e(0x21, l[i]); unnoise(z); for (auto i : l) e(0x20, i); end(std::string("w_") + n);
  }
};
struct SysWorld {
  Ctx &x; Choices &c; pwart_namespace ns = nullptr; pwart_module_state st = nullptr; void *stk = nullptr; struct pwart_global_compile_config old; std::string log; std::map<std::string, void *> fnc;
  SysWorld(Ctx &x) : x(x), c(x.c) { struct pwart_global_compile_config cfg; pwart_get_global_compile_config(&cfg); old = cfg; cfg.stack_flags = (char)c.below(2); cfg.misc_flags = (char)c.below(4); pwart_set_global_compile_config(&cfg); stk = pwart_allocate_stack(65536); say(strf("config stack %d misc %d", cfg.stack_flags, cfg.misc_flags)); }
  ~SysWorld() { pwart_free_stack(stk); pwart_set_global_compile_config(&old); }
  void say(const std::string &t) { log += t; log += "\n"; x.dump(t + "\n"); }
  [[noreturn]] void bad(const std::string &t) { FAIL("%s\nhistory:\n%s", t.c_str(), log.size() > 4500 ? (log.substr(0, 2200) + "\n...\n" + log.substr(log.size() - 2200)).c_str() : log.c_str()); }
  pwart_module_state define(const char *name, Module &m) { auto b = encode(m); char *err = nullptr; pwart_module_state s; { InPw in; s = (pwart_module_state)pwart_namespace_define_wasm_module(ns, (char *)name, (char *)b.data(), (int)b.size(), &err); } if (!s || err) bad(strf("the module does not load: %s", err ? err : "?")); return s; }
  void *fn(const std::string &n) { auto it = fnc.find(n); if (it != fnc.end()) return it->second; void *p = pwart_get_export_function(st, (char *)n.c_str()); if (!p) bad("export " + n + " is missing"); return fnc[n] = p; }
  std::vector<uint64_t> callf(void *f, const std::vector<VT> &p, const std::vector<VT> &r, const std::vector<uint64_t> &a, void *st_ = nullptr) {
    void *base = st_ ? st_ : stk, *sp = base; std::vector<uint64_t> o(r.size());
    for (size_t i = 0; i < p.size(); i++) switch (p[i]) { case I32: pwart_rstack_put_i32(&sp, (int)a[i]); break; case I64: pwart_rstack_put_i64(&sp, a[i]); break; case F32: { uint32_t b = (uint32_t)a[i]; float v; memcpy(&v, &b, 4); pwart_rstack_put_f32(&sp, v); break; } case F64: { double v; memcpy(&v, &a[i], 8); pwart_rstack_put_f64(&sp, v); break; } default: pwart_rstack_put_ref(&sp, (void *)a[i]); }
    { InPw in; pwart_call_wasm_function(f, base); }
    sp = base; for (size_t i = 0; i < r.size(); i++) switch (r[i]) { case I32: o[i] = (uint32_t)pwart_rstack_get_i32(&sp); break; case I64: o[i] = pwart_rstack_get_i64(&sp); break; case F32: { float v = pwart_rstack_get_f32(&sp); uint32_t b; memcpy(&b, &v, 4); o[i] = b; break; } case F64: { double v = pwart_rstack_get_f64(&sp); memcpy(&o[i], &v, 8); break; } default: o[i] = (uint64_t)pwart_rstack_get_ref(&sp); }
    return o;
  }
  std::vector<uint64_t> w(const Bind &b, const std::vector<uint64_t> &a) { return callf(fn(std::string("w_") + b.n), b.p, b.r, a); }
  struct pwart_wasm_memory *mem() { return pwart_get_export_memory(st, (char *)"mem"); }
  void noisecheck() { int *g = (int *)pwart_get_export_global(st, (char *)"bad"); if (!g) bad("global 'bad' is missing"); if (*g) bad("a value below a binding call on the operand stack changed"); }
};
