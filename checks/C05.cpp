// C05: calls and the run-time stack convention.
#include "progcheck.h"
static bool anycall(const Stats &s) { return s.calls + s.hostcalls > 1; }
static void sigs(Ctx &x) {
  GenCfg g; g.w_call = 16; g.w_icall = 8; g.w_host = 12; g.w_tail = 6; g.maxparams = x.c.pct(30) ? 30 : 8; g.maxres = x.c.pct(30) ? 12 : 4; g.maxlocals = 16; g.w_mem = 1; g.w_bulk = 0; g.w_grow = 0; g.w_table = 1; g.w_local = 14; g.nfuncs = 6; g.budget = 90; g.nmems = x.c.coin();
  ProgOpt o; o.nmods = 1 + x.c.pct(40); o.nhost = 8; o.ncalls = 6; program_case(x, g, o, anycall);
}
// Values of any type moved through calls of every kind, with a frame full of live operands around them.
struct TV { VT t; uint64_t b; };
static const VT ALLT[] = {I32, I64, F32, F64, EXTERNREF, FUNCREF};
static Val rv(Choices &c, VT t) { if (t == EXTERNREF) return {t, 0x40000 + c.below(1000) * 8}; if (t == FUNCREF) return {t, 0}; Val v{t, interesting(c, t)}; if (t == I32 || t == F32) v.b = (uint32_t)v.b; return v; }
static void wide(Ctx &x) {                        // permutations of arguments to results through forwarding chains
  Choices &c = x.c; Program P; auto m = std::make_shared<Module>(); P.cfg_stack = c.pct(70); P.cfg_misc = 2 | (int)c.below(2);
  int np = c.pct(15) ? (int)c.range(100, 255) : c.pct(40) ? (int)c.range(10, 60) : (int)c.below(10); FuncType ft; std::vector<VT> pal; int npal = (int)c.range(1, 6); for (int i = 0; i < npal; i++) pal.push_back(ALLT[c.below(6)]);
  for (int i = 0; i < np; i++) ft.p.push_back(c.pick(pal));
  int nr = c.pct(10) ? (int)c.range(100, 255) : c.pct(40) ? (int)c.range(5, 40) : (int)c.below(5); std::vector<int> perm; for (int i = 0; i < nr && np; i++) { int k = (int)c.below(np); perm.push_back(k); ft.r.push_back(ft.p[k]); } nr = (int)perm.size();
  HostFn h; h.t = ft; h.flags = 4; h.salt = c.bits(16); P.host.push_back(h);
  uint32_t ty = m->addtype(ft); { Import i{"env", "h0", K_FUNC}; i.type = ty; m->imports.push_back(i); }
  // f1: results are a permutation of the parameters; f2: forwards to h0; f3: forwards to f1 with live operands underneath; f4: tail call of f1 or h0; f5: through a table; f6: permutes locals then tail
  auto fwd = [&](Code &co) { for (int i = 0; i < np; i++) co.push_back(Instr(0x20, i)); };
  auto add = [&](Code co, std::vector<VT> lo = {}) { Func f; f.type = ty; f.locals = lo; co.push_back(Instr(0x0b)); f.code = co; m->funcs.push_back(f); };
  { Code co; for (int k : perm) co.push_back(Instr(0x20, k)); add(co); }
  { Code co; fwd(co); co.push_back(Instr(0x10, 0)); add(co); }
  { Code co; int n = (int)c.below(12); std::vector<VT> under; std::vector<Val> uv; std::vector<VT> lo; for (int i = 0; i < n; i++) { VT t = ALLT[c.below(4)]; under.push_back(t); Val v = rv(c, t); uv.push_back(v); co.push_back(Instr(t == I32 ? 0x41 : t == I64 ? 0x42 : t == F32 ? 0x43 : 0x44, 0, v.b)); if (c.coin()) { lo.push_back(t); co.push_back(Instr(0x22, np + lo.size() - 1)); } }
    fwd(co); co.push_back(Instr(0x10, c.coin() ? 1 : 0)); size_t l0 = lo.size(); for (int i = nr - 1; i >= 0; i--) { lo.push_back(ft.r[i]); co.push_back(Instr(0x21, np + lo.size() - 1)); }
    // the operands underneath are summed into memory-free checks: compare each with its constant, count mismatches in an i32 that must stay 0
    lo.push_back(I32); uint32_t bad = np + lo.size() - 1;
    for (int i = n - 1; i >= 0; i--) { VT t = under[i]; if (isfloat(t)) co.push_back(Instr(t == F32 ? 0xbc : 0xbd)); VT q = t == F32 ? I32 : t == F64 ? I64 : t; co.push_back(Instr(q == I32 ? 0x41 : 0x42, 0, uv[i].b)); co.push_back(Instr(q == I32 ? 0x47 : 0x52)); co.push_back(Instr(0x20, bad)); co.push_back(Instr(0x6a)); co.push_back(Instr(0x21, bad)); }
    co.push_back(Instr(0x20, bad)); co.push_back(Instr(0x04, 0, VOIDT)); co.push_back(Instr(0x20, bad)); co.push_back(Instr(0x24, 0)); co.push_back(Instr(0x0b));
    for (int i = 0; i < nr; i++) co.push_back(Instr(0x20, np + l0 + (nr - 1 - i))); add(co, lo); }
  { Code co; fwd(co); co.push_back(Instr(0x12, c.coin() ? 1 : 0)); add(co); }
  { Code co; fwd(co); co.push_back(Instr(0x41, 0, c.below(4))); co.push_back(Instr(0x11, ty, 0, 0)); add(co); }
  { Code co; std::vector<VT> lo; std::vector<int> mp; for (int i = 0; i < np; i++) { int j = i; for (int tr = 0; tr < 4; tr++) { int k = (int)c.below(np); if (ft.p[k] == ft.p[i]) { j = k; break; } } mp.push_back(j); } for (int i = 0; i < np; i++) co.push_back(Instr(0x20, mp[i])); co.push_back(Instr(0x41, 0, c.below(4))); co.push_back(Instr(0x13, ty, 0, 0)); add(co); }
  { Global g; g.t = {I32, true}; g.init = {Instr(0x41), Instr(0x0b)}; m->globals.push_back(g); }
  { TableType t; t.min = 4; m->tables.push_back(t); Elem s; s.off = {Instr(0x41), Instr(0x0b)}; for (int i = 0; i < 4; i++) s.f.push_back((int64_t)c.pick({0, 1, 2, 3, 4})); m->elems.push_back(s); }
  m->index(); for (uint32_t i = 0; i < m->ftype.size(); i++) m->exports.push_back({"f" + std::to_string(i), K_FUNC, i}); m->exports.push_back({"bad", K_GLOBAL, 0}); m->exports.push_back({"t", K_TABLE, 0});
  P.mods.push_back({"m0", m}); int nc = (int)c.range(1, 4);
  for (int k = 0; k < nc; k++) { CallPlan cp; cp.mod = 0; cp.func = (uint32_t)c.range(0, 6); for (auto t : ft.p) cp.args.push_back(rv(c, t)); cp.sp_off = (int)c.below(16) * 4; P.calls.push_back(cp); }
  show_program(x, P); Exec e(P, x); e.run(); std::map<std::string, int> feat; feat[strf("parameters: %s", np > 60 ? ">60" : np > 10 ? "11..60" : "0..10")] = 1; account(x, P, e, feat, true);
}
// Tail calls in constant stack: a state machine of functions with different signatures tail calls itself many times on a small stack.
static void tails(Ctx &x) {
  Choices &c = x.c; Module m; int nf = (int)c.range(1, 4); struct F { FuncType t; std::vector<int> idx; }; std::vector<F> fs(nf); bool ind = c.coin(), locals = c.coin();
  // every function: (i32 n, i64 acc, extras...) -> i64.  n==0: return acc; else tail call next(n-1, acc*k+c, extras)
  std::vector<uint64_t> K, A; std::vector<int> nx;
  for (int i = 0; i < nf; i++) { fs[i].t.p = {I32, I64}; int ex = (int)c.below(8); for (int j = 0; j < ex; j++) fs[i].t.p.push_back(c.pick({I32, I64, F32, F64})); fs[i].t.r = {I64}; K.push_back(c.bits(16) | 1); A.push_back(c.bits(32)); nx.push_back((int)c.below(nf)); }
  { TableType t; t.min = nf; m.tables.push_back(t); Elem s; s.off = {Instr(0x41), Instr(0x0b)}; for (int i = 0; i < nf; i++) s.f.push_back(i); m.elems.push_back(s); }
  for (int i = 0; i < nf; i++) { Func f; f.type = m.addtype(fs[i].t); Code co; if (locals) { f.locals = {I64, F64, I32}; co.push_back(Instr(0x20, 1)); co.push_back(Instr(0x21, fs[i].t.p.size())); }
    co.insert(co.end(), {Instr(0x20, 0), Instr(0x45), Instr(0x04, 0, VOIDT), Instr(0x20, locals ? (uint32_t)fs[i].t.p.size() : 1u), Instr(0x0f), Instr(0x0b)});
    int fill = (int)c.below(4); for (int j = 0; j < fill; j++) co.push_back(Instr(0x42, 0, j));
    co.insert(co.end(), {Instr(0x20, 0), Instr(0x41, 0, 1), Instr(0x6b), Instr(0x20, 1), Instr(0x42, 0, K[i]), Instr(0x7e), Instr(0x42, 0, A[i]), Instr(0x7c)});
    auto &nt = fs[nx[i]].t; for (size_t j = 2; j < nt.p.size(); j++) { int from = -1; for (size_t k = 2; k < fs[i].t.p.size(); k++) if (fs[i].t.p[k] == nt.p[j]) from = (int)k; if (from >= 0) co.push_back(Instr(0x20, from)); else co.push_back(Instr(nt.p[j] == I32 ? 0x41 : nt.p[j] == I64 ? 0x42 : nt.p[j] == F32 ? 0x43 : 0x44, 0, 0)); }
    if (ind) { co.push_back(Instr(0x41, 0, nx[i])); co.push_back(Instr(0x13, m.addtype(nt), 0, 0)); } else co.push_back(Instr(0x12, nx[i]));
    co.push_back(Instr(0x0b)); f.code = co; m.funcs.push_back(f); }
  m.index(); m.exports.push_back({"f", K_FUNC, 0});
  struct pwart_global_compile_config gc; gc.stack_flags = (char)c.pct(80); gc.misc_flags = (char)(2 | c.below(2)); pwart_set_global_compile_config(&gc);
  auto bytes = encode(m); char *err = nullptr; pwart_module_state st = pwart_load_module((char *)bytes.data(), (int)bytes.size(), &err); REQUIRE(st, "module refused: %s", err ? err : "?");
  x.dump(show(m)); uint32_t n = (uint32_t)c.range(200000, 600000); uint64_t acc = interesting(c, I64), want = acc; int s = 0; for (uint32_t k = 0; k < n; k++) { want = want * K[s] + A[s]; s = nx[s]; }
  const size_t SZ = 16384; char *stack = (char *)pwart_allocate_stack((int)SZ + 4096); memset(stack, 0xc3, SZ + 4096);
  void *sp = stack; pwart_rstack_put_i32(&sp, (int)n); pwart_rstack_put_i64(&sp, (long long)acc); for (size_t j = 2; j < fs[0].t.p.size(); j++) switch (fs[0].t.p[j]) { case I32: pwart_rstack_put_i32(&sp, 0); break; case I64: pwart_rstack_put_i64(&sp, 0); break; case F32: pwart_rstack_put_f32(&sp, 0); break; default: pwart_rstack_put_f64(&sp, 0); }
  void *fn = pwart_get_export_function(st, "f"); REQUIRE(fn, "export not found"); unsigned bad = checked_call(fn, stack); REQUIRE(!bad, "callee-saved registers changed (%#x)", bad);
  sp = stack; uint64_t got = (uint64_t)pwart_rstack_get_i64(&sp); for (size_t k = SZ; k < SZ + 4096; k++) REQUIRE((uint8_t)stack[k] == 0xc3, "%u tail calls used more than %zu bytes of run-time stack", n, SZ);
  REQUIRE(got == want, "%u tail calls: result %#llx, %#llx expected", n, (unsigned long long)got, (unsigned long long)want);
  pwart_free_stack(stack); pwart_free_module_state(st); x.nontrivial = true; x.hash = hash_bytes(bytes, n); x.count(ind ? "return_call_indirect chains" : "return_call chains"); if (x.shm->nsamples < 3) x.sample = strf("%u tail calls over %d functions%s\n", n, nf, ind ? " through a table" : "") + show(m);
}
// The stack helpers against the documented layout: values in order, own size, aligned to it when the flag is set.
static void helpers(Ctx &x) {
  Choices &c = x.c; bool al = c.pct(70); struct pwart_global_compile_config gc; gc.stack_flags = al; gc.misc_flags = 2; pwart_set_global_compile_config(&gc);
  int want = 1 << 16; char *stack = (char *)pwart_allocate_stack(want); REQUIRE(stack && ((uintptr_t)stack & 15) == 0, "pwart_allocate_stack(%d) = %p is not aligned to 16", want, stack); memset(stack, 0x3c, want);
  int n = (int)c.range(1, 60); std::vector<Val> v; void *sp = stack + (al ? 8 : 4) * c.below(20); char *base = (char *)sp; std::vector<size_t> at; size_t o = (size_t)(base - stack); std::string log;
  for (int i = 0; i < n; i++) { VT t = c.pick({I32, I64, F32, F64, EXTERNREF}); Val q = rv(c, t); size_t s = t == I32 || t == F32 ? 4 : 8; if (al) o = (o + s - 1) / s * s; at.push_back(o); v.push_back(q); log += strf("%s ", vtname(t));
    float f; double d; memcpy(&f, &q.b, 4); memcpy(&d, &q.b, 8); if (t == F32 && (q.b & 0x7f800000) == 0x7f800000) { q.b = 0x3f800000; f = 1; v.back() = q; } 
    if (t == F64 && (q.b & 0x7ff0000000000000ull) == 0x7ff0000000000000ull) { q.b = 0x3ff0000000000000ull; d = 1; v.back() = q; }
    switch (t) { case I32: pwart_rstack_put_i32(&sp, (int)q.b); break; case I64: pwart_rstack_put_i64(&sp, (long long)q.b); break; case F32: pwart_rstack_put_f32(&sp, f); break; case F64: pwart_rstack_put_f64(&sp, d); break; default: pwart_rstack_put_ref(&sp, (void *)q.b); }
    o += s; REQUIRE((char *)sp == stack + o, "after putting %s the pointer is at %zd, %zu expected (%s)", log.c_str(), (char *)sp - stack, o, al ? "aligned" : "packed"); }
  std::vector<uint8_t> img(want, 0x3c); for (int i = 0; i < n; i++) memcpy(&img[at[i]], &v[i].b, v[i].t == I32 || v[i].t == F32 ? 4 : 8);
  for (int k = 0; k < want; k++) REQUIRE((uint8_t)stack[k] == img[k], "byte %d of the stack is %02x, %02x expected (%s%s)", k, (uint8_t)stack[k], img[k], log.c_str(), al ? "aligned" : "packed");
  sp = base; for (int i = 0; i < n; i++) { uint64_t b = 0; switch (v[i].t) { case I32: b = (uint32_t)pwart_rstack_get_i32(&sp); break; case I64: b = (uint64_t)pwart_rstack_get_i64(&sp); break; case F32: { float f = pwart_rstack_get_f32(&sp); memcpy(&b, &f, 4); break; } case F64: { double f = pwart_rstack_get_f64(&sp); memcpy(&b, &f, 8); break; } default: b = (uint64_t)pwart_rstack_get_ref(&sp); }
    REQUIRE(b == v[i].b && (char *)sp == stack + at[i] + (v[i].t == I32 || v[i].t == F32 ? 4 : 8), "value %d (%s) reads back %#llx, %#llx put; pointer at %zd", i, vtname(v[i].t), (unsigned long long)b, (unsigned long long)v[i].b, (char *)sp - stack); }
  pwart_free_stack(stack); x.nontrivial = true; x.hash = hash_bytes(std::vector<uint8_t>(log.begin(), log.end()), al); if (x.shm->nsamples < 3) x.sample = log; x.count("helper sequences");
  // stacks of any size are aligned and wholly usable
  int sz = (int)c.range(1, 100000); char *s2 = (char *)pwart_allocate_stack(sz); REQUIRE(s2 && ((uintptr_t)s2 & 15) == 0, "pwart_allocate_stack(%d) = %p", sz, s2); memset(s2, 1, sz); pwart_free_stack(s2);
}
int main(int argc, char **argv) {
  CheckDef d{"C05", "a case is non-trivial when a compared program makes at least one call beyond the entry (wide: argument/result permutations; tails: a tail-call chain of 200k-600k steps; helpers: a sequence of stack helper calls against the layout model); identity is the module bytes and arguments"};
  d.fams = {{"sigs", sigs, 150000, 3000000, 50}, {"wide", wide, 100000, 2000000, 50}, {"tails", tails, 4000, 100000, 20}, {"helpers", helpers, 100000, 2000000, 200}};
  d.assumptions = {"x86-64 System V host", "at most 255 parameters and results (documented limit)"};
  return check_main(d, argc, argv);
}
