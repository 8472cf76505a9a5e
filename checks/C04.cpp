// C04: globals, tables, references, call_indirect and element segments; the host writes to shared globals and tables between calls.
#include "progcheck.h"
static bool rel(const Stats &s) { if (s.tables || s.indirect) return true; return s.op.count(0x23) || s.op.count(0x24) || s.op.count(0xd1) || s.op.count(0xd2); }
// A write by the host to one global or table entry, done on both sides. Table entries move only inside the table (so that callable tables keep
// holding functions of their type) or, for externref tables, get fresh values.
static void poke(Exec &e, Ctx &x) {
  Choices &c = x.c; size_t k = c.below(e.P.mods.size()); auto &m = *e.P.mods[k].m;
  std::vector<const Export *> v; for (auto &q : m.exports) if (q.kind == K_TABLE || (q.kind == K_GLOBAL && m.gtype[q.idx].mut && (int)q.idx != e.fuel_global[k])) v.push_back(&q);
  if (v.empty()) return; const Export &q = *c.pick(v);
  if (q.kind == K_GLOBAL) {
    auto *g = e.mi[k]->globals[q.idx]; Val nv = argval(c, g->t); g->b = nv.b; g->taint = false; if (g->t == I32 || g->t == F32) g->b = (uint32_t)g->b;
    void *p = pwart_get_export_global(e.st[k], q.name.c_str()); REQUIRE(p, "exported global %s not found", q.name.c_str()); memcpy(p, &g->b, vtsize(g->t)); x.count("host writes a global");
  } else {
    auto *t = e.mi[k]->tables[q.idx]; if (t->e.empty()) return; size_t i = c.below(t->e.size()), j = c.below(t->e.size());
    auto *p = pwart_get_export_table(e.st[k], q.name.c_str()); REQUIRE(p, "exported table %s not found", q.name.c_str());
    if (t->t == EXTERNREF && c.coin()) { uint64_t r = 0x30000 + c.below(100) * 8; t->e[i] = r; p->entries[i] = (void *)r; }
    else { t->e[i] = t->e[j]; p->entries[i] = p->entries[j]; }
    x.count("host writes a table entry");
  }
}
static void run(Ctx &x, GenCfg g, ProgOpt o) {
  Program P; std::vector<int> fg; std::map<std::string, int> feat; gen_program(x, P, g, o, fg, feat); show_program(x, P);
  Exec e(P, x); e.fuel_global = fg; e.model_setup(); std::string err = e.load(); if (!err.empty()) FAIL("%s", err.c_str());
  std::vector<CallPlan> calls; calls.swap(P.calls); e.run_loaded();     // start functions and initial state only
  P.calls = calls;
  if (!e.stopped) for (size_t n = 0; n < P.calls.size(); n++) { while (x.c.pct(50)) poke(e, x); if (!e.step(n)) break; }
  account(x, P, e, feat, rel(e.I.st));
  x.count("indirect calls", e.I.st.indirect); x.count("table instructions", e.I.st.tables);
}
static GenCfg tcfg() { GenCfg g; g.w_table = 16; g.w_global = 14; g.w_ref = 8; g.w_icall = 12; g.w_call = 6; g.ntables = 4; g.nglobals = 10; g.w_mem = 1; g.w_bulk = 0; g.w_grow = 0; g.nmems = 1; g.w_num = 6; return g; }
static void single(Ctx &x) { GenCfg g = tcfg(); ProgOpt o; o.ncalls = 8; run(x, g, o); }
static void linked(Ctx &x) { GenCfg g = tcfg(); ProgOpt o; o.nmods = 2 + (int)x.c.below(2); o.ncalls = 10; run(x, g, o); }
static void scalars(Ctx &x) { GenCfg g = tcfg(); g.refs = false; g.w_ref = 0; g.w_global = 25; g.nglobals = 30; ProgOpt o; o.nmods = 1 + x.c.pct(40); o.ncalls = 8; run(x, g, o); }

// Dispatch tables: many functions of one type with a distinct result each; histories of table writes by code and host, then calls through every slot.
static void dispatch(Ctx &x) {
  Choices &c = x.c; Module m; HostFn hf; int nf = (int)c.range(2, 40), nt = (int)c.range(1, 4); FuncType ft; ft.p = {I32}; ft.r = {I32};
  bool imp = c.pct(50); if (imp) { Import i{"env", "t0", K_TABLE}; i.t.t = FUNCREF; i.t.min = (uint32_t)c.range(1, 20); i.t.has_max = false; m.imports.push_back(i); }
  std::vector<std::vector<int>> model; if (imp) model.push_back(std::vector<int>(m.imports[0].t.min, -1));
  while ((int)model.size() < nt) { TableType t; t.min = (uint32_t)c.range(1, c.pct(10) ? 400 : 30); if (c.coin()) { t.has_max = true; t.max = t.min + (uint32_t)c.below(4); } m.tables.push_back(t); model.push_back(std::vector<int>(t.min, -1)); }
  for (int k = 0; k < nf; k++) { Func f; f.type = m.addtype(ft); f.code = {Instr(0x20, 0), Instr(0x41, 0, 1000 * (k + 1)), Instr(0x6a), Instr(0x0b)}; m.funcs.push_back(f); }
  // per table: call(idx,x), set(idx, ref), get(idx) -> ref, size, copy from each, fill
  struct H { uint32_t call, set, get, size, fill, tail; std::vector<uint32_t> copy, setf; }; std::vector<H> H_;
  for (int t = 0; t < nt; t++) { H h; auto add = [&](FuncType ty, Code co) { Func f; f.type = m.addtype(ty); co.push_back(Instr(0x0b)); f.code = co; m.funcs.push_back(f); return (uint32_t)m.funcs.size() - 1; };
    FuncType a; a.p = {I32, I32}; a.r = {I32}; h.call = add(a, {Instr(0x20, 1), Instr(0x20, 0), Instr(0x11, m.addtype(ft), 0, t)}); h.tail = add(a, {Instr(0x20, 1), Instr(0x20, 0), Instr(0x13, m.addtype(ft), 0, t)});
    FuncType s; s.p = {I32, FUNCREF}; h.set = add(s, {Instr(0x20, 0), Instr(0x20, 1), Instr(0x26, t)}); FuncType g; g.p = {I32}; g.r = {FUNCREF}; h.get = add(g, {Instr(0x20, 0), Instr(0x25, t)});
    FuncType z; z.r = {I32}; h.size = add(z, {Instr(0xfc10, t)}); FuncType fl; fl.p = {I32, FUNCREF, I32}; h.fill = add(fl, {Instr(0x20, 0), Instr(0x20, 1), Instr(0x20, 2), Instr(0xfc11, t)});
    FuncType cp; cp.p = {I32, I32, I32}; for (int u = 0; u < nt; u++) h.copy.push_back(add(cp, {Instr(0x20, 0), Instr(0x20, 1), Instr(0x20, 2), Instr(0xfc0e, t, 0, u)}));
    FuncType sf; sf.p = {I32}; for (int u = 0; u < std::min(nf, 3); u++) h.setf.push_back(add(sf, {Instr(0x20, 0), Instr(0xd2, (uint32_t)u), Instr(0x26, t)}));
    H_.push_back(h); }
  m.index();
  for (int t = 0; t < nt; t++) { int ns = (int)c.below(4); for (int k = 0; k < ns; k++) { Elem s; s.table = t; uint32_t n = (uint32_t)c.below(model[t].size() + 1), at = (uint32_t)c.below(model[t].size() - n + 1); s.off = {Instr(0x41, 0, at), Instr(0x0b)}; s.exprs = c.coin(); if (c.coin()) s.flags = s.exprs ? 6 : 2;
    for (uint32_t j = 0; j < n; j++) { int f = s.exprs && c.pct(10) ? -1 : (int)c.below(nf); s.f.push_back(f); } m.elems.push_back(s); } }
  for (auto &s : m.elems) for (size_t j = 0; j < s.f.size(); j++) model[s.table][s.off[0].imm + j] = (int)s.f[j];
  for (uint32_t i = 0; i < m.funcs.size(); i++) m.exports.push_back({"f" + std::to_string(i), K_FUNC, i});
  for (int t = 0; t < nt; t++) m.exports.push_back({"t" + std::to_string(t), K_TABLE, (uint32_t)t});
  struct HM { struct pwart_host_module b; struct pwart_wasm_table t; } h; memset(&h, 0, sizeof h); std::vector<void *> ents(imp ? model[0].size() : 1, nullptr);
  if (imp) { h.t.elem_type = FUNCREF; h.t.initial = h.t.size = h.t.maximum = (uint32_t)model[0].size(); h.t.entries = ents.data(); }
  h.b.resolve = [](struct pwart_host_module *t, struct pwart_symbol_resolve_request *r) { r->result = r->kind == PWART_KIND_TABLE ? &((HM *)t)->t : nullptr; };
  struct pwart_global_compile_config gc; gc.stack_flags = (char)c.pct(80); gc.misc_flags = (char)(2 | c.below(2)); pwart_set_global_compile_config(&gc);
  pwart_namespace ns = pwart_namespace_new(); pwart_namespace_define_host_module(ns, "env", &h.b); auto bytes = encode(m); char *err = nullptr;
  pwart_module_state st = pwart_namespace_define_wasm_module(ns, "m", (char *)bytes.data(), (int)bytes.size(), &err); REQUIRE(st, "module refused: %s", err ? err : "?");
  x.dump("bytes " + hexs(bytes) + "\n");
  std::vector<void *> fp; std::map<void *, int> back; for (uint32_t i = 0; i < m.funcs.size(); i++) { void *p = pwart_get_export_function(st, ("f" + std::to_string(i)).c_str()); REQUIRE(p, "function f%u not found", i); fp.push_back(p); if ((int)i < nf) back[p] = (int)i; }
  REQUIRE((int)back.size() == nf, "functions share addresses");
  std::vector<struct pwart_wasm_table *> tp; for (int t = 0; t < nt; t++) { auto *p = pwart_get_export_table(st, ("t" + std::to_string(t)).c_str()); REQUIRE(p, "table t%d not found", t); tp.push_back(p); }
  if (imp) REQUIRE(tp[0] == &h.t, "the imported table is not the host's");
  char *stack = (char *)pwart_allocate_stack(65536); std::string log; int calls = 0, writes = 0;
  auto val = [&](int t, int i) { return model[t][i]; };
  auto check = [&]() { for (int t = 0; t < nt; t++) { REQUIRE(tp[t]->size == model[t].size(), "table %d has size %u, %zu expected\n%s", t, tp[t]->size, model[t].size(), log.c_str());
    for (size_t i = 0; i < model[t].size(); i++) { void *p = tp[t]->entries[i]; int got = !p ? -1 : back.count(p) ? back[p] : -2; REQUIRE(got == model[t][i], "table %d entry %zu holds %d (function number, -1 null, -2 no function of the module), %d expected\n%s", t, i, got, model[t][i], log.c_str()); } } };
  check();
  int n = (int)c.range(5, 40);
  for (int k = 0; k < n; k++) {
    int t = (int)c.below(nt), sz = (int)model[t].size(), i = (int)c.below(sz); H &q = H_[t]; void *sp = stack; void *ref = nullptr; int f = c.pct(15) ? -1 : (int)c.below(nf); if (f >= 0) ref = fp[f];
    switch (c.below(8)) {
      case 0: case 1: { if (model[t][i] < 0) break; uint32_t a = (uint32_t)c.bits(20); pwart_rstack_put_i32(&sp, i); pwart_rstack_put_i32(&sp, (int)a); bool tail = c.coin(); log += strf("call t%d[%d]; ", t, i); checked_call(fp[tail ? q.tail : q.call], stack); sp = stack; uint32_t r = (uint32_t)pwart_rstack_get_i32(&sp); calls++;
        REQUIRE(r == a + 1000u * (model[t][i] + 1), "calling through table %d slot %d: result %u, so function %d ran, function %d expected\n%s", t, i, r, (int)(r - a) / 1000 - 1, model[t][i], log.c_str()); break; }
      case 2: log += strf("set t%d[%d]=%d; ", t, i, f); pwart_rstack_put_i32(&sp, i); pwart_rstack_put_ref(&sp, ref); checked_call(fp[q.set], stack); model[t][i] = f; writes++; break;
      case 3: { log += strf("get t%d[%d]; ", t, i); pwart_rstack_put_i32(&sp, i); checked_call(fp[q.get], stack); sp = stack; void *r = pwart_rstack_get_ref(&sp); REQUIRE(r == (model[t][i] < 0 ? nullptr : fp[model[t][i]]), "table.get of table %d entry %d is wrong\n%s", t, i, log.c_str()); break; }
      case 4: { int u = (int)c.below(nt); int mx = (int)std::min(model[t].size(), model[u].size()); int cnt = (int)c.below(mx + 1), d = (int)c.below(sz - cnt + 1), s = (int)c.below(model[u].size() - cnt + 1); log += strf("copy t%d[%d..] from t%d[%d..] %d; ", t, d, u, s, cnt);
        pwart_rstack_put_i32(&sp, d); pwart_rstack_put_i32(&sp, s); pwart_rstack_put_i32(&sp, cnt); checked_call(fp[q.copy[u]], stack); std::vector<int> tmp(model[u].begin() + s, model[u].begin() + s + cnt); std::copy(tmp.begin(), tmp.end(), model[t].begin() + d); writes++; break; }
      case 5: { int cnt = (int)c.below(sz + 1), d = (int)c.below(sz - cnt + 1); log += strf("fill t%d[%d..] %d with %d; ", t, d, cnt, f); pwart_rstack_put_i32(&sp, d); pwart_rstack_put_ref(&sp, ref); pwart_rstack_put_i32(&sp, cnt); checked_call(fp[q.fill], stack); for (int j = 0; j < cnt; j++) model[t][d + j] = f; writes++; break; }
      case 6: log += strf("host t%d[%d]=%d; ", t, i, f); tp[t]->entries[i] = ref; model[t][i] = f; writes++; break;
      case 7: { if (c.coin()) { size_t u = c.below(q.setf.size()); log += strf("ref.func t%d[%d]=%zu; ", t, i, u); pwart_rstack_put_i32(&sp, i); checked_call(fp[q.setf[u]], stack); model[t][i] = (int)u; writes++; } else { checked_call(fp[q.size], stack); uint32_t r = (uint32_t)pwart_rstack_get_i32(&sp); REQUIRE(r == model[t].size(), "table.size %u, %zu expected", r, model[t].size()); } break; }
    }
    check();
  }
  pwart_free_stack(stack); pwart_namespace_delete(ns); x.dump(log);
  if (calls && writes) { x.nontrivial = true; x.hash = hash_bytes(std::vector<uint8_t>(log.begin(), log.end()), hash_bytes(bytes)); if (x.shm->nsamples < 3) x.sample = strf("%d functions, %d tables: ", nf, nt) + log; }
  x.count("dispatch calls", calls); x.count("dispatch writes", writes);
}
int main(int argc, char **argv) {
  CheckDef d{"C04", "a case is non-trivial when a compared call uses globals, tables, references or indirect calls (dispatch: at least one call through a table and one table write); all exported globals and whole tables are compared after every step; identity is the module bytes and arguments or the history"};
  d.fams = {{"single", single, 120000, 3000000, 100}, {"linked", linked, 100000, 2500000, 50}, {"scalars", scalars, 80000, 2000000, 50}, {"dispatch", dispatch, 100000, 2500000, 100}};
  d.assumptions = {"table.grow always reports -1 (documented)", "out-of-bounds and type-mismatching indirect calls are not generated (PWART does not trap)"};
  return check_main(d, argc, argv);
}
