// C12: isolation of instances, reproducibility, and calls from several threads.
#include "progcheck.h"
#include <malloc.h>
#include <thread>
#include <atomic>
// ---- raw runs: what an instance does, without the model ----
struct Rec { std::vector<uint64_t> v; std::vector<std::string> lab; bool labels = false; void add(uint64_t x, const char *what, size_t a = 0, size_t b = 0) { v.push_back(x); if (labels) lab.push_back(strf("%s %zu/%zu", what, a, b)); } };
static uint64_t canon(Exec &e, const Val &q) {      // the same number for the same value in every instance of the program
  if (q.t != FUNCREF || !q.b) return q.t == I32 || q.t == F32 ? (uint32_t)q.b : q.b;
  auto it = e.code2f.find(q.b); if (it == e.code2f.end()) return 0xffffffff00000000ull; FuncInst *f = it->second; if (f->host >= 0) return 0x10000 + f->host; for (size_t k = 0; k < e.mi.size(); k++) if (e.mi[k] == f->mod) return 0x20000 + (k << 32) + f->idx; return 0xffffffff00000001ull;
}
static uint64_t memhash(const uint8_t *p, size_t n) { uint64_t h = 99, w; size_t i = 0; for (; i + 8 <= n; i += 8) { memcpy(&w, p + i, 8); h = (h ^ w) * 0x9e3779b97f4a7c15ull; h ^= h >> 29; } return h; }
static void snap_mem(Rec &r, struct pwart_wasm_memory *m, size_t a, size_t b) { r.add(m->pages, "pages of memory", a, b); r.add(memhash(m->bytes, (size_t)m->pages << 16), "bytes of memory", a, b); }
static void snap_tab(Exec &e, Rec &r, struct pwart_wasm_table *t, VT vt, size_t a, size_t b) { for (unsigned k = 0; k < t->size; k++) r.add(canon(e, {vt, (uint64_t)t->entries[k]}), "entry of table", a, k); }
static void snap(Exec &e, Rec &r) {
  for (size_t k = 0; k < e.st.size(); k++) { auto &m = *e.P.mods[k].m; for (size_t j = 0; j < m.exports.size(); j++) { auto &x = m.exports[j]; switch (x.kind) {
    case K_MEM: snap_mem(r, pwart_get_export_memory(e.st[k], x.name.c_str()), k, x.idx); break;
    case K_TABLE: snap_tab(e, r, pwart_get_export_table(e.st[k], x.name.c_str()), m.ttype[x.idx].t, k, x.idx); break;
    case K_GLOBAL: { uint64_t b = 0; VT t = m.gtype[x.idx].t; memcpy(&b, pwart_get_export_global(e.st[k], x.name.c_str()), vtsize(t)); r.add(canon(e, {t, b}), "global", k, x.idx); break; } } } }
  for (size_t k = 0; k < e.pg.size(); k++) { uint64_t b = 0; memcpy(&b, e.pg[k], vtsize(e.P.hglobals[k].first.t)); r.add(b, "host global", k); }
  for (size_t k = 0; k < e.pm.size(); k++) snap_mem(r, e.pm[k], 1000, k);
  for (size_t k = 0; k < e.pt_.size(); k++) snap_tab(e, r, e.pt_[k], e.P.htables[k].t, 1000 + k, 0);
}
static void raw_call(Exec &e, Rec &r, void *fn, const FuncType &t, const CallPlan *cp, size_t n, const char *what) {
  for (size_t j = 0; j < e.P.mods.size(); j++) e.set_fuel((int)j, false);
  std::vector<Val> a; if (cp) a = cp->args; auto res = e.pwart_call(fn, t, a, cp ? cp->sp_off : 0, what);
  for (size_t j = 0; j < res.size(); j++) r.add(canon(e, res[j]), "result of call", n, j);
  for (auto &h : e.pt.v) { r.add((uint64_t)h.host, "host call", n); for (size_t j = 0; j < h.args.size(); j++) r.add(canon(e, h.args[j]), "argument of a host call in call", n, j); if (h.host < 0) for (size_t j = 0; j < h.res.size(); j++) r.add(canon(e, h.res[j]), "nested result in call", n, j); } e.pt.v.clear();
}
struct Plan { Program P; std::vector<int> fg; size_t good = 0; int rounds = 1; Rec ref; };
static void raw_steps(Exec &e, const Plan &p, Rec &r, size_t from, size_t to) {      // step 0: the start functions
  g_exec = &e;
  for (size_t n = from; n < to; n++) {
    if (n == 0) { for (size_t k = 0; k < e.P.mods.size(); k++) if (e.P.mods[k].m->start >= 0) raw_call(e, r, pwart_get_start_function(e.st[k]), FuncType(), nullptr, 0, "start function"); snap(e, r); continue; }
    auto &cp = p.P.calls[(n - 1) % p.P.calls.size()]; FuncInst *f = e.mi[cp.mod]->funcs[cp.func]; raw_call(e, r, (void *)(uintptr_t)e.f2code.at(f), f->type, &cp, n, "call");
    if (n % p.P.calls.size() == 0 || n + 1 == p.good) snap(e, r);
  }
}
static void raw_load(Exec &e) { std::string s = e.load(); if (!s.empty()) FAIL("%s", s.c_str()); }
static void same_rec(const Rec &ref, const Rec &r, const char *how, size_t base = 0) {
  for (size_t k = 0; k < r.v.size(); k++) if (k >= ref.v.size() - base || ref.v[base + k] != r.v[k]) FAIL("%s: %s is %#llx, it was %#llx in the solo run", how, k < ref.lab.size() - base ? ref.lab[base + k].c_str() : "record", (unsigned long long)r.v[k], (unsigned long long)(k < ref.v.size() - base ? ref.v[base + k] : 0));
}
// A generated program whose calls run in the model without trapping, and its solo record.
static void make_plan(Ctx &x, Plan &p, const GenCfg &g, const ProgOpt &o, int rounds, std::map<std::string, int> &feat) {
  gen_program(x, p.P, g, o, p.fg, feat); p.rounds = rounds; for (auto &d : p.P.mods) if (d.bytes.empty()) d.bytes = encode(*d.m); show_program(x, p.P);
}
static void solo(Ctx &x, Plan &p) {
  { Exec e(p.P, x); e.fuel_global = p.fg; e.model_setup(); raw_load(e); e.compare_state("after loading"); bool ok = true;
    for (size_t k = 0; k < p.P.mods.size() && ok; k++) if (p.P.mods[k].m->start >= 0) { std::vector<Val> a, r; try { for (size_t j = 0; j < p.P.mods.size(); j++) e.set_fuel((int)j, true); e.I.fuel = 100000; e.I.depth = 0; e.I.call(e.mi[k]->funcs[p.P.mods[k].m->start], a, r); } catch (Discard &) { ok = false; break; }
      for (size_t j = 0; j < p.P.mods.size(); j++) e.set_fuel((int)j, false); e.pwart_call(pwart_get_start_function(e.st[k]), FuncType(), {}, 0, "start"); e.compare_traces("start"); e.compare_state("start"); }
    if (ok) { p.good = 1; size_t n = 0; for (int r = 0; r < p.rounds && ok; r++) for (n = 0; n < p.P.calls.size() && ok; n++) { ok = e.step(n); if (ok) p.good++; } } }
  if (!p.good) return; p.ref.labels = true;
  Exec e(p.P, x); e.fuel_global = p.fg; e.model_setup(); raw_load(e); raw_steps(e, p, p.ref, 0, p.good);
}
static void account12(Ctx &x, std::vector<Plan> &ps, bool ok, uint64_t extra) { uint64_t h = extra; for (auto &p : ps) { for (auto &m : p.P.mods) h = hash_bytes(m.bytes, h); for (auto &c : p.P.calls) for (auto &a : c.args) h = mix64(h ^ a.b); } x.hash = h; x.nontrivial = ok; if (ok && ps.size()) sample_program(x, ps[0].P); }
static GenCfg base_cfg(Ctx &x) { Choices &c = x.c; GenCfg g; g.budget = (int)c.pick({15, 30, 60}); g.nfuncs = (int)c.range(1, 4); g.nmems = (int)c.below(3); g.mem64 = c.pct(20); g.start = c.coin(); if (c.pct(30)) { g.w_bulk = 8; g.w_mem = 10; } return g; }

// ---- one history, several instances: what one does never shows in another ----
static void isolation(Ctx &x) {
  Choices &c = x.c; std::vector<Plan> ps((size_t)c.range(1, 3)); std::map<std::string, int> feat; GenCfg g = base_cfg(x); ProgOpt o; o.nmods = (int)c.range(1, 2); o.ncalls = 5; o.cfg_random = false; if (c.pct(30)) o.nhost = 0;
  int cs = c.pct(75) ? 1 : 0, cm = (c.pct(75) ? 2 : 0) | (c.pct(30) ? 1 : 0); if (!(cm & 2)) g.init_locals = true;
  for (auto &p : ps) { p.P.cfg_stack = cs; p.P.cfg_misc = cm; make_plan(x, p, g, o, 1, feat); }
  struct In { std::unique_ptr<Exec> e; size_t p; size_t at = 0; void *ud = nullptr; }; std::vector<std::unique_ptr<In>> in; uint64_t steps = 0, created = 0, closed = 0; std::string log;
  int n = (int)c.range(6, x.thorough ? 60 : 30); static int token;
  auto userdata = [&](In &q, const char *w) { for (auto s : q.e->st) REQUIRE(pwart_module_state_get_user_data(s) == q.ud, "%s: user data of an instance changed\n%s", w, log.c_str()); };
  for (int k = 0; k < n; k++) switch (c.weighted({4, 12, 2, 2})) {
    case 0: { if (in.size() >= 6) break; auto q = std::make_unique<In>(); q->p = c.below(ps.size()); log += strf("i%zu = new instance of p%zu\n", in.size(), q->p); q->e.reset(new Exec(ps[q->p].P, x)); q->e->fuel_global = ps[q->p].fg; q->e->stack_size = 1 << 16; q->e->model_setup(); raw_load(*q->e); userdata(*q, "new instance"); q->e->compare_state("new instance"); created++;
      if (c.coin()) { q->ud = (char *)&token + in.size(); for (auto s : q->e->st) pwart_module_state_set_user_data(s, q->ud); } in.push_back(std::move(q)); break; }
    case 1: { if (in.empty()) break; In &q = *in[c.below(in.size())]; if (q.e->stopped || q.at > 20) break; Exec &e = *q.e; g_exec = &e; auto &P = ps[q.p].P;
      if (q.at == 0 && P.mods[0].m->start >= 0 && c.coin()) { std::vector<Val> a, r; try { for (size_t j = 0; j < P.mods.size(); j++) e.set_fuel((int)j, true); e.I.fuel = 100000; e.I.depth = 0; e.I.call(e.mi[0]->funcs[P.mods[0].m->start], a, r); } catch (Discard &d) { e.stopped = d.why; break; } for (size_t j = 0; j < P.mods.size(); j++) e.set_fuel((int)j, false); e.pwart_call(pwart_get_start_function(e.st[0]), FuncType(), {}, 0, "start"); e.compare_traces("start"); e.compare_state("start"); q.at++; break; }
      q.at++; log += "step\n"; if (e.step(c.below(P.calls.size()))) steps++; 
      In &z = *in[c.below(in.size())]; if (!z.e->stopped) { g_exec = z.e.get(); z.e->compare_state("another instance"); } userdata(z, "another instance"); break; }
    case 2: { if (in.empty()) break; size_t z = c.below(in.size()); log += "close\n"; in.erase(in.begin() + z); closed++; break; }
    case 3: { if (in.empty()) break; In &q = *in[c.below(in.size())]; if (q.e->stopped) break; Exec &e = *q.e;      // the host writes into one instance
      size_t mk = c.below(e.st.size()); auto &m = *ps[q.p].P.mods[mk].m; if (m.exports.empty()) break; auto &ex = m.exports[c.below(m.exports.size())];
      if (ex.kind == K_MEM) { auto *pm = pwart_get_export_memory(e.st[mk], ex.name.c_str()); auto *mm = e.mi[mk]->mems[ex.idx]; if (!pm->pages || mm->bytes.empty()) break; uint64_t a = c.below(mm->bytes.size()); uint8_t b = (uint8_t)c.bits(8); pm->bytes[a] = b; mm->bytes[a] = b; log += "host write\n"; }
      else if (ex.kind == K_GLOBAL && m.gtype[ex.idx].mut && !isref(m.gtype[ex.idx].t) && (int)ex.idx != ps[q.p].fg[mk]) { auto *gi = e.mi[mk]->globals[ex.idx]; uint64_t v = interesting(c, gi->t); if (gi->t == F32 && (v & 0x7f800000) == 0x7f800000) v = 0; if (gi->t == F64 && (v & 0x7ff0000000000000ull) == 0x7ff0000000000000ull) v = 0; memcpy(pwart_get_export_global(e.st[mk], ex.name.c_str()), &v, vtsize(gi->t)); gi->b = vtsize(gi->t) == 4 ? (uint32_t)v : v; gi->taint = false; log += "host write\n"; }
      for (auto &z : in) if (!z->e->stopped) { g_exec = z->e.get(); z->e->compare_state("after a host write"); } break; }
  }
  for (auto &z : in) { userdata(*z, "at the end"); if (!z->e->stopped) { g_exec = z->e.get(); z->e->compare_state("at the end"); } }
  for (auto &f : feat) x.count(f.first, f.second); x.count("instances", created); x.count("instances closed", closed); x.count("steps compared", steps); x.evals = steps + 1;
  account12(x, ps, steps >= 2 && created >= 2, std::hash<std::string>()(log));
}
// ---- the same program again, after other things happened ----
static void rerun(Ctx &x) {
  Choices &c = x.c; std::vector<Plan> ps((size_t)c.range(2, 3)); std::map<std::string, int> feat; GenCfg g = base_cfg(x); ProgOpt o; o.nmods = (int)c.range(1, 2); o.ncalls = 5; if (c.pct(25)) o.nmods = 3;
  for (auto &p : ps) make_plan(x, p, g, o, (int)c.range(1, 2), feat);
  solo(x, ps[0]); if (!ps[0].good) { x.count("no complete step"); return; }
  std::vector<std::unique_ptr<Exec>> keep; std::vector<void *> junk; int other = 0;
  for (int r = (int)c.range(1, 3); r-- > 0;) {
    for (int k = (int)c.below(5); k-- > 0;) switch (c.below(5)) {
      case 0: case 1: { size_t q = 1 + c.below(ps.size() - 1); auto e = std::make_unique<Exec>(ps[q].P, x); e->fuel_global = ps[q].fg; e->run(); other++; if (c.coin()) keep.push_back(std::move(e)); break; }
      case 2: if (!keep.empty()) keep.erase(keep.begin() + c.below(keep.size())); break;
      case 3: { mallopt(M_PERTURB, (int)c.range(1, 255)); for (int z = 0; z < 20; z++) { size_t n = (size_t)c.pick({24, 100, 1000, 5000, 70000}); void *p = malloc(n); memset(p, (int)c.bits(8), n); if (c.coin()) junk.push_back(p); else free(p); } break; }
      default: { auto b = ps[0].P.mods[0].bytes; if (b.size() > 12) b.resize(8 + c.below(b.size() - 8)); b.push_back(0x7f); char *err = nullptr; b[3] ^= 1; pwart_load_module((char *)b.data(), (int)b.size(), &err); break; } }
    Rec rec; Exec e(ps[0].P, x); e.fuel_global = ps[0].fg; e.model_setup(); raw_load(e); raw_steps(e, ps[0], rec, 0, ps[0].good); same_rec(ps[0].ref, rec, "run again");
    REQUIRE(rec.v.size() == ps[0].ref.v.size(), "run again: another number of records"); x.count("runs compared");
  }
  keep.clear(); for (auto *p : junk) free(p); mallopt(M_PERTURB, 0x5a);
  for (auto &f : feat) x.count(f.first, f.second); x.count("other programs in between", other); account12(x, ps, ps[0].good > 1, 3);
}
// ---- threads ----
static void threads(Ctx &x) {
  Choices &c = x.c; std::vector<Plan> ps((size_t)c.range(1, 3)); std::map<std::string, int> feat; GenCfg g = base_cfg(x); ProgOpt o; o.nmods = (int)c.range(1, 2); o.ncalls = 4; o.cfg_random = false; if (c.coin()) { g.w_num = 20; g.w_bulk = 6; g.w_loop = 6; g.w_grow = 2; }
  int cs = c.pct(75) ? 1 : 0, cm = (c.pct(75) ? 2 : 0) | (c.pct(30) ? 1 : 0); if (!(cm & 2)) g.init_locals = true;
  int k0 = 0; pwart_get_builtin_symbols(&k0);
  for (auto &p : ps) { p.P.cfg_stack = cs; p.P.cfg_misc = cm; make_plan(x, p, g, o, 3, feat); p.P.cfg_stack = cs; p.P.cfg_misc = cm; solo(x, p); }
  std::vector<size_t> good; for (size_t k = 0; k < ps.size(); k++) if (ps[k].good > 1) good.push_back(k); if (good.empty()) { x.count("no complete step"); return; }
  int nt = (int)c.range(2, 4), mode = (int)c.below(3);      // 0 the threads load, call and free; 1 the main thread loads, they call; 2 handed from thread to thread
  struct Job { std::vector<size_t> prog; std::vector<std::unique_ptr<Exec>> e; std::string err; std::vector<Rec> rec; std::vector<size_t> at; }; std::vector<Job> jobs(nt);
  int reps = mode == 0 ? 6 : 4; 
  for (auto &j : jobs) for (int r = 0; r < reps; r++) { size_t p = c.pick(good); j.prog.push_back(p); j.rec.emplace_back(); j.at.push_back(0); if (mode) { auto e = std::make_unique<Exec>(ps[p].P, x); e->fuel_global = ps[p].fg; e->stack_size = 1 << 16; e->check_regs = false; e->model_setup(); raw_load(*e); j.e.push_back(std::move(e)); } }
  std::atomic<int> ready{0}; bool stress = c.coin();
  auto phase = [&](int half) {
    ready = 0; std::vector<std::thread> th;
    for (int t = 0; t < nt; t++) th.emplace_back([&, t] {
      Job &j = jobs[mode == 2 ? (t + half) % nt : t]; ready++; while (ready < nt) std::this_thread::yield();
      try {
        for (int r = 0; r < reps; r++) { Plan &p = ps[j.prog[r]]; Rec &rec = j.rec[r];
          if (mode == 0) { Exec e(p.P, x); e.fuel_global = p.fg; e.stack_size = 1 << 16; e.check_regs = false; e.model_setup(); raw_load(e); raw_steps(e, p, rec, 0, p.good); same_rec(p.ref, rec, "in a thread that also loads"); }
          else { Exec &e = *j.e[r]; size_t to = mode == 2 && half == 0 ? (p.good + 1) / 2 : p.good; size_t base = rec.v.size(); raw_steps(e, p, rec, j.at[r], to); j.at[r] = to; if (to == p.good) same_rec(p.ref, rec, mode == 1 ? "in a thread" : "handed from thread to thread"); (void)base; } 
          if (stress) std::this_thread::yield(); }
      } catch (CaseFail &f) { j.err = f.msg; } catch (Discard &q) { j.err = q.why; } catch (std::exception &q) { j.err = q.what(); }
      g_exec = nullptr;
    });
    for (auto &t : th) t.join();
  };
  phase(0); for (auto &j : jobs) if (!j.err.empty()) FAIL("%d threads: %s", nt, j.err.c_str()); if (mode == 2) { phase(1); for (auto &j : jobs) if (!j.err.empty()) FAIL("%d threads: %s", nt, j.err.c_str()); }
  x.count(strf("threads mode %d", mode)); x.count("thread runs compared", nt * reps); for (auto &f : feat) x.count(f.first, f.second); x.evals = nt * reps; account12(x, ps, true, mode);
}

// ---- helper functions of the library under contention: every thread runs a loop over them on its own instance ----
static void hammer(Ctx &x) {
  Choices &c = x.c; Module m; FuncType t; t.p = {I64, I32}; t.r = {I64}; FuncType tb; tb.p = {I64}; tb.r = {I64}; uint32_t T = m.addtype(t), TB = m.addtype(tb);
  struct B { const char *n; std::vector<VT> p, r; }; static const B bs[] = {{"ref_copy_bytes", {EXTERNREF, EXTERNREF, I32}, {}}, {"ref_string_length", {EXTERNREF}, {I32}}, {"memory_alloc", {I32}, {I64}}, {"memory_free", {I64}, {}}, {"ref_from_index", {I32, I32}, {EXTERNREF}}, {"ref_from_i64", {I64}, {EXTERNREF}}, {"i64_from_ref", {EXTERNREF}, {I64}}, {"host_definition", {I32}, {EXTERNREF}}};
  for (auto &b : bs) { Import i; i.mod = "pwart_builtin"; i.name = b.n; i.kind = K_FUNC; FuncType q; q.p = b.p; q.r = b.r; i.type = m.addtype(q); m.imports.push_back(i); }
  MemType mt; mt.min = 1; m.mems.push_back(mt); m.mems.push_back(mt); TableType tt; tt.min = 16; m.tables.push_back(tt); m.tables.push_back(tt); { Elem e; e.off = {Instr(0x41, 0, 0), Instr(0x0b)}; e.f = {8, 9}; m.elems.push_back(e); }
  Global gl; gl.t.t = I64; gl.init = {Instr(0x42, 0, c.bits(64)), Instr(0x0b)}; m.globals.push_back(gl);
  // f8: mixes its argument with the global; f9: the loop
  Func h; h.type = TB; h.code = {Instr(0x20, 0), Instr(0x23, 0), Instr(0x7c), Instr(0x42, 0, c.bits(64) | 1), Instr(0x7e), Instr(0x24, 0), Instr(0x23, 0), Instr(0x42, 0, 17), Instr(0x8a), Instr(0x0b)}; m.funcs.push_back(h);
  Func f; f.type = T; f.locals = {I64, I32, I32, I64}; Code k; auto e = [&](int op, uint32_t a = 0, uint64_t imm = 0, uint32_t b = 0) { k.push_back(Instr(op, a, imm, b)); }; const uint32_t SEED = 0, N = 1, H = 2, A = 3, Z = 4, P = 5; (void)Z;
  e(0x20, SEED); e(0x21, H); e(0x03, 0, 0x40);
  auto v64 = [&] { e(0x20, H); if (c.coin()) { e(0x42, 0, c.below(64)); e(c.coin() ? 0x89 : 0x8a); } }; auto v32 = [&](uint32_t mask) { v64(); e(0xa7); e(0x41, 0, mask); e(0x71); };
  auto mixin = [&](VT r) { switch (r) { case I32: e(0xad); break; case F32: e(0xbc); e(0xad); break; case F64: e(0xbd); break; default: break; } e(0x20, H); e(0x42, 0, 0x9e3779b97f4a7c15ull); e(0x7e); e(0x42, 0, 1 + c.below(62)); e(0x89); e(0x85); e(0x21, H); };
  auto flt = [&](bool d) { v64(); if (d) { if (c.coin()) e(c.coin() ? 0xb9 : 0xba); else { e(0x42, 0, 0x000fffffffffffffull); e(0x83); e(0x42, 0, 0x3ff0000000000000ull + (c.below(70) << 52)); e(0x84); e(0xbf); } } else { e(0xa7); e(0x41, 0, 0x007fffff); e(0x71); e(0x41, 0, 0x3f800000 + (uint32_t)(c.below(40) << 23)); e(0x72); e(0xbe); } };
  int n = (int)c.range(1, 6); uint64_t kinds = 0;
  for (int i = 0; i < n; i++) { int q = (int)c.below(16); kinds |= 1ull << q; switch (q) {
    case 0: v32(0x3fff); v32(0xff); v32(0x3f); e(0xfc0b, c.coin() ? 1 : 0); break;
    case 1: { uint32_t a = (uint32_t)c.below(2), b = (uint32_t)c.below(2); v32(0x3fff); v32(0x3fff); v32(0x3f); e(0xfc0a, a, 0, b); break; }
    case 2: e(0x41, 0, 0); e(0x40, (uint32_t)c.below(2)); mixin(I32); break;
    case 3: flt(true); flt(true); e((int)c.pick({0xa4, 0xa5, 0xa6})); mixin(F64); break;
    case 4: flt(true); e((int)c.pick({0x9b, 0x9c, 0x9d, 0x9e, 0x9f})); mixin(F64); break;
    case 5: flt(false); flt(false); e((int)c.pick({0x96, 0x97, 0x98})); mixin(F32); break;
    case 6: flt(false); e((int)c.pick({0x8d, 0x8e, 0x8f, 0x90, 0x91})); mixin(F32); break;
    case 7: v64(); v64(); e(0x42, 0, 1); e(0x84); e((int)c.pick({0x80, 0x82})); mixin(I64); break;
    case 8: v64(); e((int)c.pick({0x79, 0x7a, 0x7b})); mixin(I64); break;
    case 9: v64(); v64(); e((int)c.pick({0x86, 0x87, 0x88, 0x89, 0x8a})); mixin(I64); break;
    case 10: v64(); e((int)c.pick({0xb4, 0xb5})); mixin(F32); break;
    case 11: e(0x41, 0, 0); v32(0x3fff); e(0x10, 4); e(0x41, 0, 0); v32(0x3fff); e(0x10, 4); v32(0x3f); e(0x10, 0); break;
    case 12: v32(0x3ff); e(0x10, 2); e(0x22, P); e(0x10, 5); e(0x41, 0, 0); v32(0x3fff); e(0x10, 4); e(0x41, 0, 0); e(0x10, 0); e(0x20, P); e(0x10, 3); break;
    case 13: v32(7); v32(7); v32(7); e(0xfc0e, 1, 0, 0); v32(7); e(0xd2, 8); v32(7); e(0xfc11, 1); v32(15); e(0x25, 1); e(0xd1); mixin(I32); break;
    case 14: v64(); e(0x10, 8); mixin(I64); break;
    default: v64(); e(0x41, 0, 0); e(0x11, TB, 0, 0); mixin(I64); break; } 
    if (c.coin()) { v32(0x3fff); e(0x29, (uint32_t)c.below(2), 0, 0); mixin(I64); } if (c.pct(30)) { v32(0x3ff8); v64(); e(0x37, (uint32_t)c.below(2), 0, 0); } }
  e(0x20, A); e(0x41, 0, 1); e(0x6a); e(0x22, A); e(0x20, N); e(0x49); e(0x0d, 0); e(0x0b); e(0x20, H); e(0x0b);
  f.code = k; m.funcs.push_back(f); m.exports = {{"f", K_FUNC, 9}, {"m0", K_MEM, 0}, {"m1", K_MEM, 1}};
  auto b = encode(m); if (x.verbose) x.dump(show(m) + hexs(b) + "\n"); struct pwart_global_compile_config gc; gc.stack_flags = 1; gc.misc_flags = 2; pwart_set_global_compile_config(&gc); int k0; pwart_get_builtin_symbols(&k0);
  struct Out { uint64_t r, m0, m1; }; int loops = (int)c.pick({300, 2000, 6000}); int nt = (int)c.range(2, 4);
  auto mk = [&] { char *err = nullptr; pwart_module_state s = pwart_load_module((char *)b.data(), (int)b.size(), &err); REQUIRE(s, "refused: %s", err ? err : "?"); return s; };
  auto go = [&](pwart_module_state s, void *stk, uint64_t seed) { void *sp = stk; pwart_rstack_put_i64(&sp, seed); pwart_rstack_put_i32(&sp, loops); pwart_call_wasm_function(pwart_get_export_function(s, "f"), stk); sp = stk; Out o; o.r = pwart_rstack_get_i64(&sp); auto *a = pwart_get_export_memory(s, "m0"), *q = pwart_get_export_memory(s, "m1"); o.m0 = memhash(a->bytes, 65536); o.m1 = memhash(q->bytes, 65536); return o; };
  std::vector<uint64_t> seeds; std::vector<Out> want, got(nt); for (int i = 0; i < nt; i++) { seeds.push_back(c.bits(64)); auto s = mk(); void *stk = pwart_allocate_stack(65536); want.push_back(go(s, stk, seeds[i])); pwart_free_stack(stk); pwart_free_module_state(s); }
  std::vector<pwart_module_state> st; std::vector<void *> stk; for (int i = 0; i < nt; i++) { st.push_back(mk()); stk.push_back(pwart_allocate_stack(65536)); }
  std::atomic<int> ready{0}; std::vector<std::thread> th; for (int i = 0; i < nt; i++) th.emplace_back([&, i] { ready++; while (ready < nt) ; got[i] = go(st[i], stk[i], seeds[i]); }); for (auto &q : th) q.join();
  for (int i = 0; i < nt; i++) { pwart_free_stack(stk[i]); pwart_free_module_state(st[i]); }
  for (int i = 0; i < nt; i++) { REQUIRE(got[i].r == want[i].r, "thread %d of %d: the loop computed %#llx, alone it computes %#llx", i, nt, (unsigned long long)got[i].r, (unsigned long long)want[i].r); REQUIRE(got[i].m0 == want[i].m0 && got[i].m1 == want[i].m1, "thread %d of %d: memory differs from the run alone", i, nt); }
  x.evals = nt; x.count("loop iterations in threads", (uint64_t)loops * nt); x.nontrivial = true; x.hash = hash_bytes(b, loops * 8 + nt); if (x.shm->nsamples < 3) x.sample = strf("%d threads, %d iterations of: ", nt, loops) + show(m).substr(0, 1500);
}
int main(int argc, char **argv) {
  CheckDef d{"C12", "isolation: at least two instances and two steps compared; rerun and threads: at least one call completed in the solo run and was compared bit for bit with the later or concurrent ones. Identity is the module bytes, arguments and mode"};
  d.fams = {{"isolation", isolation, 60000, 800000, 100}, {"rerun", rerun, 45000, 600000, 100}, {"threads", threads, 20000, 200000, 50}, {"hammer", hammer, 6000, 200000, 25}};
  d.cpu_limit_s = 40;
  d.assumptions = {"thread schedules are those the kernel happens to choose under load; the first use of the builtin table happens on one thread", "all threads use the same global compile configuration"};
  return check_main(d, argc, argv);
}
