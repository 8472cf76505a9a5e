// C10: every resource is released exactly once, in any release order. Built with AddressSanitizer; allocations made by the
// library or by compiled code are tracked through its malloc hooks.
#include "progcheck.h"
#include "nsworld.h"
static void warm() { static bool w = false; if (!w) { int k; pwart_get_builtin_symbols(&k); w = true; } }
struct Accounting {
  Ctx &x; bool maps; size_t e0 = 0;
  Accounting(Ctx &x, int pct) : x(x) { warm(); maps = x.c.pct(pct); if (maps) e0 = exec_bytes(); Track::start(); }
  void check(const std::string &log) {
    if (Track::full) throw Discard{"too many live allocations to track"};
    x.count("blocks allocated by the library", Track::total); std::string l = Track::stop(); REQUIRE(l.empty(), "everything was released, but heap memory of the library remains: %s\n%s", l.c_str(), log.c_str());
    if (maps) { size_t e1 = exec_bytes(); REQUIRE(e1 == e0, "everything was released, but %zd bytes of executable memory remain\n%s", (ssize_t)(e1 - e0), log.c_str()); x.count("executable memory compared"); }
  }
};
// ---- linked modules, callbacks, replacement: the world of C09 ----
static void linked(Ctx &x) { Accounting a(x, 10); histories(x); a.check(""); }

// ---- independent instances of generated programs ----
struct Inst { Program P; std::unique_ptr<Exec> e; pwart_module_state st = nullptr; int ns = -1; std::string name; bool live = true; size_t tmpl; };
struct Comp { pwart_module_compiler c; int state = 0; /* 0 fresh 1 compiled 2 failed */ std::shared_ptr<Inst> in; int ns = -1; bool freed = false; };
struct Space { pwart_namespace p; std::map<std::string, std::shared_ptr<Inst>> wasm; std::map<std::string, struct pwart_host_module *> host; bool live = true; };
static void nothing(void *) {}
static void spoiled(Choices &c, Module &m, std::string &what) {
  int kind = (int)c.below(9); auto fn = [&]() -> Func & { if (m.funcs.empty()) { Func q; q.type = m.addtype({{}, {}}); q.code = {Instr(0x0b)}; m.funcs.push_back(q); m.index(); } return m.funcs[c.below(m.funcs.size())]; };
  switch (kind) {
    case 0: { Instr i(RAWOP); i.tbl = {0xfd, 0x0c, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 0x1a}; Func &f = fn(); f.code.insert(f.code.begin(), i); what = "v128.const"; break; }
    case 1: { Instr i(RAWOP); i.tbl = {0x41, 0, 0x04, 0x40, 0x03, 0x40, 0x20, 0, 0xfe, 3, 0, 0x0b, 0x0b}; Func &f = fn(); f.locals.insert(f.locals.begin(), I32); f.code.insert(f.code.begin(), i); what = "atomic.fence inside blocks"; break; }
    case 2: { Data d; d.mode = 1; d.bytes = {1, 2}; m.datas.insert(m.datas.begin() + c.below(m.datas.size() + 1), d); what = "passive data"; break; }
    case 3: { Import i{"no", "such", (int)c.below(4)}; i.type = m.addtype({{}, {}}); m.imports.push_back(i); what = "unresolved import"; break; }
    case 4: { m.exports.insert(m.exports.begin() + c.below(m.exports.size() + 1), Export{std::string(300, 'e'), K_FUNC, 0}); fn(); what = "long export name"; break; }
    case 5: { Func &f = fn(); f.locals.assign(51000, I64); what = "too many locals"; break; }
    case 6: { FuncType t; t.p.assign(300, I32); m.types.push_back(t); what = "too many parameters"; break; }
    case 7: { Func &f = fn(); Code q; for (int k = 0; k < 9000; k++) q.push_back(Instr(0x42, 0, 1)); for (int k = 0; k < 9000; k++) q.push_back(Instr(0x1a)); f.code.insert(f.code.begin(), q.begin(), q.end()); what = "operand stack too deep"; break; }
    default: { if (m.mtype.empty()) { MemType t; m.mems.push_back(t); m.index(); } Data d; d.off = {Instr(m.mtype[0].is64 ? 0x42 : 0x41, 0, 0x7ffffff0), Instr(0x0b)}; d.bytes = {1}; m.datas.push_back(d); what = "data out of bounds"; break; }
  }
}
static void lifecycle(Ctx &x) {
  Choices &c = x.c; Accounting acc(x, 15); GenCfg g; g.budget = x.thorough ? 60 : 35; g.nfuncs = 4; g.refs = c.coin(); g.imports = false; g.start = c.coin(); if (c.pct(15)) { g.maxlocals = 40; g.nfuncs = 10; }
  std::vector<Program> T; size_t nt = (size_t)c.range(1, 3); for (size_t k = 0; k < nt; k++) { Gen gen(c, g); Avail av; gen.module(av); ModDef d; d.name = "t" + std::to_string(k); d.m = std::make_shared<Module>(gen.m); d.bytes = encode(gen.m); Program P; P.mods.push_back(d); P.fuelv = 3; T.push_back(P); T.back().host.clear(); T.back().cfg_stack = 1; T.back().cfg_misc = 2; show_program(x, T.back()); }
  std::vector<int> fuelg; // the recursion budget global of each template: exported like every global
  struct pwart_global_compile_config gc; gc.stack_flags = 1; gc.misc_flags = 2; pwart_set_global_compile_config(&gc);
  std::string log; auto say = [&](const std::string &s) { log += s + "\n"; x.dump(s + "\n"); };
  std::vector<std::shared_ptr<Inst>> insts; std::vector<Comp> comps; std::vector<Space> spaces; struct St { void *p; int n; uint8_t b; }; std::vector<St> stacks; std::vector<void *> wr; std::vector<struct pwart_host_module *> hosts; std::vector<bool> hlive;
  static const char *hn[] = {"x"}; static pwart_host_function_c hf[] = {nothing};
  uint64_t calls = 0, failed = 0, freed_live = 0;
  auto mk = [&](size_t t) { auto i = std::make_shared<Inst>(); i->tmpl = t; i->P = T[t]; i->e.reset(new Exec(i->P, x)); i->e->stack_size = 1 << 16; i->e->model_setup(); return i; };
  auto loaded = [&](std::shared_ptr<Inst> i, pwart_module_state s, const char *how) { { InPw in; i->e->stack = pwart_allocate_stack((int)i->e->stack_size); } i->st = s; i->e->attach_state(0, s); i->e->compare_state(std::string("after ") + how); insts.push_back(i); say(strf("i%zu = t%zu (%s)", insts.size() - 1, i->tmpl, how)); };
  auto release = [&](Inst &i) { i.live = false; i.e->st.clear(); i.e->close(); freed_live++; };
  auto idx = [&](std::shared_ptr<Inst> i) { for (size_t k = 0; k < insts.size(); k++) if (insts[k] == i) return (int)k; return -1; };
  auto leave = [&](Space &s, std::string nm) { auto a = s.wasm.find(nm); if (a != s.wasm.end()) { release(*a->second); s.wasm.erase(a); } s.host.erase(nm); };
  auto name = [&]() { return std::string(1, (char)('a' + c.below(4))); };
  auto livespace = [&]() -> int { std::vector<int> v; for (size_t k = 0; k < spaces.size(); k++) if (spaces[k].live) v.push_back((int)k); return v.empty() ? -1 : c.pick(v); };
  auto livecomp = [&](int st) -> int { std::vector<int> v; for (size_t k = 0; k < comps.size(); k++) if (!comps[k].freed && (st < 0 || comps[k].state == st)) v.push_back((int)k); return v.empty() ? -1 : c.pick(v); };
  auto liveinst = [&](bool loose) -> int { std::vector<int> v; for (size_t k = 0; k < insts.size(); k++) if (insts[k]->live && (!loose || insts[k]->ns < 0)) v.push_back((int)k); return v.empty() ? -1 : c.pick(v); };
  auto fault = [&](std::string &what) { Module m = *T[c.below(nt)].mods[0].m; spoiled(c, m, what); return encode(m); };
  auto freecomp = [&](int k) { say(strf("free compiler c%d", k)); char *e; { InPw in; e = pwart_free_module_compiler(comps[k].c); } REQUIRE(!e, "pwart_free_module_compiler: %s", e); comps[k].freed = true; };
  auto freestack = [&](size_t k) { St s = stacks[k]; for (int q = 0; q < s.n; q++) REQUIRE(((uint8_t *)s.p)[q] == s.b, "byte %d of a stack changed while it was allocated\n%s", q, log.c_str()); { InPw in; pwart_free_stack(s.p); } stacks.erase(stacks.begin() + k); };
  auto delspace = [&](int k) { say(strf("delete n%d", k)); while (!spaces[k].wasm.empty()) leave(spaces[k], spaces[k].wasm.begin()->first); InPw in; char *e = pwart_namespace_delete(spaces[k].p); REQUIRE(!e, "pwart_namespace_delete: %s", e); spaces[k].live = false; spaces[k].host.clear(); };
  auto hostused = [&](struct pwart_host_module *h) { for (auto &s : spaces) if (s.live) for (auto &q : s.host) if (q.second == h) return true; return false; };
  int n = (int)c.range(4, x.thorough ? 80 : 40);
  for (int step = 0; step < n; step++) switch (c.weighted({8, 10, 5, 4, 5, 8, 6, 4, 2, 5, 20, 4, 3, 3, 3})) {
    case 0: { Comp q; { InPw in; q.c = pwart_new_module_compiler(); } q.ns = c.coin() ? livespace() : -1; if (q.ns >= 0) { InPw in; pwart_set_symbol_resolver(q.c, pwart_namespace_resolver(spaces[q.ns].p)); } comps.push_back(q); say(strf("c%zu = new compiler", comps.size() - 1)); break; }
    case 1: { int k = livecomp(0); if (k < 0) break; Comp &q = comps[k]; if (q.ns >= 0 && !spaces[q.ns].live) { InPw in; pwart_set_symbol_resolver(q.c, nullptr); q.ns = -1; }
      size_t t = c.below(nt); auto i = mk(t); std::vector<uint8_t> b = T[t].mods[0].bytes; char *e; { InPw in; e = pwart_compile(q.c, (char *)b.data(), (int)b.size()); } REQUIRE(!e, "t%zu refused: %s\n%s", t, e, log.c_str()); std::fill(b.begin(), b.end(), 0xee);
      pwart_module_state s = pwart_get_module_state(q.c); REQUIRE(s, "no module state"); q.state = 1; q.in = i; loaded(i, s, strf("compiled by c%d", k).c_str()); break; }
    case 2: { int k = livecomp(0); if (k < 0) break; Comp &q = comps[k]; if (q.ns >= 0 && !spaces[q.ns].live) { InPw in; pwart_set_symbol_resolver(q.c, nullptr); q.ns = -1; } std::string w; auto b = fault(w); char *e; { InPw in; e = pwart_compile(q.c, (char *)b.data(), (int)b.size()); } REQUIRE(e, "%s accepted", w.c_str()); q.state = 2; failed++; say(strf("c%d fails: %s", k, w.c_str())); break; }
    case 3: { std::string w; bool bad = c.coin(); std::vector<uint8_t> b; size_t t = c.below(nt); b = bad ? fault(w) : T[t].mods[0].bytes; char *e = nullptr; pwart_module_state s; auto i = bad ? nullptr : mk(t); bool noerr = bad && c.coin(); { InPw in; s = (pwart_module_state)pwart_load_module((char *)b.data(), (int)b.size(), noerr ? nullptr : &e); } REQUIRE(bad == !s, "pwart_load_module of a %s module: %s", bad ? "faulty" : "good", e ? e : ""); if (s) loaded(i, s, "pwart_load_module"); else { failed++; say("pwart_load_module fails: " + w); } break; }
    case 4: { int k = livecomp(-1); if (k >= 0) freecomp(k); break; }
    case 5: { int k = liveinst(true); if (k < 0) break; say(strf("free i%d", k)); auto *q = insts[k].get(); char *e; { InPw in; e = pwart_free_module_state(q->st); } REQUIRE(!e, "pwart_free_module_state: %s", e); release(*q); break; }
    case 6: { if (spaces.size() > 5) break; Space s; { InPw in; s.p = pwart_namespace_new(); } spaces.push_back(s); say(strf("n%zu = new namespace", spaces.size() - 1)); break; }
    case 7: { int s = livespace(), k = liveinst(true); if (s < 0 || k < 0) break; std::string nm = name(); say(strf("n%d.%s = i%d", s, nm.c_str(), k)); leave(spaces[s], nm); struct pwart_named_module q; q.name = nm.c_str(); q.type = PWART_MODULE_TYPE_WASM_MODULE; q.val.wasm = insts[k]->st; { InPw in; pwart_namespace_define_module(spaces[s].p, &q); } insts[k]->ns = s; insts[k]->name = nm; spaces[s].wasm[nm] = insts[k]; break; }
    case 8: { int s = livespace(); if (s >= 0) delspace(s); break; }
    case 9: { int s = livespace(); if (s < 0) break; std::string nm = name(); if (c.pct(25)) { std::string w; auto b = fault(w); char *e = nullptr; pwart_module_state st; { InPw in; st = (pwart_module_state)pwart_namespace_define_wasm_module(spaces[s].p, nm.c_str(), (char *)b.data(), (int)b.size(), &e); } REQUIRE(!st && e, "%s accepted", w.c_str()); failed++; say(strf("n%d.%s fails: %s", s, nm.c_str(), w.c_str())); break; }
      size_t t = c.below(nt); auto i = mk(t); leave(spaces[s], nm); char *e = nullptr; auto &b = T[t].mods[0].bytes; pwart_module_state st; { InPw in; st = (pwart_module_state)pwart_namespace_define_wasm_module(spaces[s].p, nm.c_str(), (char *)b.data(), (int)b.size(), &e); } REQUIRE(st, "t%zu refused: %s", t, e ? e : ""); loaded(i, st, strf("n%d.%s", s, nm.c_str()).c_str()); i->ns = s; i->name = nm; spaces[s].wasm[nm] = i; break; }
    case 10: { int k = liveinst(false); if (k < 0) break; Inst &q = *insts[k]; auto &m = *q.P.mods[0].m; CallPlan cp; cp.mod = 0; cp.func = (uint32_t)c.below(m.ftype.size()); for (auto t : m.types[m.ftype[cp.func]].p) cp.args.push_back(argval(c, t)); cp.sp_off = (int)c.below(4) * 8; g_exec = q.e.get(); q.P.calls = {cp}; q.e->check_regs = false;
      // the generator's recursion budget is an exported mutable i32 global named by the template; without setting it the run is still finite
      if (q.e->stopped) break; if (q.e->step(0)) calls++; break; }
    case 11: { int s = livespace(); if (s < 0) break; std::string nm = name(); if (c.pct(10)) nm = "zz"; say(strf("remove n%d.%s", s, nm.c_str())); leave(spaces[s], nm); char *e; { InPw in; e = pwart_namespace_remove_module(spaces[s].p, nm.c_str()); } REQUIRE(!e, "pwart_namespace_remove_module: %s", e); break; }
    case 12: { struct St q; q.n = (int)c.pick({16, 64, 100, 4096, 1, 17, 31, 1000}); q.b = (uint8_t)c.below(256); { InPw in; q.p = pwart_allocate_stack(q.n); } REQUIRE(((uintptr_t)q.p & 15) == 0, "stack of %d bytes at %p is not aligned to 16", q.n, q.p); memset(q.p, q.b, q.n); stacks.push_back(q); if (stacks.size() > 3) freestack(c.below(stacks.size())); break; }
    case 13: { struct pwart_host_module *h; bool v1 = c.coin(); { InPw in; h = v1 ? pwart_namespace_new_host_module(hn, hf, 1) : pwart_namespace_new_host_module2(hn, (void **)hf, 1); } hosts.push_back(h); hlive.push_back(true); int s = livespace(); if (s >= 0) { std::string nm = name(); say(strf("n%d.%s = host", s, nm.c_str())); leave(spaces[s], nm); { InPw in; pwart_namespace_define_host_module(spaces[s].p, nm.c_str(), h); } spaces[s].host[nm] = h; } break; }
    case 14: { if (!hosts.empty()) { size_t k = c.below(hosts.size()); if (hlive[k] && !hostused(hosts[k])) { InPw in; pwart_namespace_delete_host_module(hosts[k]); hlive[k] = false; } } { void *w; { InPw in; w = pwart_wrap_host_function_c(nothing); } if (c.coin()) wr.push_back(w); else { InPw in; pwart_free_wrapped_function(w); } } break; }
  }
  for (auto &i : insts) if (i->live && !i->e->stopped) i->e->compare_state("at the end");
  // release everything, in any order
  std::vector<int> todo; for (size_t k = 0; k < comps.size(); k++) if (!comps[k].freed) todo.push_back((int)k); for (size_t k = 0; k < insts.size(); k++) if (insts[k]->live && insts[k]->ns < 0) todo.push_back(1000 + (int)k); for (size_t k = 0; k < spaces.size(); k++) if (spaces[k].live) todo.push_back(2000 + (int)k); for (size_t k = 0; k < stacks.size(); k++) todo.push_back(3000);
  while (!todo.empty()) { size_t p = c.below(todo.size()); int q = todo[p]; todo.erase(todo.begin() + p); if (q < 1000) freecomp(q); else if (q < 2000) { say(strf("free i%d", q - 1000)); { InPw in; pwart_free_module_state(insts[q - 1000]->st); } release(*insts[q - 1000]); } else if (q < 3000) delspace(q - 2000); else freestack(c.below(stacks.size()));
    int k = liveinst(false); if (k >= 0 && c.coin() && !insts[k]->e->stopped) { Inst &i = *insts[k]; g_exec = i.e.get(); i.e->compare_state(strf("i%d while others are released", k)); } }
  for (size_t k = 0; k < hosts.size(); k++) if (hlive[k]) { InPw in; pwart_namespace_delete_host_module(hosts[k]); } for (auto *w : wr) { InPw in; pwart_free_wrapped_function(w); }
  (void)idx; insts.clear(); comps.clear();
  acc.check(log);
  x.count("calls compared", calls); x.count("failed compilations", failed); x.count("instances released", freed_live); x.nontrivial = freed_live > 0 && calls > 0; uint64_t h = 7; for (char ch : log) h = (h ^ (unsigned char)ch) * 1099511628211ull; for (auto &t : T) h = hash_bytes(t.mods[0].bytes, h); x.hash = h; if (x.shm->nsamples < 3) x.sample = log.substr(0, 2500);
}
int main(int argc, char **argv) {
  CheckDef d{"C10", "lifecycle: at least one instance was called (results and state compared with the model) and at least one was released; linked: as C09. Identity is the text of the history and the module bytes"};
  d.fams = {{"lifecycle", lifecycle, 40000, 1500000, 50}, {"linked", linked, 25000, 1000000, 50}};
  d.assumptions = {"heap accounting covers every malloc/realloc made while library or compiled code runs; one-time tables of the process (the builtin symbol list) are created beforehand", "modules whose imports were freed are not used afterwards"};
  return check_main(d, argc, argv);
}
