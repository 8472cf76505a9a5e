// C06: configurations never change results. The same program under every flag combination, each compared with the model.
#include "progcheck.h"
static void all_configs(Ctx &x, GenCfg g, ProgOpt o) {
  Program P; std::vector<int> fg; std::map<std::string, int> feat; o.cfg_random = false;
  g.init_locals = x.c.pct(60);
  gen_program(x, P, g, o, fg, feat); show_program(x, P);
  int runs = 0, steps = -1;
  for (int st = 0; st < 2; st++) for (int mi = 0; mi < 4; mi++) {
    if (!(mi & 2) && !g.init_locals) continue;
    P.cfg_stack = st; P.cfg_misc = mi; x.dump(strf("configuration stack_flags=%d misc_flags=%d\n", st, mi));
    Exec e(P, x); e.fuel_global = fg;
    try { e.run(); } catch (CaseFail &f) { FAIL("stack_flags=%d misc_flags=%d: %s", st, mi, f.msg.c_str()); }
    REQUIRE(steps < 0 || steps == e.steps_done, "stack_flags=%d misc_flags=%d: %d calls completed, %d in the first configuration", st, mi, e.steps_done, steps);
    steps = e.steps_done; runs++;
    if (runs == 1) { x.count(e.stopped ? std::string("stopped: ") + e.stopped : std::string("history complete")); x.count("instructions executed by the model", e.I.st.ops); }
  }
  // the default configuration is the documented one and programs run the same under it
  struct pwart_global_compile_config q; memset(&q, 0x55, sizeof q); pwart_get_global_compile_config(&q);
  REQUIRE(q.stack_flags == 1 && q.misc_flags == 3, "pwart_get_global_compile_config returns %d/%d after setting 1/3", q.stack_flags, q.misc_flags);
  for (auto &f : feat) x.count(f.first, f.second);
  x.count("configuration runs", runs); x.evals = runs;
  if (steps > 0) { x.nontrivial = true; uint64_t h = 1; for (auto &m : P.mods) h = hash_bytes(m.bytes, h); x.hash = h; sample_program(x, P); }
}
static void mixed(Ctx &x) { GenCfg g; ProgOpt o; o.nmods = x.c.pct(25) ? 2 : 1; all_configs(x, g, o); }
static void calls(Ctx &x) { GenCfg g; g.w_call = 12; g.w_icall = 6; g.w_host = 8; g.w_tail = 4; g.maxparams = 12; g.maxres = 6; g.maxlocals = 16; g.w_local = 20; ProgOpt o; o.nmods = x.c.pct(30) ? 2 : 1; o.nhost = 6; all_configs(x, g, o); }
static void memory(Ctx &x) { GenCfg g; g.w_mem = 25; g.w_bulk = 6; g.w_grow = 4; g.nmems = 3; g.mem64 = x.c.pct(30); ProgOpt o; o.nmods = x.c.pct(30) ? 2 : 1; all_configs(x, g, o); }
// A fresh process has the documented default: aligned stack, zero-initialised locals.
static void defaults(Ctx &x) {
  struct pwart_global_compile_config d; memset(&d, 0x55, sizeof d);
  static struct pwart_global_compile_config first; static bool got; if (!got) { got = true; char *e = pwart_get_global_compile_config(&first); REQUIRE(!e, "pwart_get_global_compile_config: %s", e); }
  d = first; REQUIRE(d.stack_flags == PWART_STACK_FLAGS_AUTO_ALIGN, "default stack_flags %d, documented: AUTO_ALIGN set", d.stack_flags);
  REQUIRE(d.misc_flags & PWART_MISC_FLAGS_LOCALS_ZERO_INIT, "default misc_flags %d, documented: LOCALS_ZERO_INIT set", d.misc_flags);
  // set / get round trip
  struct pwart_global_compile_config s, g; s.stack_flags = (char)x.c.below(2); s.misc_flags = (char)x.c.below(4); char *e = pwart_set_global_compile_config(&s); REQUIRE(!e, "pwart_set_global_compile_config: %s", e);
  e = pwart_get_global_compile_config(&g); REQUIRE(!e && g.stack_flags == s.stack_flags && g.misc_flags == s.misc_flags, "configuration %d/%d read back as %d/%d", s.stack_flags, s.misc_flags, g.stack_flags, g.misc_flags);
  x.nontrivial = true; x.hash = 1 + s.stack_flags * 4 + s.misc_flags; if (x.shm->nsamples < 1) x.sample = strf("set/get %d/%d", s.stack_flags, s.misc_flags);
}
int main(int argc, char **argv) {
  CheckDef d{"C06", "a case is one program run under every flag combination it is claimed for (8, or 4 when it relies on zero-initialised locals); non-trivial when at least one call completed and was compared in each; identity is the module bytes"};
  d.fams = {{"mixed", mixed, 60000, 1500000, 50}, {"calls", calls, 60000, 1500000, 50}, {"memory", memory, 40000, 1000000, 50}, {"defaults", defaults, 40, 100, 5}};
  return check_main(d, argc, argv);
}
