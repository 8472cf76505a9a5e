// Runs one generated program case; shared by the checks that differ only in what they generate.
#pragma once
#include "exec.h"

static inline void sample_program(Ctx &x, Program &P) {
  if (!x.nontrivial || x.shm->nsamples >= 3) return;
  std::string s = strf("config stack=%d misc=%d; ", P.cfg_stack, P.cfg_misc);
  for (auto &d : P.mods) s += d.name + ":\n" + show(*d.m);
  for (auto &cp : P.calls) { s += strf("call %s.f%u(", P.mods[cp.mod].name.c_str(), cp.func); for (auto &v : cp.args) s += strf("%s:%#llx ", vtname(v.t), (unsigned long long)v.b); s += ") "; }
  if (s.size() > 2400) s = s.substr(0, 2400) + " ...";
  x.sample = s;
}
// Counts of what a case exercised. A case is non-trivial when at least one call ran to completion in the model and in pwart,
// was compared, and the program contains the feature class `need` (nullptr: any).
static inline void account(Ctx &x, Program &P, Exec &e, const std::map<std::string, int> &feat, bool relevant) {
  x.count(e.stopped ? std::string("stopped: ") + e.stopped : std::string("history complete"));
  for (auto &f : feat) x.count(f.first, f.second);
  x.count("instructions executed by the model", e.I.st.ops); x.count("calls compared", e.steps_done);
  x.count(strf("config stack %d misc %d", P.cfg_stack, P.cfg_misc));
  if (e.steps_done && relevant) { x.nontrivial = true; uint64_t h = 1; for (auto &m : P.mods) h = hash_bytes(m.bytes, h); for (auto &c : P.calls) for (auto &a : c.args) h = mix64(h ^ a.b); x.hash = h; sample_program(x, P); }
}
static inline void program_case(Ctx &x, const GenCfg &cfg, const ProgOpt &o, std::function<bool(const Stats &)> relevant, bool regs = true) {
  Program P; std::vector<int> fg; std::map<std::string, int> feat;
  gen_program(x, P, cfg, o, fg, feat); show_program(x, P);
  Exec e(P, x); e.fuel_global = fg; e.check_regs = regs; e.run();
  account(x, P, e, feat, relevant(e.I.st));
}
