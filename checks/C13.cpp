// C13: generated LIR programs run as machine code must leave what the documentation of each instruction says.
#include "../src/lirrun.h"
namespace {
void program(Ctx &x) {
  Choices &c = x.c; map_regions(); Prog P; GOpt go; go.maxsteps = x.thorough ? 80 : 45; Gen2 g(c, P, go); g.program();
  if (x.verbose) x.dump(show(P));
  Em e; e.start(P); if (getenv("LIR_VERBOSE")) sljit_compiler_verbose(e.c, stderr);
  e.all(P); int err = sljit_get_compiler_error(e.c); if (e.bad || err != SLJIT_SUCCESS) { sljit_free_compiler(e.c); FAIL("a valid program was refused: error %d", err); }
  void *code = sljit_generate_code(e.c, 0, NULL); REQUIRE(code, "code generation failed: %d", sljit_get_compiler_error(e.c));
  Built B; try { B.take(P, e); } catch (...) { sljit_free_compiler(e.c); sljit_free_code(code, NULL); throw; }
  sljit_free_compiler(e.c); RunStat S; try { S = run_built(x, g, P, code, B, 3); } catch (...) { sljit_free_code(code, NULL); throw; }
  sljit_free_code(code, NULL);
  size_t ns = 0; for (auto &f : P.f) ns += f.s.size(); for (auto &f : P.f) for (auto &t : f.s) x.count(std::string("instr ") + knames[t.k]);
  if (!S.ok) throw Discard{S.why};
  x.evals = S.ok; x.nontrivial = S.ok >= 1 && ns >= 12; std::string sp = show(P); x.hash = 1; for (unsigned char ch : sp) x.hash = (x.hash ^ ch) * 1099511628211ull; if (x.shm->nsamples < 3 && x.nontrivial && sp.size() < 3500) x.sample = sp;
}
}
int main(int argc, char **argv) {
  CheckDef d{"C13", "the program has at least twelve instructions and at least one of its three runs had a fully defined path and was compared. Identity is the instruction listing"};
  d.fams = {{"program", program, 1500000, 30000000, 200}};
  d.assumptions = {"results the documentation leaves undefined (NaN payloads, shift counts out of range, upper halves after 32-bit operations, unordered basic comparisons, out-of-range conversions) are not compared", "SIMD and atomic operations are not generated"};
  return check_main(d, argc, argv);
}
