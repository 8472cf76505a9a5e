// C14: a compiler saved and restored at any instruction boundary goes on to the same program; buffers that are
// truncated or of another signature, version or debug state are refused.
#include "../src/lirrun.h"
#include <malloc.h>
namespace {
const size_t ARENA = 1 << 20;
uint8_t *code_arena() { static uint8_t *p = nullptr; if (!p) { p = (uint8_t *)mmap((void *)0x7e3000000000, ARENA, PROT_READ | PROT_WRITE | PROT_EXEC, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0); if (p == MAP_FAILED) _exit(3); } return p; }
// a copy of a buffer whose last byte is the last readable one
uint8_t *guard_end() { static uint8_t *e = nullptr; if (!e) { size_t n = 4 << 20; uint8_t *p = (uint8_t *)mmap(NULL, n + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); if (p == MAP_FAILED) _exit(3); mprotect(p + n, 4096, PROT_NONE); e = p + n; } return e; }
sljit_uw *place(const void *b, size_t n) { uint8_t *p = guard_end() - n; memcpy(p, b, n); return (sljit_uw *)p; }
struct Pt { int f, s; };   // s = -1: enter, f = number of functions: data
std::vector<Pt> points(const Prog &P) { std::vector<Pt> v; for (size_t f = 0; f < P.f.size(); f++) { v.push_back({(int)f, -1}); for (size_t s = 0; s < P.f[f].s.size(); s++) v.push_back({(int)f, (int)s}); } if (P.data.size()) v.push_back({(int)P.f.size(), 0}); return v; }
void emit(Em &e, const Prog &P, Pt p) { if (p.f == (int)P.f.size()) e.data(P); else if (p.s < 0) e.enter(P.f[p.f]); else e.step(P.f[p.f].s[p.s], p.f, p.s); }
std::vector<uint64_t> ser(sljit_compiler *c, s32 opt = 0) { sljit_uw n = 12345; sljit_uw *b = sljit_serialize_compiler(c, opt, &n); REQUIRE(b, "serializing failed (error %d)", sljit_get_compiler_error(c)); std::vector<uint64_t> v(b, b + n / 8); bool odd = n % 8; SLJIT_FREE(b, NULL); REQUIRE(!odd, "a serialized size of %llu bytes", (unsigned long long)n); return v; }
sljit_compiler *restore(const std::vector<uint64_t> &v) { sljit_uw *b = place(v.data(), v.size() * 8); sljit_compiler *n = sljit_deserialize_compiler(b, v.size() * 8, 0, NULL); memset(b, 0xcc, v.size() * 8); REQUIRE(n, "a buffer made by the serializer was refused"); return n; }
void same_jumps(sljit_compiler *a, sljit_compiler *b) {
  auto p = sljit_get_first_jump(a), q = sljit_get_first_jump(b); int i = 0; for (; p && q; p = sljit_get_next_jump(p), q = sljit_get_next_jump(q), i++) {
    REQUIRE(!sljit_jump_has_label(p) == !sljit_jump_has_label(q) && !sljit_jump_has_target(p) == !sljit_jump_has_target(q) && !sljit_jump_is_mov_addr(p) == !sljit_jump_is_mov_addr(q), "jump %d changed kind by serializing", i);
    if (sljit_jump_has_target(p)) REQUIRE(sljit_jump_get_target(p) == sljit_jump_get_target(q), "jump %d changed target by serializing", i);
    if (sljit_jump_has_label(p)) REQUIRE(sljit_get_label_index(sljit_jump_get_label(p)) == sljit_get_label_index(sljit_jump_get_label(q)), "jump %d refers to another label after restoring", i); }
  auto l = sljit_get_first_label(a), m = sljit_get_first_label(b); for (; l && m; l = sljit_get_next_label(l), m = sljit_get_next_label(m)) REQUIRE(sljit_get_label_index(l) == sljit_get_label_index(m), "labels are enumerated in another order"); REQUIRE(!l && !m, "another number of labels after restoring");
}
struct Cut { int at, mode; };
struct Gc { sljit_compiler *c; ~Gc() { if (c) sljit_free_compiler(c); } };

void resume(Ctx &x) {
  Choices &c = x.c; map_regions(); Prog P; GOpt go; bool big = c.pct(6); go.maxsteps = big ? 500 : 40; Gen2 g(c, P, go); g.program(); if (x.verbose) x.dump(show(P));
  auto pts = points(P); int nc = 1 + c.weighted({6, 3, 2, 1}); std::vector<Cut> cuts; for (int i = 0; i < nc; i++) cuts.push_back({(int)c.below(pts.size() + 1), c.weighted({8, 2, 2, 3})});
  std::sort(cuts.begin(), cuts.end(), [](const Cut &a, const Cut &b) { return a.at < b.at; });
  if (x.verbose) { std::string s = "cuts:"; for (auto &k : cuts) s += strf(" before point %d of %zu mode %d;", k.at, pts.size(), k.mode); x.dump(s + "\n"); }
  sljit_generate_code_buffer gb{}; gb.buffer = code_arena(); gb.size = ARENA; gb.executable_offset = 0;
  std::vector<uint8_t> ref; {
    Em a; a.start(P); Gc gc{a.c}; a.all(P); REQUIRE(!a.bad && sljit_get_compiler_error(a.c) == SLJIT_SUCCESS, "a valid program was refused");
    void *code = sljit_generate_code(a.c, SLJIT_GENERATE_CODE_BUFFER, &gb); REQUIRE(code, "code generation failed: %d", sljit_get_compiler_error(a.c)); Built B; B.take(P, a); size_t n = sljit_get_generated_code_size(a.c); ref.assign((uint8_t *)code_arena(), (uint8_t *)code_arena() + n); }
  memset(code_arena(), 0xcc, ref.size() + 64);
  Em e; e.start(P); Gc gc{e.c}; size_t ci = 0; int frags = 0;
  for (int i = 0; i <= (int)pts.size(); i++) {
    for (; ci < cuts.size() && cuts[ci].at == i; ci++) {
      auto b = ser(e.c); x.count(strf("cut mode %d", cuts[ci].mode)); if (b.size() * 8 > 5000) x.count("cut with more than one code fragment");
      if (cuts[ci].mode == 1) continue;                            // go on with the saved compiler
      sljit_compiler *n = restore(b);
      if (cuts[ci].mode == 2) { try { same_jumps(e.c, n); } catch (...) { sljit_free_compiler(n); throw; } sljit_free_compiler(n); continue; }
      if (cuts[ci].mode == 3) { auto b2 = ser(n); sljit_free_compiler(n); REQUIRE(b2.size() == b.size(), "saving a restored compiler gives %zu bytes instead of %zu", b2.size() * 8, b.size() * 8); n = restore(b2); }
      Gc old{e.c}; gc.c = n; same_jumps(old.c, n); e.move_to(n);
    }
    if (i < (int)pts.size()) emit(e, P, pts[i]);
    REQUIRE(sljit_get_compiler_error(e.c) == SLJIT_SUCCESS, "compiler error %d at point %d", sljit_get_compiler_error(e.c), i);
  }
  void *code = sljit_generate_code(e.c, SLJIT_GENERATE_CODE_BUFFER, &gb); REQUIRE(code, "code generation failed after restoring: %d", sljit_get_compiler_error(e.c));
  Built B; B.take(P, e); size_t n = sljit_get_generated_code_size(e.c); bool same = n == ref.size() && !memcmp(ref.data(), code_arena(), n); x.count(same ? "identical machine code" : "different machine code");
  sljit_free_compiler(e.c); gc.c = nullptr; (void)frags;
  RunStat S = run_built(x, g, P, code, B, same ? 2 : 24);
  if (!S.ok) throw Discard{S.why};
  x.evals = S.ok; bool inside = false; for (auto &k : cuts) if (k.mode != 1 && k.at > 0 && k.at < (int)pts.size()) inside = true;
  x.nontrivial = inside && pts.size() >= 8; std::string sp = show(P); x.hash = 1; for (unsigned char ch : sp) x.hash = (x.hash ^ ch) * 1099511628211ull; for (auto &k : cuts) x.hash = mix64(x.hash ^ (k.at * 8 + k.mode)); if (x.shm->nsamples < 3 && x.nontrivial && sp.size() < 3000) { std::string s = sp + "cuts:"; for (auto &k : cuts) s += strf(" %d/%d", k.at, k.mode); x.sample = s; }
}
void refuse(Ctx &x) {
  Choices &c = x.c; map_regions(); Prog P; GOpt go; go.maxsteps = c.pct(5) ? 400 : 30; Gen2 g(c, P, go); g.program(); auto pts = points(P); int cut = (int)c.below(pts.size() + 1); if (x.verbose) x.dump(show(P) + strf("cut at %d\n", cut));
  Em e; e.start(P); Gc gc{e.c}; for (int i = 0; i < cut; i++) emit(e, P, pts[i]);
  auto b = ser(e.c); size_t n = b.size() * 8; uint64_t tried = 0; size_t before = mallinfo2().uordblks;
  auto no = [&](const void *p, size_t k, const std::string &what) { sljit_uw *q = place(p, k); sljit_compiler *r = sljit_deserialize_compiler(q, k, 0, NULL); tried++; if (r) { sljit_free_compiler(r); FAIL("%s of a %zu byte buffer was accepted", what.c_str(), n); } };
  int m = n < 1200 ? -1 : 40; if (m < 0) for (size_t k = 0; k < n; k += 8) no(b.data(), k, strf("the first %zu bytes", k)); else for (int i = 0; i < m; i++) { size_t k = i < 12 ? n - 8 * (i + 1) : 8 * c.below(n / 8); no(b.data(), k, strf("the first %zu bytes", k)); }
  for (int i = 0; i < 4; i++) { size_t k = c.below(n); if (k % 8) { std::vector<uint64_t> w(b.size()); memcpy(w.data(), b.data(), n); sljit_compiler *r = sljit_deserialize_compiler(w.data(), k, 0, NULL); tried++; if (r) { sljit_free_compiler(r); FAIL("the first %zu bytes of a %zu byte buffer were accepted", k, n); } } }
  for (int i = 0; i < 6; i++) { auto w = b; int bit = i < 3 ? (int)c.below(32) : 32 + (int)c.below(16); w[0] ^= 1ull << bit; no(w.data(), n, strf("a copy with bit %d of the signature and version changed", bit)); }
#if SLJIT_DEBUG || SLJIT_ARGUMENT_CHECKS
  { auto w = ser(e.c, SLJIT_SERIALIZE_IGNORE_DEBUG); no(w.data(), w.size() * 8, "a version without debug information"); REQUIRE(w.size() < b.size(), "leaving out the debug information does not make the buffer smaller"); }
#endif
  size_t after = mallinfo2().uordblks; (void)before; (void)after;
  // the good one still works, and the compiler is unaffected
  sljit_compiler *r = restore(b); sljit_free_compiler(r); auto b2 = ser(e.c); REQUIRE(b2.size() == b.size(), "the size changed by serializing");
  x.evals = tried; x.nontrivial = cut > 2; x.hash = mix64(n * 131 + cut); for (auto v : b) x.hash = mix64(x.hash ^ v);
}
}
int main(int argc, char **argv) {
  CheckDef d{"C14", "resume: at least one cut lies strictly inside the program and the restored compiler replaced the original, and at least one run had a defined outcome; refuse: the cut is after the first two instructions. Identity is the program with its cuts, or the buffer"};
  d.fams = {{"resume", resume, 1200000, 24000000, 100}, {"refuse", refuse, 100000, 2000000, 100}};
  d.assumptions = {"buffers given to the restorer were made by the serializer of the same build, apart from truncation and a changed signature, version or debug state", "x86-64 back end with argument checks and debugging on (the default build)"};
  return check_main(d, argc, argv);
}
