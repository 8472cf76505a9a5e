// C20: what the code generator does with memory. Histories of several sljit stacks (allocate, resize, free) against a byte
// model with the advice calls replaced by ones which really drop the pages; and several compilers filled in turns, with
// allocations refused at generated points, against the code each one produces alone.
#include "../src/vec.h"
#include "../src/vdalloc.h"
#include <sys/mman.h>
#include <sys/syscall.h>
namespace {
struct Hdr { size_t n; void *d; uint8_t pad[16]; };
int g_outst = 0; long g_fail_at = -1; uint64_t g_allocs = 0, g_refused = 0; std::string g_bad;
bool g_rec = false, g_fail_map = false; std::map<uintptr_t, size_t> *g_maps = nullptr;
bool g_in_resize = false; uintptr_t g_lo = 0, g_hi = 0; uint64_t g_dropped = 0;
struct Rec { Rec() { g_rec = true; } ~Rec() { g_rec = false; } };
void say(const std::string &s) { if (g_bad.empty()) g_bad = s; }
}
extern "C" void *vd_malloc(size_t n, void *d) {
  g_allocs++; if (g_fail_at >= 0 && g_fail_at-- == 0) { g_refused++; return nullptr; }
  uint8_t *p = (uint8_t *)malloc(n + 48); if (!p) return nullptr; Hdr h; h.n = n; h.d = d; memset(h.pad, 0xc3, 16); memcpy(p, &h, 32); memset(p + 32, 0xb7, n); memset(p + 32 + n, 0xc3, 16); g_outst++; return p + 32;
}
extern "C" void vd_free(void *q, void *d) {
  if (!q) return; uint8_t *p = (uint8_t *)q - 32; Hdr h; memcpy(&h, p, 32); bool ok = h.n < (1u << 28); for (int i = 0; ok && i < 16; i++) ok = h.pad[i] == 0xc3 && p[32 + h.n + i] == 0xc3;
  if (!ok) { say("a block was written out of bounds (or freed twice)"); return; } if (h.d != d) say(strf("a block allocated with allocator data %p was freed with %p", h.d, d)); memset(p, 0xd5, h.n + 48); g_outst--; free(p);
}
extern "C" void *mmap(void *a, size_t n, int prot, int flags, int fd, off_t off) {
  if (g_rec && g_fail_map) { errno = ENOMEM; return MAP_FAILED; }
  void *p = (void *)syscall(SYS_mmap, a, n, prot, flags, fd, off); if (g_rec && p != MAP_FAILED) { bool r = g_rec; g_rec = false; (*g_maps)[(uintptr_t)p] = (n + 4095) & ~(size_t)4095; g_rec = r; } return p;
}
extern "C" int munmap(void *a, size_t n) {
  if (g_rec) { bool r = g_rec; g_rec = false; auto i = g_maps->find((uintptr_t)a); if (i == g_maps->end() || i->second != ((n + 4095) & ~(size_t)4095)) say(strf("munmap(%p, %zu) does not match a mapping that was made", a, n)); else g_maps->erase(i); g_rec = r; }
  return (int)syscall(SYS_munmap, a, n);
}
static int advice(void *a, size_t n, int adv, bool drop) {
  uintptr_t x = (uintptr_t)a; if (!g_rec || (adv != MADV_DONTNEED && adv != MADV_FREE)) return drop ? (int)syscall(SYS_madvise, a, n, adv) : 0;
  if (x & 4095) return drop ? (errno = EINVAL, -1) : EINVAL;
  uintptr_t e = (x + n + 4095) & ~(uintptr_t)4095; if (!g_in_resize || x < g_lo || e > g_hi) say(strf("memory in use, or not of the stack, was given back: [%#lx, %#lx) while the unused part is [%#lx, %#lx)", (long)x, (long)e, (long)g_lo, (long)g_hi));
  if (drop && g_bad.empty() && e > x) { syscall(SYS_madvise, x, e - x, MADV_DONTNEED); g_dropped += e - x; } return 0;
}
extern "C" int madvise(void *a, size_t n, int adv) { return advice(a, n, adv, true); }
extern "C" int posix_madvise(void *a, size_t n, int adv) { return advice(a, n, adv == POSIX_MADV_DONTNEED ? MADV_DONTNEED : adv == 4 ? MADV_DONTNEED : 0, false); }
namespace {
void clean_start() { g_outst = 0; g_fail_at = -1; g_bad.clear(); g_fail_map = false; g_rec = false; if (!g_maps) g_maps = new std::map<uintptr_t, size_t>; { Rec r; sljit_free_unused_memory_exec(); } g_maps->clear(); g_dropped = 0; g_bad.clear(); }
void bad() { if (!g_bad.empty()) FAIL("%s", g_bad.c_str()); }
// ------------------------------------------------------------------------------------------------ stacks
struct St { sljit_stack *s; uint8_t *top, *end, *start, *min; void *d; std::map<uint8_t *, uint8_t> m; };
void check(St &t, const char *when) {
  sljit_stack *s = t.s; if (s->top != t.top) FAIL("top changed %s", when); if (s->end != t.end || s->min_start != t.min) FAIL("the bounds of a stack changed %s", when);
  if (s->start != t.start) FAIL("start is end - %ld instead of end - %ld %s", (long)(s->end - s->start), (long)(t.end - t.start), when);
  for (auto &b : t.m) if (*b.first != b.second) FAIL("the byte at end - %ld is %#x instead of %#x %s (start is end - %ld)", (long)(t.end - b.first), *b.first, b.second, when, (long)(t.end - t.start));
}
void stacks(Ctx &x) {
  Choices &c = x.c; clean_start(); std::vector<St> v; std::string log; auto note = [&](std::string s) { if (log.size() < 1200) log += s; x.dump(s); }; int steps = 6 + (int)c.below(x.thorough ? 80 : 36); u64 h = 1, seed = c.bits(40); int shrinks = 0, grows = 0, refused = 0;
  auto rnd = [&] { return seed = mix64(seed); };
  auto put = [&](St &t, uint8_t *p, size_t n) { for (size_t i = 0; i < n && p + i < t.end; i++) { uint8_t b = (uint8_t)(rnd() | 1); p[i] = b; t.m[p + i] = b; } };
  auto write = [&](St &t) { size_t u = t.end - t.start; put(t, t.start, 1 + c.below(40)); if (u > 40) put(t, t.end - 40, 40); for (int i = (int)c.below(6); i-- > 0;) { uint8_t *p = t.start + rnd() % u; if (c.coin()) p = std::max(t.start, (uint8_t *)((uintptr_t)p & ~(uintptr_t)4095)); put(t, p, 1 + rnd() % 60); } };
  for (int k = 0; k < steps; k++) {
    int w = c.weighted({v.size() < 4 ? 4 : 0, v.empty() ? 0 : 16, v.empty() ? 0 : 5, v.empty() ? 0 : 2}); h = mix64(h * 31 + w);
    if (w == 0) {
      u64 mx, st; switch (c.weighted({6, 4, 2, 1, 1})) { case 0: mx = 1 + c.below(20000); break; case 1: mx = 4096 * (1 + c.below(12)) + c.below(3) - 1; break; case 2: mx = 1 + c.below(1 << 20); break; case 3: mx = 1ull << (20 + c.below(12)); break; default: mx = c.coin() ? ~0ull - c.below(5000) : c.below(3); }
      switch (c.weighted({5, 3, 2, 1, 1})) { case 0: st = mx ? 1 + c.range(0, mx - 1) % mx : 0; break; case 1: st = std::min<u64>(mx, 1 + c.below(9000)); break; case 2: st = mx; break; case 3: st = mx + 1 + c.below(4096); break; default: st = c.below(2); }
      int f = c.weighted({10, 1, 1}); void *d = (void *)(uintptr_t)c.below(3); if (f == 1) g_fail_at = 0; if (f == 2) g_fail_map = true; int o0 = g_outst; size_t m0 = g_maps->size(); u64 r0 = g_refused; sljit_stack *s; { Rec r; s = sljit_allocate_stack(st, mx, d); } g_fail_at = -1; g_fail_map = false;
      note(strf("allocate start %llu max %llu%s -> %s\n", (unsigned long long)st, (unsigned long long)mx, f == 1 ? " (no memory)" : f == 2 ? " (no mapping)" : "", s ? "ok" : "NULL")); bad(); (void)r0; h = mix64(h ^ mx ^ (st << 20));
      bool valid = st >= 1 && st <= mx; if (!s) { if (valid && !f && mx < (1ull << 40)) FAIL("a stack of %llu bytes could not be allocated", (unsigned long long)mx); if (g_outst != o0 || g_maps->size() != m0) FAIL("a refused allocation left memory behind"); refused++; break; }
      if (!valid) FAIL("a stack with start size %llu and maximum %llu was allocated", (unsigned long long)st, (unsigned long long)mx);
      St t; t.s = s; t.d = d; t.end = s->end; t.min = s->min_start; t.start = s->end - st; t.top = s->end; if ((uintptr_t)t.end & 4095) FAIL("end is not aligned to the page size"); if ((u64)(t.end - t.min) < mx || t.min > t.end) FAIL("the stack has room for %ld bytes instead of %llu", (long)(t.end - t.min), (unsigned long long)mx); if ((u64)(t.end - t.min) >= mx + 4096) FAIL("the stack reserves %ld bytes for %llu", (long)(t.end - t.min), (unsigned long long)mx);
      for (auto &q : v) if (t.min < q.end && q.min < t.end) FAIL("two stacks overlap"); bool in = false; for (auto &m : *g_maps) if ((uintptr_t)t.min >= m.first && (uintptr_t)t.end <= m.first + m.second) in = true; if (!in) FAIL("the stack is not inside memory that was mapped");
      check(t, "after it was allocated"); write(t); v.push_back(std::move(t));
    } else {
      St &t = v[c.below(v.size())]; long room = t.end - t.min;
      if (w == 1) {
        uint8_t *ns; switch (c.weighted({5, 4, 3, 3, 2, 1, 1})) {
          case 0: ns = t.min + c.range(0, room - 1); break; case 1: ns = (uint8_t *)((uintptr_t)(t.min + c.range(0, room - 1)) & ~(uintptr_t)4095) + (int)c.below(3) - 1; break;
          case 2: ns = t.start + (long)c.below(9000) - 4500; break; case 3: ns = t.end - 1 - c.below(5000); break; case 4: ns = t.min + c.below(5000); break;
          case 5: ns = t.end + c.below(3) - 1; break; default: ns = t.min - 1 + c.below(2); }
        bool valid = ns >= t.min && ns < t.end; note(strf("resize to end - %ld (was end - %ld)%s\n", (long)(t.end - ns), (long)(t.end - t.start), valid ? "" : ", out of range")); h = mix64(h ^ (u64)(t.end - ns));
        g_lo = (uintptr_t)t.min; g_hi = valid ? (uintptr_t)std::max(ns, t.start) : g_lo; g_hi = valid ? (uintptr_t)ns : g_lo; g_in_resize = true; uint8_t *r; { Rec rr; r = sljit_stack_resize(t.s, ns); } g_in_resize = false; bad();
        if (!valid) { if (r) FAIL("resizing to end - %ld of a stack of %ld bytes was accepted", (long)(t.end - ns), room); check(t, "by a refused resize"); refused++; break; }
        if (r != ns) FAIL("resizing to end - %ld returned %s", (long)(t.end - ns), r ? "another address" : "NULL"); if (ns > t.start) { shrinks++; t.m.erase(t.m.begin(), t.m.lower_bound(ns)); } else if (ns < t.start) grows++; t.start = ns; check(t, "after resizing"); write(t);
      } else if (w == 2) { if (c.coin()) { t.top = t.start + c.range(0, t.end - t.start); t.s->top = t.top; } write(t); note("write\n"); }
      else { size_t i = &t - &v[0]; check(t, "before it was freed"); note("free\n"); { Rec r; sljit_free_stack(t.s, t.d); } bad(); for (auto &m : *g_maps) if (m.first < (uintptr_t)t.end && (uintptr_t)t.min < m.first + m.second) FAIL("a freed stack stays mapped"); v.erase(v.begin() + i); }
    }
    for (auto &t : v) check(t, "by an operation on another stack");
  }
  while (!v.empty()) { St t = v.back(); v.pop_back(); { Rec r; sljit_free_stack(t.s, t.d); } bad(); for (auto &q : v) check(q, "when another stack was freed"); }
  if (g_outst) FAIL("%d blocks were never freed", g_outst); if (!g_maps->empty()) FAIL("%zu mappings were never removed", g_maps->size());
  if (g_dropped) x.count("pages dropped"); x.count("operation refused", refused); x.evals = steps; x.nontrivial = shrinks >= 1 && grows >= 1; x.hash = h; if (x.shm->nsamples < 2 && x.nontrivial) x.sample = log;
}
// ------------------------------------------------------------------------------------------------ compilers
const size_t ARENA = 1 << 20;
uint8_t *arena() { static uint8_t *p = nullptr; if (!p) { p = (uint8_t *)::mmap((void *)0x7e3000000000, ARENA, PROT_READ | PROT_WRITE | PROT_EXEC, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0); if (p == MAP_FAILED) _exit(3); } return p; }
struct Pt { int f, s; };
std::vector<Pt> points(const Prog &P) { std::vector<Pt> v; for (size_t f = 0; f < P.f.size(); f++) { v.push_back({(int)f, -1}); for (size_t s = 0; s < P.f[f].s.size(); s++) v.push_back({(int)f, (int)s}); } if (P.data.size()) v.push_back({(int)P.f.size(), 0}); return v; }
void emit(Em &e, const Prog &P, Pt p) { if (p.f == (int)P.f.size()) e.data(P); else if (p.s < 0) e.enter(P.f[p.f]); else e.step(P.f[p.f].s[p.s], p.f, p.s); }
struct User { uint8_t *p; int n; uint8_t b; };
struct Job { Prog P; std::unique_ptr<Gen2> g; std::vector<Pt> pts; std::vector<uint8_t> ref; u64 allocs = 0; Em e; int plan = 0, at = 0, done = 0; long fail = -1; void *d = nullptr; int err = 0; std::vector<User> us; bool gone = false; };
const char *plans[] = {"undisturbed", "an allocation refused", "memory error set", "small code buffer", "no executable memory", "serializing refused", "deserializing refused", "abandoned", "executable memory"};
std::string brief(const Prog &P) { std::string t = show(P), o, last; size_t n = 0, i = 0; auto flush = [&] { if (n > 1) o += strf("  ... %zu times\n", n); }; while (i < t.size()) { size_t e = t.find('\n', i); if (e == std::string::npos) e = t.size(); std::string l = t.substr(i, e - i); i = e + 1; if (l == last) { n++; continue; } flush(); n = 1; last = l; o += l + "\n"; } flush(); return o; }
void compilers(Ctx &x) {
  Choices &c = x.c; map_regions(); clean_start(); uint8_t *A = arena(); int n = 1 + c.weighted({3, 4, 3, 1}); std::vector<std::unique_ptr<Job>> js; bool big = c.pct(25);
  sljit_generate_code_buffer gb{}; gb.buffer = A; gb.size = ARENA; gb.executable_offset = 0;
  for (int i = 0; i < n; i++) {
    js.push_back(std::make_unique<Job>()); Job &j = *js.back(); GOpt go; go.maxsteps = big ? (c.pct(10) ? 2500 : 400) : 30; j.g = std::make_unique<Gen2>(c, j.P, go); j.g->program(); if (!big && c.pct(50)) { Step z{}; z.k = OP0; z.op = SLJIT_NOP; size_t ns = 0; for (auto &f : j.P.f) ns += f.s.size() + 4; j.P.f[0].s.insert(j.P.f[0].s.begin(), 2044 - std::min<size_t>(2000, c.below(ns * 4)), z); }   /* the boundary of a fragment may then fall anywhere */
    j.pts = points(j.P); j.d = (void *)(uintptr_t)(c.coin() ? 0x1000 + 16 * i : 0);
    if (x.verbose) x.dump(strf("program %d:\n", i) + brief(j.P));
    u64 a0 = g_allocs; Em a; a.start(j.P); REQUIRE(a.c, "no compiler"); a.all(j.P); REQUIRE(!a.bad && sljit_get_compiler_error(a.c) == SLJIT_SUCCESS, "a valid program was refused"); j.allocs = g_allocs - a0;
    memset(A, 0xcc, ARENA); void *code = sljit_generate_code(a.c, SLJIT_GENERATE_CODE_BUFFER, &gb); REQUIRE(code, "code generation failed: %d", sljit_get_compiler_error(a.c)); Built B; B.take(j.P, a); j.ref.assign(A, A + sljit_get_generated_code_size(a.c)); sljit_free_compiler(a.c);
    j.plan = c.weighted({6, 6, 1, 2, 1, 2, 2, 1, 2}); j.at = (int)c.below(j.pts.size() + 1); if (j.plan == 1) j.fail = c.pct(85) && j.allocs > 3 ? 3 + (long)c.below(j.allocs - 3) : (long)c.below(j.allocs + 1);
    if (x.verbose) x.dump(strf("plan: %s, at point %d, allocation %ld of %llu, allocator data %p\n", plans[j.plan], j.at, j.fail, (unsigned long long)j.allocs, j.d)); x.count(std::string("plan ") + plans[j.plan]);
  }
  bad(); if (g_outst) FAIL("%d blocks left by compilers that were freed", g_outst);
  // runs f with the refusals of job j
  auto with = [&](Job &j, auto f) { g_fail_at = j.plan == 1 ? j.fail : -1; u64 r0 = g_refused; f(); if (j.plan == 1) j.fail = g_fail_at; g_fail_at = -1; bad(); return g_refused != r0; };
  auto state = [&](Job &j, const char *when) { int e = sljit_get_compiler_error(j.e.c); if (e != j.err) FAIL("a compiler (%s) has error %d instead of %d %s", plans[j.plan], e, j.err, when); };
  int failed = 0, compared = 0; u64 h = 1, evals = 0;
  auto user = [&](Job &j) { int nn = c.pct(85) ? 1 + (int)c.below(128) : c.coin() ? (int)c.below(3) - 2 : 128 + (int)c.below(3); uint8_t *p = nullptr; bool r = with(j, [&] { p = (uint8_t *)sljit_alloc_memory(j.e.c, nn); }); bool ok = nn >= 1 && nn <= 128; if (r) j.err = SLJIT_ERR_ALLOC_FAILED; state(j, "after sljit_alloc_memory");
    if (j.err != SLJIT_SUCCESS || !ok) { if (p) FAIL("sljit_alloc_memory(%d) gave memory on a compiler with error %d", nn, j.err); return; } if (!p) FAIL("sljit_alloc_memory(%d) failed", nn); if ((uintptr_t)p % sizeof(sljit_sw)) FAIL("sljit_alloc_memory(%d) gave unaligned memory", nn); uint8_t b = (uint8_t)c.bits(8); memset(p, b, nn); j.us.push_back({p, nn, b}); x.count("user block"); };
  auto users = [&](Job &j) { for (auto &u : j.us) for (int k = 0; k < u.n; k++) if (u.p[k] != u.b) FAIL("byte %d of a block of %d from sljit_alloc_memory was overwritten", k, u.n); };
  auto drop = [&](Job &j) { users(j); sljit_free_compiler(j.e.c); j.gone = true; bad(); };
  auto special = [&](Job &j) {   // what the plan does at its point
    int o = g_outst;
    switch (j.plan) {
      case 2: sljit_set_compiler_memory_error(j.e.c); j.err = SLJIT_ERR_ALLOC_FAILED; break;
      case 5: { sljit_uw sz = 777; g_fail_at = 0; sljit_uw *b = sljit_serialize_compiler(j.e.c, 0, &sz); g_fail_at = -1; if (b) FAIL("serializing succeeded without memory"); if (g_outst != o) FAIL("refused serializing leaked memory"); j.err = SLJIT_ERR_ALLOC_FAILED; break; }
      case 6: { sljit_uw sz = 0; sljit_uw *b = sljit_serialize_compiler(j.e.c, 0, &sz); REQUIRE(b, "serializing failed"); for (int k = 0; k < 60; k++) { void *d2 = (void *)(uintptr_t)c.below(4); g_fail_at = k; u64 r0 = g_refused; sljit_compiler *nc = sljit_deserialize_compiler(b, sz, 0, d2); g_fail_at = -1; bool r = g_refused != r0; if (r && nc) FAIL("a compiler was restored although allocation %d was refused", k); if (!r && !nc) FAIL("a buffer made by the serializer was refused"); if (nc) sljit_free_compiler(nc); bad(); if (g_outst != o + 1) FAIL("%d blocks are left after a refused restore (allocation %d)", g_outst - o - 1, k); if (!r) break; } vd_free(b, j.d); bad(); break; }
      case 7: drop(j); break;
    }
  };
  auto finish = [&](Job &j) {
    users(j); state(j, "before code generation"); int opt = SLJIT_GENERATE_CODE_BUFFER; size_t size = ARENA; memset(A, 0xcc, ARENA); void *code = nullptr; bool exec = j.plan == 4 || j.plan == 8;
    if (j.plan == 3) { size = c.coin() ? c.below(j.ref.size() + 8) : c.below(j.ref.size() * 2 + 64); if (c.coin() && j.ref.size() > 4) size = j.ref.size() - 4 + c.below(8); } gb.size = size; size_t m0 = g_maps->size();
    if (exec) { { Rec r; sljit_free_unused_memory_exec(); } m0 = g_maps->size(); g_fail_map = j.plan == 4; { Rec r; code = sljit_generate_code(j.e.c, 0, NULL); } g_fail_map = false; } else code = sljit_generate_code(j.e.c, opt, &gb);
    bad(); int e = sljit_get_compiler_error(j.e.c);
    if (j.err != SLJIT_SUCCESS) { if (code) FAIL("code was generated by a compiler with error %d", j.err); if (e != j.err) FAIL("the error changed from %d to %d", j.err, e); }
    else if (j.plan == 4) { if (code) FAIL("code was generated without executable memory"); if (e != SLJIT_ERR_EX_ALLOC_FAILED) FAIL("error %d instead of %d without executable memory", e, SLJIT_ERR_EX_ALLOC_FAILED); if (g_maps->size() != m0) FAIL("a mapping was left behind"); }
    else if (j.plan == 3 && !code) { if (size >= j.ref.size() * 8 + 4096) FAIL("a buffer of %zu bytes is too small for %zu", size, j.ref.size()); if (e != SLJIT_ERR_EX_ALLOC_FAILED) FAIL("error %d instead of %d with a small buffer", e, SLJIT_ERR_EX_ALLOC_FAILED); }
    else { if (!code) FAIL("code generation failed: error %d", e); if (e != SLJIT_ERR_COMPILED) FAIL("error %d instead of SLJIT_ERR_COMPILED after code generation", e); }
    size_t gs = code ? sljit_get_generated_code_size(j.e.c) : 0; size_t lim = exec || !code ? 0 : size; if (gs > lim && !exec) FAIL("%zu bytes of code in a buffer of %zu", gs, size); for (size_t k = lim; k < ARENA; k++) if (A[k] != 0xcc) FAIL("code generation wrote at %zu, outside its buffer of %zu bytes%s", k, lim, code ? "" : " (no code)");
    h = mix64(h ^ gs ^ j.plan);
    if (!code) { failed++; void *again = sljit_generate_code(j.e.c, opt, &gb); if (again || sljit_get_compiler_error(j.e.c) != e) FAIL("a failed compiler generated code later"); sljit_emit_return_void(j.e.c); if (sljit_get_compiler_error(j.e.c) != e) FAIL("the error changed from %d to %d", e, sljit_get_compiler_error(j.e.c)); drop(j); return; }
    Built B; B.take(j.P, j.e); bool same = !exec && gs == j.ref.size() && !memcmp(j.ref.data(), A, gs); x.count(same ? "identical machine code" : exec ? "code in executable memory" : "different machine code");
    if (c.coin()) { void *again = sljit_generate_code(j.e.c, opt, &gb); if (again || sljit_get_compiler_error(j.e.c) != SLJIT_ERR_COMPILED) FAIL("a finished compiler generated code again"); }
    drop(j); RunStat S; std::vector<uint8_t> keep; if (exec) { size_t k = 0; (void)k; } S = run_built(x, *j.g, j.P, code, B, same ? 1 : exec ? 3 : 24); evals += S.ok; if (S.ok) compared++;
    if (exec) { { Rec r; sljit_free_code(code, NULL); sljit_free_unused_memory_exec(); } bad(); if (!g_maps->empty()) FAIL("executable memory was kept after everything was freed"); }
  };
  // start all, then go on with one or another
  std::vector<Job *> act; for (auto &q : js) { Job &j = *q; bool r = with(j, [&] { j.e.c = sljit_create_compiler(j.d); }); j.e.lab.assign(j.P.nlab + j.P.data.size(), nullptr); j.e.nlab = j.P.nlab; if (r) { if (j.e.c) FAIL("a compiler was created although memory was refused"); j.gone = true; failed++; continue; } if (!j.e.c) FAIL("no compiler"); if (sljit_compiler_get_allocator_data(j.e.c) != j.d) FAIL("the allocator data is not kept"); act.push_back(&j); }
  int turns = 0, tot = 0; while (!act.empty()) {
    size_t k = c.below(act.size()); Job &j = *act[k]; turns++; int burst = c.pct(20) ? 1 : 1 + (int)c.below(12);
    for (; burst > 0 && !j.gone && j.done <= (int)j.pts.size(); burst--) {
      if (j.done == j.at && j.plan > 1) { special(j); if (j.gone) break; state(j, "after its disturbance"); }
      if (c.pct(6)) user(j);
      if (j.done < (int)j.pts.size()) { bool r = with(j, [&] { emit(j.e, j.P, j.pts[j.done]); }); if (r) j.err = SLJIT_ERR_ALLOC_FAILED; state(j, "after an instruction"); tot++; }
      j.done++;
    }
    if (!j.gone && j.done > (int)j.pts.size()) finish(j);
    if (j.gone) act.erase(act.begin() + k);
  }
  if (g_outst) FAIL("%d blocks were never freed", g_outst); { Rec r; sljit_free_unused_memory_exec(); } bad(); if (!g_maps->empty()) FAIL("executable memory was kept after everything was freed");
  x.evals = tot + evals; x.count("program failed as planned", failed); x.nontrivial = tot >= 12 && (turns > 3 || failed || n == 1) && (compared || failed); x.hash = h; for (auto &q : js) { for (unsigned char ch : show(q->P)) x.hash = (x.hash ^ ch) * 1099511628211ull; x.hash = mix64(x.hash ^ q->plan ^ (q->at << 4)); }
  if (x.shm->nsamples < 4 && x.nontrivial) { std::string s; for (auto &q : js) s += strf("%s at %d of %zu; ", plans[q->plan], q->at, q->pts.size()); x.sample = strf("%d compilers, %d turns: ", n, turns) + s; }
}
// one program, emitted again and again with the fragment boundaries elsewhere and the next fragment refused
void refused(Ctx &x) {
  Choices &c = x.c; clean_start(); vec::map_edge(); bool v = c.coin(); Prog P; GOpt go; go.maxsteps = 30; Gen2 g(c, P, go); vec::Prg Q; vec::G vg{c, Q, false}; std::vector<Pt> pts; if (v) vg.gen(); else { g.program(); pts = points(P); } std::string text = v ? vec::show(Q) : show(P); if (x.verbose) x.dump(text);
  size_t total = v ? Q.s.size() + 2 : pts.size(); int tries = 24, hit = 0; u64 evals = 0; u64 seed = c.bits(40); size_t use = 400, ause = 400; std::map<int, int> where;
  for (int t = 0; t < tries; t++) {
    seed = mix64(seed); size_t pad = t == 0 ? 0 : 4080 - std::min<size_t>(4000, seed % (use + 16)); seed = mix64(seed); size_t bl = t == 0 ? 0 : t % 3 == 0 ? 31 - std::min<size_t>(31, seed % (ause / 128 + 2)) : 0; size_t rest = (seed >> 32) % 128; if (t && t % 3 == 0) pad = 0;
    Em e; e.c = sljit_create_compiler(NULL); REQUIRE(e.c, "no compiler"); e.lab.assign(P.nlab + P.data.size(), nullptr); e.nlab = P.nlab; vec::Emit ve{e.c, Q}; u64 a0 = g_allocs, r0 = g_refused; bool done = false; int at = -1;
    for (size_t k = 0; k < total; k++) {
      if (v) { if (k == 0) sljit_emit_enter(e.c, Q.opts, SLJIT_ARGS0V(), Q.scr | SLJIT_ENTER_FLOAT(vec::NV) | SLJIT_ENTER_VECTOR(vec::NV), Q.sav, vec::LOC); else if (k <= Q.s.size()) ve.step(Q.s[k - 1]); else sljit_emit_return_void(e.c); } else emit(e, P, pts[k]);
      if (k == 0) { while (pad > 11) { sljit_emit_op1(e.c, SLJIT_MOV, SLJIT_R0, 0, SLJIT_IMM, (sw)0x123456789abcdef); pad -= 11; } while (pad > 1) { sljit_emit_op0(e.c, SLJIT_NOP); pad -= 2; } for (size_t n = 0; n < bl; n++) sljit_alloc_memory(e.c, 128); if (bl && rest) sljit_alloc_memory(e.c, (int)rest); REQUIRE(sljit_get_compiler_error(e.c) == SLJIT_SUCCESS, "padding failed"); g_fail_at = t ? 0 : -1; }
      int want = g_refused != r0 ? SLJIT_ERR_ALLOC_FAILED : SLJIT_SUCCESS, err = sljit_get_compiler_error(e.c); if (want && at < 0) at = (int)k; if (err != want) FAIL("the error is %d instead of %d after instruction %zu (memory %s at %d)", err, want, k, want ? "was refused" : "was not refused", at); evals++;
    }
    g_fail_at = -1; bad(); if (at >= 0) { hit++; where[at]++; x.count("refused within the program"); }
    memset(arena(), 0xcc, 4096); sljit_generate_code_buffer gb{}; gb.buffer = arena(); gb.size = ARENA; void *code = sljit_generate_code(e.c, SLJIT_GENERATE_CODE_BUFFER, &gb); if (!code == (at < 0)) FAIL(code ? "code was generated although memory was refused" : "code generation failed: %d", sljit_get_compiler_error(e.c));
    if (code && t == 0) { use = sljit_get_generated_code_size(e.c) + total * 2 + 40; ause = 0; for (auto l = sljit_get_first_label(e.c); l; l = sljit_get_next_label(l)) ause += 40; for (auto l = sljit_get_first_jump(e.c); l; l = sljit_get_next_jump(l)) ause += 40; }
    if (!code) for (size_t k = 0; k < 4096; k++) if (arena()[k] != 0xcc) FAIL("code was written by a compiler without memory");
    sljit_free_compiler(e.c); bad(); if (g_outst) FAIL("%d blocks were never freed", g_outst); (void)a0; (void)done;
  }
  x.evals = evals; x.nontrivial = where.size() >= 3; x.hash = 1; for (unsigned char ch : text) x.hash = (x.hash ^ ch) * 1099511628211ull; if (x.shm->nsamples < 2 && x.nontrivial && text.size() < 1500) { std::string w; for (auto &q : where) w += strf(" %d", q.first); x.sample = text + "refused at instructions" + w; }
}
}
int main(int argc, char **argv) {
  CheckDef d{"C20", "a stack history in which a stack both shrank and grew; or compilers which together emitted at least twelve instructions, at least one of which ran its code against the evaluator or failed as planned; or a program in which memory was refused at three or more different instructions. Identity is the history"};
  d.fams = {{"stacks", stacks, 40000, 1000000, 100}, {"compilers", compilers, 40000, 1500000, 50}, {"refused", refused, 240000, 1000000, 50}};
  d.assumptions = {"the kernel may drop pages given back with MADV_FREE or MADV_DONTNEED at any time; the stand-in does so at once", "an allocation is refused by returning NULL, once"};
  return check_main(d, argc, argv);
}
