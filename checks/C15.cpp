// C15: histories of allocating, filling, generating code into, running, rewriting and freeing executable blocks, for the
// three executable memory allocators of the code generator, with mmap observed (and sometimes made to fail).
#include "../src/runner.h"
#include "../src/exalloc.h"
#include <sys/mman.h>
#include <sys/syscall.h>
#include <atomic>
#include <map>
#include <set>
#include <thread>
// ---- every mapping the allocator makes goes through here
struct MapRec { size_t n; int prot; };
static std::map<uintptr_t, MapRec> g_maps; static thread_local bool g_rec = false; static int g_fail_in = -1; static std::string g_bad; static uint64_t g_nmap = 0; static std::atomic_flag g_lk = ATOMIC_FLAG_INIT;
struct Blk; static std::string (*g_check_unmap)(uintptr_t, size_t) = nullptr;
struct Lk { Lk() { while (g_lk.test_and_set()) ; } ~Lk() { g_lk.clear(); } };
extern "C" void *mmap(void *a, size_t n, int prot, int flags, int fd, off_t off) {
  if (g_rec) { if (g_fail_in == 0) { errno = ENOMEM; g_fail_in = -1; return MAP_FAILED; } if (g_fail_in > 0) g_fail_in--; }
  void *p = (void *)syscall(SYS_mmap, a, n, prot, flags, fd, off);
  if (g_rec && p != MAP_FAILED) { Lk l; g_maps[(uintptr_t)p] = {(n + 4095) & ~(size_t)4095, prot}; g_nmap++; }
  return p;
}
extern "C" int munmap(void *a, size_t n) {
  if (g_rec) { Lk l; uintptr_t x = (uintptr_t)a; size_t m = (n + 4095) & ~(size_t)4095; auto i = g_maps.find(x); if (i == g_maps.end() || i->second.n != m) { if (g_bad.empty()) g_bad = strf("munmap(%p, %zu) does not match a mapping of the allocator", a, n); } else g_maps.erase(i); if (g_check_unmap && g_bad.empty()) g_bad = g_check_unmap(x, m); }
  return (int)syscall(SYS_munmap, a, n);
}
namespace {
struct Rec { Rec() { g_rec = true; } ~Rec() { g_rec = false; } };
struct B { bool code = false; uint8_t *w = nullptr, *e = nullptr; size_t n = 0; uint64_t seed = 0; ExCode ec{}; std::vector<unsigned long> k; uint64_t cst = 0; std::vector<uint8_t> img; };
std::vector<B> *g_live = nullptr; const ExApi *A = nullptr;
std::string overlap(uintptr_t x, size_t n) { if (g_live) for (auto &b : *g_live) if (((uintptr_t)b.w < x + n && x < (uintptr_t)b.w + b.n) || ((uintptr_t)b.e < x + n && x < (uintptr_t)b.e + b.n)) return strf("memory of a live block of %zu bytes was returned to the system", b.n); return ""; }
uint64_t run_model(const B &b, uint64_t a) { for (auto k : b.k) a = a * 3 + k; return a ^ b.cst; }
void fill(B &b) { size_t i = 0; for (; i + 8 <= b.n; i += 8) { uint64_t v = (b.seed + i) * 0x9e3779b97f4a7c15ull; memcpy(b.w + i, &v, 8); } for (; i < b.n; i++) b.w[i] = (uint8_t)(b.seed + i); }
bool okay(const B &b, const uint8_t *p, size_t from, size_t to) { for (size_t i = from & ~(size_t)7; i < to; i += 8) { if (i + 8 <= b.n) { uint64_t v = (b.seed + i) * 0x9e3779b97f4a7c15ull; if (memcmp(p + i, &v, 8)) return false; } else for (size_t q = i; q < b.n; q++) if (p[q] != (uint8_t)(b.seed + q)) return false; } return true; }
void verify(B &b, bool full, const char *when) {
  if (b.code) { if (memcmp(b.e, b.img.data(), b.n)) FAIL("the code of a live function of %zu bytes changed %s", b.n, when); for (uint64_t a : {(uint64_t)0, (uint64_t)7, b.seed}) { uint64_t r = ((uint64_t (*)(uint64_t))b.e)(a); if (r != run_model(b, a)) FAIL("a live function returned %#llx instead of %#llx %s", (unsigned long long)r, (unsigned long long)run_model(b, a), when); } return; }
  bool ok = full || b.n < 512 ? okay(b, b.e, 0, b.n) : okay(b, b.e, 0, 128) && okay(b, b.e, b.n - 136, b.n); if (!ok) FAIL("the contents of a live block of %zu bytes changed %s", b.n, when);
}
size_t size_of(Choices &c) {
  switch (c.weighted({6, 3, 3, 3, 1})) {
    case 0: return 1 + c.below(300); case 1: return 300 + c.below(6000); case 2: return 1 + c.below(70000);
    case 3: { size_t base = 0x10000 * (1 + c.below(3)); return base - c.below(200); }         // around a whole chunk
    default: return 70000 + c.below(400000);
  }
}
// the largest stretch of free space in a chunk, counting generously what a live block may occupy besides its bytes
size_t largest_gap(const std::vector<B> &live) {
  size_t best = 0; for (auto &m : g_maps) { if (A->kind == 1 && !(m.second.prot & PROT_WRITE)) continue; std::vector<std::pair<uintptr_t, uintptr_t>> v; for (auto &b : live) { uintptr_t q = (uintptr_t)b.w; if (q >= m.first && q < m.first + m.second.n) v.push_back({q - 64, q + b.n + 192}); } std::sort(v.begin(), v.end()); uintptr_t at = m.first + 128, end = m.first + m.second.n - 128; for (auto &s : v) { if (s.first > at) best = std::max<size_t>(best, s.first - at); at = std::max(at, s.second); } if (end > at) best = std::max<size_t>(best, end - at); }
  return best;
}
void history(Ctx &x) {
  std::string log; auto note = [&](const std::string &t) { if (log.size() < 1500) log += t; x.dump(t); };
  Choices &c = x.c; static const ExApi *all[] = {&ex_posix, &ex_prot, &ex_wx}; A = all[c.weighted({5, 3, 1})]; note(strf("allocator: %s\n", A->name));
  std::vector<B> live; g_live = &live; g_check_unmap = overlap; g_bad.clear(); g_fail_in = -1; REQUIRE(g_maps.empty(), "mappings left over"); x.count(std::string("allocator ") + A->name);
  int steps = 5 + (int)c.below(x.thorough ? 120 : 50); uint64_t frees = 0, reuse = 0, codes = 0, h = 0; int pattern = c.weighted({3, 1, 1}); bool leak_ok = false; (void)leak_ok;
  auto place = [&](B b) {   // checks and registers a new block
    uintptr_t w = (uintptr_t)b.w, e = (uintptr_t)b.e; if (w % 8) FAIL("a block is at %p, not aligned to 8", b.w);
    for (auto &q : live) { if (w < (uintptr_t)q.w + q.n && (uintptr_t)q.w < w + b.n) FAIL("a new block of %zu bytes at %p overlaps a live one of %zu bytes at %p", b.n, b.w, q.n, q.w); }
    bool in = false, ein = false; for (auto &m : g_maps) { if (w >= m.first && w + b.n <= m.first + m.second.n && (m.second.prot & PROT_WRITE)) in = true; if (e >= m.first && e + b.n <= m.first + m.second.n && (A->kind == 2 || (m.second.prot & PROT_EXEC))) ein = true; }
    if (!in) FAIL("a new block of %zu bytes is not inside the allocator's writable memory", b.n); if (!ein) FAIL("a new block of %zu bytes is not inside executable memory", b.n);
    live.push_back(std::move(b)); };
  auto bad = [&] { if (!g_bad.empty()) FAIL("%s", g_bad.c_str()); };
  auto free_at = [&](size_t i, const char *why) { B b = std::move(live[i]); verify(b, true, "before it was freed"); live.erase(live.begin() + i); note(strf("free %zu bytes at %p (%s)\n", b.n, b.e, why)); { Rec r; if (b.code) A->free_code(b.e); else A->free_(b.e); } frees++; bad(); };
  try {
  for (int s = 0; s < steps; s++) {
    int w = c.weighted({10, 6, live.empty() ? 0 : pattern == 1 ? 4 : 10, live.empty() ? 0 : 3, 2, 1, live.empty() ? 0 : 1, live.empty() ? 0 : 2}); h = mix64(h ^ w);
    switch (w) {
      case 0: case 5: {   // a raw block; 5: the system refuses memory
        size_t n = size_of(c); size_t gap = largest_gap(live); if (c.pct(12) && gap > 600) { n = gap - 520 - c.below(40); } uint64_t before = g_nmap; if (w == 5) g_fail_in = A->kind == 1 ? (int)c.below(2) : 0; void *p; { Rec r; p = A->alloc(n); } bool failed = w == 5 && g_fail_in < 0; g_fail_in = -1; note(strf("alloc %zu -> %p%s\n", n, p, failed ? " (refused by the system)" : "")); h = mix64(h ^ n); bad();
        if (A->kind != 2 && gap >= n + 512) { if (g_nmap != before || failed) FAIL("a block of %zu bytes was placed in new memory although %zu contiguous bytes are free", n, gap); reuse++; }
        if (failed) { if (p) FAIL("a block was returned although the system refused memory"); x.count("allocation refused"); break; }
        if (!p) FAIL("allocating %zu bytes failed", n); B b; b.w = (uint8_t *)p; b.n = n; b.seed = c.bits(32); b.e = b.w + A->offset(A->kind == 1 ? p : p); place(b); fill(live.back()); break; }
      case 1: {   // a function
        B b; b.code = true; int n = c.pct(80) ? 1 + (int)c.below(30) : 1 + (int)c.below(6000); uint64_t ks = c.bits(40); for (int i = 0; i < n; i++) { ks = mix64(ks); b.k.push_back(i & 1 ? ks : (ks & 0xffff)); } b.cst = mix64(ks); b.seed = ks; int err; { Rec r; err = A->gen(b.k.data(), n, b.cst, &b.ec); } note(strf("function of %d steps -> %p, %zu bytes\n", n, b.ec.code, (size_t)b.ec.size)); if (err || !b.ec.code) FAIL("code generation failed: %d", err); bad();
        b.e = (uint8_t *)b.ec.code; b.n = b.ec.size; b.w = b.e - A->offset(b.e); b.img.assign(b.e, b.e + b.n); place(b); codes++; h = mix64(h ^ n); break; }
      case 2: { size_t i = pattern == 2 ? 0 : c.below(live.size()); free_at(i, "one"); break; }
      case 3: { B &b = live[c.below(live.size())]; if (b.code) { b.cst = c.bits(60); Rec r; A->set_const(&b.ec, b.cst); b.img.assign(b.e, b.e + b.n); note("rewrite a constant\n"); } else if (A->kind != 2 || true) { b.seed = c.bits(32); fill(b); note("rewrite a block\n"); } break; }
      case 4: { note("release unused memory\n"); { Rec r; A->unused(); } bad(); if (A->kind != 2) for (auto &m : g_maps) { bool used = false; for (auto &b : live) if (((uintptr_t)b.w >= m.first && (uintptr_t)b.w < m.first + m.second.n) || ((uintptr_t)b.e >= m.first && (uintptr_t)b.e < m.first + m.second.n)) used = true; if (!used) FAIL("a chunk of %zu bytes without live blocks was kept when unused memory was released", m.second.n); } break; }
      case 6: while (live.size() > 1 && c.pct(80)) free_at(c.below(live.size()), "run"); break;
      case 7: { note("free every other block in address order\n"); std::sort(live.begin(), live.end(), [](const B &a, const B &b) { return a.w < b.w; }); for (size_t i = live.size(); i-- > 0;) if (i & 1) free_at(i, "alternate"); break; }
    }
    for (auto &b : live) verify(b, false, "after this step");
  }
  while (!live.empty()) { free_at(c.below(live.size()), "end"); }
  { Rec r; A->unused(); } bad(); if (!g_maps.empty()) FAIL("%zu mappings are still held after everything was freed and unused memory released", g_maps.size());
  } catch (...) { g_live = nullptr; throw; }
  g_live = nullptr; x.evals = steps; x.nontrivial = frees >= 3 && steps >= 8; x.hash = mix64(h ^ frees); x.count("allocation served from free space", reuse); x.count("function generated", codes); if (x.shm->nsamples < 3 && x.nontrivial) x.sample = log;
}
// several threads at once; blocks belong to the thread that made them
void threads(Ctx &x) {
  Choices &c = x.c; A = c.coin() ? &ex_posix : &ex_prot; int nt = 2 + (int)c.below(3); std::vector<uint64_t> seeds; for (int i = 0; i < nt; i++) seeds.push_back(c.bits(48)); int steps = 40 + (int)c.below(100); g_maps.clear(); g_bad.clear(); g_check_unmap = nullptr; g_fail_in = -1; std::vector<std::string> err(nt); std::atomic<int> go{0}; std::vector<uint64_t> ops(nt);
  auto body = [&](int t) {
    uint64_t s = seeds[t]; auto rnd = [&](uint64_t n) { s = mix64(s + 0x9e37); return s % n; }; std::vector<B> live; go++; while (go < nt) ; g_rec = true;
    try {
      for (int i = 0; i < steps; i++) {
        int w = (int)rnd(10); ops[t]++;
        if (w < 4) { size_t n = rnd(3) ? 1 + rnd(500) : 1 + rnd(60000); void *p = A->alloc(n); if (!p) FAIL("allocating %zu bytes failed", n); B b; b.w = (uint8_t *)p; b.e = b.w + A->offset(p); b.n = n; b.seed = rnd(1 << 30); fill(b); live.push_back(b); }
        else if (w < 6) { B b; b.code = true; int n = 1 + (int)rnd(40); for (int k = 0; k < n; k++) b.k.push_back(rnd(1000)); b.cst = rnd(100000); b.seed = rnd(1000); int e = A->gen(b.k.data(), n, b.cst, &b.ec); if (e) FAIL("code generation failed: %d", e); b.e = (uint8_t *)b.ec.code; b.n = b.ec.size; b.w = b.e - A->offset(b.e); b.img.assign(b.e, b.e + b.n); live.push_back(b); }
        else if (w < 9) { if (live.empty()) continue; size_t k = rnd(live.size()); verify(live[k], true, "while other threads allocate"); B b = live[k]; live.erase(live.begin() + k); if (b.code) A->free_code(b.e); else A->free_(b.e); }
        else A->unused();
        if (!live.empty()) verify(live[rnd(live.size())], false, "while other threads allocate");
      }
      for (auto &b : live) verify(b, true, "at the end"); for (auto &b : live) if (b.code) A->free_code(b.e); else A->free_(b.e);
    } catch (CaseFail &f) { err[t] = f.msg; }
    g_rec = false; };
  std::vector<std::thread> ts; for (int t = 0; t < nt; t++) ts.emplace_back(body, t); for (auto &t : ts) t.join();
  for (auto &e : err) if (!e.empty()) FAIL("%s", e.c_str()); if (!g_bad.empty()) FAIL("%s", g_bad.c_str());
  { Rec r; A->unused(); } if (!g_bad.empty()) FAIL("%s", g_bad.c_str()); if (!g_maps.empty()) FAIL("%zu mappings are still held after every thread freed its blocks", g_maps.size());
  x.evals = steps * nt; x.nontrivial = true; x.hash = mix64(seeds[0] ^ nt); x.count(std::string("threads, ") + A->name);
}
}
int main(int argc, char **argv) {
  CheckDef d{"C15", "history: at least eight steps and three frees; threads: always. Identity is the sequence of operations and sizes"};
  d.fams = {{"history", history, 110000, 3000000, 20}, {"threads", threads, 4000, 80000, 10}};
  d.assumptions = {"the Linux mmap-based allocators: the default one, the two-view one (SLJIT_PROT_EXECUTABLE_ALLOCATOR) and the W^X one", "placement is only constrained by: a request that fits in one free stretch with 512 bytes to spare takes no new memory from the system"};
  return check_main(d, argc, argv);
}
