// Marks when the library or compiled code runs, and (with AddressSanitizer) tracks what it allocates.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdio>
#include <string>
static thread_local volatile int g_in_pwart = 0;
struct InPw { int old; explicit InPw(int v = 1) : old(g_in_pwart) { g_in_pwart = v; } ~InPw() { g_in_pwart = old; } };
extern "C" void sljit_free_unused_memory_exec(void);
// executable memory of the code generator: read-write-execute mappings
static size_t exec_bytes() {
  sljit_free_unused_memory_exec(); FILE *f = fopen("/proc/self/maps", "r"); char l[600]; size_t n = 0, a, b; char pr[8];
  while (fgets(l, sizeof l, f)) if (sscanf(l, "%zx-%zx %7s", &a, &b, pr) == 3 && pr[0] == 'r' && pr[1] == 'w' && pr[2] == 'x') n += b - a;
  fclose(f); return n;
}
#ifdef __SANITIZE_ADDRESS__
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void *, size_t), void (*)(const volatile void *));
struct Track {
  static const size_t N = 1 << 16; static inline const void *p[N]; static inline size_t sz[N]; static inline size_t live = 0, bytes = 0, total = 0; static inline bool on = false, full = false;
  static size_t at(const void *q) { return (size_t)(((uintptr_t)q >> 4) * 0x9e3779b97f4a7c15ull >> 48) % N; }
  static void m(const volatile void *q_, size_t n) { const void *q = (const void *)q_; if (!on || !g_in_pwart || !q) return; if (live > N / 2) { full = true; return; } size_t i = at(q); while (p[i] && p[i] != (void *)1) i = (i + 1) % N; p[i] = q; sz[i] = n; live++; bytes += n; total++; }
  static void f(const volatile void *q_) { const void *q = (const void *)q_; if (!live || !q) return; size_t i = at(q); for (size_t k = 0; k < N && p[i]; k++, i = (i + 1) % N) if (p[i] == q) { p[i] = (void *)1; live--; bytes -= sz[i]; return; } }
  static void start() { static bool inst = false; if (!inst) { __sanitizer_install_malloc_and_free_hooks(m, f); inst = true; } for (size_t i = 0; i < N; i++) p[i] = nullptr; live = bytes = total = 0; full = false; on = true; }
  static std::string stop() { on = false; std::string s; if (!live) return s; char b[100]; int k = 0; snprintf(b, sizeof b, "%zu blocks, %zu bytes:", live, bytes); s = b; for (size_t i = 0; i < N && k < 8; i++) if (p[i] && p[i] != (void *)1) { snprintf(b, sizeof b, " %zu", sz[i]); s += b; k++; } return s; }
};
#endif
