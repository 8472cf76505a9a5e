#define _GNU_SOURCE 1
#define SLJIT_CONFIG_AUTO 1
#define SLJIT_CONFIG_STATIC 1
#if VARIANT == 1
#define SLJIT_PROT_EXECUTABLE_ALLOCATOR 1
#define HAVE_MEMFD_CREATE 1
#elif VARIANT == 2
#define SLJIT_WX_EXECUTABLE_ALLOCATOR 1
#endif
#include <sljitLir.c>
#include "exalloc.h"
static void *a_alloc(unsigned long n) { return sljit_malloc_exec(n); }
static void a_free(void *p) { sljit_free_exec(p); }
static long a_offset(void *p) {
#if VARIANT == 1
  return sljit_exec_offset(p);
#else
  return 0;
#endif
}
static int a_gen(const unsigned long *k, int n, unsigned long c, ExCode *out) {
  struct sljit_compiler *C = sljit_create_compiler(NULL); struct sljit_const *kc; int i;
  if (!C) return 1;
  sljit_emit_enter(C, 0, SLJIT_ARGS1(W, W_R), 2, 0, 0);
  for (i = 0; i < n; i++) { sljit_emit_op2(C, SLJIT_MUL, SLJIT_R0, 0, SLJIT_R0, 0, SLJIT_IMM, 3); sljit_emit_op2(C, SLJIT_ADD, SLJIT_R0, 0, SLJIT_R0, 0, SLJIT_IMM, (sljit_sw)k[i]); }
  kc = sljit_emit_const(C, SLJIT_MOV, SLJIT_R1, 0, (sljit_sw)c);
  sljit_emit_op2(C, SLJIT_XOR, SLJIT_R0, 0, SLJIT_R0, 0, SLJIT_R1, 0);
  sljit_emit_return(C, SLJIT_MOV, SLJIT_R0, 0);
  out->code = sljit_generate_code(C, 0, NULL); i = sljit_get_compiler_error(C);
  if (out->code) { out->const_addr = sljit_get_const_addr(kc); out->size = sljit_get_generated_code_size(C); i = 0; }
  sljit_free_compiler(C); return i;
}
static void a_set(ExCode *e, unsigned long v) { sljit_set_const(e->const_addr, SLJIT_MOV, (sljit_sw)v, a_offset(e->code)); }
static void a_freec(void *p) { sljit_free_code(p, NULL); }
#if VARIANT == 1
#define API ex_prot
#define NM "two views"
#elif VARIANT == 2
#define API ex_wx
#define NM "W^X"
#else
#define API ex_posix
#define NM "chunks"
#endif
const ExApi API = {NM, VARIANT, a_alloc, a_free, sljit_free_unused_memory_exec, a_offset, a_gen, a_set, a_freec};
