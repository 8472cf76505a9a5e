// The code generator built three times, each with another executable memory allocator, behind one interface.
#pragma once
#ifdef __cplusplus
extern "C" {
#endif
typedef struct { void *code; unsigned long const_addr; unsigned long size; } ExCode;
typedef struct {
  const char *name; int kind;                                  /* 0 read-write-execute chunks, 1 two views, 2 one mapping per block with W^X */
  void *(*alloc)(unsigned long size); void (*free_)(void *exec_ptr); void (*unused)(void); long (*offset)(void *exec_or_ptr);
  int (*gen)(const unsigned long *k, int n, unsigned long c, ExCode *out);   /* f(a): for each k: a = a * 3 + k; then a ^ c (rewritable) */
  void (*set_const)(ExCode *code, unsigned long v); void (*free_code)(void *code);
} ExApi;
extern const ExApi ex_posix, ex_prot, ex_wx;
#ifdef __cplusplus
}
#endif
