/* The command line program, callable as a function. */
#define main wasiexec_main
#include "pwart_syslib/wasiexec.c"
