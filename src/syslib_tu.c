/* The system library as one unit, with the ffi module enabled and the recording stand-in for uvwasi. */
#define PWART_SYSLIB_LIBFFI_ENABLED
#include "pwart_syslib/pwart_syslib.c"
#include "fake.h"
