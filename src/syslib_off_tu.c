/* The ffi module as built without libffi. */
#undef PWART_SYSLIB_LIBFFI_ENABLED
#define pwart_libffi_module_new off_libffi_module_new
#define pwart_libffi_module_delete off_libffi_module_delete
#define pwart_libffi_module_ffi_is_enabled off_libffi_module_ffi_is_enabled
#include <pwart_syslib.h>
#include "pwart_syslib/libffi.c"
