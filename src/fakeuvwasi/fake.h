/* The stand-in forwards every call, arguments widened to 64 bits, to a hook set by the check. */
#include "uvwasi.h"
uint32_t (*vf_wasi_hook)(const char *name, int n, const uint64_t *a);
static uint32_t vf_go(const char *s, int n, const uint64_t *a) { return vf_wasi_hook ? vf_wasi_hook(s, n, a) : 52; }
#define A(x) (uint64_t)(x)
uvwasi_errno_t uvwasi_args_get(uvwasi_t *u, char ** p0, char * p1) { uint64_t a[] = {A(u), A(p0), A(p1)}; return (uvwasi_errno_t)vf_go("args_get", 3, a); }
uvwasi_errno_t uvwasi_args_sizes_get(uvwasi_t *u, uvwasi_size_t * p0, uvwasi_size_t * p1) { uint64_t a[] = {A(u), A(p0), A(p1)}; return (uvwasi_errno_t)vf_go("args_sizes_get", 3, a); }
uvwasi_errno_t uvwasi_clock_res_get(uvwasi_t *u, uvwasi_clockid_t p0, uvwasi_timestamp_t * p1) { uint64_t a[] = {A(u), A(p0), A(p1)}; return (uvwasi_errno_t)vf_go("clock_res_get", 3, a); }
uvwasi_errno_t uvwasi_clock_time_get(uvwasi_t *u, uvwasi_clockid_t p0, uvwasi_timestamp_t p1, uvwasi_timestamp_t * p2) { uint64_t a[] = {A(u), A(p0), A(p1), A(p2)}; return (uvwasi_errno_t)vf_go("clock_time_get", 4, a); }
uvwasi_errno_t uvwasi_environ_get(uvwasi_t *u, char ** p0, char * p1) { uint64_t a[] = {A(u), A(p0), A(p1)}; return (uvwasi_errno_t)vf_go("environ_get", 3, a); }
uvwasi_errno_t uvwasi_environ_sizes_get(uvwasi_t *u, uvwasi_size_t * p0, uvwasi_size_t * p1) { uint64_t a[] = {A(u), A(p0), A(p1)}; return (uvwasi_errno_t)vf_go("environ_sizes_get", 3, a); }
uvwasi_errno_t uvwasi_fd_advise(uvwasi_t *u, uvwasi_fd_t p0, uvwasi_filesize_t p1, uvwasi_filesize_t p2, uvwasi_advice_t p3) { uint64_t a[] = {A(u), A(p0), A(p1), A(p2), A(p3)}; return (uvwasi_errno_t)vf_go("fd_advise", 5, a); }
uvwasi_errno_t uvwasi_fd_allocate(uvwasi_t *u, uvwasi_fd_t p0, uvwasi_filesize_t p1, uvwasi_filesize_t p2) { uint64_t a[] = {A(u), A(p0), A(p1), A(p2)}; return (uvwasi_errno_t)vf_go("fd_allocate", 4, a); }
uvwasi_errno_t uvwasi_fd_close(uvwasi_t *u, uvwasi_fd_t p0) { uint64_t a[] = {A(u), A(p0)}; return (uvwasi_errno_t)vf_go("fd_close", 2, a); }
uvwasi_errno_t uvwasi_fd_datasync(uvwasi_t *u, uvwasi_fd_t p0) { uint64_t a[] = {A(u), A(p0)}; return (uvwasi_errno_t)vf_go("fd_datasync", 2, a); }
uvwasi_errno_t uvwasi_fd_fdstat_get(uvwasi_t *u, uvwasi_fd_t p0, uvwasi_fdstat_t * p1) { uint64_t a[] = {A(u), A(p0), A(p1)}; return (uvwasi_errno_t)vf_go("fd_fdstat_get", 3, a); }
uvwasi_errno_t uvwasi_fd_fdstat_set_flags(uvwasi_t *u, uvwasi_fd_t p0, uvwasi_fdflags_t p1) { uint64_t a[] = {A(u), A(p0), A(p1)}; return (uvwasi_errno_t)vf_go("fd_fdstat_set_flags", 3, a); }
uvwasi_errno_t uvwasi_fd_fdstat_set_rights(uvwasi_t *u, uvwasi_fd_t p0, uvwasi_rights_t p1, uvwasi_rights_t p2) { uint64_t a[] = {A(u), A(p0), A(p1), A(p2)}; return (uvwasi_errno_t)vf_go("fd_fdstat_set_rights", 4, a); }
uvwasi_errno_t uvwasi_fd_filestat_get(uvwasi_t *u, uvwasi_fd_t p0, uvwasi_filestat_t * p1) { uint64_t a[] = {A(u), A(p0), A(p1)}; return (uvwasi_errno_t)vf_go("fd_filestat_get", 3, a); }
uvwasi_errno_t uvwasi_fd_filestat_set_size(uvwasi_t *u, uvwasi_fd_t p0, uvwasi_filesize_t p1) { uint64_t a[] = {A(u), A(p0), A(p1)}; return (uvwasi_errno_t)vf_go("fd_filestat_set_size", 3, a); }
uvwasi_errno_t uvwasi_fd_filestat_set_times(uvwasi_t *u, uvwasi_fd_t p0, uvwasi_timestamp_t p1, uvwasi_timestamp_t p2, uvwasi_fstflags_t p3) { uint64_t a[] = {A(u), A(p0), A(p1), A(p2), A(p3)}; return (uvwasi_errno_t)vf_go("fd_filestat_set_times", 5, a); }
uvwasi_errno_t uvwasi_fd_pread(uvwasi_t *u, uvwasi_fd_t p0, const uvwasi_iovec_t * p1, uvwasi_size_t p2, uvwasi_filesize_t p3, uvwasi_size_t * p4) { uint64_t a[] = {A(u), A(p0), A(p1), A(p2), A(p3), A(p4)}; return (uvwasi_errno_t)vf_go("fd_pread", 6, a); }
uvwasi_errno_t uvwasi_fd_prestat_get(uvwasi_t *u, uvwasi_fd_t p0, uvwasi_prestat_t * p1) { uint64_t a[] = {A(u), A(p0), A(p1)}; return (uvwasi_errno_t)vf_go("fd_prestat_get", 3, a); }
uvwasi_errno_t uvwasi_fd_prestat_dir_name(uvwasi_t *u, uvwasi_fd_t p0, char * p1, uvwasi_size_t p2) { uint64_t a[] = {A(u), A(p0), A(p1), A(p2)}; return (uvwasi_errno_t)vf_go("fd_prestat_dir_name", 4, a); }
uvwasi_errno_t uvwasi_fd_pwrite(uvwasi_t *u, uvwasi_fd_t p0, const uvwasi_ciovec_t * p1, uvwasi_size_t p2, uvwasi_filesize_t p3, uvwasi_size_t * p4) { uint64_t a[] = {A(u), A(p0), A(p1), A(p2), A(p3), A(p4)}; return (uvwasi_errno_t)vf_go("fd_pwrite", 6, a); }
uvwasi_errno_t uvwasi_fd_read(uvwasi_t *u, uvwasi_fd_t p0, const uvwasi_iovec_t * p1, uvwasi_size_t p2, uvwasi_size_t * p3) { uint64_t a[] = {A(u), A(p0), A(p1), A(p2), A(p3)}; return (uvwasi_errno_t)vf_go("fd_read", 5, a); }
uvwasi_errno_t uvwasi_fd_readdir(uvwasi_t *u, uvwasi_fd_t p0, void * p1, uvwasi_size_t p2, uvwasi_dircookie_t p3, uvwasi_size_t * p4) { uint64_t a[] = {A(u), A(p0), A(p1), A(p2), A(p3), A(p4)}; return (uvwasi_errno_t)vf_go("fd_readdir", 6, a); }
uvwasi_errno_t uvwasi_fd_renumber(uvwasi_t *u, uvwasi_fd_t p0, uvwasi_fd_t p1) { uint64_t a[] = {A(u), A(p0), A(p1)}; return (uvwasi_errno_t)vf_go("fd_renumber", 3, a); }
uvwasi_errno_t uvwasi_fd_seek(uvwasi_t *u, uvwasi_fd_t p0, uvwasi_filedelta_t p1, uvwasi_whence_t p2, uvwasi_filesize_t * p3) { uint64_t a[] = {A(u), A(p0), A(p1), A(p2), A(p3)}; return (uvwasi_errno_t)vf_go("fd_seek", 5, a); }
uvwasi_errno_t uvwasi_fd_sync(uvwasi_t *u, uvwasi_fd_t p0) { uint64_t a[] = {A(u), A(p0)}; return (uvwasi_errno_t)vf_go("fd_sync", 2, a); }
uvwasi_errno_t uvwasi_fd_tell(uvwasi_t *u, uvwasi_fd_t p0, uvwasi_filesize_t * p1) { uint64_t a[] = {A(u), A(p0), A(p1)}; return (uvwasi_errno_t)vf_go("fd_tell", 3, a); }
uvwasi_errno_t uvwasi_fd_write(uvwasi_t *u, uvwasi_fd_t p0, const uvwasi_ciovec_t * p1, uvwasi_size_t p2, uvwasi_size_t * p3) { uint64_t a[] = {A(u), A(p0), A(p1), A(p2), A(p3)}; return (uvwasi_errno_t)vf_go("fd_write", 5, a); }
uvwasi_errno_t uvwasi_path_create_directory(uvwasi_t *u, uvwasi_fd_t p0, vf_path p1, uvwasi_size_t p2) { uint64_t a[] = {A(u), A(p0), A(p1), A(p2)}; return (uvwasi_errno_t)vf_go("path_create_directory", 4, a); }
uvwasi_errno_t uvwasi_path_filestat_get(uvwasi_t *u, uvwasi_fd_t p0, uvwasi_lookupflags_t p1, vf_path p2, uvwasi_size_t p3, uvwasi_filestat_t * p4) { uint64_t a[] = {A(u), A(p0), A(p1), A(p2), A(p3), A(p4)}; return (uvwasi_errno_t)vf_go("path_filestat_get", 6, a); }
uvwasi_errno_t uvwasi_path_filestat_set_times(uvwasi_t *u, uvwasi_fd_t p0, uvwasi_lookupflags_t p1, vf_path p2, uvwasi_size_t p3, uvwasi_timestamp_t p4, uvwasi_timestamp_t p5, uvwasi_fstflags_t p6) { uint64_t a[] = {A(u), A(p0), A(p1), A(p2), A(p3), A(p4), A(p5), A(p6)}; return (uvwasi_errno_t)vf_go("path_filestat_set_times", 8, a); }
uvwasi_errno_t uvwasi_path_link(uvwasi_t *u, uvwasi_fd_t p0, uvwasi_lookupflags_t p1, vf_path p2, uvwasi_size_t p3, uvwasi_fd_t p4, vf_path p5, uvwasi_size_t p6) { uint64_t a[] = {A(u), A(p0), A(p1), A(p2), A(p3), A(p4), A(p5), A(p6)}; return (uvwasi_errno_t)vf_go("path_link", 8, a); }
uvwasi_errno_t uvwasi_path_open(uvwasi_t *u, uvwasi_fd_t p0, uvwasi_lookupflags_t p1, vf_path p2, uvwasi_size_t p3, uvwasi_oflags_t p4, uvwasi_rights_t p5, uvwasi_rights_t p6, uvwasi_fdflags_t p7, uvwasi_fd_t * p8) { uint64_t a[] = {A(u), A(p0), A(p1), A(p2), A(p3), A(p4), A(p5), A(p6), A(p7), A(p8)}; return (uvwasi_errno_t)vf_go("path_open", 10, a); }
uvwasi_errno_t uvwasi_path_readlink(uvwasi_t *u, uvwasi_fd_t p0, vf_path p1, uvwasi_size_t p2, char * p3, uvwasi_size_t p4, uvwasi_size_t * p5) { uint64_t a[] = {A(u), A(p0), A(p1), A(p2), A(p3), A(p4), A(p5)}; return (uvwasi_errno_t)vf_go("path_readlink", 7, a); }
uvwasi_errno_t uvwasi_path_remove_directory(uvwasi_t *u, uvwasi_fd_t p0, vf_path p1, uvwasi_size_t p2) { uint64_t a[] = {A(u), A(p0), A(p1), A(p2)}; return (uvwasi_errno_t)vf_go("path_remove_directory", 4, a); }
uvwasi_errno_t uvwasi_path_rename(uvwasi_t *u, uvwasi_fd_t p0, vf_path p1, uvwasi_size_t p2, uvwasi_fd_t p3, vf_path p4, uvwasi_size_t p5) { uint64_t a[] = {A(u), A(p0), A(p1), A(p2), A(p3), A(p4), A(p5)}; return (uvwasi_errno_t)vf_go("path_rename", 7, a); }
uvwasi_errno_t uvwasi_path_symlink(uvwasi_t *u, vf_path p0, uvwasi_size_t p1, uvwasi_fd_t p2, vf_path p3, uvwasi_size_t p4) { uint64_t a[] = {A(u), A(p0), A(p1), A(p2), A(p3), A(p4)}; return (uvwasi_errno_t)vf_go("path_symlink", 6, a); }
uvwasi_errno_t uvwasi_path_unlink_file(uvwasi_t *u, uvwasi_fd_t p0, vf_path p1, uvwasi_size_t p2) { uint64_t a[] = {A(u), A(p0), A(p1), A(p2)}; return (uvwasi_errno_t)vf_go("path_unlink_file", 4, a); }
uvwasi_errno_t uvwasi_poll_oneoff(uvwasi_t *u, const uvwasi_subscription_t * p0, uvwasi_event_t * p1, uvwasi_size_t p2, uvwasi_size_t * p3) { uint64_t a[] = {A(u), A(p0), A(p1), A(p2), A(p3)}; return (uvwasi_errno_t)vf_go("poll_oneoff", 5, a); }
uvwasi_errno_t uvwasi_proc_exit(uvwasi_t *u, uvwasi_exitcode_t p0) { uint64_t a[] = {A(u), A(p0)}; return (uvwasi_errno_t)vf_go("proc_exit", 2, a); }
uvwasi_errno_t uvwasi_proc_raise(uvwasi_t *u, uvwasi_signal_t p0) { uint64_t a[] = {A(u), A(p0)}; return (uvwasi_errno_t)vf_go("proc_raise", 2, a); }
uvwasi_errno_t uvwasi_random_get(uvwasi_t *u, void * p0, uvwasi_size_t p1) { uint64_t a[] = {A(u), A(p0), A(p1)}; return (uvwasi_errno_t)vf_go("random_get", 3, a); }
uvwasi_errno_t uvwasi_sched_yield(uvwasi_t *u) { uint64_t a[] = {A(u)}; return (uvwasi_errno_t)vf_go("sched_yield", 1, a); }
uvwasi_errno_t uvwasi_sock_accept(uvwasi_t *u, uvwasi_fd_t p0, uvwasi_fdflags_t p1, uvwasi_fd_t * p2) { uint64_t a[] = {A(u), A(p0), A(p1), A(p2)}; return (uvwasi_errno_t)vf_go("sock_accept", 4, a); }
uvwasi_errno_t uvwasi_sock_recv(uvwasi_t *u, uvwasi_fd_t p0, const uvwasi_iovec_t * p1, uvwasi_size_t p2, uvwasi_riflags_t p3, uvwasi_size_t * p4, uvwasi_roflags_t * p5) { uint64_t a[] = {A(u), A(p0), A(p1), A(p2), A(p3), A(p4), A(p5)}; return (uvwasi_errno_t)vf_go("sock_recv", 7, a); }
uvwasi_errno_t uvwasi_sock_send(uvwasi_t *u, uvwasi_fd_t p0, const uvwasi_ciovec_t * p1, uvwasi_size_t p2, uvwasi_siflags_t p3, uvwasi_size_t * p4) { uint64_t a[] = {A(u), A(p0), A(p1), A(p2), A(p3), A(p4)}; return (uvwasi_errno_t)vf_go("sock_send", 6, a); }
uvwasi_errno_t uvwasi_sock_shutdown(uvwasi_t *u, uvwasi_fd_t p0, uvwasi_sdflags_t p1) { uint64_t a[] = {A(u), A(p0), A(p1)}; return (uvwasi_errno_t)vf_go("sock_shutdown", 3, a); }
uvwasi_errno_t uvwasi_init(uvwasi_t *u, const uvwasi_options_t *o) { uint64_t a[] = {A(u), A(o)}; return (uvwasi_errno_t)vf_go("init", 2, a); }
void uvwasi_destroy(uvwasi_t *u) { uint64_t a[] = {A(u)}; vf_go("destroy", 1, a); }
void uvwasi_options_init(uvwasi_options_t *o) { uint64_t a[] = {A(o)}; vf_go("options_init", 1, a); }
#undef A
