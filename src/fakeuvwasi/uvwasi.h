/* Stand-in for the uvwasi library, which this sandbox does not have: its documented types and prototypes (WASI preview1 C bindings). */
#ifndef VF_UVWASI_H
#define VF_UVWASI_H
#include <stdint.h>
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef uint16_t uvwasi_errno_t; typedef uint32_t uvwasi_size_t, uvwasi_fd_t, uvwasi_clockid_t, uvwasi_exitcode_t, uvwasi_lookupflags_t;
typedef uint64_t uvwasi_timestamp_t, uvwasi_filesize_t, uvwasi_rights_t, uvwasi_dircookie_t, uvwasi_device_t, uvwasi_inode_t, uvwasi_linkcount_t, uvwasi_userdata_t; typedef int64_t uvwasi_filedelta_t;
typedef uint8_t uvwasi_advice_t, uvwasi_whence_t, uvwasi_signal_t, uvwasi_sdflags_t, uvwasi_filetype_t, uvwasi_preopentype_t, uvwasi_eventtype_t;
typedef uint16_t uvwasi_fdflags_t, uvwasi_fstflags_t, uvwasi_oflags_t, uvwasi_riflags_t, uvwasi_roflags_t, uvwasi_siflags_t, uvwasi_subclockflags_t, uvwasi_eventrwflags_t;
typedef struct { const void *buf; uvwasi_size_t buf_len; } uvwasi_ciovec_t;
typedef struct { void *buf; uvwasi_size_t buf_len; } uvwasi_iovec_t;
typedef struct { uvwasi_filetype_t fs_filetype; uvwasi_fdflags_t fs_flags; uvwasi_rights_t fs_rights_base, fs_rights_inheriting; } uvwasi_fdstat_t;
typedef struct { uvwasi_device_t st_dev; uvwasi_inode_t st_ino; uvwasi_filetype_t st_filetype; uvwasi_linkcount_t st_nlink; uvwasi_filesize_t st_size; uvwasi_timestamp_t st_atim, st_mtim, st_ctim; } uvwasi_filestat_t;
typedef struct { uvwasi_preopentype_t pr_type; union { struct { uvwasi_size_t pr_name_len; } dir; } u; } uvwasi_prestat_t;
typedef struct { uvwasi_userdata_t userdata; uvwasi_eventtype_t type; union { struct { uvwasi_clockid_t clock_id; uvwasi_timestamp_t timeout, precision; uvwasi_subclockflags_t flags; } clock; struct { uvwasi_fd_t fd; } fd_readwrite; } u; } uvwasi_subscription_t;
typedef struct { uvwasi_userdata_t userdata; uvwasi_errno_t error; uvwasi_eventtype_t type; union { struct { uvwasi_filesize_t nbytes; uvwasi_eventrwflags_t flags; } fd_readwrite; } u; } uvwasi_event_t;
typedef void *(*uvwasi_malloc)(size_t, void *); typedef void (*uvwasi_free)(void *, void *); typedef void *(*uvwasi_calloc)(size_t, size_t, void *); typedef void *(*uvwasi_realloc)(void *, size_t, void *);
typedef struct { void *mem_user_data; uvwasi_malloc malloc; uvwasi_free free; uvwasi_calloc calloc; uvwasi_realloc realloc; } uvwasi_mem_t;
struct uvwasi_fd_table_t;
typedef struct uvwasi_s { struct uvwasi_fd_table_t *fds; uvwasi_size_t argc; char **argv; char *argv_buf; uvwasi_size_t argv_buf_size; uvwasi_size_t env_count; char **env; char *env_buf; uvwasi_size_t env_buf_size; const uvwasi_mem_t *allocator; void *loop; } uvwasi_t;
typedef struct { const char *mapped_path; const char *real_path; } uvwasi_preopen_t;
typedef struct { const char *address; int port; } uvwasi_preopen_socket_t;
typedef struct { uvwasi_size_t fd_table_size; uvwasi_size_t preopenc; uvwasi_preopen_t *preopens; uvwasi_size_t preopen_socketc; uvwasi_preopen_socket_t *preopen_sockets; uvwasi_size_t argc; const char **argv; const char **envp; uvwasi_fd_t in, out, err; const uvwasi_mem_t *allocator; } uvwasi_options_t;
#define VF_API uvwasi_errno_t
VF_API uvwasi_init(uvwasi_t *, const uvwasi_options_t *); void uvwasi_destroy(uvwasi_t *); void uvwasi_options_init(uvwasi_options_t *);
#define VF0(n) VF_API uvwasi_##n(uvwasi_t *)
#define U uvwasi_t *
typedef const char *vf_path;
VF_API uvwasi_args_get(U, char **, char *); VF_API uvwasi_args_sizes_get(U, uvwasi_size_t *, uvwasi_size_t *);
VF_API uvwasi_clock_res_get(U, uvwasi_clockid_t, uvwasi_timestamp_t *); VF_API uvwasi_clock_time_get(U, uvwasi_clockid_t, uvwasi_timestamp_t, uvwasi_timestamp_t *);
VF_API uvwasi_environ_get(U, char **, char *); VF_API uvwasi_environ_sizes_get(U, uvwasi_size_t *, uvwasi_size_t *);
VF_API uvwasi_fd_advise(U, uvwasi_fd_t, uvwasi_filesize_t, uvwasi_filesize_t, uvwasi_advice_t); VF_API uvwasi_fd_allocate(U, uvwasi_fd_t, uvwasi_filesize_t, uvwasi_filesize_t);
VF_API uvwasi_fd_close(U, uvwasi_fd_t); VF_API uvwasi_fd_datasync(U, uvwasi_fd_t); VF_API uvwasi_fd_fdstat_get(U, uvwasi_fd_t, uvwasi_fdstat_t *);
VF_API uvwasi_fd_fdstat_set_flags(U, uvwasi_fd_t, uvwasi_fdflags_t); VF_API uvwasi_fd_fdstat_set_rights(U, uvwasi_fd_t, uvwasi_rights_t, uvwasi_rights_t);
VF_API uvwasi_fd_filestat_get(U, uvwasi_fd_t, uvwasi_filestat_t *); VF_API uvwasi_fd_filestat_set_size(U, uvwasi_fd_t, uvwasi_filesize_t);
VF_API uvwasi_fd_filestat_set_times(U, uvwasi_fd_t, uvwasi_timestamp_t, uvwasi_timestamp_t, uvwasi_fstflags_t);
VF_API uvwasi_fd_pread(U, uvwasi_fd_t, const uvwasi_iovec_t *, uvwasi_size_t, uvwasi_filesize_t, uvwasi_size_t *); VF_API uvwasi_fd_prestat_get(U, uvwasi_fd_t, uvwasi_prestat_t *);
VF_API uvwasi_fd_prestat_dir_name(U, uvwasi_fd_t, char *, uvwasi_size_t); VF_API uvwasi_fd_pwrite(U, uvwasi_fd_t, const uvwasi_ciovec_t *, uvwasi_size_t, uvwasi_filesize_t, uvwasi_size_t *);
VF_API uvwasi_fd_read(U, uvwasi_fd_t, const uvwasi_iovec_t *, uvwasi_size_t, uvwasi_size_t *); VF_API uvwasi_fd_readdir(U, uvwasi_fd_t, void *, uvwasi_size_t, uvwasi_dircookie_t, uvwasi_size_t *);
VF_API uvwasi_fd_renumber(U, uvwasi_fd_t, uvwasi_fd_t); VF_API uvwasi_fd_seek(U, uvwasi_fd_t, uvwasi_filedelta_t, uvwasi_whence_t, uvwasi_filesize_t *); VF_API uvwasi_fd_sync(U, uvwasi_fd_t);
VF_API uvwasi_fd_tell(U, uvwasi_fd_t, uvwasi_filesize_t *); VF_API uvwasi_fd_write(U, uvwasi_fd_t, const uvwasi_ciovec_t *, uvwasi_size_t, uvwasi_size_t *);
VF_API uvwasi_path_create_directory(U, uvwasi_fd_t, vf_path, uvwasi_size_t); VF_API uvwasi_path_filestat_get(U, uvwasi_fd_t, uvwasi_lookupflags_t, vf_path, uvwasi_size_t, uvwasi_filestat_t *);
VF_API uvwasi_path_filestat_set_times(U, uvwasi_fd_t, uvwasi_lookupflags_t, vf_path, uvwasi_size_t, uvwasi_timestamp_t, uvwasi_timestamp_t, uvwasi_fstflags_t);
VF_API uvwasi_path_link(U, uvwasi_fd_t, uvwasi_lookupflags_t, vf_path, uvwasi_size_t, uvwasi_fd_t, vf_path, uvwasi_size_t);
VF_API uvwasi_path_open(U, uvwasi_fd_t, uvwasi_lookupflags_t, vf_path, uvwasi_size_t, uvwasi_oflags_t, uvwasi_rights_t, uvwasi_rights_t, uvwasi_fdflags_t, uvwasi_fd_t *);
VF_API uvwasi_path_readlink(U, uvwasi_fd_t, vf_path, uvwasi_size_t, char *, uvwasi_size_t, uvwasi_size_t *); VF_API uvwasi_path_remove_directory(U, uvwasi_fd_t, vf_path, uvwasi_size_t);
VF_API uvwasi_path_rename(U, uvwasi_fd_t, vf_path, uvwasi_size_t, uvwasi_fd_t, vf_path, uvwasi_size_t); VF_API uvwasi_path_symlink(U, vf_path, uvwasi_size_t, uvwasi_fd_t, vf_path, uvwasi_size_t);
VF_API uvwasi_path_unlink_file(U, uvwasi_fd_t, vf_path, uvwasi_size_t); VF_API uvwasi_poll_oneoff(U, const uvwasi_subscription_t *, uvwasi_event_t *, uvwasi_size_t, uvwasi_size_t *);
VF_API uvwasi_proc_exit(U, uvwasi_exitcode_t); VF_API uvwasi_proc_raise(U, uvwasi_signal_t); VF_API uvwasi_random_get(U, void *, uvwasi_size_t); VF_API uvwasi_sched_yield(U);
VF_API uvwasi_sock_accept(U, uvwasi_fd_t, uvwasi_fdflags_t, uvwasi_fd_t *); VF_API uvwasi_sock_recv(U, uvwasi_fd_t, const uvwasi_iovec_t *, uvwasi_size_t, uvwasi_riflags_t, uvwasi_size_t *, uvwasi_roflags_t *);
VF_API uvwasi_sock_send(U, uvwasi_fd_t, const uvwasi_ciovec_t *, uvwasi_size_t, uvwasi_siflags_t, uvwasi_size_t *); VF_API uvwasi_sock_shutdown(U, uvwasi_fd_t, uvwasi_sdflags_t);
#undef U
#define UVWASI_E2BIG 1
#define UVWASI_EACCES 2
#define UVWASI_EADDRINUSE 3
#define UVWASI_EADDRNOTAVAIL 4
#define UVWASI_EAFNOSUPPORT 5
#define UVWASI_EAGAIN 6
#define UVWASI_EALREADY 7
#define UVWASI_EBADMSG 9
#define UVWASI_EBUSY 10
#define UVWASI_ECANCELED 11
#define UVWASI_ECHILD 12
#define UVWASI_ECONNABORTED 13
#define UVWASI_ECONNREFUSED 14
#define UVWASI_ECONNRESET 15
#define UVWASI_EDEADLK 16
#define UVWASI_EDESTADDRREQ 17
#define UVWASI_EDOM 18
#define UVWASI_EDQUOT 19
#define UVWASI_EEXIST 20
#define UVWASI_EFAULT 21
#define UVWASI_EFBIG 22
#define UVWASI_EHOSTUNREACH 23
#define UVWASI_EIDRM 24
#define UVWASI_EILSEQ 25
#define UVWASI_EINPROGRESS 26
#define UVWASI_EINTR 27
#define UVWASI_EIO 29
#define UVWASI_EISCONN 30
#define UVWASI_EISDIR 31
#define UVWASI_ELOOP 32
#define UVWASI_EMFILE 33
#define UVWASI_EMLINK 34
#define UVWASI_EMSGSIZE 35
#define UVWASI_EMULTIHOP 36
#define UVWASI_ENAMETOOLONG 37
#define UVWASI_ENETDOWN 38
#define UVWASI_ENETRESET 39
#define UVWASI_ENETUNREACH 40
#define UVWASI_ENFILE 41
#define UVWASI_ENODEV 43
#define UVWASI_ENOENT 44
#define UVWASI_ENOEXEC 45
#define UVWASI_ENOLCK 46
#define UVWASI_ENOLINK 47
#define UVWASI_ENOMSG 49
#define UVWASI_ENOPROTOOPT 50
#define UVWASI_ENOSPC 51
#define UVWASI_ENOSYS 52
#define UVWASI_ENOTCONN 53
#define UVWASI_ENOTDIR 54
#define UVWASI_ENOTEMPTY 55
#define UVWASI_ENOTRECOVERABLE 56
#define UVWASI_ENOTSOCK 57
#define UVWASI_ENOTSUP 58
#define UVWASI_ENOTTY 59
#define UVWASI_ENXIO 60
#define UVWASI_EOVERFLOW 61
#define UVWASI_EOWNERDEAD 62
#define UVWASI_EPERM 63
#define UVWASI_EPIPE 64
#define UVWASI_EPROTO 65
#define UVWASI_EPROTONOSUPPORT 66
#define UVWASI_EPROTOTYPE 67
#define UVWASI_ERANGE 68
#define UVWASI_EROFS 69
#define UVWASI_ESPIPE 70
#define UVWASI_ESRCH 71
#define UVWASI_ESTALE 72
#define UVWASI_ETIMEDOUT 73
#define UVWASI_ETXTBSY 74
#define UVWASI_EXDEV 75
#define UVWASI_ENOTCAPABLE 76
#define UVWASI_WHENCE_SET 0
#define UVWASI_WHENCE_CUR 1
#define UVWASI_WHENCE_END 2
#define UVWASI_CLOCK_REALTIME 0
#define UVWASI_CLOCK_MONOTONIC 1
#define UVWASI_CLOCK_PROCESS_CPUTIME_ID 2
#define UVWASI_CLOCK_THREAD_CPUTIME_ID 3
#define UVWASI_ADVICE_NORMAL 0
#define UVWASI_ADVICE_SEQUENTIAL 1
#define UVWASI_ADVICE_RANDOM 2
#define UVWASI_ADVICE_WILLNEED 3
#define UVWASI_ADVICE_DONTNEED 4
#define UVWASI_ADVICE_NOREUSE 5
#define UVWASI_FILETYPE_UNKNOWN 0
#define UVWASI_FILETYPE_BLOCK_DEVICE 1
#define UVWASI_FILETYPE_CHARACTER_DEVICE 2
#define UVWASI_FILETYPE_DIRECTORY 3
#define UVWASI_FILETYPE_REGULAR_FILE 4
#define UVWASI_FILETYPE_SOCKET_DGRAM 5
#define UVWASI_FILETYPE_SOCKET_STREAM 6
#define UVWASI_FILETYPE_SYMBOLIC_LINK 7
#define UVWASI_EVENTTYPE_CLOCK 0
#define UVWASI_EVENTTYPE_FD_READ 1
#define UVWASI_EVENTTYPE_FD_WRITE 2
#define UVWASI_FDFLAG_APPEND 1
#define UVWASI_FDFLAG_DSYNC 2
#define UVWASI_FDFLAG_NONBLOCK 4
#define UVWASI_FDFLAG_RSYNC 8
#define UVWASI_FDFLAG_SYNC 16
#define UVWASI_FILESTAT_SET_ATIM 1
#define UVWASI_FILESTAT_SET_ATIM_NOW 2
#define UVWASI_FILESTAT_SET_MTIM 4
#define UVWASI_FILESTAT_SET_MTIM_NOW 8
#define UVWASI_O_CREAT 1
#define UVWASI_O_DIRECTORY 2
#define UVWASI_O_EXCL 4
#define UVWASI_O_TRUNC 8
#define UVWASI_LOOKUP_SYMLINK_FOLLOW 1
#define UVWASI_PREOPENTYPE_DIR 0
#define UVWASI_SUBSCRIPTION_CLOCK_ABSTIME 1
#define UVWASI_EVENT_FD_READWRITE_HANGUP 1
#define UVWASI_SHUT_RD 1
#define UVWASI_SHUT_WR 2
#define UVWASI_SOCK_RECV_PEEK 1
#define UVWASI_SOCK_RECV_WAITALL 2
#define UVWASI_SOCK_RECV_DATA_TRUNCATED 1
#define UVWASI_RIGHT_FD_DATASYNC (1ull << 0)
#define UVWASI_RIGHT_FD_READ (1ull << 1)
#define UVWASI_RIGHT_FD_SEEK (1ull << 2)
#define UVWASI_RIGHT_FD_FDSTAT_SET_FLAGS (1ull << 3)
#define UVWASI_RIGHT_FD_SYNC (1ull << 4)
#define UVWASI_RIGHT_FD_TELL (1ull << 5)
#define UVWASI_RIGHT_FD_WRITE (1ull << 6)
#define UVWASI_RIGHT_FD_ADVISE (1ull << 7)
#define UVWASI_RIGHT_FD_ALLOCATE (1ull << 8)
#define UVWASI_RIGHT_PATH_CREATE_DIRECTORY (1ull << 9)
#define UVWASI_RIGHT_PATH_CREATE_FILE (1ull << 10)
#define UVWASI_RIGHT_PATH_LINK_SOURCE (1ull << 11)
#define UVWASI_RIGHT_PATH_LINK_TARGET (1ull << 12)
#define UVWASI_RIGHT_PATH_OPEN (1ull << 13)
#define UVWASI_RIGHT_FD_READDIR (1ull << 14)
#define UVWASI_RIGHT_PATH_READLINK (1ull << 15)
#define UVWASI_RIGHT_PATH_RENAME_SOURCE (1ull << 16)
#define UVWASI_RIGHT_PATH_RENAME_TARGET (1ull << 17)
#define UVWASI_RIGHT_PATH_FILESTAT_GET (1ull << 18)
#define UVWASI_RIGHT_PATH_FILESTAT_SET_SIZE (1ull << 19)
#define UVWASI_RIGHT_PATH_FILESTAT_SET_TIMES (1ull << 20)
#define UVWASI_RIGHT_FD_FILESTAT_GET (1ull << 21)
#define UVWASI_RIGHT_FD_FILESTAT_SET_SIZE (1ull << 22)
#define UVWASI_RIGHT_FD_FILESTAT_SET_TIMES (1ull << 23)
#define UVWASI_RIGHT_PATH_SYMLINK (1ull << 24)
#define UVWASI_RIGHT_PATH_REMOVE_DIRECTORY (1ull << 25)
#define UVWASI_RIGHT_PATH_UNLINK_FILE (1ull << 26)
#define UVWASI_RIGHT_POLL_FD_READWRITE (1ull << 27)
#define UVWASI_RIGHT_SOCK_SHUTDOWN (1ull << 28)
#define UVWASI_RIGHT_SOCK_ACCEPT (1ull << 29)
#define UVWASI_SIGNONE 0
#define UVWASI_SIGHUP 1
#define UVWASI_SIGINT 2
#define UVWASI_SIGQUIT 3
#define UVWASI_SIGILL 4
#define UVWASI_SIGTRAP 5
#define UVWASI_SIGABRT 6
#define UVWASI_SIGBUS 7
#define UVWASI_SIGFPE 8
#define UVWASI_SIGKILL 9
#define UVWASI_SIGUSR1 10
#define UVWASI_SIGSEGV 11
#define UVWASI_SIGUSR2 12
#define UVWASI_SIGPIPE 13
#define UVWASI_SIGALRM 14
#define UVWASI_SIGTERM 15
#define UVWASI_SIGCHLD 16
#define UVWASI_SIGCONT 17
#define UVWASI_SIGSTOP 18
#define UVWASI_SIGTSTP 19
#define UVWASI_SIGTTIN 20
#define UVWASI_SIGTTOU 21
#define UVWASI_SIGURG 22
#define UVWASI_SIGXCPU 23
#define UVWASI_SIGXFSZ 24
#define UVWASI_SIGVTALRM 25
#define UVWASI_SIGPROF 26
#define UVWASI_SIGWINCH 27
#define UVWASI_SIGPOLL 28
#define UVWASI_SIGPWR 29
#define UVWASI_SIGSYS 30
#define UVWASI_SERDES_SIZE_event_t 32
#define UVWASI_SERDES_SIZE_fdstat_t 24
#define UVWASI_SERDES_SIZE_filestat_t 64
#define UVWASI_SERDES_SIZE_prestat_t 8
#define UVWASI_SERDES_SIZE_subscription_t 48
#define UVWASI_SERDES_SIZE_ciovec_t 8
#define UVWASI_SERDES_SIZE_iovec_t 8
#define UVWASI_SERDES_SIZE_dirent_t 24
#define UVWASI_ESUCCESS 0
#define UVWASI_EINVAL 28
#define UVWASI_ENOMEM 48
#define UVWASI_ENOBUFS 42
#define UVWASI_EBADF 8
#ifdef __cplusplus
}
#endif
#endif
