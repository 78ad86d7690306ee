/* Force-included (-include) in front of every repository source and every harness.
 * It pulls in the system headers first and then renames the operating-system and libc entry
 * points the code under test uses, so that the very same, unmodified repository sources can be
 * (a) executed symbolically by CBMC and (b) replayed natively against the environment in vp_env.h. */
#ifndef VP_PRE_H
#define VP_PRE_H
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <stdlib.h>
#include <stdio.h>
#include <string.h>
#include <strings.h>
#include <stdint.h>
#include <stdbool.h>
#include <stdarg.h>
#include <stddef.h>
#include <errno.h>
#include <limits.h>
#include <ctype.h>
#include <math.h>
#include <complex.h>
#include <time.h>
#include <signal.h>
#include <unistd.h>
#include <fcntl.h>
#include <poll.h>
#include <dlfcn.h>
#include <pthread.h>
#include <sys/types.h>
#include <sys/time.h>
#include <sys/socket.h>
#include <sys/select.h>
#include <sys/uio.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <arpa/inet.h>
#include <inttypes.h>
#include <stdatomic.h>

#ifdef errno
/* one errno location shared by the code and the stubs; keeps CBMC's model simple */
#undef errno
#endif
extern int vp_errno;
#define errno vp_errno

/* prototypes of the stand-ins */
extern __typeof__(memcpy) vp_memcpy;
extern __typeof__(memmove) vp_memmove;
extern __typeof__(errno) vp_errno;
extern __typeof__(malloc) vp_malloc;
extern __typeof__(calloc) vp_calloc;
extern __typeof__(realloc) vp_realloc;
extern __typeof__(free) vp_free;
extern __typeof__(strdup) vp_strdup;
extern __typeof__(strndup) vp_strndup;
extern __typeof__(aligned_alloc) vp_aligned_alloc;
extern __typeof__(posix_memalign) vp_posix_memalign;
extern __typeof__(printf) vp_printf;
extern __typeof__(fprintf) vp_fprintf;
extern __typeof__(vfprintf) vp_vfprintf;
extern __typeof__(vprintf) vp_vprintf;
extern __typeof__(puts) vp_puts;
extern __typeof__(fputs) vp_fputs;
extern __typeof__(putchar) vp_putchar;
extern __typeof__(perror) vp_perror;
extern __typeof__(snprintf) vp_snprintf;
extern __typeof__(sprintf) vp_sprintf;
extern __typeof__(strerror) vp_strerror;
extern __typeof__(fopen) vp_fopen;
extern __typeof__(fclose) vp_fclose;
extern __typeof__(fread) vp_fread;
extern __typeof__(fwrite) vp_fwrite;
extern __typeof__(feof) vp_feof;
extern __typeof__(ferror) vp_ferror;
extern __typeof__(fflush) vp_fflush;
extern __typeof__(setvbuf) vp_setvbuf;
extern __typeof__(socket) vp_socket;
extern __typeof__(bind) vp_bind;
extern __typeof__(listen) vp_listen;
extern __typeof__(accept) vp_accept;
extern __typeof__(accept4) vp_accept4;
extern __typeof__(connect) vp_connect;
extern __typeof__(setsockopt) vp_setsockopt;
extern __typeof__(getsockopt) vp_getsockopt;
extern __typeof__(shutdown) vp_shutdown;
extern __typeof__(recv) vp_recv;
extern __typeof__(send) vp_send;
extern __typeof__(read) vp_read;
extern __typeof__(write) vp_write;
extern __typeof__(close) vp_close;
extern __typeof__(poll) vp_poll;
extern __typeof__(inet_pton) vp_inet_pton;
extern __typeof__(inet_ntop) vp_inet_ntop;
extern __typeof__(inet_addr) vp_inet_addr;
extern __typeof__(pthread_create) vp_pthread_create;
extern __typeof__(pthread_join) vp_pthread_join;
extern __typeof__(pthread_detach) vp_pthread_detach;
extern __typeof__(pthread_self) vp_pthread_self;
extern __typeof__(pthread_mutex_init) vp_pthread_mutex_init;
extern __typeof__(pthread_mutex_destroy) vp_pthread_mutex_destroy;
extern __typeof__(pthread_mutex_lock) vp_pthread_mutex_lock;
extern __typeof__(pthread_mutex_trylock) vp_pthread_mutex_trylock;
extern __typeof__(pthread_mutex_unlock) vp_pthread_mutex_unlock;
extern __typeof__(pthread_cond_init) vp_pthread_cond_init;
extern __typeof__(pthread_cond_destroy) vp_pthread_cond_destroy;
extern __typeof__(pthread_cond_wait) vp_pthread_cond_wait;
extern __typeof__(pthread_cond_timedwait) vp_pthread_cond_timedwait;
extern __typeof__(pthread_cond_signal) vp_pthread_cond_signal;
extern __typeof__(pthread_cond_broadcast) vp_pthread_cond_broadcast;
extern __typeof__(time) vp_time;
extern __typeof__(gettimeofday) vp_gettimeofday;
extern __typeof__(clock_gettime) vp_clock_gettime;
extern __typeof__(gmtime) vp_gmtime;
extern __typeof__(gmtime_r) vp_gmtime_r;
extern __typeof__(mktime) vp_mktime;
extern __typeof__(sleep) vp_sleep;
extern __typeof__(usleep) vp_usleep;
extern __typeof__(nanosleep) vp_nanosleep;
extern __typeof__(getenv) vp_getenv;
extern __typeof__(strtol) vp_strtol;
extern __typeof__(signal) vp_signal;
extern __typeof__(sigaction) vp_sigaction;
extern __typeof__(exit) vp_exit;
extern __typeof__(abort) vp_abort;
extern __typeof__(dlopen) vp_dlopen;
extern __typeof__(dlsym) vp_dlsym;
extern __typeof__(dlclose) vp_dlclose;
extern __typeof__(dlerror) vp_dlerror;
extern __typeof__(sin) vp_sin;
extern __typeof__(cos) vp_cos;
extern __typeof__(sinf) vp_sinf;
extern __typeof__(cosf) vp_cosf;
extern __typeof__(sincos) vp_sincos;
extern __typeof__(sincosf) vp_sincosf;
extern __typeof__(tan) vp_tan;
extern __typeof__(exp) vp_exp;
extern __typeof__(log) vp_log;
extern __typeof__(sqrt) vp_sqrt;
extern __typeof__(pow) vp_pow;
extern __typeof__(atan) vp_atan;
extern __typeof__(atan2) vp_atan2;
extern __typeof__(asin) vp_asin;
extern __typeof__(acos) vp_acos;
extern __typeof__(cexpf) vp_cexpf;
extern __typeof__(tanf) vp_tanf;
extern __typeof__(expf) vp_expf;
extern __typeof__(logf) vp_logf;
extern __typeof__(sqrtf) vp_sqrtf;
extern __typeof__(powf) vp_powf;
extern __typeof__(atanf) vp_atanf;
extern __typeof__(atan2f) vp_atan2f;
extern __typeof__(asinf) vp_asinf;
extern __typeof__(acosf) vp_acosf;

/* ---- renamed entry points ---- */
#define malloc vp_malloc
#define calloc vp_calloc
#define realloc vp_realloc
#define free vp_free
#define strdup vp_strdup
#define strndup vp_strndup
#define aligned_alloc vp_aligned_alloc
#define posix_memalign vp_posix_memalign

#ifdef VP_OWN_MEMCPY
#define memcpy vp_memcpy
#define memmove vp_memmove
#endif

#define printf vp_printf
#define fprintf vp_fprintf
#define vfprintf vp_vfprintf
#define vprintf vp_vprintf
#define puts vp_puts
#define fputs vp_fputs
#define putchar vp_putchar
#define perror vp_perror
/* "+ 0" applies the default promotions, which the solver front end leaves out for variadic arguments */
#define VP_P0()
#define VP_P1(a) , (a) + 0
#define VP_P2(a, b) , (a) + 0, (b) + 0
#define VP_P3(a, b, c) , (a) + 0, (b) + 0, (c) + 0
#define VP_P4(a, b, c, d) , (a) + 0, (b) + 0, (c) + 0, (d) + 0
#define VP_P5(a, b, c, d, e) , (a) + 0, (b) + 0, (c) + 0, (d) + 0, (e) + 0
#define VP_P6(a, b, c, d, e, f) , (a) + 0, (b) + 0, (c) + 0, (d) + 0, (e) + 0, (f) + 0
#define VP_PSEL(z, a, b, c, d, e, f, m, ...) m
#define snprintf(b, n, fmt, ...) vp_snprintf(b, n, fmt VP_PSEL(0, ##__VA_ARGS__, VP_P6, VP_P5, VP_P4, VP_P3, VP_P2, VP_P1, VP_P0)(__VA_ARGS__))
#define sprintf vp_sprintf
#define strerror vp_strerror
#define fopen vp_fopen
#define fclose vp_fclose
#define fread vp_fread
#define fwrite vp_fwrite
#define feof vp_feof
#define ferror vp_ferror
#define fflush vp_fflush
#define setvbuf vp_setvbuf

#define socket vp_socket
#define bind vp_bind
#define listen vp_listen
#define accept vp_accept
#define accept4 vp_accept4
#define connect vp_connect
#define setsockopt vp_setsockopt
#define getsockopt vp_getsockopt
#define shutdown vp_shutdown
#define recv vp_recv
#define send vp_send
#define read vp_read
#define write vp_write
#define close vp_close
#define poll vp_poll
#define inet_pton vp_inet_pton
#define inet_ntop vp_inet_ntop
#define inet_addr vp_inet_addr

#define pthread_create vp_pthread_create
#define pthread_join vp_pthread_join
#define pthread_detach vp_pthread_detach
#define pthread_self vp_pthread_self
#define pthread_mutex_init vp_pthread_mutex_init
#define pthread_mutex_destroy vp_pthread_mutex_destroy
#define pthread_mutex_lock vp_pthread_mutex_lock
#define pthread_mutex_trylock vp_pthread_mutex_trylock
#define pthread_mutex_unlock vp_pthread_mutex_unlock
#define pthread_cond_init vp_pthread_cond_init
#define pthread_cond_destroy vp_pthread_cond_destroy
#define pthread_cond_wait vp_pthread_cond_wait
#define pthread_cond_timedwait vp_pthread_cond_timedwait
#define pthread_cond_signal vp_pthread_cond_signal
#define pthread_cond_broadcast vp_pthread_cond_broadcast

#define time vp_time
#define gettimeofday vp_gettimeofday
#define clock_gettime vp_clock_gettime
#define gmtime vp_gmtime
#define gmtime_r vp_gmtime_r
#define mktime vp_mktime
#define sleep vp_sleep
#define usleep vp_usleep
#define nanosleep vp_nanosleep
#define getenv vp_getenv
#define strtol vp_strtol
#define signal vp_signal
#define sigaction vp_sigaction
#define exit vp_exit
#define abort vp_abort
#define dlopen vp_dlopen
#define dlsym vp_dlsym
#define dlclose vp_dlclose
#define dlerror vp_dlerror

#ifndef VP_REAL_MATH
#define sin vp_sin
#define cos vp_cos
#define sinf vp_sinf
#define cosf vp_cosf
#define sincos vp_sincos
#define sincosf vp_sincosf
#define tan vp_tan
#define exp vp_exp
#define log vp_log
#define sqrt vp_sqrt
#define pow vp_pow
#define atan vp_atan
#define atan2 vp_atan2
#define asin vp_asin
#define acos vp_acos
#define cexpf vp_cexpf
#define tanf vp_tanf
#define expf vp_expf
#define logf vp_logf
#define sqrtf vp_sqrtf
#define powf vp_powf
#define atanf vp_atanf
#define atan2f vp_atan2f
#define asinf vp_asinf
#define acosf vp_acosf
#endif

/* classification macros the solver front end does not know */
#undef isfinite
#undef isnan
#undef isinf
#define isfinite(x) ((x) - (x) == 0)
#define isnan(x) ((x) != (x))
#define isinf(x) ((x) == (x) && !((x) - (x) == 0))
/* CBMC cannot lower symbolic-length byte updates over _Complex.  For modules that only move samples the runner
 * rewrites the type "float complex" of the current sources to vp_cf: two packed floats, the same layout. */
#ifdef VP_CFSTRUCT
typedef struct { float re, im; } vp_cf;
#else
typedef float complex vp_cf;
#endif
#define vp_re(z) ({ vp_cf vp_z_ = (z); ((float *) &vp_z_)[0]; })
#define vp_im(z) ({ vp_cf vp_z_ = (z); ((float *) &vp_z_)[1]; })
#define crealf(z) vp_re(z)
#define cimagf(z) vp_im(z)
#endif
