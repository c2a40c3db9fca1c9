/*
 * Force-included before every source of /repo and every harness.
 * Pulls the system headers in, then redirects the C library and system calls
 * that matter to the models of lib/vp_env.c.  The sources are not modified.
 */
#ifndef VP_FORCE_H
#define VP_FORCE_H
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <stdlib.h>
#include <stdio.h>
#include <string.h>
#include <stddef.h>
#include <stdarg.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <time.h>
#include <signal.h>
#include <inttypes.h>
#include <pthread.h>
#include <unistd.h>
#include <netdb.h>
#include <sys/stat.h>
#include <sys/epoll.h>
#include <sys/eventfd.h>
#include <sys/param.h>
#include <sys/poll.h>
#include <sys/socket.h>
#include <sys/timerfd.h>
#include <sys/un.h>
#include <sys/uio.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include "vp.h"

/* memory */
extern void *vp_malloc(size_t n);
extern void *vp_calloc(size_t n, size_t s);
extern void *vp_realloc(void *p, size_t n);
extern void vp_free(void *p);
extern char *vp_strdup(const char *s);
extern void *vp_memcpy(void *d, const void *s, size_t n);
extern void *vp_memcpy_k(void *d, const void *s, size_t n, unsigned kind);
extern void *vp_memmove(void *d, const void *s, size_t n);
extern void *vp_memset(void *d, int c, size_t n);
extern long vp_live;		/* live allocations */
extern int vp_alloc_fail_at;	/* index of the allocation that fails, or -1 */
extern int vp_alloc_count;

/* The length of a string the harness made (content symbolic, length not). */
extern void vp_known_str(const char *s, size_t n);
extern void vp_known_none(void);
extern void vp_known_len(const char *s, size_t n);
extern size_t vp_strlen(const char *s);

#ifndef VP_ENV_IMPL
#ifdef VP_STRLEN
#undef strlen
#define strlen(s)	vp_strlen(s)
#endif
#define malloc(n)	vp_malloc(n)
#define calloc(n, s)	vp_calloc(n, s)
#define realloc(p, n)	vp_realloc(p, n)
#define free(p)		vp_free(p)
#undef strdup
#define strdup(s)	vp_strdup(s)
#undef memcpy
#undef memmove
#ifdef VP_CBMC
/* a copy that fills one scalar stores it whole (keeps constants constant) */
#define memcpy(d, s, n)	vp_memcpy_k(d, s, n, _Generic((d), \
	uint32_t *: 4, int32_t *: 4, uint16_t *: 2, int16_t *: 2, \
	uint64_t *: 8, int64_t *: 8, default: 0))
#else
#define memcpy(d, s, n)	vp_memcpy(d, s, n)
#endif
#define memmove(d, s, n) vp_memmove(d, s, n)
#ifdef VP_MEMSET
#undef memset
#define memset(d, c, n)	vp_memset(d, c, n)
#endif
#endif

/* The buffers' allocation step is a tuning constant: jobs shrink it so that
 * the solver meets growth at small sizes (macros expand where they are used). */
#ifdef VP_STEP
#include "pomp_buffer.h"
#undef POMP_BUFFER_ALLOC_STEP
#define POMP_BUFFER_ALLOC_STEP ((unsigned)(VP_STEP))
#endif

#ifdef VP_SYS
#include "vp_sys.h"
#endif
#endif
