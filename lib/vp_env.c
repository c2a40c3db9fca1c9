/* Models of the memory functions, shared by CBMC and native replay. */

#include "vp_force.h"

long vp_live;
int vp_alloc_fail_at = -1;
int vp_alloc_count;

#ifndef VP_STEP
#define VP_STEP 256
#endif
#ifdef VP_BIGFAIL
/* sizes beyond the ladder are sizes the system refuses */
#define VP_MAXALLOC ((size_t)VP_STEP * VP_LADDER)
#else
#define VP_MAXALLOC ((size_t)1 << 31)
#endif

static int alloc_fails(void)
{
	int k = vp_alloc_count++;
	return vp_alloc_fail_at >= 0 && k == vp_alloc_fail_at;
}

#ifdef VP_CBMC
/* Allocation sizes are concretised so that every object has a constant size:
 * the solver still picks which one.  With VP_LADDER=k only sizes of up to k
 * allocation steps exist; larger ones are outside the claim of the job.
 * VP_EXACT: every size is a constant of the program anyway. */
static void *raw_alloc(size_t n)
{
	if (n == VP_STEP)
		return malloc(VP_STEP);
#ifdef VP_SMALL
	switch (n) {	/* strings */
	case 1: return malloc(1);
	case 2: return malloc(2);
	case 3: return malloc(3);
	case 4: return malloc(4);
#if VP_SMALL > 4
	case 5: return malloc(5);
	case 6: return malloc(6);
	case 7: return malloc(7);
	case 8: return malloc(8);
#endif
	default: break;
	}
#endif
#if !defined(VP_LADDER) || VP_LADDER > 1
	if (n == 2 * VP_STEP)
		return malloc(2 * VP_STEP);
#endif
#if defined(VP_LADDER) && !defined(VP_EXACT)
#if VP_LADDER > 2
	if (n == 3 * VP_STEP)
		return malloc(3 * VP_STEP);
	if (n == 4 * VP_STEP)
		return malloc(4 * VP_STEP);
#endif
#ifdef VP_BIGFAIL
	return NULL;	/* more than the system has */
#else
	__CPROVER_assume(0);
#endif
#endif
	return malloc(n);
}
void *vp_memcpy(void *d, const void *s, size_t n)
{
	unsigned char *dd = d;
	const unsigned char *ss = s;
	size_t i;
	__CPROVER_assert(n == 0 || __CPROVER_r_ok(s, n), "memcpy source readable");
	__CPROVER_assert(n == 0 || __CPROVER_w_ok(d, n), "memcpy destination writable");
#ifdef VP_SPARSE
	/* only the first bytes and the last one are modelled */
	for (i = 0; i < VP_SPARSE; i++)
		if (i < n)
			dd[i] = ss[i];
	if (n > 0)
		dd[n - 1] = ss[n - 1];
	return d;
#endif
	for (i = 0; i < n; i++)
		dd[i] = ss[i];
	return d;
}
void *vp_memcpy_k(void *d, const void *s, size_t n, unsigned kind)
{
	const unsigned char *ss = s;
	if (kind == 0 || n != kind)
		return vp_memcpy(d, s, n);
	__CPROVER_assert(__CPROVER_r_ok(s, n), "memcpy source readable");
	__CPROVER_assert(__CPROVER_w_ok(d, n), "memcpy destination writable");
	if (kind == 2)
		*(uint16_t *)d = (uint16_t)(ss[0] | ss[1] << 8);
	else if (kind == 4)
		*(uint32_t *)d = ss[0] | (uint32_t)ss[1] << 8 | (uint32_t)ss[2] << 16 | (uint32_t)ss[3] << 24;
	else
		*(uint64_t *)d = ss[0] | (uint64_t)ss[1] << 8 | (uint64_t)ss[2] << 16 | (uint64_t)ss[3] << 24 |
			(uint64_t)ss[4] << 32 | (uint64_t)ss[5] << 40 | (uint64_t)ss[6] << 48 | (uint64_t)ss[7] << 56;
	return d;
}
void *vp_memmove(void *d, const void *s, size_t n)
{
	unsigned char *dd = d;
	const unsigned char *ss = s;
	size_t i;
	__CPROVER_assert(n == 0 || __CPROVER_r_ok(s, n), "memmove source readable");
	__CPROVER_assert(n == 0 || __CPROVER_w_ok(d, n), "memmove destination writable");
	if (__CPROVER_POINTER_OBJECT(d) != __CPROVER_POINTER_OBJECT(s)
			|| __CPROVER_POINTER_OFFSET(d) <= __CPROVER_POINTER_OFFSET(s)) {
		for (i = 0; i < n; i++)
			dd[i] = ss[i];
	} else {
		for (i = n; i > 0; i--)
			dd[i - 1] = ss[i - 1];
	}
	return d;
}
#else
static void *raw_alloc(size_t n)
{
	if (n > VP_MAXALLOC)
		return NULL;
	return malloc(n);
}
void *vp_memcpy(void *d, const void *s, size_t n) { return n == 0 ? d : memcpy(d, s, n); }
void *vp_memmove(void *d, const void *s, size_t n) { return n == 0 ? d : memmove(d, s, n); }
#endif

void *vp_memset(void *d, int c, size_t n)
{
	unsigned char *dd = d;
	size_t i;
	for (i = 0; i < n; i++)
		dd[i] = (unsigned char)c;
	return d;
}

void *vp_malloc(size_t n)
{
	void *p;
	if (alloc_fails())
		return NULL;
	p = raw_alloc(n);
	if (p != NULL)
		vp_live++;
	return p;
}

void *vp_calloc(size_t n, size_t s)
{
	void *p;
	if (alloc_fails())
		return NULL;
	p = calloc(n, s);
	if (p != NULL)
		vp_live++;
	return p;
}

void *vp_realloc(void *p, size_t n)
{
#ifdef VP_CBMC
	void *q;
	size_t o;
	if (alloc_fails())
		return NULL;
	if (p == NULL) {
		q = raw_alloc(n);
		if (q != NULL)
			vp_live++;
		return q;
	}
	if (n == 0) {
		/* glibc: frees and returns NULL */
		free(p);
		vp_live--;
		return NULL;
	}
	q = raw_alloc(n);
	if (q == NULL)
		return NULL;
	o = __CPROVER_OBJECT_SIZE(p);
	if (o > n)
		o = n;
#ifdef VP_EXACT
	for (size_t i = 0; i < o; i++)
		((unsigned char *)q)[i] = ((const unsigned char *)p)[i];
#elif defined(VP_BYTECOPY)
	/* objects of many sizes: byte by byte */
	for (size_t i = 0; i < VP_MAXALLOC; i++)
		if (i < o)
			((unsigned char *)q)[i] = ((const unsigned char *)p)[i];
#else
	if (o == VP_STEP)
		memcpy(q, p, VP_STEP);
#ifndef VP_LADDER
	else
		memcpy(q, p, o);
#else
#if VP_LADDER > 2
	else if (o == 2 * VP_STEP)
		memcpy(q, p, 2 * VP_STEP);
	else if (o == 3 * VP_STEP)
		memcpy(q, p, 3 * VP_STEP);
#endif
	else
		__CPROVER_assume(0);
#endif
#endif
	free(p);
	return q;
#else
	void *q;
	if (alloc_fails())
		return NULL;
	if (n > VP_MAXALLOC)
		return NULL;
	q = realloc(p, n);
	if (p == NULL && q != NULL)
		vp_live++;
	if (p != NULL && n == 0)
		vp_live--;
	return q;
#endif
}

void vp_free(void *p)
{
	if (p != NULL)
		vp_live--;
	free(p);
}

char *vp_strdup(const char *s)
{
	size_t n = vp_strlen(s) + 1, i;
	char *p = vp_malloc(n);
	if (p != NULL)
		for (i = 0; i < n; i++)
			p[i] = s[i];
	return p;
}

static const char *known_s[4];
static size_t known_n[4];
static unsigned nknown;
void vp_known_str(const char *s, size_t n)
{
	size_t i;
	for (i = 0; i < n; i++)
		vp_assume(s[i] != 0);
	vp_assert(s[n] == 0, "string ends where the harness says");
	known_s[nknown] = s;
	known_n[nknown++] = n;
}
void vp_known_none(void)
{
	nknown = 0;
}
/* content not modelled (VP_SPARSE) */
void vp_known_len(const char *s, size_t n)
{
	known_s[nknown] = s;
	known_n[nknown++] = n;
}
size_t vp_strlen(const char *s)
{
#ifdef VP_CBMC
	for (unsigned i = 0; i < nknown; i++)
		if (s == known_s[i])
			return known_n[i];
#endif
	return strlen(s);
}
