/* C08: one operation with any arguments on a buffer in any state. */
#include "common.h"
#ifndef CAP
#define CAP 0
#endif
#define MAX (VP_STEP * VP_LADDER)	/* largest block the system gives */

static struct pomp_buffer *buf;
static uint8_t m[2 * MAX], known[2 * MAX];	/* the abstract array */
static size_t mlen, mcap;
static uint8_t src[MAX + 1];
static int shared;

static void check(void)
{
	const void *q = NULL;
	const uint8_t *p;
	size_t len = 0, cap = 0;
	vp_assert(pomp_buffer_get_cdata(buf, &q, &len, &cap) == 0, "readable");
	p = q;
	vp_assert(len == mlen, "length");
	vp_assert(len <= cap, "length within capacity");
	vp_assert(cap == 0 || (p != NULL && VP_W_OK(p, cap)), "capacity is really there");
	for (unsigned i = 0; i < MAX; i++)
		if (i < len && known[i])
			vp_assert(p[i] == m[i], "content");
	mcap = cap;
	vp_assert(pomp_buffer_is_shared(buf) == (shared != 0), "shared");
}

static void setup(int may_share)
{
	buf = pomp_buffer_new(CAP);
	vp_assert(buf != NULL, "buffer");
	mlen = CAP ? vp_rangez(0, CAP) : 0;
	for (unsigned i = 0; i < CAP; i++) {
		m[i] = vp_u8();
		known[i] = 1;
	}
	if (CAP > 0) {
		vp_assert(pomp_buffer_append_data(buf, m, CAP) == 0, "fill");
		vp_assert(pomp_buffer_set_len(buf, mlen) == 0, "shrink");
	}
	for (unsigned i = 0; i < MAX + 1; i++)
		src[i] = vp_u8();
	shared = may_share ? vp_bool() : 0;
	if (shared)
		pomp_buffer_ref(buf);
	check();
	vp_assert(mcap >= CAP, "requested capacity");
	/* one of the next allocations may fail */
	if (vp_bool())
		vp_alloc_fail_at = vp_alloc_count + (int)vp_range(0, 1);
}

static void finish(void)
{
	vp_alloc_fail_at = -1;
	if (shared) {
		pomp_buffer_unref(buf);
		shared = 0;
		check();
	}
	vp_assert(vp_live >= 1, "still there");
	pomp_buffer_unref(buf);
	vp_assert(vp_live == 0, "released with the last reference");
}

/* what a write of n bytes at pos must do */
static void expect_write(int res, size_t pos, size_t n)
{
	int over = n > SIZE_MAX - pos;
	int failed = vp_alloc_fail_at >= 0 && vp_alloc_count > vp_alloc_fail_at;
	if (shared) {
		vp_assert(res == -EPERM || (over && res < 0), "shared buffer not modified");
	} else if (over || pos + n > MAX) {
		vp_assert(res < 0, "refused when there is no memory");
	} else if (pos + n > mcap && failed) {
		vp_assert(res < 0, "fails with the allocation");
	} else {
		vp_assert(res == 0, "accepted");
		for (unsigned i = 0; i < MAX; i++) {
			if (i >= pos && i - pos < n) {
				m[i] = src[i - pos];
				known[i] = 1;
			} else if (i >= mlen) {
				known[i] = 0;
			}
		}
		if (pos + n > mlen)
			mlen = pos + n;
#if CAP > 0
		vp_reach_if(pos + n > CAP, "grown");
		vp_reach_if(pos + n == CAP && n > 0, "filled");
#endif
	}
}

#if OP == 0
void h_write(void)
{
	size_t pos, p0, n = vp_u64();
	int res;
	setup(1);
	p0 = pos = vp_u64();
	res = pomp_buffer_write(buf, &pos, src, n);
	vp_assert(pos == (res == 0 ? p0 + n : p0), "position");
	expect_write(res, p0, n);
	check();
	finish();
	vp_reach("end");
}
#elif OP == 1
void h_append(void)
{
	size_t n = vp_u64();
	int res;
	setup(1);
	res = pomp_buffer_append_data(buf, src, n);
	expect_write(res, mlen, n);
	check();
	finish();
	vp_reach("end");
}
#elif OP == 2
/* reads */
void h_read(void)
{
	uint8_t dst[MAX + 1], d0[MAX + 1];
	size_t pos = vp_u64(), p0 = pos, n = vp_u64();
	const void *q = NULL, *base = NULL;
	int res, fits;
	setup(1);
	fits = p0 <= mlen && n <= mlen - p0;
	for (unsigned i = 0; i <= MAX; i++)
		d0[i] = dst[i] = vp_u8();
	res = pomp_buffer_read(buf, &pos, dst, n);
	vp_assert(fits ? res == 0 : res < 0, "exactly the bytes below the length can be read");
	vp_assert(pos == (res == 0 ? p0 + n : p0), "position");
	for (unsigned i = 0; i <= MAX; i++)
		vp_assert(dst[i] == (res == 0 && i < n ? m[p0 + i] : d0[i]), "bytes read");
	pos = p0;
	res = pomp_buffer_cread(buf, &pos, &q, n);
	vp_assert(fits ? res == 0 : res < 0, "exactly the bytes below the length can be read");
	vp_assert(pos == (res == 0 ? p0 + n : p0), "position");
	vp_assert(pomp_buffer_get_cdata(buf, &base, NULL, NULL) == 0, "data");
	vp_assert(q == (res == 0 ? (const void *)((const uint8_t *)base + p0) : NULL), "pointer read");
	check();
	finish();
	vp_reach_if(res == 0 && n > 0, "read");
	vp_reach("end");
}
#elif OP == 3
/* capacity and length */
void h_size(void)
{
	size_t n = vp_u64();
	int which = (int)vp_range(0, 2), res, failed;
	setup(1);
	if (which == 0) {
		res = pomp_buffer_set_len(buf, n);
		if (shared)
			vp_assert(res == -EPERM || (n > mcap && res < 0), "shared buffer not modified");
		else
			vp_assert(n <= mcap ? res == 0 : res < 0, "length at most the capacity");
		if (res == 0) {
			mlen = n;
			/* bytes below the old capacity were written before */
		}
	} else if (which == 1) {
		res = pomp_buffer_ensure_capacity(buf, n);
		failed = vp_alloc_fail_at >= 0 && vp_alloc_count > vp_alloc_fail_at;
		if (shared)
			vp_assert(res == -EPERM, "shared buffer not modified");
		else if (n <= mcap)
			vp_assert(res == 0, "there already");
		else
			vp_assert(n > MAX || failed ? res < 0 : res == 0, "grows when there is memory");
	} else {
		vp_assume(n <= 8 || n % VP_STEP == 0 || n > MAX);
		res = pomp_buffer_set_capacity(buf, n);
		failed = vp_alloc_fail_at >= 0 && vp_alloc_count > vp_alloc_fail_at;
		if (n < mlen)
			vp_assert(res < 0, "capacity at least the length");
		else if (shared)
			vp_assert(res == -EPERM, "shared buffer not modified");
		else if (n == 0)
			;	/* nothing needed; may or may not call the allocator */
		else
			vp_assert(n > MAX || failed ? res < 0 : res == 0, "resized when there is memory");
		if (res == 0 && mcap > n)
			for (unsigned i = 0; i < MAX; i++)
				if (i >= n)
					known[i] = 0;
	}
	{
		size_t old = mcap;
		check();
		if (res < 0)
			vp_assert(mcap == old, "capacity unchanged");
		else if (which == 1)
			vp_assert(mcap >= n && mcap >= old, "capacity ensured");
		else if (which == 2)
			vp_assert(mcap == n, "capacity set");
		else
			vp_assert(mcap == old, "capacity unchanged");
	}
	/* and the buffer is still usable */
	if (!shared && mlen < MAX) {
		vp_alloc_fail_at = -1;
		size_t l = mlen;
		src[0] = vp_u8();
		expect_write(pomp_buffer_append_data(buf, src, 1), l, 1);
		check();
	}
	vp_reach_if(which == 2 && res == 0 && n == 0, "emptied");
	vp_reach_if(which == 1 && res == 0 && n > CAP, "ensured");
	finish();
	vp_reach("end");
}
#elif OP == 4
/* appending a buffer: another one, or itself */
void h_appbuf(void)
{
	struct pomp_buffer *o;
	int self = vp_bool(), res;
	size_t n, l;
	o = pomp_buffer_new(4);
	vp_assert(o != NULL, "other buffer");
	setup(1);
	if (!self) {
		int sv = vp_alloc_fail_at;
		vp_alloc_fail_at = -1;
		n = vp_rangez(0, 4);
		vp_assert(pomp_buffer_append_data(o, src, 4) == 0 && pomp_buffer_set_len(o, n) == 0, "other buffer");
		vp_alloc_fail_at = sv;
	} else {
		n = mlen;
		for (unsigned i = 0; i < MAX; i++)
			if (i < n)
				src[i] = m[i];
	}
	l = mlen;
	res = pomp_buffer_append_buffer(buf, self ? buf : o);
	if (n == 0)
		vp_assert(res == 0 || (shared && res == -EPERM), "nothing to append");
	else
		expect_write(res, l, n);
	check();
#if CAP > 0
	vp_reach_if(self && res == 0 && n > 0, "self");
#endif
	vp_alloc_fail_at = -1;
	pomp_buffer_unref(o);
	finish();
	vp_reach("end");
}
#elif OP == 5
/* creation, references */
void h_new(void)
{
	struct pomp_buffer *b2, *b3;
	void *data = src;
	size_t cap = vp_u64(), len = 0, c = 0;
	const void *p = NULL;
	unsigned n;
	int failed;
	for (unsigned i = 0; i <= MAX; i++)
		src[i] = vp_u8();
	vp_assume(cap <= 8 || cap % VP_STEP == 0 || cap > MAX);
	if (vp_bool())
		vp_alloc_fail_at = (int)vp_range(0, 2);
	switch (vp_range(0, 2)) {
	case 0: b2 = pomp_buffer_new(cap); data = NULL; break;
	case 1: b2 = pomp_buffer_new_get_data(cap, &data); break;
	default:
		vp_assume(cap >= 1);
		vp_assume(cap <= MAX || cap > MAX + 1);
		b2 = pomp_buffer_new_with_data(src, cap);
		data = src;
		break;
	}
	failed = vp_alloc_fail_at >= 0 && vp_alloc_count > vp_alloc_fail_at;
	if (b2 == NULL) {
		vp_assert(failed || cap > MAX, "fails only for lack of memory");
		vp_assert(vp_live == 0, "no memory leaked");
		vp_reach("none");
		return;
	}
	vp_assert(!failed && cap <= MAX, "has what was asked");
	vp_assert(pomp_buffer_get_cdata(b2, &p, &len, &c) == 0, "data");
	vp_assert(c >= cap && (c == 0 || VP_W_OK(p, c)), "capacity");
	if (data == src) {
		vp_assert(len == cap, "length");
		for (unsigned i = 0; i < MAX; i++)
			if (i < len)
				vp_assert(((const uint8_t *)p)[i] == src[i], "data copied");
	} else {
		vp_assert(len == 0, "empty");
		if (data != NULL)
			vp_assert(data == p, "data returned");
	}
	/* references */
	n = vp_range(0, 3);
	for (unsigned i = 0; i < n; i++)
		pomp_buffer_ref(b2);
	vp_assert(pomp_buffer_is_shared(b2) == (n > 0), "shared");
	data = NULL;
	vp_assert(pomp_buffer_get_data(b2, &data, NULL, NULL) == (n > 0 ? -EPERM : 0), "writable access only when not shared");
	vp_assert(n > 0 ? data == NULL : data == p, "writable access only when not shared");
	/* a copy is independent */
	if (n == 0 && data != NULL && len == 0 && cap >= 2)
		vp_assert(pomp_buffer_append_data(b2, src, 2) == 0, "append");
	vp_assert(pomp_buffer_get_cdata(b2, &p, &len, &c) == 0, "data");
	{
		const void *p3 = NULL;
		size_t len3 = 0, c3 = 0;
		long live = vp_live;
		b3 = pomp_buffer_new_copy(b2);
		if (b3 == NULL) {
			vp_assert(vp_alloc_fail_at >= 0 && vp_alloc_count > vp_alloc_fail_at, "fails only for lack of memory");
			vp_assert(vp_live == live, "no memory leaked");
		} else {
			vp_assert(pomp_buffer_get_cdata(b3, &p3, &len3, &c3) == 0, "data");
			vp_assert(len3 == len && c3 >= len3 && (len3 == 0 || (p3 != p && VP_W_OK(p3, c3))), "copy of the data");
			vp_assert(!pomp_buffer_is_shared(b3), "not shared");
			for (unsigned i = 0; i < MAX; i++)
				if (i < len)
					vp_assert(((const uint8_t *)p3)[i] == ((const uint8_t *)p)[i], "same bytes");
			vp_reach_if(len > 0, "copied");
			pomp_buffer_unref(b3);
			vp_assert(vp_live == live, "copy released");
		}
	}
	for (unsigned i = 0; i < n; i++) {
		long live = vp_live;
		pomp_buffer_unref(b2);
		vp_assert(vp_live == live, "still referenced");
		vp_assert(pomp_buffer_is_shared(b2) == (i + 1 < n), "shared");
	}
	pomp_buffer_unref(b2);
	vp_assert(vp_live == 0, "released with the last reference");
	vp_reach("end");
}
#elif OP == 6
/* several operations in a row, with fixed sizes and any content */
void h_seq(void)
{
	size_t pos;
	static const uint8_t script[] = { SCRIPT };
	setup(0);
	vp_alloc_fail_at = vp_bool() ? vp_alloc_count + (int)vp_range(0, 2) : -1;
	mlen = CAP;
	vp_assert(pomp_buffer_set_len(buf, mlen) == 0, "length");
	for (unsigned k = 0; k + 1 < sizeof(script); k += 2) {
		size_t at = script[k], n = script[k + 1];
		pos = at;
		for (unsigned i = 0; i < n; i++)
			src[i] = vp_u8();
		expect_write(pomp_buffer_write(buf, &pos, src, n), at, n);
		check();
		if (vp_alloc_fail_at >= 0 && vp_alloc_count > vp_alloc_fail_at)
			vp_alloc_fail_at = -1;
	}
	finish();
	vp_reach("end");
}
#endif
