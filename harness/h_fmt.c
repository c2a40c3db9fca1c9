/* C04: the printf/scanf-like calls are the typed calls. */
#include "common.h"
#ifndef NSTR
#define NSTR 3
#endif

static void same(const struct pomp_msg *a, const struct pomp_msg *b, unsigned max)
{
	size_t la = 0, lb = 0;
	const uint8_t *pa = msg_bytes(a, &la), *pb = msg_bytes(b, &lb);
	vp_assert(la == lb, "same length as the typed calls");
	for (unsigned i = 0; i < max; i++)
		if (i < la)
			vp_assert(pa[i] == pb[i], "same bytes as the typed calls");
	vp_assert(la <= max, "comparison covers everything");
}

#ifdef SPEC
/* One conversion: SPEC, C type VT given/received, typed call NAME, NT its type */
void h_fmt_one(void)
{
	struct pomp_msg *m1 = pomp_msg_new(), *m2 = pomp_msg_new();
	struct pomp_encoder enc = POMP_ENCODER_INITIALIZER;
	uint32_t id = vp_u32();
	uint64_t raw = vp_u64();
	uint8_t z = vp_u8();
#ifdef FLT
#if FLT == 32
	/* arguments travel as double: NaN payloads may change on the way */
	float val = bits_f32((uint32_t)raw);
	float out = 0;
	vp_assume(val == val);
#else
	double val = bits_f64(raw), out = 0;
	vp_assume(val == val);
#endif
#else
	VT val = (VT)raw, out = 0;
#endif
	unsigned char uz = 0;
	int res;

	vp_assert(pomp_msg_init(m2, id) == 0, "init");
	vp_assert(pomp_encoder_init(&enc, m2) == 0, "encoder init");
	vp_assert(NAME(pomp_encoder_write_)(&enc, val) == 0, "typed write");
	vp_assert(pomp_encoder_write_u8(&enc, z) == 0, "typed write");
	vp_assert(pomp_msg_finish(m2) == 0, "finish");

	res = pomp_msg_write(m1, id, SPEC "%hhu", (PT)val, (unsigned int)z);
	vp_assert(res == 0, "format write");
	same(m1, m2, HDR + 11 + 2);

	res = pomp_msg_read(m2, SPEC "%hhu", &out, &uz);
	vp_assert(res == 0, "format read");
	vp_assert(out == val, "value read");
	vp_assert(uz == z, "following value read");

	/* more conversions than arguments in the message */
	res = pomp_msg_read(m2, SPEC "%hhu" SPEC, &out, &uz, &out);
	vp_assert(res == -EINVAL, "no argument left");
	/* other type */
#ifdef OTHER
	res = pomp_msg_read(m2, OTHER, &raw);
	vp_assert(res == -EINVAL, "conversion of another type refused");
#endif
	pomp_msg_destroy(m1);
	pomp_msg_destroy(m2);
	vp_assert(vp_live == 0, "no memory leaked");
	vp_reach("conversion");
}
#endif

static char s1[NSTR + 1], s2[NSTR + 1];
static uint32_t any_str(char *s, const uint32_t n)
{
	for (unsigned i = 0; i < n; i++)
		s[i] = (char)vp_u8();
	s[n] = 0;
	vp_known_str(s, n);
	return n;
}
static void same_str(const char *a, const char *b, uint32_t n)
{
	vp_assert(a != NULL, "string given");
	for (unsigned i = 0; i <= NSTR; i++)
		if (i <= n)
			vp_assert(a[i] == b[i], "string content");
}

#ifdef FIXLEN2
void h_fmt_str(void)
{
	struct pomp_msg *m1 = pomp_msg_new(), *m2 = pomp_msg_new();
	struct pomp_encoder enc = POMP_ENCODER_INITIALIZER;
	uint32_t n1 = any_str(s1, FIXLEN), n2 = any_str(s2, FIXLEN2);
	char *r1 = NULL, *r2 = NULL;
	unsigned char b = 0, vb = vp_u8();
	vp_assert(pomp_msg_init(m2, 7) == 0, "init");
	vp_assert(pomp_encoder_init(&enc, m2) == 0, "encoder init");
	vp_assert(pomp_encoder_write_str(&enc, s1) == 0, "typed write");
	vp_assert(pomp_encoder_write_u8(&enc, vb) == 0, "typed write");
	vp_assert(pomp_encoder_write_str(&enc, s2) == 0, "typed write");
	vp_assert(pomp_msg_finish(m2) == 0, "finish");
	vp_assert(pomp_msg_write(m1, 7, "%s%hhu%s", s1, (unsigned)vb, s2) == 0, "format write");
	same(m1, m2, HDR + 2 * (3 + NSTR) + 2);
	vp_assert(pomp_msg_read(m2, "%ms%hhu%ms", &r1, &b, &r2) == 0, "format read");
	same_str(r1, s1, n1);
	same_str(r2, s2, n2);
	vp_assert(b == vb, "value between strings");
	vp_assert(r1 != r2, "distinct copies");
	free(r1);
	free(r2);
	pomp_msg_destroy(m1);
	pomp_msg_destroy(m2);
	vp_assert(vp_live == 0, "no memory leaked");
	vp_reach("strings");
}
#endif

/* errors after strings were handed out: all released, all reset to NULL */
#ifdef WHICH
void h_fmt_strerr(void)
{
	struct pomp_msg *m;
	struct pomp_buffer *buf;
	char *r1 = NULL, *r2 = NULL, *r3 = NULL;
	unsigned char b = 0;
	unsigned short h = 0;
	int res;
	const int which = WHICH;
	long live;
	/* "xx" "x" 5u8: string contents symbolic, anything may be in them */
	uint8_t raw[] = { 'P', 'O', 'M', 'P', 7, 0, 0, 0, 23, 0, 0, 0,
		9, 3, vp_u8(), vp_u8(), 0, 9, 2, vp_u8(), 0, 2, 5 };
	raw[8] = sizeof(raw);
	buf = pomp_buffer_new(64);
	vp_assert(buf != NULL && pomp_buffer_append_data(buf, raw, sizeof(raw)) == 0, "buffer");
	m = pomp_msg_new_with_buffer(buf);
	vp_assert(m != NULL, "message");
	pomp_buffer_unref(buf);
	live = vp_live;
	switch (which) {
	case 0: res = pomp_msg_read(m, "%ms%ms%hu", &r1, &r2, &h); break;	/* type */
	case 1: res = pomp_msg_read(m, "%ms%ms%hhu%ms", &r1, &r2, &b, &r3); break; /* end */
	case 2: res = pomp_msg_read(m, "%ms%ms%y", &r1, &r2); break;	/* conversion */
	case 3: res = pomp_msg_read(m, "%ms%ms ", &r1, &r2); break;	/* not a % */
	case 4: res = pomp_msg_read(m, "%ms%s", &r1, &r2); break;	/* no m */
	case 5: res = pomp_msg_read(m, "%ms%ms%p%d", &r1, &r2); break;	/* %p%u */
	case 6: res = pomp_msg_read(m, "%ms%ms%lld", &r1, &r2, &r3); break;
	case 7: res = pomp_msg_read(m, "%ms%ms%lx", &r1, &r2, &r3); break;
	case 8: res = pomp_msg_read(m, "%ms%ms%hhf", &r1, &r2, &r3); break;
	case 9: res = pomp_msg_read(m, "%ms%ms%", &r1, &r2); break;
	case 10:	/* allocation of the second copy fails */
		vp_alloc_fail_at = vp_alloc_count + 1;
		res = pomp_msg_read(m, "%ms%ms", &r1, &r2);
		vp_assert(res == -ENOMEM, "memory shortage reported");
		vp_alloc_fail_at = -1;
		break;
	default:
		return;
	}
	vp_assert(res < 0, "error reported");
	vp_assert(res == -EINVAL || res == -ENOMEM, "errno");
	vp_assert(r1 == NULL && r2 == NULL && r3 == NULL, "strings reset to NULL");
	vp_assert(vp_live == live, "strings released");
	pomp_msg_destroy(m);
	vp_assert(vp_live == 0, "no memory leaked");
	vp_reach("error");
}
#endif

/* at most 16 strings in one call */
void h_fmt_many(void)
{
	struct pomp_msg *m;
	struct pomp_buffer *buf = pomp_buffer_new(64);
	char *r[17];
	int res;
	long live;
	uint8_t raw[HDR + 3 * 17] = { 'P', 'O', 'M', 'P', 7, 0, 0, 0, HDR + 3 * 17 };
	for (int i = 0; i < 17; i++) {
		raw[HDR + 3 * i] = 9;
		raw[HDR + 3 * i + 1] = 1;
		raw[HDR + 3 * i + 2] = 0;
	}
	for (int i = 0; i < 17; i++)
		r[i] = NULL;
	vp_assert(buf != NULL && pomp_buffer_append_data(buf, raw, sizeof(raw)) == 0, "buffer");
	m = pomp_msg_new_with_buffer(buf);
	vp_assert(m != NULL, "message");
	pomp_buffer_unref(buf);
	live = vp_live;
	res = pomp_msg_read(m, "%ms%ms%ms%ms%ms%ms%ms%ms%ms%ms%ms%ms%ms%ms%ms%ms%ms",
		&r[0], &r[1], &r[2], &r[3], &r[4], &r[5], &r[6], &r[7], &r[8],
		&r[9], &r[10], &r[11], &r[12], &r[13], &r[14], &r[15], &r[16]);
	vp_assert(res == -E2BIG, "17 strings refused");
	for (int i = 0; i < 17; i++)
		vp_assert(r[i] == NULL, "strings reset to NULL");
	vp_assert(vp_live == live, "strings released");
	res = pomp_msg_read(m, "%ms%ms%ms%ms%ms%ms%ms%ms%ms%ms%ms%ms%ms%ms%ms%ms",
		&r[0], &r[1], &r[2], &r[3], &r[4], &r[5], &r[6], &r[7], &r[8],
		&r[9], &r[10], &r[11], &r[12], &r[13], &r[14], &r[15]);
	vp_assert(res == 0, "16 strings accepted");
	for (int i = 0; i < 16; i++) {
		vp_assert(r[i] != NULL && r[i][0] == 0, "string content");
		free(r[i]);
	}
	pomp_msg_destroy(m);
	vp_assert(vp_live == 0, "no memory leaked");
	vp_reach("17 strings");
}

#ifdef FIXLEN
void h_fmt_buf(void)
{
	struct pomp_msg *m1 = pomp_msg_new(), *m2 = pomp_msg_new();
	struct pomp_encoder enc = POMP_ENCODER_INITIALIZER;
	uint8_t d[NSTR + 1];
	const uint32_t n = FIXLEN;
	uint8_t v = vp_u8(), w = 0;
	const void *p = NULL;
	unsigned int len = 0;
	for (unsigned i = 0; i < NSTR; i++)
		d[i] = vp_u8();
	vp_assert(pomp_msg_init(m2, 7) == 0, "init");
	vp_assert(pomp_encoder_init(&enc, m2) == 0, "encoder init");
	vp_assert(pomp_encoder_write_u8(&enc, v) == 0, "typed write");
	vp_assert(pomp_encoder_write_buf(&enc, d, n) == 0, "typed write");
	vp_assert(pomp_msg_finish(m2) == 0, "finish");
	vp_assert(pomp_msg_write(m1, 7, "%hhu%p%u", (unsigned)v, d, n) == 0, "format write");
	same(m1, m2, HDR + 6 + 2 + NSTR);
	vp_assert(pomp_msg_read(m2, "%hhu%p%u", &w, &p, &len) == 0, "format read");
	vp_assert(w == v && len == n, "values");
	for (unsigned i = 0; i < NSTR; i++)
		if (i < n)
			vp_assert(((const uint8_t *)p)[i] == d[i], "buffer content");
	pomp_msg_destroy(m1);
	pomp_msg_destroy(m2);
	vp_assert(vp_live == 0, "no memory leaked");
	vp_reach("buffer");
}
#endif

/* Any format string of up to FLEN characters that is not a sequence of
 * supported conversions is refused, without touching any argument. */
#ifdef FLEN
void h_fmt_bad(void)
{
	struct pomp_msg *m = pomp_msg_new();
	char f[FLEN + 1];
	int res;
	f[0] = PCT ? '%' : (char)vp_u8();
	for (unsigned i = 1; i < FLEN; i++)
		f[i] = FLAG(i) ? FLAG(i) : (char)vp_u8();
	f[FLEN] = 0;
	vp_assume(f[0] != 0);
	if (PCT) {
		unsigned k = 1 + (FLAG(1) != 0) + (FLAG(2) != 0);
		/* leave out every conversion that would take an argument */
		vp_assume(f[k] != 'l' && f[k] != 'h' && f[k] != 'm');
		vp_assume(f[k] != 'i' && f[k] != 'd' && f[k] != 'u');
		vp_assume(k != 1 || (f[k] != 's' && f[k] != 'x'));
		vp_assume(f[k] != 's');
		vp_assume(f[k] != 'p' || f[k + 1] != '%');
		if (k == 1 || (k == 2 && FLAG(1) == 'l'))
			vp_assume(f[k] != 'f' && f[k] != 'F' && f[k] != 'e' &&
				f[k] != 'E' && f[k] != 'g' && f[k] != 'G');
	} else {
		vp_assume(f[0] != '%');
	}
#ifdef WR
	res = pomp_msg_write(m, 1, f);
#else
	vp_assert(pomp_msg_init(m, 1) == 0 && pomp_msg_finish(m) == 0, "empty message");
	res = pomp_msg_read(m, f);
#endif
	vp_assert(res == -EINVAL, "unsupported format refused");
	pomp_msg_destroy(m);
	vp_assert(vp_live == 0, "no memory leaked");
	vp_reach("refused");
}
#endif
