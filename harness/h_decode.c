/* C03: typed readers on arbitrary payload bytes: never outside the message,
 * succeed exactly on well-formed arguments, deliver the documented value. */
#include "common.h"
#ifndef TYPE
#define TYPE T_U32
#endif
#ifndef LMIN
#define LMIN 0
#endif
#ifndef LMAX
#define LMAX 6
#endif

static uint8_t d[HDR + LMAX + 1];

/* number of bytes of the varint at p[at..len), 0 if it has no end there */
static unsigned ref_vi(const uint8_t *p, unsigned at, unsigned len, uint64_t *v, int *fits)
{
	uint64_t x = 0;
	unsigned k = 0;
	int open = 1;
	*fits = 1;
	for (unsigned i = 0; i < LMAX; i++) {
		if (open && at + i < len) {
			uint8_t b = p[at + i];
			if (i < 10)
				x |= (uint64_t)(b & 0x7f) << (7 * i);
			if (i == 9 && b > 1)
				*fits = 0;
			if (i > 9)
				*fits = 0;
			if (!(b & 0x80)) {
				k = i + 1;
				open = 0;
			}
		}
	}
	*v = x;
	return k;
}

static void one(unsigned len)
{
	struct pomp_buffer *buf;
	struct pomp_msg *msg;
	struct pomp_decoder *dec = pomp_decoder_new();
	const uint8_t *p = d + HDR;
	unsigned c = 0, k;
	uint64_t v = 0;
	int res = 0, good = 0, fits = 1, res2 = -1;
	uint8_t nx = 0;
	const void *base = NULL;
	size_t blen = 0;

	d[0] = 'P'; d[1] = 'O'; d[2] = 'M'; d[3] = 'P';
	for (unsigned i = 4; i < HDR; i++)
		d[i] = 0;
	d[8] = (uint8_t)(HDR + len);
	for (unsigned i = 0; i < len; i++)
		d[HDR + i] = vp_u8();
	buf = pomp_buffer_new_with_data(d, HDR + len);
	vp_assert(buf != NULL, "buffer");
	msg = pomp_msg_new_with_buffer(buf);
	vp_assert(msg != NULL, "well-formed header accepted");
	vp_assert(pomp_buffer_get_cdata(buf, &base, &blen, NULL) == 0, "data");
	vp_assert(pomp_decoder_init(dec, msg) == 0, "decoder init");

#define RFIX(ctype, name, n) do { \
	ctype x = 0; \
	res = pomp_decoder_read_##name(dec, &x); \
	good = len >= 1 + (n) && p[0] == TYPE; \
	c = 1 + (n); \
	if (good) { \
		for (unsigned i = 0; i < (n); i++) \
			v |= (uint64_t)p[1 + i] << (8 * i); \
		vp_assert(x == (ctype)v, "fixed width value"); \
	} \
} while (0)
	switch (TYPE) {
	case T_I8: RFIX(int8_t, i8, 1); break;
	case T_U8: RFIX(uint8_t, u8, 1); break;
	case T_I16: RFIX(int16_t, i16, 2); break;
	case T_U16: RFIX(uint16_t, u16, 2); break;
	case T_F32: {
		float f = 0;
		res = pomp_decoder_read_f32(dec, &f);
		good = len >= 5 && p[0] == TYPE;
		c = 5;
		if (good) {
			for (unsigned i = 0; i < 4; i++)
				v |= (uint64_t)p[1 + i] << (8 * i);
			vp_assert(f32_bits(f) == (uint32_t)v, "f32 bits");
		}
		break;
	}
	case T_F64: {
		double f = 0;
		res = pomp_decoder_read_f64(dec, &f);
		good = len >= 9 && p[0] == TYPE;
		c = 9;
		if (good) {
			for (unsigned i = 0; i < 8; i++)
				v |= (uint64_t)p[1 + i] << (8 * i);
			vp_assert(f64_bits(f) == v, "f64 bits");
		}
		break;
	}
	case T_I32: case T_U32: case T_I64: case T_U64: {
		int32_t i32 = 0;
		uint32_t u32 = 0;
		int64_t i64 = 0;
		uint64_t u64 = 0;
		k = len >= 1 && p[0] == TYPE ? ref_vi(p, 1, len, &v, &fits) : 0;
		good = k != 0 && k <= 10;
		c = 1 + k;
		if (TYPE == T_I32) res = pomp_decoder_read_i32(dec, &i32);
		else if (TYPE == T_U32) res = pomp_decoder_read_u32(dec, &u32);
		else if (TYPE == T_I64) res = pomp_decoder_read_i64(dec, &i64);
		else res = pomp_decoder_read_u64(dec, &u64);
		if (good && fits) {
			if (TYPE == T_I32 && v <= 0xffffffffu)
				vp_assert(ref_zz32(i32) == v, "i32 value");
			if (TYPE == T_U32 && v <= 0xffffffffu)
				vp_assert(u32 == v, "u32 value");
			if (TYPE == T_I64)
				vp_assert(ref_zz64(i64) == v, "i64 value");
			if (TYPE == T_U64)
				vp_assert(u64 == v, "u64 value");
		}
		/* over-wide encodings of the narrow types: value unspecified */
		break;
	}
	case T_STR: case T_BUF: {
		const char *cs = NULL;
		const void *cb = NULL;
		uint32_t m = 0;
		k = len >= 1 && p[0] == TYPE ? ref_vi(p, 1, len, &v, &fits) : 0;
		c = 1 + k;
		good = k != 0 && k <= 10 && fits && v <= len - c;
		if (TYPE == T_STR)
			good = good && v >= 1 && p[c + v - 1] == 0;
		if (TYPE == T_STR) {
			res = pomp_decoder_read_cstr(dec, &cs);
			cb = cs;
		} else {
			res = pomp_decoder_read_cbuf(dec, &cb, &m);
		}
		if (res == 0) {
			if (good)
				vp_assert((const uint8_t *)cb == (const uint8_t *)base + HDR + c,
					"content pointer is at the argument's data");
			if (TYPE == T_BUF && good)
				vp_assert(m == v, "buffer length");
		}
		if (good)
			c += (unsigned)v;
		break;
	}
	default: {
		int fd = -1;
		/* no descriptor came with these bytes */
		res = pomp_decoder_read_fd(dec, &fd);
		good = 0;
		vp_assert(res < 0, "no descriptor where none was received");
		break;
	}
	}
	vp_assert((res == 0) == good, "succeeds exactly on a well-formed argument");
	if (len >= 1 && p[0] != TYPE)
		vp_assert(res == -EINVAL, "other type refused");
	if (!good)
		vp_assert(res < 0, "negative errno on malformed data");
	/* where the next argument starts */
	if (good) {
		res2 = pomp_decoder_read_u8(dec, &nx);
		vp_assert((res2 == 0) == (c + 2 <= len && p[c] == T_U8), "next argument position");
		if (res2 == 0)
			vp_assert(nx == p[c + 1], "next argument value");
	}
	pomp_decoder_destroy(dec);
	pomp_msg_destroy(msg);
	pomp_buffer_unref(buf);
	vp_assert(vp_live == 0, "no memory leaked");
#ifdef REACH_GOOD
	vp_reach_if(good && res2 == 0, "two arguments decoded");
#endif
	vp_reach_if(res < 0 && len > 0 && p[0] == TYPE, "malformed argument refused");
}

void h_decode(void)
{
	for (unsigned l = LMIN; l <= LMAX; l++)
		one(l);
}

#ifdef WALK
/* The dump and the descriptor fix-up walk any payload: it ends, stays inside
 * the message, and succeeds only if the payload is a sequence of well-formed
 * arguments. */
static unsigned calls;
static int cb(struct pomp_decoder *dec, uint8_t type, const union pomp_value *v,
		uint32_t buflen, void *userdata)
{
	(void)dec;
	(void)v;
	(void)buflen;
	vp_assert(userdata == (void *)&calls, "userdata");
	vp_assert(type >= T_I8 && type <= T_FD, "known type");
	calls++;
	return 1;
}
void h_walk(void)
{
	for (unsigned len = LMIN; len <= LMAX; len++) {
		struct pomp_buffer *buf;
		struct pomp_msg *msg;
		struct pomp_decoder *dec = pomp_decoder_new();
		const uint8_t *p = d + HDR;
		unsigned c = 0, n = 0, k;
		int ok = 1, res, fits;
		uint64_t v = 0;

		d[0] = 'P'; d[1] = 'O'; d[2] = 'M'; d[3] = 'P';
		for (unsigned i = 4; i < HDR; i++)
			d[i] = 0;
		d[8] = (uint8_t)(HDR + len);
		for (unsigned i = 0; i < len; i++)
			d[HDR + i] = vp_u8();
		buf = pomp_buffer_new_with_data(d, HDR + len);
		msg = pomp_msg_new_with_buffer(buf);
		vp_assert(msg != NULL, "well-formed header accepted");
		vp_assert(pomp_decoder_init(dec, msg) == 0, "decoder init");
		calls = 0;
		res = pomp_decoder_walk(dec, &cb, &calls, 0);
		/* reference walk */
		for (unsigned i = 0; i < LMAX && ok; i++) {
			if (c >= len)
				break;
			uint8_t t = p[c];
			unsigned need = 0;
			if (t < T_I8 || t > T_FD) {
				ok = 0;
			} else if (t <= T_U8) {
				need = 2;
			} else if (t <= T_U16) {
				need = 3;
			} else if (t == T_F32 || t == T_FD) {
				need = 5;
			} else if (t == T_F64) {
				need = 9;
			} else {
				k = ref_vi(p, c + 1, len, &v, &fits);
				need = 1 + k;
				if (k == 0 || k > 10)
					ok = 0;
				else if (t == T_STR || t == T_BUF) {
					if (!fits || v > len - c - need)
						ok = 0;
					else
						need += (unsigned)v;
					if (ok && t == T_STR && (v == 0 || p[c + need - 1] != 0))
						ok = 0;
				}
			}
			if (ok && c + need > len)
				ok = 0;
			if (ok) {
				c += need;
				n++;
			}
		}
		vp_assert((res == 0) == ok, "walk succeeds exactly on well-formed payloads");
		vp_assert(calls == n, "one call per well-formed argument");
		pomp_decoder_destroy(dec);
		pomp_msg_destroy(msg);
		pomp_buffer_unref(buf);
		vp_assert(vp_live == 0, "no memory leaked");
		if (len == LMAX) {
#if LMAX >= 4
			vp_reach_if(res == 0 && n == 2, "two arguments walked");
#endif
#if LMAX >= 3
			vp_reach_if(res < 0 && n == 1, "stops at a malformed argument");
#else
			vp_reach("walked");
#endif
		}
	}
}
#endif
