/* C01: every typed writer produces exactly the documented bytes. */
#include "common.h"
#ifndef NSTR
#define NSTR 6
#endif
#ifndef PRE
#define PRE 3	/* bytes already in the payload */
#endif
#ifndef TYPE
#define TYPE T_I32
#endif
#define FIXED(n) do { w = chk_le(p, v, n); } while (0)

#ifdef SIZES
/* Size prefixes: every length of a string or buffer. */
static char big[BIG + 8];
void h_size(void)
{
	struct pomp_msg *msg = pomp_msg_new();
	struct pomp_encoder *enc = pomp_encoder_new();
#ifdef AT
	uint32_t n = AT;
#else
	uint32_t n = vp_u32();
#endif
	char c0, c1;
	unsigned x, w;
	size_t len = 0;
	const uint8_t *p;
	int res;

	vp_assume(n <= BIG);
	vp_assert(pomp_msg_init(msg, 1) == 0 && pomp_encoder_init(enc, msg) == 0, "init");
	vp_assert(pomp_buffer_ensure_capacity(pomp_msg_get_buffer(msg), BIG + 100) == 0, "room");
#ifndef VP_CBMC
	memset(big, 'a', n);
#endif
	c0 = (char)vp_u8();
	c1 = (char)vp_u8();
	vp_assume(c0 != 0 && c1 != 0);
	if (n > 0)
		big[0] = c0;
	if (n > 1)
		big[n - 1] = c1;
	if (TYPE == T_STR)
		vp_known_len(big, n);
	res = TYPE == T_STR ? pomp_encoder_write_str(enc, big) : pomp_encoder_write_buf(enc, big, n);
	x = n + (TYPE == T_STR);
	if (TYPE == T_STR && x > 0xffff) {
		vp_assert(res == -EINVAL, "string too long for the format refused");
		p = msg_bytes(msg, &len);
		vp_assert(len <= HDR || (len == 0), "nothing written");
	} else {
		vp_assert(res == 0, "written");
		p = msg_bytes(msg, &len);
		p += HDR;
		vp_assert(*p == TYPE, "type byte");
		w = chk_varint(p + 1, x, 3);
		vp_assert(len == HDR + 1 + w + x, "total length");
		if (n > 0)
			vp_assert(p[1 + w] == (uint8_t)c0, "content");
		if (n > 1)
			vp_assert(p[1 + w + x - 1] == (TYPE == T_STR ? 0 : (uint8_t)c1), "content to its end");
	}
	vp_reach("sized");
	pomp_encoder_destroy(enc);
	pomp_msg_destroy(msg);
}
#endif
#ifdef NOMEM
/* Allocation k fails: what was written before stays decodable, nothing more. */
void h_nomem(void)
{
	for (int k = 0; k < 6; k++) {
		struct pomp_msg *msg = pomp_msg_new();
		struct pomp_encoder *enc = pomp_encoder_new();
		struct pomp_decoder *dec = pomp_decoder_new();
		uint8_t a = vp_u8(), a2 = 0;
		char s[4] = {1, 1, 1, 0};
		uint8_t b[5];
		uint64_t f = vp_u64();
		int16_t i = (int16_t)vp_u16(), i2 = 0;
		const char *s2 = NULL;
		const void *b2 = NULL;
		uint32_t n2 = 0;
		double f2 = 0;
		int done = 0;
		for (int c = 0; c < 5; c++)
			b[c] = vp_u8();
		for (int c = 0; c < 3; c++)
			s[c] = (char)vp_u8();
		vp_known_none();
		vp_known_str(s, 3);
		vp_assert(pomp_msg_init(msg, 7) == 0 && pomp_encoder_init(enc, msg) == 0, "init");
		vp_alloc_count = 0;
		vp_alloc_fail_at = k;
		do {
			if (pomp_encoder_write_u8(enc, a) < 0)
				break;
			done++;
			if (pomp_encoder_write_str(enc, s) < 0)
				break;
			done++;
			if (pomp_encoder_write_buf(enc, b, 5) < 0)
				break;
			done++;
			if (pomp_encoder_write_f64(enc, bits_f64(f)) < 0)
				break;
			done++;
			if (pomp_encoder_write_i16(enc, i) < 0)
				break;
			done++;
		} while (0);
		vp_alloc_fail_at = -1;
		if (done == 5)
			vp_assert(vp_alloc_count <= k, "a failing allocation fails the write");
		vp_assert(pomp_msg_finish(msg) == 0, "finish");
		vp_assert(pomp_decoder_init(dec, msg) == 0, "decoder");
		if (done > 0)
			vp_assert(pomp_decoder_read_u8(dec, &a2) == 0 && a2 == a, "written before");
		if (done > 1)
			vp_assert(pomp_decoder_read_cstr(dec, &s2) == 0 && s2[0] == s[0] && s2[1] == s[1] && s2[2] == s[2] && s2[3] == 0, "written before");
		if (done > 2) {
			vp_assert(pomp_decoder_read_cbuf(dec, &b2, &n2) == 0 && n2 == 5, "written before");
			for (int c = 0; c < 5; c++)
				vp_assert(((const uint8_t *)b2)[c] == b[c], "written before");
		}
		if (done > 3)
			vp_assert(pomp_decoder_read_f64(dec, &f2) == 0 && f64_bits(f2) == f, "written before");
		if (done > 4)
			vp_assert(pomp_decoder_read_i16(dec, &i2) == 0 && i2 == i, "written before");
		vp_assert(pomp_decoder_read_u8(dec, &a2) < 0 && pomp_decoder_read_cstr(dec, &s2) < 0 && pomp_decoder_read_cbuf(dec, &b2, &n2) < 0
			&& pomp_decoder_read_f64(dec, &f2) < 0 && pomp_decoder_read_i16(dec, &i2) < 0, "nothing more");
		pomp_encoder_destroy(enc);
		pomp_decoder_destroy(dec);
		pomp_msg_destroy(msg);
		vp_assert(vp_live == 0, "no memory leaked");
	}
	vp_reach("out of memory");
}
#endif
void h_encode(void)
{
	struct pomp_msg *msg = pomp_msg_new();
	struct pomp_encoder *enc = pomp_encoder_new();
	uint32_t id = vp_u32();
	uint64_t v = vp_u64();
	uint8_t b[PRE + 1], z = vp_u8();
	char s[NSTR + 1];
	unsigned n = 0, w = 0, x;
	const uint8_t *p;
	size_t len = 0;
	int res;

	vp_assert(pomp_msg_init(msg, id) == 0, "init");
	vp_assert(pomp_encoder_init(enc, msg) == 0, "encoder init");
	for (unsigned i = 0; i < PRE / 2; i++) {
		b[i] = vp_u8();
		vp_assert(pomp_encoder_write_u8(enc, b[i]) == 0, "prefix");
	}
	for (unsigned i = 0; i < NSTR; i++)
		s[i] = 0;
	if (TYPE == T_STR || TYPE == T_BUF) {
		n = vp_u8();
		vp_assume(n <= NSTR);
		for (unsigned i = 0; i < NSTR; i++) {
			s[i] = (char)vp_u8();
			if (TYPE == T_STR)
				vp_assume((s[i] == 0) == (i >= n));
		}
	}
	s[NSTR] = 0;
	switch (TYPE) {
	case T_I8: res = pomp_encoder_write_i8(enc, (int8_t)v); break;
	case T_U8: res = pomp_encoder_write_u8(enc, (uint8_t)v); break;
	case T_I16: res = pomp_encoder_write_i16(enc, (int16_t)v); break;
	case T_U16: res = pomp_encoder_write_u16(enc, (uint16_t)v); break;
	case T_I32: res = pomp_encoder_write_i32(enc, (int32_t)v); break;
	case T_U32: res = pomp_encoder_write_u32(enc, (uint32_t)v); break;
	case T_I64: res = pomp_encoder_write_i64(enc, (int64_t)v); break;
	case T_U64: res = pomp_encoder_write_u64(enc, v); break;
	case T_STR: res = pomp_encoder_write_str(enc, s); break;
	case T_BUF: res = pomp_encoder_write_buf(enc, s, n); break;
	case T_F32: res = pomp_encoder_write_f32(enc, bits_f32((uint32_t)v)); break;
	default: res = pomp_encoder_write_f64(enc, bits_f64(v)); break;
	}
	vp_assert(res == 0, "writer succeeds");
	vp_assert(pomp_encoder_write_u8(enc, z) == 0, "next argument");
	vp_assert(pomp_msg_finish(msg) == 0, "finish");
	vp_assert(pomp_msg_get_id(msg) == id, "message id kept");
	vp_assert(pomp_encoder_write_u8(enc, z) == -EPERM, "finished message refuses writes");
	vp_assert(pomp_msg_finish(msg) < 0, "finished only once");

	p = msg_bytes(msg, &len);
	chk_hdr(p, id, len);
	p += HDR;
	for (unsigned i = 0; i < PRE / 2; i++, p += 2)
		vp_assert(p[0] == T_U8 && p[1] == b[i], "arguments already there are kept");
	vp_assert(*p == TYPE, "type byte");
	p++;
	switch (TYPE) {
	case T_I8: case T_U8: w = chk_le(p, v, 1); break;
	case T_I16: case T_U16: w = chk_le(p, v, 2); break;
	case T_I32: w = chk_varint(p, ref_zz32((int32_t)v), 5); break;
	case T_U32: w = chk_varint(p, (uint32_t)v, 5); break;
	case T_I64: w = chk_varint(p, ref_zz64((int64_t)v), 10); break;
	case T_U64: w = chk_varint(p, v, 10); break;
	case T_STR: case T_BUF:
		x = n + (TYPE == T_STR);
		w = chk_varint(p, x, 1) + x;
		for (unsigned i = 0; i < NSTR + 1; i++)
			if (i < x)
				vp_assert(p[1 + i] == (uint8_t)s[i], "content byte");
		break;
	case T_F32: w = chk_le(p, (uint32_t)v, 4); break;
	default: w = chk_le(p, v, 8); break;
	}
	vp_assert(len == HDR + 2 * (PRE / 2) + 1 + w + 2, "total length");
	vp_assert(p[w] == T_U8 && p[w + 1] == z, "next argument follows at once");
	pomp_encoder_destroy(enc);
	pomp_msg_destroy(msg);
	vp_assert(vp_live == 0, "no memory leaked");
	vp_reach("encoded");
}
