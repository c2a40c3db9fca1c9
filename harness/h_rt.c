/* C02: what a typed writer puts in is what the matching typed reader gets out,
 * in the same order, and nothing else. */
#include "common.h"
#ifndef NSTR
#define NSTR 6
#endif
#ifndef TYPE
#define TYPE T_I32
#endif

union val {
	int8_t i8; uint8_t u8; int16_t i16; uint16_t u16; int32_t i32;
	uint32_t u32; int64_t i64; uint64_t u64;
};

static int wr(struct pomp_encoder *enc, int type, uint64_t v, const char *s, uint32_t n)
{
	switch (type) {
	case T_I8: return pomp_encoder_write_i8(enc, (int8_t)v);
	case T_U8: return pomp_encoder_write_u8(enc, (uint8_t)v);
	case T_I16: return pomp_encoder_write_i16(enc, (int16_t)v);
	case T_U16: return pomp_encoder_write_u16(enc, (uint16_t)v);
	case T_I32: return pomp_encoder_write_i32(enc, (int32_t)v);
	case T_U32: return pomp_encoder_write_u32(enc, (uint32_t)v);
	case T_I64: return pomp_encoder_write_i64(enc, (int64_t)v);
	case T_U64: return pomp_encoder_write_u64(enc, v);
	case T_STR: return pomp_encoder_write_str(enc, s);
	case T_BUF: return pomp_encoder_write_buf(enc, s, n);
	case T_F32: return pomp_encoder_write_f32(enc, bits_f32((uint32_t)v));
	default: return pomp_encoder_write_f64(enc, bits_f64(v));
	}
}

/* reads one argument of the type and compares */
static void rd(struct pomp_decoder *dec, int type, uint64_t v, const char *s, uint32_t n)
{
	union val x;
	float f = 0;
	double d = 0;
	const char *cs = NULL;
	const void *cb = NULL;
	char *str = NULL;
	void *vb = NULL;
	uint32_t m = 0;
	x.u64 = 0;
	switch (type) {
	case T_I8:
		vp_assert(pomp_decoder_read_i8(dec, &x.i8) == 0, "read i8");
		vp_assert(x.i8 == (int8_t)v, "i8 value");
		break;
	case T_U8:
		vp_assert(pomp_decoder_read_u8(dec, &x.u8) == 0, "read u8");
		vp_assert(x.u8 == (uint8_t)v, "u8 value");
		break;
	case T_I16:
		vp_assert(pomp_decoder_read_i16(dec, &x.i16) == 0, "read i16");
		vp_assert(x.i16 == (int16_t)v, "i16 value");
		break;
	case T_U16:
		vp_assert(pomp_decoder_read_u16(dec, &x.u16) == 0, "read u16");
		vp_assert(x.u16 == (uint16_t)v, "u16 value");
		break;
	case T_I32:
		vp_assert(pomp_decoder_read_i32(dec, &x.i32) == 0, "read i32");
		vp_assert(x.i32 == (int32_t)v, "i32 value");
		break;
	case T_U32:
		vp_assert(pomp_decoder_read_u32(dec, &x.u32) == 0, "read u32");
		vp_assert(x.u32 == (uint32_t)v, "u32 value");
		break;
	case T_I64:
		vp_assert(pomp_decoder_read_i64(dec, &x.i64) == 0, "read i64");
		vp_assert(x.i64 == (int64_t)v, "i64 value");
		break;
	case T_U64:
		vp_assert(pomp_decoder_read_u64(dec, &x.u64) == 0, "read u64");
		vp_assert(x.u64 == v, "u64 value");
		break;
	case T_STR:
#ifdef ALLOCSTR
		vp_assert(pomp_decoder_read_str(dec, &str) == 0, "read str");
		cs = str;
#else
		vp_assert(pomp_decoder_read_cstr(dec, &cs) == 0, "read cstr");
#endif
		vp_assert(cs != NULL, "string given");
		for (unsigned i = 0; i <= NSTR; i++)
			if (i <= n)
				vp_assert(cs[i] == s[i], "string byte (and terminator)");
		free(str);
		break;
	case T_BUF:
#ifdef ALLOCSTR
		vp_assert(pomp_decoder_read_buf(dec, &vb, &m) == 0, "read buf");
		cb = vb;
#else
		vp_assert(pomp_decoder_read_cbuf(dec, &cb, &m) == 0, "read cbuf");
#endif
		vp_assert(m == n, "buffer length");
		for (unsigned i = 0; i < NSTR; i++)
			if (i < n)
				vp_assert(((const char *)cb)[i] == s[i], "buffer byte");
		free(vb);
		break;
	case T_F32:
		vp_assert(pomp_decoder_read_f32(dec, &f) == 0, "read f32");
		vp_assert(f32_bits(f) == (uint32_t)v, "f32 bits");
		break;
	default:
		vp_assert(pomp_decoder_read_f64(dec, &d) == 0, "read f64");
		vp_assert(f64_bits(d) == v, "f64 bits");
		break;
	}
}

/* every typed reader but the right one must refuse and leave the argument */
static void rd_wrong(struct pomp_decoder *dec, int type)
{
	union val x;
	float f;
	double d;
	const char *cs = NULL;
	const void *cb = NULL;
	char *str = NULL;
	void *vb = NULL;
	uint32_t m = 0;
	int fd;
	x.u64 = 0;
#define WRONG(t, call) do { if (type != (t)) \
	vp_assert((call) == -EINVAL, "other type refused"); } while (0)
	WRONG(T_I8, pomp_decoder_read_i8(dec, &x.i8));
	WRONG(T_U8, pomp_decoder_read_u8(dec, &x.u8));
	WRONG(T_I16, pomp_decoder_read_i16(dec, &x.i16));
	WRONG(T_U16, pomp_decoder_read_u16(dec, &x.u16));
	WRONG(T_I32, pomp_decoder_read_i32(dec, &x.i32));
	WRONG(T_U32, pomp_decoder_read_u32(dec, &x.u32));
	WRONG(T_I64, pomp_decoder_read_i64(dec, &x.i64));
	WRONG(T_U64, pomp_decoder_read_u64(dec, &x.u64));
	WRONG(T_STR, pomp_decoder_read_str(dec, &str));
	WRONG(T_STR, pomp_decoder_read_cstr(dec, &cs));
	WRONG(T_BUF, pomp_decoder_read_buf(dec, &vb, &m));
	WRONG(T_BUF, pomp_decoder_read_cbuf(dec, &cb, &m));
	WRONG(T_F32, pomp_decoder_read_f32(dec, &f));
	WRONG(T_F64, pomp_decoder_read_f64(dec, &d));
	WRONG(T_FD, pomp_decoder_read_fd(dec, &fd));
}

static uint64_t v1, v2;
static char s1[NSTR + 1], s2[NSTR + 1];
static uint32_t n1, n2;
static void any(int type, uint64_t *v, char *s, uint32_t *n)
{
	*v = vp_u64();
	*n = 0;
	if (type == T_STR || type == T_BUF) {
		*n = vp_u8();
		vp_assume(*n <= NSTR);
		for (unsigned i = 0; i < NSTR; i++) {
			s[i] = (char)vp_u8();
			if (type == T_STR)
				vp_assume((s[i] == 0) == (i >= *n));
		}
	}
	s[NSTR] = 0;
}

#ifndef TYPE2
#define TYPE2 T_U8
#endif
void h_rt(void)
{
	struct pomp_msg *msg = pomp_msg_new(), *m2;
	struct pomp_encoder *enc = pomp_encoder_new();
	struct pomp_decoder *dec = pomp_decoder_new();
	uint32_t id = vp_u32();

	any(TYPE, &v1, s1, &n1);
	any(TYPE2, &v2, s2, &n2);
	vp_assert(pomp_msg_init(msg, id) == 0, "init");
	vp_assert(pomp_encoder_init(enc, msg) == 0, "encoder init");
	vp_assert(wr(enc, TYPE, v1, s1, n1) == 0, "write first");
#ifndef CROSS
	vp_assert(wr(enc, TYPE2, v2, s2, n2) == 0, "write second");
#endif
	vp_assert(pomp_msg_finish(msg) == 0, "finish");

	/* the message as its receiver gets it: from its bytes alone */
	m2 = pomp_msg_new_with_buffer(pomp_msg_get_buffer(msg));
	vp_assert(m2 != NULL, "finished message is well-formed");
	vp_assert(pomp_msg_get_id(m2) == id, "message id");
	vp_assert(pomp_decoder_init(dec, m2) == 0, "decoder init");
#ifdef CROSS
	rd_wrong(dec, TYPE);
#endif
	rd(dec, TYPE, v1, s1, n1);
#ifndef CROSS
	rd(dec, TYPE2, v2, s2, n2);
#endif
	/* nothing after */
	{
		uint8_t u;
		uint32_t w;
		const char *c = NULL;
		vp_assert(pomp_decoder_read_u8(dec, &u) == -EINVAL, "nothing left (u8)");
		vp_assert(pomp_decoder_read_u32(dec, &w) == -EINVAL, "nothing left (u32)");
		vp_assert(pomp_decoder_read_cstr(dec, &c) == -EINVAL, "nothing left (str)");
	}
	pomp_decoder_destroy(dec);
	pomp_encoder_destroy(enc);
	pomp_msg_destroy(m2);
	pomp_msg_destroy(msg);
	vp_assert(vp_live == 0, "no memory leaked");
	vp_reach("round trip");
}
