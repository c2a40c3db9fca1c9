/* Shared by the codec harnesses: reference encoder of the documented wire format. */
#ifndef COMMON_H
#define COMMON_H
#include "pomp_priv.h"

#define HDR 12
enum { T_I8 = 1, T_U8, T_I16, T_U16, T_I32, T_U32, T_I64, T_U64, T_STR, T_BUF,
	T_F32, T_F64, T_FD };

static inline uint32_t ref_zz32(int32_t v)
{
	return v < 0 ? 2u * (uint32_t)(-((int64_t)v + 1)) + 1u : 2u * (uint32_t)v;
}
static inline uint64_t ref_zz64(int64_t v)
{
	return v < 0 ? 2u * (uint64_t)(-(v + 1)) + 1u : 2u * (uint64_t)v;
}
static inline float bits_f32(uint32_t v)
{
	union { uint32_t u; float f; } x;
	x.u = v;
	return x.f;
}
static inline uint32_t f32_bits(float v)
{
	union { uint32_t u; float f; } x;
	x.f = v;
	return x.u;
}
static inline double bits_f64(uint64_t v)
{
	union { uint64_t u; double f; } x;
	x.u = v;
	return x.f;
}
static inline uint64_t f64_bits(double v)
{
	union { uint64_t u; double f; } x;
	x.f = v;
	return x.u;
}

/* Checks against the documented wire format.  Each returns the number of bytes
 * the item takes. */
static inline unsigned chk_le(const uint8_t *p, uint64_t v, unsigned n)
{
	for (unsigned i = 0; i < n; i++)
		vp_assert(p[i] == (uint8_t)(v >> (8 * i)), "little endian byte");
	return n;
}
/* LEB128: groups of 7 bits, least significant first, as short as possible */
static inline unsigned ref_varint_len(uint64_t v)
{
	unsigned n = 1;
	for (unsigned i = 1; i < 10; i++)
		if ((v >> (7 * i)) != 0)
			n = i + 1;
	return n;
}
static inline unsigned chk_varint(const uint8_t *p, uint64_t v, unsigned maxlen)
{
	unsigned n = ref_varint_len(v);
	for (unsigned i = 0; i < maxlen; i++)
		if (i < n)
			vp_assert(p[i] == (uint8_t)(((v >> (7 * i)) & 0x7f) | (i + 1 < n ? 0x80 : 0)),
					"varint byte");
	return n;
}
static inline void chk_hdr(const uint8_t *p, uint32_t msgid, size_t len)
{
	vp_assert(p[0] == 'P' && p[1] == 'O' && p[2] == 'M' && p[3] == 'P', "header magic");
	chk_le(p + 4, msgid, 4);
	chk_le(p + 8, len, 4);
}
static inline const uint8_t *msg_bytes(const struct pomp_msg *msg, size_t *len)
{
	const void *p = NULL;
	size_t cap = 0;
	struct pomp_buffer *buf = pomp_msg_get_buffer(msg);
	vp_assert(buf != NULL, "message has a buffer");
	vp_assert(pomp_buffer_get_cdata(buf, &p, len, &cap) == 0, "buffer readable");
	vp_assert(cap >= *len, "capacity covers length");
	return p;
}
#endif
