/* C07: life cycle of messages. */
#include "common.h"
enum { EMPTY, OPEN, DONE };
static int st;
static uint32_t id;
static uint8_t body[16];
static unsigned nbody;
static struct pomp_msg *msg;
static struct pomp_encoder enc;
static int enc_on;

static void chk_bytes(struct pomp_msg *m)
{
	size_t len = 0;
	const uint8_t *p;
	if (st == EMPTY) {
		vp_assert(pomp_msg_get_buffer(m) == NULL, "no buffer");
		return;
	}
	vp_assert(pomp_msg_get_id(m) == id, "id of the message");
	p = msg_bytes(m, &len);
	if (st == DONE) {
		vp_assert(len == HDR + nbody, "size of the message");
		vp_assert(VP_R_OK(p, len), "bytes are there");
		chk_hdr(p, id, HDR + nbody);
	} else {
		vp_assert(len == (nbody ? HDR + nbody : 0), "size so far");
	}
	for (unsigned i = 0; i < nbody; i++)
		vp_assert(p[HDR + i] == body[i], "bytes written");
}

static void started(uint32_t newid)
{
	st = OPEN;
	id = newid;
	nbody = 0;
	(void)pomp_encoder_clear(&enc);
	vp_assert(pomp_encoder_init(&enc, msg) == 0, "encoder");
	enc_on = 1;
}

static void op(int o)
{
	uint32_t nid;
	uint8_t v;
	int res, fail = 0;
	long live = vp_live;
	if (o >= 6) {
		fail = 1;
		vp_alloc_fail_at = vp_alloc_count + (o == 10 ? 1 : o == 11 ? 2 : 0);
		o = o == 6 ? 1 : o == 7 ? 0 : o == 8 ? 2 : 5;
	}
	switch (o) {
	case 0:
		nid = vp_u32();
		res = pomp_msg_init(msg, nid);
		if (st != EMPTY) {
			vp_assert(res == -EPERM, "initialised once");
		} else if (fail) {
			vp_assert(res == -ENOMEM && vp_live == live, "no memory");
		} else {
			vp_assert(res == 0, "init");
			started(nid);
		}
		break;
	case 1:
		v = vp_u8();
		if (!enc_on)
			vp_assert(pomp_encoder_init(&enc, msg) == 0, "encoder");
		res = pomp_encoder_write_u8(&enc, v);
		if (st == EMPTY) {
			vp_assert(res < 0, "initialised before written");
		} else if (st == DONE) {
			vp_assert(res == -EPERM, "finished message not written");
		} else if (fail && vp_alloc_count > vp_alloc_fail_at) {
			vp_assert(res == -ENOMEM, "no memory");
		} else {
			vp_assert(res == 0, "write");
			body[nbody++] = POMP_PROT_DATA_TYPE_U8;
			body[nbody++] = v;
		}
		break;
	case 2:
		res = pomp_msg_finish(msg);
		if (st != OPEN) {
			vp_assert(res < 0, "finished once, after being initialised");
		} else if (fail && vp_alloc_count > vp_alloc_fail_at) {
			vp_assert(res == -ENOMEM, "no memory");
		} else {
			vp_assert(res == 0, "finish");
			st = DONE;
		}
		break;
	case 3:
		vp_assert(pomp_msg_clear(msg) == 0, "clear");
		vp_assert(vp_live == 1, "buffer released");
		st = EMPTY;
		enc_on = 0;
		break;
	case 4:
		nid = vp_u32();
		v = vp_u8();
		res = pomp_msg_write(msg, nid, "%hhu", (unsigned)v);
		if (st != EMPTY) {
			vp_assert(res == -EPERM, "initialised once");
		} else {
			vp_assert(res == 0, "write");
			started(nid);
			st = DONE;
			body[nbody++] = POMP_PROT_DATA_TYPE_U8;
			body[nbody++] = v;
		}
		break;
	default: {
		struct pomp_msg *c = pomp_msg_new_copy(msg);
		if (fail && vp_alloc_count > vp_alloc_fail_at) {
			vp_assert(c == NULL && vp_live == live, "no memory");
			break;
		}
		vp_assert(c != NULL && c != msg, "copy");
		vp_assert(st == EMPTY || pomp_msg_get_buffer(c) != pomp_msg_get_buffer(msg), "storage of its own");
		chk_bytes(c);
		/* go on with the copy alone */
		vp_assert(pomp_msg_destroy(msg) == 0, "destroy");
		msg = c;
		if (enc_on)
			enc.msg = c;
		break;
	}
	}
	vp_alloc_fail_at = -1;
	chk_bytes(msg);
}

#ifdef SLO
#define N1 6
#define N2 12
void h_life(void)
{
	/* all sequences of LEN - 1 calls that succeed or are refused, then any call */
	for (unsigned s = SLO; s < SHI; s++) {
		unsigned x = s;
		msg = pomp_msg_new();
		st = EMPTY;
		nbody = 0;
		enc_on = 0;
		vp_assert(msg != NULL, "message");
		for (unsigned k = 0; k < LEN; k++) {
			unsigned o = k + 1 < LEN ? x % N1 : x % N2;
			x /= N1;
			op((int)o);
		}
		vp_assert(pomp_msg_destroy(msg) == 0, "destroy");
		vp_assert(vp_live == 0, "no memory leaked");
	}
	vp_reach("all sequences");
}
#endif

#ifdef BLEN
/* a message made from a buffer of BLEN bytes with any content */
void h_frombuf(void)
{
	uint8_t b[BLEN + 1];
	struct pomp_buffer *buf = pomp_buffer_new(64);
	struct pomp_msg *m;
	int good;
	size_t len = 0;
	const uint8_t *p;
	vp_assert(buf != NULL, "buffer");
	for (unsigned i = 0; i < BLEN; i++)
		b[i] = vp_u8();
	if (BLEN > 0)
		vp_assert(pomp_buffer_append_data(buf, b, BLEN) == 0, "content");
	good = BLEN >= HDR;
	for (unsigned i = 0; i < 4 && i < BLEN; i++)
		good = good && b[i] == (uint8_t)"POMP"[i];
	for (unsigned i = 0; i < 4 && 8 + i < BLEN; i++)
		good = good && b[8 + i] == (uint8_t)((unsigned)BLEN >> (8 * i));
	if (vp_bool())
		vp_alloc_fail_at = vp_alloc_count;
	m = pomp_msg_new_with_buffer(buf);
	if (vp_alloc_fail_at >= 0) {
		vp_assert(m == NULL, "no memory");
	} else if (!good) {
		vp_assert(m == NULL, "only a complete valid message accepted");
	} else {
		vp_assert(m != NULL, "valid message accepted");
		vp_assert(pomp_buffer_is_shared(buf), "buffer shared");
		vp_assert(pomp_msg_get_buffer(m) == buf, "same buffer");
#if BLEN >= HDR
		uint32_t mid = (uint32_t)b[4] | (uint32_t)b[5] << 8 | (uint32_t)b[6] << 16 | (uint32_t)b[7] << 24;
		vp_assert(pomp_msg_get_id(m) == mid, "id of the message");
		struct pomp_encoder e = POMP_ENCODER_INITIALIZER;
		vp_assert(pomp_encoder_init(&e, m) == 0, "encoder");
		vp_assert(pomp_encoder_write_i16(&e, 1) == -EPERM, "message is finished");
		vp_assert(pomp_msg_finish(m) < 0, "message is finished");
		vp_assert(pomp_msg_init(m, 1) == -EPERM, "message is initialised");
		vp_assert(pomp_msg_get_id(m) == mid, "id of the message");
		vp_reach("accepted");
#endif
		p = msg_bytes(m, &len);
		vp_assert(len == BLEN, "length");
		for (unsigned i = 0; i < BLEN; i++)
			vp_assert(p[i] == b[i], "bytes");
		vp_assert(pomp_msg_destroy(m) == 0, "destroy");
	}
	vp_assert(!pomp_buffer_is_shared(buf), "reference released");
	vp_assert(vp_live == 2, "only the buffer");
	pomp_buffer_unref(buf);
	vp_assert(vp_live == 0, "no memory leaked");
	vp_reach("end");
}
#endif
