/* C05/C06: the stream parser. */
#include "common.h"
#ifndef LA
#define LA 1
#endif
#ifndef LB
#define LB 1
#endif
#define NA (HDR + LA)
#define NB (HDR + LB)
#define N (NA + NB)

static uint8_t stream[N];
static struct pomp_prot *prot;
static unsigned consumed, nmsg;
static const unsigned ends[2] = { NA, N };
static const unsigned begs[2] = { 0, NA };

static void put_hdr(uint8_t *p, uint32_t size)
{
	p[0] = 'P';
	p[1] = 'O';
	p[2] = 'M';
	p[3] = 'P';
	p[8] = (uint8_t)size;
	p[9] = (uint8_t)(size >> 8);
	p[10] = (uint8_t)(size >> 16);
	p[11] = (uint8_t)(size >> 24);
}

static void got(struct pomp_msg *msg)
{
	size_t len = 0;
	const uint8_t *p = msg_bytes(msg, &len);
	unsigned b, n;
	vp_assert(nmsg < 2, "no more messages than sent");
	b = begs[nmsg];
	n = ends[nmsg] - b;
	vp_assert(consumed == ends[nmsg], "delivered with its last byte");
	vp_assert(len == n, "size of the message");
	for (unsigned i = 0; i < n; i++)
		vp_assert(p[i] == stream[b + i], "byte of the message");
	vp_assert(pomp_msg_get_id(msg) == ((uint32_t)stream[b + 4] | (uint32_t)stream[b + 5] << 8 |
		(uint32_t)stream[b + 6] << 16 | (uint32_t)stream[b + 7] << 24), "id of the message");
	nmsg++;
	/* the message can be decoded, and not modified */
	{
		struct pomp_encoder enc = POMP_ENCODER_INITIALIZER;
		vp_assert(pomp_encoder_init(&enc, msg) == 0, "encoder");
		vp_assert(pomp_encoder_write_u8(&enc, 1) == -EPERM, "message is finished");
	}
}

static void feed(unsigned n, int keep)
{
	const unsigned end = consumed + n;
	for (unsigned it = 0; it < 3 && consumed < end; it++) {
		struct pomp_msg *msg = NULL;
		int r = pomp_prot_decode_msg(prot, stream + consumed, end - consumed, &msg);
		vp_assert(r > 0, "progress");
		vp_assert((unsigned)r <= end - consumed, "no more than given");
		consumed += (unsigned)r;
		if (msg != NULL) {
			got(msg);
			if (keep)
				pomp_msg_destroy(msg);
			else
				pomp_prot_release_msg(prot, msg);
		} else {
			vp_assert(consumed == end, "stops early only with a message");
		}
	}
	vp_assert(consumed == end, "everything consumed");
	vp_assert(nmsg == (consumed >= NA) + (consumed >= N), "message delivered as soon as complete");
}

static void setup(void)
{
	for (unsigned i = 0; i < N; i++)
		stream[i] = vp_u8();
	put_hdr(stream, NA);
	put_hdr(stream + NA, NB);
	prot = pomp_prot_new();
	vp_assert(prot != NULL, "parser");
	consumed = nmsg = 0;
}

static void finish(void)
{
	vp_assert(nmsg == 2, "both messages");
	vp_assert(pomp_prot_destroy(prot) == 0, "destroy");
	vp_assert(vp_live == 0, "no memory leaked");
}

/* stream cut at every position k and every k + n (contents symbolic) */
#ifdef CUTS
void h_cuts(void)
{
	for (unsigned k = KLO; k <= KHI; k++) {
		for (unsigned n = 0; n <= N - k; n++) {
			setup();
			feed(k, KEEP);
			feed(n, KEEP);
			feed(N - k - n, KEEP);
			finish();
		}
	}
	vp_reach("all cuts");
}
void h_symcuts(void)
{
	unsigned k = vp_u8(), n = vp_u8();
	vp_assume(k >= KLO && k <= KHI && n <= N - k);
	setup();
	feed(k, KEEP);
	feed(n, KEEP);
	feed(N - k - n, KEEP);
	finish();
	vp_reach("all cuts");
}
#endif

/* C06 ------------------------------------------------------------------- */
#ifdef GARBAGE
/* Junk that cannot be the beginning of a message, then a good message. */
static uint8_t raw[64];
static unsigned nraw;
static void put(uint8_t b) { raw[nraw++] = b; }
static int feed_raw(unsigned from, unsigned to, struct pomp_msg **out)
{
	unsigned off = from;
	int cnt = 0;
	for (unsigned it = 0; it < 3 && off < to; it++) {
		struct pomp_msg *msg = NULL;
		int r = pomp_prot_decode_msg(prot, raw + off, to - off, &msg);
		vp_assert(r > 0 && (unsigned)r <= to - off, "progress");
		off += (unsigned)r;
		if (msg != NULL) {
			cnt++;
			vp_assert(cnt == 1, "one message");
			*out = msg;
			vp_assert(off == nraw, "delivered with its last byte");
		}
	}
	vp_assert(off == to, "everything consumed");
	return cnt;
}
void h_garbage(void)
{
	struct pomp_msg *msg = NULL;
	size_t len = 0;
	const uint8_t *p;
	unsigned beg, cut;
	uint8_t x;
	static const char magic[4] = { 'P', 'O', 'M', 'P' };
	prot = pomp_prot_new();
	vp_assert(prot != NULL, "parser");
	nraw = 0;
#if GARBAGE < 4
	/* prefix of the magic, then another byte, then bytes other than 'P' */
	for (unsigned i = 0; i < GARBAGE; i++)
		put((uint8_t)magic[i]);
	x = vp_u8();
	vp_assume(x != (uint8_t)magic[GARBAGE]);
	put(x);
	for (unsigned i = 0; i < JUNK; i++) {
		x = vp_u8();
		vp_assume(x != 'P');
		put(x);
	}
#elif GARBAGE == 4
	/* a size smaller than a header, or one no memory can be found for */
	for (unsigned i = 0; i < 4; i++)
		put((uint8_t)magic[i]);
	for (unsigned i = 0; i < 4; i++)
		put(vp_u8());
	for (unsigned i = 0; i < 4; i++)
		put((uint8_t)((uint32_t)(SIZE) >> (8 * i)));
#else
	/* complete empty message whose allocations fail */
	for (unsigned i = 0; i < 4; i++)
		put((uint8_t)magic[i]);
	for (unsigned i = 0; i < 4; i++)
		put(vp_u8());
	put(HDR + 1);
	for (unsigned i = 0; i < 3; i++)
		put(0);
	x = vp_u8();
	vp_assume(x != 'P');
	put(x);
#endif
	beg = nraw;
	for (unsigned i = 0; i < 4; i++)
		put((uint8_t)magic[i]);
#ifdef FIXID
	/* id and payload fixed: the paths where junk is not junk stay few */
	put(FIXID);
	put(0);
	put(7);
	put(0x80);
#else
	for (unsigned i = 0; i < 4; i++)
		put(vp_u8());
#endif
	put(HDR + LA);
	for (unsigned i = 0; i < 3; i++)
		put(0);
	for (unsigned i = 0; i < LA; i++)
#ifdef FIXID
		put(9);
#else
		put(vp_u8());
#endif
#if GARBAGE >= 6
	vp_alloc_fail_at = vp_alloc_count + GARBAGE - 6;
	vp_assert(feed_raw(0, beg, &msg) == 0 && msg == NULL, "no message without memory");
	vp_assert(vp_alloc_count > vp_alloc_fail_at, "an allocation failed");
	vp_alloc_fail_at = -1;
	cut = beg;
#else
	cut = CUT;
	vp_assert(feed_raw(0, cut, &msg) == 0 && msg == NULL, "no message in garbage");
#endif
	vp_assert(feed_raw(cut, nraw, &msg) == 1 && msg != NULL, "next message delivered");
	p = msg_bytes(msg, &len);
	vp_assert(len == HDR + LA, "size");
	for (unsigned i = 0; i < HDR + LA; i++)
		vp_assert(p[i] == raw[beg + i], "byte of the message");
	pomp_msg_destroy(msg);
	vp_assert(pomp_prot_destroy(prot) == 0, "destroy");
	vp_assert(vp_live == 0, "no memory leaked");
	vp_reach("resynchronised");
}
#endif
