/* C09: ownership of the descriptors in messages. */
#include "common.h"
#ifndef NFDS
#define NFDS 2
#endif
static int own[NFDS], mine[NFDS], nown;
static int caller[NFDS];

/* every descriptor written so far is readable and a duplicate of the caller's */
static void readable(const struct pomp_msg *msg, const int *from, int *into)
{
	struct pomp_decoder dec = POMP_DECODER_INITIALIZER;
	uint8_t z = 0;
	vp_assert(pomp_decoder_init(&dec, msg) == 0, "decoder");
	for (int i = 0; i < nown; i++) {
		int fd = -1;
#ifdef GAPS
		vp_assert(pomp_decoder_read_u8(&dec, &z) == 0 && z == i, "argument before");
#endif
		vp_assert(pomp_decoder_read_fd(&dec, &fd) == 0, "descriptor readable");
		vp_assert(vp_is_open(fd), "descriptor owned by the message");
		vp_assert(vp_file(fd).kind == VK_DUP && vp_file(fd).src == from[i], "duplicate of the one given");
		into[i] = fd;
	}
}

void h_fd(void)
{
	struct pomp_msg *msg = pomp_msg_new(), *copy = NULL;
	struct pomp_encoder enc = POMP_ENCODER_INITIALIZER;
	long live0;
	int res, base, cp[NFDS];

	vp_assert(msg != NULL && pomp_msg_init(msg, vp_u32()) == 0, "message");
	vp_assert(pomp_encoder_init(&enc, msg) == 0, "encoder");
	for (int i = 0; i < NFDS; i++)
		caller[i] = vp_fd_new(VK_CALLER);
	/* the FAIL-th system call from here on fails, or the AFAIL-th allocation */
#ifdef FAIL
	vp_sys_fail_at = vp_sys_count + (FAIL);
#endif
#ifdef AFAIL
	vp_alloc_fail_at = vp_alloc_count + (AFAIL);
#endif
	for (int i = 0; i < NFDS; i++) {
		int before = vp_open_count(), failed;
		size_t len0 = 0, len1 = 0;
#ifdef GAPS
		res = pomp_encoder_write_u8(&enc, (uint8_t)i);
		if (res < 0)
			break;
#endif
#ifdef FMT
		res = pomp_encoder_write(&enc, "%x", caller[i]);
#else
		res = pomp_encoder_write_fd(&enc, caller[i]);
#endif
		failed = (vp_sys_fail_at >= 0 && vp_sys_count > vp_sys_fail_at) ||
			(vp_alloc_fail_at >= 0 && vp_alloc_count > vp_alloc_fail_at);
		vp_assert(vp_is_open(caller[i]), "descriptor of the caller left open");
		if (res < 0) {
			vp_assert(failed || i >= 4, "fails only with a call or when full");
			vp_assert(vp_open_count() == before, "nothing opened by a failed write");
			
#ifdef WFAILS
			vp_reach("write failed");
#endif
			break;
		}
		vp_assert(!failed && i < 4, "failures are reported");
		vp_assert(vp_open_count() == before + 1, "one duplicate");
		nown++;
	}
	readable(msg, caller, mine);
	vp_assert(vp_open_count() == nown, "nothing else open");
#ifdef NEG
	vp_assert(pomp_encoder_write_fd(&enc, -1) < 0, "bad descriptor refused");
	vp_assert(vp_open_count() == nown, "nothing opened");
#endif
	vp_sys_fail_at = vp_alloc_fail_at = -1;
	vp_assert(pomp_msg_finish(msg) == 0, "finish");
	readable(msg, caller, mine);

	/* copy of the message, where a call may fail */
	live0 = vp_live;
	base = vp_open_count();
#ifdef CFAIL
	vp_sys_fail_at = vp_sys_count + (CFAIL);
#endif
#ifdef CAFAIL
	vp_alloc_fail_at = vp_alloc_count + (CAFAIL);
#endif
	copy = pomp_msg_new_copy(msg);
	vp_sys_fail_at = vp_alloc_fail_at = -1;
	if (copy == NULL) {
		vp_assert(vp_open_count() == base && vp_live == live0, "failed copy releases everything");
#ifdef CFAILS
		vp_reach("copy failed");
#endif
	} else {
		vp_assert(vp_open_count() == base + nown, "each descriptor duplicated");
		readable(copy, mine, cp);
	}
	readable(msg, caller, mine);

	/* the buffer keeps them for its other users */
#ifdef SHARE
	{
		struct pomp_buffer *buf = pomp_msg_get_buffer(msg);
		pomp_buffer_ref(buf);
		vp_assert(pomp_msg_destroy(msg) == 0, "destroy");
		for (int i = 0; i < nown; i++)
			vp_assert(vp_is_open(mine[i]), "kept while the buffer is referenced");
		pomp_buffer_unref(buf);
	}
#else
	vp_assert(pomp_msg_clear(msg) == 0, "clear");
	for (int i = 0; i < nown; i++)
		vp_assert(!vp_is_open(mine[i]), "closed with the message");
	vp_assert(pomp_msg_destroy(msg) == 0, "destroy");
#endif
	for (int i = 0; i < nown; i++)
		vp_assert(!vp_is_open(mine[i]), "closed with the message");
	if (copy != NULL) {
		readable(copy, mine, cp);
		vp_assert(pomp_msg_destroy(copy) == 0, "destroy");
#ifndef CFAILS
		vp_reach("copied");
#endif
	}
	vp_assert(vp_open_count() == 0, "all closed");
	for (int i = 0; i < NFDS; i++)
		vp_assert(vp_is_open(caller[i]), "descriptor of the caller left open");
	vp_assert(vp_live == 0, "no memory leaked");
	vp_reach("end");
}
