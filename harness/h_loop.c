/* C15: descriptors of a loop, real pomp_loop.c and pomp_evt.c. */
#include "pomp_priv.h"

static const int FDS[4] = {6, 142, 7, 8};	/* the first two share a bucket */
enum { F_IN = 1, F_PRI = 2, F_OUT = 4, F_ERR = 8, F_HUP = 16, F_ALL = 31 };
static struct pomp_loop *loop;
/* reference: the map */
static uint8_t reg[4];
static uint32_t evs[4];
static uint8_t gen[4];		/* which registration */
/* what the callbacks saw */
static unsigned calls[4];
static uint32_t last[4];
static int act[4], act_arg[4];
static uint32_t act_ev[4];
static uint8_t removed[4];	/* removed during the round */
static int tag[4];
/* objects of their own: pointers to them are told apart without the solver */
static char d0, d1, d2, d3, d4, d5, d6, d7;
static char *const data[8] = {&d0, &d1, &d2, &d3, &d4, &d5, &d6, &d7};

static uint32_t raw(uint32_t e)
{
	return ((e & F_IN) ? 0x001 : 0) | ((e & F_PRI) ? 0x002 : 0) | ((e & F_OUT) ? 0x004 : 0) |
		((e & F_ERR) ? 0x008 : 0) | ((e & F_HUP) ? 0x010 : 0);
}
static void cb(int fd, uint32_t revents, void *userdata);

static int do_op(int op, int i, uint32_t a, uint32_t b, int bad)
{
	int r;
	switch (op) {
	case 0:	/* add */
		r = pomp_loop_add(loop, FDS[i], a, &cb, data[i + 4 * (gen[i] & 1)]);
		if (reg[i] && a != 0)
			vp_assert(r == -EEXIST, "adding twice refused");
		else if (a == 0)
			vp_assert(r == -EINVAL, "no event refused");
		else if (!bad)
			vp_assert(r == 0, "added");
		else
			vp_assert(r < 0, "failure reported");
		if (r == 0) {
			reg[i] = 1;
			evs[i] = a;
			removed[i] = 1;	/* not of this round */
		}
		return r;
	case 1:
		r = pomp_loop_update(loop, FDS[i], a);
		if (r == 0)
			evs[i] = a;
		break;
	case 2:
		r = pomp_loop_update2(loop, FDS[i], a, b);
		if (r == 0)
			evs[i] = (evs[i] | a) & ~b;
		break;
	default:
		r = pomp_loop_remove(loop, FDS[i]);
		bad = 0;
		if (r == 0) {
			reg[i] = 0;
			removed[i] = 1;
			gen[i]++;
			evs[i] = 0;
		}
		vp_assert((r == 0) == (op == 3 && (tag[i] & 1)), "removed when registered");
		break;
	}
	return r;
}
static void cb(int fd, uint32_t revents, void *userdata)
{
	int i = -1;
	for (int k = 0; k < 8; k++)
		if (userdata == data[k])
			i = k & 3;
	vp_assert(i >= 0, "data given when it was registered");
	vp_assert(userdata == data[i + 4 * (gen[i] & 1)], "data of this registration");
	vp_assert(fd == FDS[i], "descriptor of this registration");
	vp_assert(reg[i], "registered");
	calls[i]++;
	last[i] = revents;
	if (act[i] >= 0) {
		int k = act_arg[i], r;
		tag[k] = reg[k];
		r = do_op(act[i], k, act_ev[i], ~act_ev[i], 0);
		if (act[i] != 0)
			vp_assert(r == (tag[k] ? 0 : -ENOENT), "result of a call from a callback");
	}
}
/* one round: the descriptors of the mask are ready, in the given order */
static uint32_t exact;	/* nonzero: events reported */
static void round_(unsigned ready, int timeout)
{
	uint32_t rv[4], want[4];
	int was[4], any = 0, r;
	for (int i = 0; i < 4; i++) {
		calls[i] = 0;
		removed[i] = 0;
		was[i] = reg[i];
		rv[i] = exact ? (((ready >> i) & 1) ? (exact + 7 * i) % F_ALL + 1 : 0) : vp_u32() & F_ALL;
		want[i] = exact ? rv[i] : rv[i] & (evs[i] | F_ERR | F_HUP);
		vp_file(FDS[i]).rev = raw(rv[i]);
		vp_file(FDS[i]).known = ((ready >> i) & 1) ? (exact ? 3 : 1) : 2;
		if (was[i] && ((ready >> i) & 1))
			any = 1;
	}
	vp_wait_timeout = 12345;
	r = pomp_loop_wait_and_process(loop, timeout);
	vp_assert(vp_wait_timeout == timeout, "timeout passed on");
	vp_assert(r == ((any || timeout == -1) ? 0 : -ETIMEDOUT), "result of the wait");
	for (int i = 0; i < 4; i++) {
		if (was[i] && ((ready >> i) & 1)) {
			if (!removed[i]) {
				vp_assert(calls[i] == 1, "ready descriptor called once");
			} else
				vp_assert(calls[i] <= 1, "at most one call");
			if (calls[i])
				vp_assert(last[i] == want[i], "exactly the ready events");
		} else
			vp_assert(calls[i] == 0, "descriptor that is not ready not called");
	}
}
static void check_map(void)
{
	for (int i = 0; i < 4; i++) {
		vp_assert(pomp_loop_has_fd(loop, FDS[i]) == reg[i], "registered as expected");
#ifndef POLLIMPL
		vp_assert(vp_file(FDS[i]).in_epoll == reg[i], "known to epoll");
		if (reg[i])
			vp_assert(vp_file(FDS[i]).ep_events == raw(evs[i]), "events asked from epoll");
#endif
	}
}
static void setup(void)
{
#ifdef POLLIMPL
	pomp_internal_set_loop_impl(POMP_LOOP_IMPL_POLL);
#endif
	vp_live = 0;
	vp_sys_reset();
	for (int i = 0; i < 4; i++) {
		vp_fd_at(FDS[i], VK_CALLER);
		reg[i] = gen[i] = 0;
		evs[i] = 0;
		act[i] = -1;
	}
	vp_norder = 0;
	loop = pomp_loop_new();
	vp_assert(loop != NULL, "loop made");
	vp_assert(vp_next_fd <= 6, "model leaves the descriptors of the harness free");
}
static void finish(void)
{
	int n = 0;
	for (int i = 0; i < 4; i++)
		n += reg[i];
	if (n > 0)
		vp_assert(pomp_loop_destroy(loop) == -EBUSY, "destroy refused while descriptors remain");
	for (int i = 0; i < 4; i++)
		if (reg[i])
			vp_assert(pomp_loop_remove(loop, FDS[i]) == 0, "removed");
	vp_assert(pomp_loop_destroy(loop) == 0, "destroyed");
	vp_assert(vp_live == 0, "nothing leaked");
	vp_assert(vp_open_count() == 0, "every descriptor of the loop closed");
}
static uint32_t mask(void)
{
	return vp_u32() & F_ALL;
}
/* registered with one mask, then moved to any mask (the library branches on
 * the mask when adding: a constant keeps the shape of its lists constant) */
static void add_any(int i)
{
	do_op(0, i, 1, 0, 0);
	do_op(1, i, mask(), 0, 0);
}
/* states: the ordered subsets of the first three descriptors */
static const int8_t STATES[16][3] = {
	{-1, -1, -1}, {0, -1, -1}, {1, -1, -1}, {2, -1, -1}, {0, 1, -1}, {1, 0, -1}, {0, 2, -1}, {2, 0, -1},
	{1, 2, -1}, {2, 1, -1}, {0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};

#ifdef MAP
/* Any operation from any state of up to three descriptors. */
void h_map(void)
{
	for (int s = SLO; s < SHI; s++)
	for (int op = 0; op < 4; op++)
	for (int i = 0; i < 3; i++)
	for (int f = 0; f < 3; f++) {
		uint32_t a, b;
		int r, was;
#ifdef POLLIMPL
		if (f == 1)
			continue;	/* makes no system call */
#endif
		if ((op != 0 && f == 2) || (op == 3 && f != 0))
			continue;
		setup();
		for (int k = 0; k < 3; k++)
			if (STATES[s][k] >= 0)
				add_any(STATES[s][k]);
		check_map();
		a = vp_u32();
		b = vp_u32();
		if (op != 0)
			vp_assume(a <= F_ALL && b <= F_ALL);
		else
			a = (s + 5 * i + 11 * f) % F_ALL + 1;
		was = tag[i] = reg[i];
		if (f == 1) {
			vp_sys_count = 0;
			vp_sys_fail_at = 0;
			vp_sys_errno = EPERM;
		} else if (f == 2) {
			vp_alloc_count = 0;
			vp_alloc_fail_at = 0;
		}
		r = do_op(op, i, a, b, f != 0);
		vp_sys_fail_at = vp_alloc_fail_at = -1;
		if (op != 0)
			vp_assert(r == (!was ? -ENOENT : f == 1 ? -EPERM : 0), "result of update and remove");
		else if (f == 1)
			vp_assert(r < 0, "result of a failing add");
		check_map();
		/* wrong arguments change nothing */
		vp_assert(pomp_loop_add(loop, -1, F_IN, &cb, NULL) == -EINVAL && pomp_loop_add(loop, FDS[3], F_IN, NULL, NULL) == -EINVAL
				&& pomp_loop_add(loop, FDS[3], 0, &cb, NULL) == -EINVAL
				&& pomp_loop_update(loop, -1, F_IN) == -EINVAL && pomp_loop_update(loop, FDS[3], F_IN) == -ENOENT
				&& pomp_loop_remove(loop, FDS[3]) == -ENOENT, "refused");
		round_(7, f == 0 ? -1 : 5);
		if (op == 1)
			round_(0, i == 0 ? 0 : 7);
		finish();
	}
	vp_reach("map done");
}
#endif
#ifdef DISP
/* Callbacks that change the registrations during a round. */
static const int8_t ORD[15][3] = {
	{0, -1, -1}, {1, -1, -1}, {2, -1, -1}, {0, 1, -1}, {1, 0, -1}, {0, 2, -1}, {2, 0, -1}, {1, 2, -1}, {2, 1, -1},
	{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
void h_disp(void)
{
	for (int o = OLO; o < OHI; o++)
	for (int who = 0; who < 3; who++)
	for (int what = 0; what < 9; what++) {
		unsigned ready = 0;
		setup();
		vp_norder = 0;
		for (int k = 0; k < 3; k++) {
			add_any(STATES[STATE][k]);
			if (ORD[o][k] >= 0) {
				ready |= 1u << ORD[o][k];
				vp_order[vp_norder++] = FDS[ORD[o][k]];
			}
		}
		act[who] = what < 3 ? 3 : what < 6 ? 1 : what == 6 ? 0 : 2;
		act_arg[who] = what < 3 ? what : what < 6 ? what - 3 : what == 6 ? 3 : (who + 1) % 3;
		act_ev[who] = act[who] == 0 ? F_IN | F_HUP : mask();
#ifdef TWO
		if (what < 6 || what == 8) {
			int w2 = (who + 1 + (what == 8)) % 3;
			act[w2] = what == 8 ? 3 : what < 3 ? 3 : 0;
			act_arg[w2] = what == 8 ? who : what < 3 ? (what + 1 + (who & 1)) % 3 : 3;
			act_ev[w2] = act[w2] == 0 ? F_PRI : mask();
		}
#endif
		exact = 1 + 13 * o + 5 * who + what;
		round_(ready, -1);
		exact = 0;
		check_map();
		for (int k = 0; k < 3; k++)
			act[k] = -1;
		vp_norder = 0;
		round_(15, -1);
		finish();
	}
	vp_reach("dispatch done");
}
#endif
#ifdef MISC
/* creation failures, failing waits, interruption, wakeup, descriptor of the loop */
void h_misc(void)
{
	int r;
	for (int f = 0; f < 6; f++)
	for (int m = 0; m < 2; m++) {
		setup();
		finish();
		vp_next_fd = VP_FD0;
		vp_sys_count = vp_alloc_count = 0;
		if (m)
			vp_alloc_fail_at = f;
		else
			vp_sys_fail_at = f;
		loop = pomp_loop_new();
		vp_sys_fail_at = vp_alloc_fail_at = -1;
		if (loop != NULL)
			vp_assert(pomp_loop_destroy(loop) == 0, "destroyed");
		else
			vp_assert(f < 10, "creation fails with its calls");
		vp_assert(vp_live == 0 && vp_open_count() == 0, "failed creation releases everything");
	}
	setup();
#ifndef POLLIMPL
	vp_assert(pomp_loop_get_fd(loop) >= 0 && vp_is_open((int)pomp_loop_get_fd(loop)) &&
			vp_file((int)pomp_loop_get_fd(loop)).kind == VK_EPOLL, "descriptor of the loop");
#endif
	add_any(0);
	/* interrupted any number of times */
	vp_eintr = vp_range(0, 3);
	round_(1, 10);
	/* failing wait: no callback */
	vp_sys_count = 0;
	vp_sys_fail_at = 0;
	vp_sys_errno = EBADF;
	calls[0] = 0;
	r = pomp_loop_wait_and_process(loop, -1);
	vp_sys_fail_at = -1;
	vp_assert(r == -EBADF && calls[0] == 0, "failing wait");
	/* no wait when asked to process only */
	vp_file(FDS[0]).rev = 1 | raw(F_HUP);
	vp_file(FDS[0]).known = 1;
	vp_assert(pomp_loop_process_fd(loop) == 0 && vp_wait_timeout == 0 && calls[0] == 1, "process");
	vp_file(FDS[0]).known = 2;
	vp_file(FDS[0]).rev = 0;
	/* wakeup: the next wait returns, no callback, and the one after waits again */
	calls[0] = 0;
	vp_assert(pomp_loop_wait_and_process(loop, 1) == -ETIMEDOUT, "nothing ready");
	vp_eintr = vp_range(0, 2);
	vp_assert(pomp_loop_wakeup(loop) == 0, "wakeup");
	vp_eintr = 0;
	vp_blocked = 0;
	vp_assert(pomp_loop_wait_and_process(loop, -1) == 0 && vp_blocked == 0, "wakeup ends the wait");
	vp_assert(pomp_loop_wait_and_process(loop, 1) == -ETIMEDOUT, "wakeup used once");
#ifndef POLLIMPL
	for (int i = 0; i < 3; i++)
		vp_assert(pomp_loop_wakeup(loop) == 0, "wakeup");
	vp_assert(pomp_loop_wait_and_process(loop, -1) == 0 && vp_blocked == 0, "wakeup ends the wait");
	vp_assert(pomp_loop_wait_and_process(loop, 1) == -ETIMEDOUT, "wakeups used together");
#endif
	vp_assert(calls[0] == 0, "wakeup calls nothing");
	finish();
	vp_reach("misc done");
}
#endif
