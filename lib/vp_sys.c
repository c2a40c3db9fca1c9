/* System model: descriptors that are never reused, so that any use after close
 * or second close is seen; any single call can fail. */
#define VP_SYS
#include "vp_force.h"
#ifdef VP_CBMC
int vp_errno;
#endif
#ifndef VP_FD0
#define VP_FD0 3
#endif
/* one object per descriptor: cheaper for the solver than an array */
#define X(n) static struct vp_file file##n;
VP_FDS(X)
#undef X
static struct vp_file nofile;
struct vp_file *vp_filep(int fd)
{
	switch (fd) {
#define X(n) case n: return &file##n;
	VP_FDS(X)
#undef X
	default: return &nofile;
	}
}
static void reset(struct vp_file *f)
{
	f->open = f->in_epoll = f->known = 0;
	f->count = 0;
	f->rev = 0;
}
void vp_sys_reset(void)
{
#define X(n) if (file##n.open) reset(&file##n);
	VP_FDS(X)
#undef X
	vp_next_fd = VP_FD0;
}
int vp_next_fd = VP_FD0;
int vp_sys_fail_at = -1, vp_sys_count, vp_sys_errno = EMFILE;
int vp_eintr;
int vp_locked;
struct itimerspec vp_tim;
int vp_tim_sets;

int vp_sys_fails(void)
{
	int k = vp_sys_count++;
	if (vp_sys_fail_at >= 0 && k == vp_sys_fail_at) {
		errno = vp_sys_errno;
		return 1;
	}
	return 0;
}
int vp_fd_new(int kind)
{
	int fd = vp_next_fd++;
	vp_assert(fd < VP_NFD, "model has enough descriptors");
	vp_file(fd).open = 1;
	vp_file(fd).kind = (uint8_t)kind;
	vp_file(fd).src = -1;
	vp_file(fd).peer = -1;
	return fd;
}
int vp_fd_at(int fd, int kind)
{
	vp_file(fd).open = 1;
	vp_file(fd).kind = (uint8_t)kind;
	vp_file(fd).src = -1;
	vp_file(fd).peer = -1;
	return fd;
}
int vp_is_open(int fd)
{
	return vp_filep(fd) != &nofile && vp_file(fd).open == 1;
}
int vp_open_count(void)
{
	int n = 0;
#define X(k) if (file##k.open == 1 && file##k.kind != VK_CALLER) n++;
	VP_FDS(X)
#undef X
	return n;
}
int vp_dup(int fd)
{
	int n;
	vp_assert(vp_is_open(fd), "dup of an open descriptor");
	if (vp_sys_fails())
		return -1;
	n = vp_fd_new(VK_DUP);
	vp_file(n).src = fd;
	return n;
}
int vp_close(int fd)
{
	vp_assert(vp_is_open(fd), "close of an open descriptor");
	vp_assert(vp_file(fd).kind != VK_CALLER, "descriptor of the caller not closed");
	vp_file(fd).open = 2;
	vp_file(fd).in_epoll = 0;
	return 0;
}
int vp_fcntl(int fd, int cmd, int arg)
{
	vp_assert(vp_is_open(fd), "fcntl of an open descriptor");
	if (vp_sys_fails())
		return -1;
	if (cmd == F_SETFD)
		vp_file(fd).cloexec = (arg & FD_CLOEXEC) != 0;
	else if (cmd == F_SETFL)
		vp_file(fd).nonblock = (arg & O_NONBLOCK) != 0;
	else if (cmd == F_GETFL)
		return vp_file(fd).nonblock ? O_NONBLOCK | O_RDWR : O_RDWR;
	else if (cmd == F_GETFD)
		return vp_file(fd).cloexec ? FD_CLOEXEC : 0;
	return 0;
}
int vp_pipe(int *fds)
{
	if (vp_sys_fails())
		return -1;
	fds[0] = vp_fd_new(VK_PIPE_R);
	fds[1] = vp_fd_new(VK_PIPE_W);
	vp_file(fds[0]).peer = fds[1];
	vp_file(fds[1]).peer = fds[0];
	return 0;
}
int vp_eventfd(unsigned int v, int flags)
{
	int fd;
	if (vp_sys_fails())
		return -1;
	fd = vp_fd_new(VK_EVENT);
	vp_file(fd).count = v;
	vp_file(fd).nonblock = (flags & EFD_NONBLOCK) != 0;
	vp_file(fd).cloexec = (flags & EFD_CLOEXEC) != 0;
	return fd;
}
int vp_epoll_create(int n)
{
	if (vp_sys_fails())
		return -1;
	return vp_fd_new(VK_EPOLL);
}
int vp_epoll_ctl(int efd, int op, int fd, struct epoll_event *ev)
{
	vp_assert(vp_is_open(efd) && vp_file(efd).kind == VK_EPOLL, "epoll_ctl of an epoll descriptor");
	vp_assert(vp_filep(fd) != &nofile, "descriptor of the model");
	if (op != EPOLL_CTL_DEL && vp_sys_fails())
		return -1;
	if (op == EPOLL_CTL_ADD) {
		if (vp_file(fd).in_epoll) {
			errno = EEXIST;
			return -1;
		}
	} else if (!vp_file(fd).in_epoll) {
		errno = ENOENT;
		return -1;
	}
	if (op == EPOLL_CTL_DEL) {
		vp_file(fd).in_epoll = 0;
		return 0;
	}
	vp_file(fd).in_epoll = 1;
	vp_file(fd).ep_events = ev->events;
	vp_file(fd).ep_fd = ev->data.fd;
	vp_file(fd).ep_u64 = ev->data.u64;
	return 0;
}
static int intr(void)
{
	if (vp_eintr > 0) {
		vp_eintr--;
		errno = EINTR;
		return 1;
	}
	return 0;
}
#ifndef VP_PIPE_SIZE
#define VP_PIPE_SIZE 65536
#endif
ssize_t vp_read(int fd, void *p, size_t n)
{
	struct vp_file *f = &vp_file(fd);
	vp_assert(vp_is_open(fd), "read of an open descriptor");
	vp_assert(f->nonblock || f->count != 0, "read that would block");
	if (intr() || vp_sys_fails())
		return -1;
	if (f->count == 0) {
		errno = EAGAIN;
		return -1;
	}
	if (f->kind == VK_PIPE_R) {
		uint64_t k = f->count < n ? f->count : n;
		f->count -= k;
		return (ssize_t)k;
	}
	vp_assert(f->kind == VK_EVENT || f->kind == VK_TIMER, "kind of descriptor");
	vp_assert(n == sizeof(uint64_t), "read of a counter");
	*(uint64_t *)p = f->count;
	f->count = 0;
	return (ssize_t)n;
}
ssize_t vp_write(int fd, const void *p, size_t n)
{
	struct vp_file *f = &vp_file(fd);
	vp_assert(vp_is_open(fd), "write of an open descriptor");
	if (intr() || vp_sys_fails())
		return -1;
	if (f->kind == VK_PIPE_W) {
		vp_assert(n == 1, "one byte at a time");
		f = &vp_file(f->peer);
		if (f->count >= VP_PIPE_SIZE) {
			vp_assert(vp_file(fd).nonblock, "write that would block");
			errno = EAGAIN;
			return -1;
		}
		f->count++;
		return 1;
	}
	vp_assert(f->kind == VK_EVENT, "kind of descriptor");
	vp_assert(n == sizeof(uint64_t), "write of a counter");
	if (f->count > UINT64_MAX - 1 - *(const uint64_t *)p) {
		vp_assert(f->nonblock, "write that would block");
		errno = EAGAIN;
		return -1;
	}
	f->count += *(const uint64_t *)p;
	return (ssize_t)n;
}
int vp_timerfd_create(int clock, int flags)
{
	int fd;
	if (vp_sys_fails())
		return -1;
	vp_assert(clock == CLOCK_MONOTONIC, "clock that is never set back");
	fd = vp_fd_new(VK_TIMER);
	vp_file(fd).nonblock = (flags & TFD_NONBLOCK) != 0;
	vp_file(fd).cloexec = (flags & TFD_CLOEXEC) != 0;
	return fd;
}
int vp_timerfd_settime(int fd, int flags, const struct itimerspec *n, struct itimerspec *o)
{
	vp_assert(vp_is_open(fd) && vp_file(fd).kind == VK_TIMER, "settime of a timer");
	if (vp_sys_fails())
		return -1;
	vp_assert(flags == 0, "relative time");
	vp_tim = *n;
	vp_tim_sets++;
	vp_file(fd).count = 0;
	return 0;
}
int vp_mutex_init(pthread_mutex_t *m) { return 0; }
int vp_mutex_destroy(pthread_mutex_t *m)
{
	vp_assert(!vp_locked, "mutex free when destroyed");
	return 0;
}
int vp_mutex_lock(pthread_mutex_t *m)
{
	vp_assert(!vp_locked, "no deadlock");
	vp_locked = 1;
	return 0;
}
int vp_mutex_unlock(pthread_mutex_t *m)
{
	vp_assert(vp_locked, "unlock of a held mutex");
	vp_locked = 0;
	return 0;
}

int vp_order[16], vp_norder;
int vp_waits, vp_wait_timeout, vp_blocked;
/* Readiness of a descriptor for the given events; *ev is the mask. */
static int ready(int fd, uint32_t events, uint32_t *ev)
{
	struct vp_file *f = &vp_file(fd);
	uint32_t r = f->rev;
	if (f->kind == VK_EVENT || f->kind == VK_TIMER || f->kind == VK_PIPE_R)
		r = f->count != 0 ? EPOLLIN : 0;
	r &= events | EPOLLERR | EPOLLHUP;
	*ev = r;
	if (f->known == 3) {	/* reported exactly as it is */
		vp_assume((f->rev & ~(events | EPOLLERR | EPOLLHUP)) == 0);
		*ev = f->rev;
		return 1;
	}
	if (f->known == 1) {
		vp_assume(r != 0);
		return 1;
	}
	if (f->known == 2) {
		vp_assume(r == 0);
		return 0;
	}
	return r != 0;
}
static int in_order(int fd)
{
	int k;
	for (k = 0; k < vp_norder; k++)
		if (vp_order[k] == fd)
			return 1;
	return 0;
}
static int report(int fd, struct epoll_event *ev, int n, int max)
{
	struct vp_file *f = &vp_file(fd);
	uint32_t m;
	if (f->open != 1 || !f->in_epoll || !ready(fd, f->ep_events, &m) || n >= max)
		return n;
	ev[n].events = m;
	ev[n].data.u64 = f->ep_u64;
	ev[n].data.fd = f->ep_fd;
	return n + 1;
}
int vp_epoll_wait(int efd, struct epoll_event *ev, int max, int timeout)
{
	int n = 0, i;
	vp_assert(vp_is_open(efd) && vp_file(efd).kind == VK_EPOLL, "wait on the epoll descriptor");
	vp_waits++;
	vp_wait_timeout = timeout;
	if (intr() || vp_sys_fails())
		return -1;
	for (i = 0; i < vp_norder; i++)
		n = report(vp_order[i], ev, n, max);
#define X(k) if (file##k.open == 1 && file##k.in_epoll && !in_order(k)) n = report(k, ev, n, max);
	VP_FDS(X)
#undef X
	if (n == 0 && timeout < 0)
		vp_blocked++;
	return n;
}
int vp_poll(struct pollfd *fds, nfds_t n, int timeout)
{
	int r = 0;
	nfds_t i;
	vp_waits++;
	vp_wait_timeout = timeout;
	if (intr() || vp_sys_fails())
		return -1;
	for (i = 0; i < n; i++) {
		uint32_t m = 0;
		vp_assert(VP_W_OK(&fds[i], sizeof(fds[i])), "poll array");
		fds[i].revents = 0;
		if (fds[i].fd < 0)
			continue;
		if (!vp_is_open(fds[i].fd)) {
			fds[i].revents = POLLNVAL;
			r++;
		} else if (ready(fds[i].fd, (uint16_t)fds[i].events, &m)) {
			fds[i].revents = (short)m;
			r++;
		}
	}
	if (r == 0 && timeout < 0)
		vp_blocked++;
	return r;
}

int vp_cond_clock, vp_cond_signals;
int vp_cond_signal(pthread_cond_t *c)
{
	vp_cond_signals++;
	return 0;
}
#ifndef VP_THREADS
int vp_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { vp_assert(0, "no wait in this model"); return 0; }
int vp_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *t) { vp_assert(0, "no wait in this model"); return 0; }
int vp_thread_create(pthread_t *t, void *(*fn)(void *), void *arg) { vp_assert(0, "no thread in this model"); return 0; }
int vp_thread_join(pthread_t t) { vp_assert(0, "no thread in this model"); return 0; }
int vp_clock_gettime(clockid_t c, struct timespec *t) { t->tv_sec = 0; t->tv_nsec = 0; return 0; }
#endif
