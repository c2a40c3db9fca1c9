/* Model of the system calls the library makes (lib/vp_sys.c).  Used under the
 * solver and in native replays alike: nothing reaches the real system. */
#ifndef VP_SYS_H
#define VP_SYS_H
#ifndef VP_NFD
#define VP_NFD 32	/* descriptors handed out are below */
#endif
/* descriptors of the model */
#define VP_FDS(X) X(3) X(4) X(5) X(6) X(7) X(8) X(9) X(10) X(11) X(12) X(13) X(14) X(15) X(16) X(17) X(18) X(19) X(20) \
	X(21) X(22) X(23) X(24) X(25) X(26) X(27) X(28) X(29) X(30) X(31) X(142)
#ifndef VP_FD0
#define VP_FD0 3
#endif
enum vp_kind { VK_NONE = 0, VK_CALLER, VK_DUP, VK_EPOLL, VK_EVENT, VK_TIMER, VK_SOCK,
	VK_PIPE_R, VK_PIPE_W, VK_RX };
struct vp_file {
	uint8_t open;		/* 0 never, 1 open, 2 closed */
	uint8_t kind;
	uint8_t nonblock;
	uint8_t cloexec;
	int src;		/* VK_DUP: descriptor duplicated */
	int peer;		/* pipes */
	uint64_t count;		/* eventfd counter, bytes in a pipe, expirations */
	uint8_t in_epoll;
	uint32_t ep_events;	/* registered with epoll */
	int ep_fd;		/* event.data (both: the solver folds what is read as it was written) */
	uint64_t ep_u64;
	uint32_t rev;		/* other kinds: what is ready (EPOLL bits) */
	uint8_t known;		/* readiness known: 1 ready, 2 not, 3 exactly rev */
};
#define vp_file(fd) (*vp_filep(fd))
extern void vp_sys_reset(void);	/* forgets every descriptor */
extern int vp_order[16], vp_norder;	/* order in which a wait reports, or as the table */
extern int vp_waits, vp_wait_timeout, vp_blocked;
extern int vp_fd_at(int fd, int kind);
extern struct vp_file *vp_filep(int fd);
extern int vp_next_fd;
extern int vp_sys_fail_at, vp_sys_count, vp_sys_errno;	/* which call fails, or -1 */
extern int vp_eintr;		/* next reads/writes/waits interrupted */
extern int vp_locked;		/* mutex held */
extern struct itimerspec vp_tim;	/* last timerfd_settime */
extern int vp_tim_sets;

extern int vp_fd_new(int kind);
extern int vp_open_count(void);	/* open descriptors that are not the caller's */
extern int vp_sys_fails(void);
extern int vp_is_open(int fd);

extern int vp_dup(int fd);
extern int vp_close(int fd);
extern int vp_fcntl(int fd, int cmd, int arg);
extern int vp_pipe(int *fds);
extern int vp_eventfd(unsigned int v, int flags);
extern int vp_epoll_create(int n);
extern int vp_epoll_ctl(int efd, int op, int fd, struct epoll_event *ev);
extern int vp_epoll_wait(int efd, struct epoll_event *ev, int max, int timeout);
extern int vp_poll(struct pollfd *fds, nfds_t n, int timeout);
extern ssize_t vp_read(int fd, void *p, size_t n);
extern ssize_t vp_write(int fd, const void *p, size_t n);
extern int vp_timerfd_create(int clock, int flags);
extern int vp_timerfd_settime(int fd, int flags, const struct itimerspec *n, struct itimerspec *o);
extern int vp_mutex_init(pthread_mutex_t *m);
extern int vp_mutex_destroy(pthread_mutex_t *m);
extern int vp_mutex_lock(pthread_mutex_t *m);
extern int vp_mutex_unlock(pthread_mutex_t *m);
extern int vp_cond_wait(pthread_cond_t *c, pthread_mutex_t *m);	/* harness */
extern int vp_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *t);	/* harness */
extern int vp_cond_signal(pthread_cond_t *c);
extern int vp_thread_create(pthread_t *t, void *(*fn)(void *), void *arg);
extern int vp_thread_join(pthread_t t);
extern int vp_clock_gettime(clockid_t c, struct timespec *t);
extern int vp_cond_clock;	/* clock of the last condition attribute */
extern int vp_cond_attr(int clock);
extern int vp_cond_signals;

#ifdef VP_CBMC
extern int vp_errno;
#undef errno
#define errno vp_errno
#endif
#ifndef VP_ENV_IMPL
#define dup(fd)			vp_dup(fd)
#define close(fd)		vp_close(fd)
#define fcntl(fd, cmd, ...)	vp_fcntl(fd, cmd, (0, ##__VA_ARGS__))
#define pipe(fds)		vp_pipe(fds)
#define eventfd(v, f)		vp_eventfd(v, f)
#define epoll_create(n)		vp_epoll_create(n)
#define epoll_ctl(e, o, f, v)	vp_epoll_ctl(e, o, f, v)
#define epoll_wait(e, v, m, t)	vp_epoll_wait(e, v, m, t)
#define poll(f, n, t)		vp_poll(f, n, t)
#define read(f, p, n)		vp_read(f, p, n)
#define write(f, p, n)		vp_write(f, p, n)
#define timerfd_create(c, f)	vp_timerfd_create(c, f)
#define timerfd_settime(f, g, n, o) vp_timerfd_settime(f, g, n, o)
#define pthread_mutex_init(m, a) vp_mutex_init(m)
#define pthread_mutex_destroy(m) vp_mutex_destroy(m)
#define pthread_mutex_lock(m)	vp_mutex_lock(m)
#define pthread_mutex_unlock(m)	vp_mutex_unlock(m)
#define pthread_condattr_init(a) (vp_cond_clock = CLOCK_REALTIME, 0)
#define pthread_condattr_setclock(a, c) (vp_cond_clock = (c), 0)
#define pthread_condattr_destroy(a) (0)
#define pthread_cond_init(c, a)	(0)
#define pthread_cond_destroy(c)	(0)
#define pthread_cond_signal(c)	vp_cond_signal(c)
#define pthread_cond_broadcast(c) vp_cond_signal(c)
#define pthread_cond_wait(c, m)	vp_cond_wait(c, m)
#define pthread_cond_timedwait(c, m, t) vp_cond_timedwait(c, m, t)
#define pthread_create(t, a, f, u) vp_thread_create(t, f, u)
#define pthread_join(t, r)	vp_thread_join(t)
#define clock_gettime(c, t)	vp_clock_gettime(c, t)
#endif
#endif
