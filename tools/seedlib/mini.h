// A small stand-in for the kernel's devices and consoles, and clients for a seat server running in this process.
// Nothing outside this process is touched: /dev paths are answered with memfds, console requests with variables.
#define _GNU_SOURCE
#include <assert.h>
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <stdarg.h>
#include <stdbool.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <unistd.h>
#include <linux/input.h>
#include <linux/kd.h>
#include <linux/vt.h>
#include "client.h"
#include "poller.h"
#include "protocol.h"
#include "seat.h"
#include "server.h"

#define CHECK(c, ...) \
	do { \
		if (!(c)) { \
			printf("FAIL line %d: ", __LINE__); \
			printf(__VA_ARGS__); \
			printf("\n"); \
			exit(1); \
		} \
	} while (0)

struct ofd {
	ino_t ino;
	char path[128];
	int flags, tty; // tty: -1 for devices
	bool master, revoked;
};
static struct ofd ofds[4096];
static int nofds;
static int fg = 1, want_vt = -1, acked, gfx[64], kbd_off[64], procm[64];
static int dropmaster_fails, setmaster_fails, revoke_fails, dup_fails, poll_wait;
static const char *links[16][2]; // path -> resolved path
static char last_opened[256];
static long nopens;

int __real_open(const char *, int, ...);
char *__real_realpath(const char *, char *);
int __real_ioctl(int, unsigned long, ...);
int __real_poll(struct pollfd *, nfds_t, int);
int __real_dup(int);

static struct ofd *ofd_of(int fd) {
	struct stat st;
	if (fstat(fd, &st) == -1)
		return NULL;
	for (int i = 0; i < nofds; i++)
		if (ofds[i].ino == st.st_ino)
			return &ofds[i];
	return NULL;
}
int __wrap_open(const char *p, int fl, ...) {
	if (strncmp(p, "/dev/", 5) != 0 && strncmp(p, "/fake/", 6) != 0)
		return __real_open(p, fl, 0600);
	int fd = memfd_create("dev", 0);
	struct stat st;
	fstat(fd, &st);
	struct ofd *o = &ofds[nofds++];
	assert(nofds < 4096);
	memset(o, 0, sizeof *o);
	o->ino = st.st_ino;
	o->flags = fl;
	snprintf(o->path, sizeof o->path, "%s", p);
	o->tty = -1;
	if (strncmp(p, "/dev/tty", 8) == 0)
		o->tty = atoi(p + 8);
	else
		snprintf(last_opened, sizeof last_opened, "%s", p), nopens++;
	return fd;
}
char *__wrap_realpath(const char *p, char *out) {
	for (int i = 0; i < 16 && links[i][0]; i++)
		if (strcmp(links[i][0], p) == 0)
			p = links[i][1];
	if (out == NULL)
		return strdup(p);
	return strcpy(out, p);
}
int __wrap_dup(int fd) {
	if (dup_fails) {
		dup_fails--;
		errno = EMFILE;
		return -1;
	}
	return __real_dup(fd);
}
int __wrap_poll(struct pollfd *f, nfds_t n, int t) {
	(void)t;
	return __real_poll(f, n, poll_wait);
}
static void kswitch(int vt) { // the kernel is asked to show a VT
	if (vt == fg)
		return;
	if (procm[fg]) {
		want_vt = vt;
		raise(SIGUSR1);
	} else {
		fg = vt;
		if (procm[fg])
			raise(SIGUSR2);
	}
}
int __wrap_ioctl(int fd, unsigned long rq, ...) {
	va_list ap;
	va_start(ap, rq);
	void *arg = va_arg(ap, void *);
	va_end(ap);
	struct ofd *o = ofd_of(fd);
	if (o == NULL)
		return __real_ioctl(fd, rq, arg);
	if (o->tty >= 0) {
		int t = o->tty ? o->tty : fg;
		switch (rq) {
		case VT_GETSTATE: ((struct vt_stat *)arg)->v_active = fg; return 0;
		case VT_SETMODE: procm[t] = ((struct vt_mode *)arg)->mode == VT_PROCESS; return 0;
		case VT_ACTIVATE: kswitch((int)(intptr_t)arg); return 0;
		case VT_RELDISP:
			if ((intptr_t)arg == VT_ACKACQ) {
				acked++;
			} else if (want_vt != -1) {
				fg = want_vt;
				want_vt = -1;
				if (procm[fg])
					raise(SIGUSR2);
			} else {
				errno = EINVAL;
				return -1;
			}
			return 0;
		case KDSETMODE: gfx[t] = (intptr_t)arg == KD_GRAPHICS; return 0;
		case KDSKBMODE: kbd_off[t] = (intptr_t)arg == K_OFF; return 0;
		}
		return 0;
	}
	switch (rq) {
	case _IO('d', 0x1e):
		if (setmaster_fails) {
			setmaster_fails--;
			errno = EACCES;
			return -1;
		}
		o->master = true;
		return 0;
	case _IO('d', 0x1f):
		if (dropmaster_fails) {
			dropmaster_fails--;
			errno = EACCES;
			return -1;
		}
		o->master = false;
		return 0;
	}
	if (rq == EVIOCREVOKE || (int)rq == (int)EVIOCREVOKE) {
		if (revoke_fails) {
			revoke_fails--;
			errno = ENODEV;
			return -1;
		}
		o->revoked = true;
		return 0;
	}
	errno = ENOTTY;
	return -1;
}

static struct server srv;
static void pump(void) {
	for (int i = 0; i < 12; i++)
		poller_poll(&srv.poller);
}
struct cl {
	int fd;
	char in[70000];
	size_t len;
	int fds[64], nfd;
	bool eof;
};
static struct cl *newc(void) {
	int sv[2];
	CHECK(socketpair(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0, sv) == 0, "socketpair");
	struct cl *c = calloc(1, sizeof *c);
	c->fd = sv[0];
	CHECK(server_add_client(&srv, sv[1]) == 0, "the client is not accepted");
	return c;
}
static void rd(struct cl *c) {
	while (true) {
		char cb[CMSG_SPACE(sizeof(int) * 32)];
		struct iovec iov = {c->in + c->len, sizeof c->in - c->len};
		struct msghdr m = {.msg_iov = &iov, .msg_iovlen = 1, .msg_control = cb, .msg_controllen = sizeof cb};
		ssize_t n = recvmsg(c->fd, &m, MSG_DONTWAIT);
		if (n <= 0) {
			c->eof = n == 0 || errno != EAGAIN;
			return;
		}
		for (struct cmsghdr *h = CMSG_FIRSTHDR(&m); h; h = CMSG_NXTHDR(&m, h))
			for (size_t i = 0; i < (h->cmsg_len - CMSG_LEN(0)) / sizeof(int); i++)
				memcpy(&c->fds[c->nfd++], CMSG_DATA(h) + i * sizeof(int), sizeof(int));
		c->len += n;
	}
}
// the next message, or -1; *val is its 32-bit body if it has one
static int next(struct cl *c, int *val) {
	rd(c);
	uint16_t h[2];
	if (c->len < 4)
		return -1;
	memcpy(h, c->in, 4);
	if (c->len < 4u + h[1])
		return -1;
	if (val && h[1] == 4)
		memcpy(val, c->in + 4, 4);
	c->len -= 4 + h[1];
	memmove(c->in, c->in + 4 + h[1], c->len);
	return h[0];
}
static int takefd(struct cl *c) {
	if (c->nfd == 0)
		return -1;
	int fd = c->fds[0];
	memmove(c->fds, c->fds + 1, sizeof(int) * --c->nfd);
	return fd;
}
static void put(struct cl *c, const void *p, size_t n) { CHECK(send(c->fd, p, n, MSG_NOSIGNAL) == (ssize_t)n || c->eof, "send"); }
static void msg(struct cl *c, int op, const void *body, size_t n) {
	char b[1024];
	uint16_t h[2] = {op, n};
	memcpy(b, h, 4);
	if (n)
		memcpy(b + 4, body, n);
	put(c, b, n + 4);
	pump();
}
static void req(struct cl *c, int op) { msg(c, op, NULL, 0); }
static void reqi(struct cl *c, int op, int v) { msg(c, op, &v, 4); }
static void reqdev(struct cl *c, const char *path) {
	char b[1024];
	uint16_t l = strlen(path) + 1;
	memcpy(b, &l, 2);
	memcpy(b + 2, path, l);
	msg(c, CLIENT_OPEN_DEVICE, b, l + 2);
}
// opens a device that is expected to work; returns its id
static int opendev(struct cl *c, const char *path, int *fd) {
	int id = -1;
	reqdev(c, path);
	int op = next(c, &id);
	CHECK(op == SERVER_DEVICE_OPENED, "opening %s is answered by %#x", path, op);
	int f = takefd(c);
	CHECK(f != -1, "no descriptor for %s", path);
	CHECK(ofd_of(f) && strcmp(ofd_of(f)->path, path) == 0, "the descriptor for %s is one of %s", path, ofd_of(f) ? ofd_of(f)->path : "something else");
	if (fd)
		*fd = f;
	return id;
}
#define EXPECT(c, op) \
	do { \
		int got_ = next(c, NULL); \
		CHECK(got_ == (op), "message %#x where %#x is due", got_, op); \
	} while (0)
#define NOTHING(c) \
	do { \
		int got_ = next(c, NULL); \
		CHECK(got_ == -1, "unexpected message %#x", got_); \
	} while (0)
static struct cl *seated(void) { // a client that has opened the seat and is enabled
	struct cl *c = newc();
	req(c, CLIENT_OPEN_SEAT);
	EXPECT(c, SERVER_SEAT_OPENED);
	EXPECT(c, SERVER_ENABLE_SEAT);
	return c;
}
static void hangup(struct cl *c) {
	close(c->fd);
	pump();
}
static void start(bool vtbound) {
	setenv("SEATD_VTBOUND", vtbound ? "1" : "0", 1);
	CHECK(server_init(&srv) == 0, "server_init");
}
