// A scripted server for libseat: a child process that plays the daemon's side.
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/un.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include "libseat.h"
#include "protocol.h"
#define CHECK(c, ...) \
	do { \
		if (!(c)) { \
			printf("FAIL line %d: ", __LINE__); \
			printf(__VA_ARGS__); \
			printf("\n"); \
			exit(1); \
		} \
	} while (0)
static int enabled, disabled;
static void on_enable(struct libseat *s, void *d) { enabled++; }
static void on_disable(struct libseat *s, void *d) { disabled++; }
static const struct libseat_seat_listener listener = {on_enable, on_disable};

// server side
static int S = -1;
static void nap(int ms) { usleep(ms * 1000); }
static void out(const void *p, size_t n) {
	if (send(S, p, n, MSG_NOSIGNAL) != (ssize_t)n)
		exit(0);
}
static size_t mk(char *b, int op, const void *body, size_t n) {
	uint16_t h[2] = {op, n};
	memcpy(b, h, 4);
	memcpy(b + 4, body, n);
	return n + 4;
}
static void outmsg(int op, const void *body, size_t n) {
	char b[1024];
	out(b, mk(b, op, body, n));
}
static void outfd(const char *b, size_t n, int fd) {
	char cb[CMSG_SPACE(sizeof(int))] = {0};
	struct iovec iov = {(void *)b, n};
	struct msghdr m = {.msg_iov = &iov, .msg_iovlen = 1, .msg_control = cb, .msg_controllen = sizeof cb};
	struct cmsghdr *c = CMSG_FIRSTHDR(&m);
	c->cmsg_level = SOL_SOCKET, c->cmsg_type = SCM_RIGHTS, c->cmsg_len = CMSG_LEN(sizeof(int));
	memcpy(CMSG_DATA(c), &fd, sizeof fd);
	sendmsg(S, &m, MSG_NOSIGNAL);
}
// reads one request; returns its opcode, -1 at the end of the stream
static char reqbody[4096];
static int reqlen;
static int in(void) {
	uint16_t h[2];
	if (recv(S, h, 4, MSG_WAITALL) != 4)
		return -1;
	reqlen = h[1];
	if (h[1] && recv(S, reqbody, h[1], MSG_WAITALL) != h[1])
		return -1;
	return h[0];
}
static void opened(void) {
	char b[8] = {6, 0, 's', 'e', 'a', 't', '0', 0};
	outmsg(SERVER_SEAT_OPENED, b, 8);
}
static pid_t serve(void (*script)(void)) {
	int l = socket(AF_UNIX, SOCK_STREAM, 0);
	struct sockaddr_un a = {.sun_family = AF_UNIX, .sun_path = "sock"};
	unlink("sock"); // in the scratch directory
	CHECK(bind(l, (void *)&a, sizeof a) == 0 && listen(l, 4) == 0, "bind");
	pid_t p = fork();
	if (p == 0) {
		S = accept(l, NULL, NULL);
		close(l);
		script();
		while (in() != -1)
			;
		_exit(0);
	}
	close(l);
	return p;
}
static bool readable(int fd, int ms) {
	struct pollfd p = {fd, POLLIN, 0};
	return poll(&p, 1, ms) == 1;
}
