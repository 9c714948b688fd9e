seed("c14-sent-twice", "C14", [("common/connection.c", """		connection_buffer_close_fds(&connection->fds_out);
		connection->out.tail += len;""", """		connection->out.tail += len;
		if (connection_buffer_size(&connection->out) == 0) {
			connection_buffer_close_fds(&connection->fds_out);
		}""")], r'''
#define _GNU_SOURCE
#include "connection.h"
#include <fcntl.h>
#include <stdio.h>
#include <string.h>
#include <sys/socket.h>
#include <unistd.h>
ssize_t __real_sendmsg(int, const struct msghdr *, int);
ssize_t __wrap_sendmsg(int fd, const struct msghdr *m, int fl) { // the socket takes three bytes at a time
	struct msghdr k = *m;
	struct iovec v = m->msg_iov[0];
	if (v.iov_len > 3)
		v.iov_len = 3;
	k.msg_iov = &v;
	k.msg_iovlen = 1;
	return __real_sendmsg(fd, &k, fl);
}
int main(void) {
	int sv[2];
	socketpair(AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK, 0, sv);
	struct connection a = {.fd = sv[0]}, b = {.fd = sv[1]};
	int fd = open("/dev/null", O_RDONLY);
	connection_put_fd(&a, fd);
	connection_put(&a, "12345678", 8);
	if (connection_flush(&a) == -1)
		return 2;
	char buf[8];
	for (int i = 0; i < 10; i++)
		connection_read(&b);
	int got = 0, f;
	if (connection_get(&b, buf, 8) != 8 || memcmp(buf, "12345678", 8) != 0)
		return 2;
	while (connection_get_fd(&b, &f) == 0)
		got++;
	if (got != 1)
		printf("FAIL %d descriptors arrive where one was queued\n", got);
	return got != 1;
}
''', "a socket write that takes only part of a message that carries a descriptor", "the descriptor is transmitted more than once", kind="conn")

seed("c15-narrowed-mask", "C15", [("seatd/poller.c", """	event_source->mask = mask;
	poller->dirty = true;
	return 0;""", """	// Events that are no longer wanted do no harm until the next change
	if ((mask & ~event_source->mask) != 0) {
		poller->dirty = true;
	}
	event_source->mask = mask;
	return 0;""")], r'''
#define _GNU_SOURCE
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
#include "poller.h"
#include <stdio.h>
#include <string.h>
#include <sys/socket.h>
static int calls;
static int cb(int fd, uint32_t mask, void *data) {
	calls++;
	return 0;
}
static int other(int fd, uint32_t mask, void *data) { return 0; }
int main(void) {
	struct poller p = {0};
	int a[2], b[2];
	poller_init(&p);
	socketpair(AF_UNIX, SOCK_STREAM, 0, a);
	socketpair(AF_UNIX, SOCK_STREAM, 0, b);
	struct event_source_fd *s = poller_add_fd(&p, a[0], EVENT_READABLE | EVENT_WRITABLE, cb, NULL);
	poller_add_fd(&p, b[0], EVENT_WRITABLE, other, NULL);
	poller_poll(&p);
	if (calls != 1)
		return 2;
	event_source_fd_update(s, EVENT_READABLE);
	poller_poll(&p);
	if (calls != 1)
		printf("FAIL called although nothing in its mask is ready\n");
	return calls != 1;
}
''', "an event source's mask is reduced while the event dropped from it holds", "the callback goes on being called for an event that is no longer in its mask", kind="conn")

seed("c15-one-per-signal", "C15", [("seatd/poller.c", """		if (bps->signal == sig) {
			bps->raised = true;
		}""", """		if (bps->signal == sig && !bps->raised) {
			bps->raised = true;
			break;
		}""")], r'''
#define _GNU_SOURCE
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
#include "poller.h"
#include <signal.h>
#include <stdio.h>
static int calls[2];
static int cb(int sig, void *data) {
	calls[*(int *)data]++;
	return 0;
}
int main(void) {
	struct poller p = {0};
	int n[2] = {0, 1};
	poller_init(&p);
	poller_add_signal(&p, SIGUSR1, cb, &n[0]);
	poller_add_signal(&p, SIGUSR1, cb, &n[1]);
	raise(SIGUSR1);
	poller_poll(&p);
	if (calls[0] == 0 || calls[1] == 0)
		printf("FAIL a source registered for the signal is not called (%d, %d)\n", calls[0], calls[1]);
	return calls[0] == 0 || calls[1] == 0;
}
''', "two sources registered for one signal", "only one of them is called", kind="conn")

seed("c16-body-to-come", "C16", [("libseat/backend/seatd.c", """			} else if (connection_pending(&backend->connection) >= header.size) {
				*opcode = header.opcode;""", """			} else if (connection_pending(&backend->connection) > 0 || header.size == 0) {
				*opcode = header.opcode;""")], r'''
#include "libs.h"
static void script(void) {
	in();
	opened();
	in(); // open device
	char b[16];
	int v = ENOENT;
	size_t n = mk(b, SERVER_ERROR, &v, 4);
	out(b, n - 2);
	nap(100);
	out(b + n - 2, 2);
}
int main(void) {
	serve(script);
	struct libseat *s = libseat_open_seat(&listener, NULL);
	CHECK(s, "open_seat: %m");
	int fd;
	int r = libseat_open_device(s, "/dev/dri/card0", &fd);
	CHECK(r == -1 && errno == ENOENT, "the refusal is reported as %d %m", r);
	CHECK(libseat_dispatch(s, 0) >= 0, "the connection is given up: %m");
	return 0;
}
''', "a reply arrives in two pieces, cut inside its body", "the reply is rejected and the connection given up", kind="lib")

seed("c16-pong-on-the-way", "C16", [("libseat/backend/seatd.c", """			backend->awaiting_pong = false;
			break;""", """			// A request has its own answer to wait for
			if (opcode == NULL) {
				backend->awaiting_pong = false;
			}
			break;""")], r'''
#include "libs.h"
static void script(void) {
	in();
	opened();
	in(); // switch session
	outmsg(SERVER_DISABLE_SEAT, NULL, 0);
	outmsg(SERVER_SESSION_SWITCHED, NULL, 0);
	while (in() == CLIENT_PING) // answered late
		;
	outmsg(SERVER_PONG, NULL, 0);
	outmsg(SERVER_SESSION_SWITCHED, NULL, 0);
	while (in() == CLIENT_PING)
		outmsg(SERVER_PONG, NULL, 0);
	outmsg(SERVER_ENABLE_SEAT, NULL, 0);
	outmsg(SERVER_SESSION_SWITCHED, NULL, 0);
	while (in() == CLIENT_PING)
		outmsg(SERVER_PONG, NULL, 0);
}
int main(void) {
	serve(script);
	struct libseat *s = libseat_open_seat(&listener, NULL);
	CHECK(s, "open_seat: %m");
	CHECK(libseat_switch_session(s, 2) == 0, "switch: %m");
	CHECK(libseat_switch_session(s, 3) == 0, "switch: %m");
	libseat_dispatch(s, 0);
	CHECK(disabled == 1, "the event is not delivered");
	CHECK(libseat_switch_session(s, 4) == 0, "switch: %m");
	CHECK(readable(libseat_get_fd(s), 2000), "the application is not woken up for an event");
	libseat_dispatch(s, 0);
	CHECK(enabled == 1, "the event is not delivered");
	return 0;
}
''', "an event comes during a request, the answer to the wake-up ping during the next one, and another event during one after that", "the application is not woken up for the later event", kind="lib")

seed("c17-foreign-size", "C17", [("libseat/backend/seatd.c", "	if (rmsg.seat_name_len > MAX_SEAT_LEN) {", "	if (rmsg.seat_name_len > 2 * MAX_SEAT_LEN) {")], r'''
#include "libs.h"
static void script(void) {
	in();
	char b[256] = {100, 0};
	memset(b + 2, 'x', 99);
	outmsg(SERVER_SEAT_OPENED, b, 102);
}
int main(void) {
	serve(script);
	errno = 0;
	struct libseat *s = libseat_open_seat(&listener, NULL);
	CHECK(s == NULL && errno != 0, "a seat name that is too long is accepted");
	return 0;
}
''', "a server that sends a seat name longer than the buffer", "memory is corrupted", kind="lib")

seed("c17-half-closed", "C17", [("libseat/backend/seatd.c", """		len = connection_read(&backend->connection);
		if (len == 0) {
			set_error(backend);
			errno = EIO;
			return -1;
		} else if (len == -1""", """		len = connection_read(&backend->connection);
		if (len == 0 && connection_pending(&backend->connection) == 0) {
			set_error(backend);
			errno = EIO;
			return -1;
		} else if (len == -1""")], r'''
#include "libs.h"
static void script(void) {
	in();
	opened();
	in();
	char b[16];
	int v = 7;
	out(b, mk(b, SERVER_ERROR, &v, 4) - 2);
	shutdown(S, SHUT_WR); // the rest never comes, but the socket stays open
	nap(4000);
}
int main(void) {
	pid_t p = serve(script);
	struct libseat *s = libseat_open_seat(&listener, NULL);
	CHECK(s, "open_seat: %m");
	struct timespec a, b;
	alarm(3);
	int r = libseat_switch_session(s, 2);
	kill(p, SIGKILL);
	CHECK(r == -1, "no failure");
	return 0;
}
''', "the server shuts down its sending side in the middle of a reply", "the call spins for ever", kind="lib")

seed("c18-longest-path", "C18", [("libseat/backend/seatd.c", """	size_t pathlen = strlen(path) + 1;
	if (pathlen > MAX_PATH_LEN) {""", """	size_t pathlen = strlen(path) + 1;
	if (pathlen >= MAX_PATH_LEN) {""")], r'''
#include "libs.h"
static void script(void) {
	in();
	opened();
	in();
	int v = ENOENT;
	outmsg(SERVER_ERROR, &v, 4);
}
int main(void) {
	serve(script);
	struct libseat *s = libseat_open_seat(&listener, NULL);
	CHECK(s, "open_seat: %m");
	char p[256];
	memset(p, 'x', 255);
	p[0] = '/';
	p[255] = 0;
	int fd, r = libseat_open_device(s, p, &fd);
	CHECK(r == -1 && errno == ENOENT, "a path of 255 bytes is not sent to the daemon: %m");
	return 0;
}
''', "a device path of exactly 255 bytes", "libseat refuses a path it should forward", kind="lib")

seed("c18-device-zero", "C18", [("libseat/backend/seatd.c", """	struct proto_client_switch_session msg = {
		.session = session,
	};""", """	struct proto_client_switch_session msg = {
		.session = session & 0xff,
	};""")], r'''
#include "libs.h"
static void script(void) {
	in();
	opened();
	in();
	int v;
	memcpy(&v, reqbody, 4);
	if (v == 300)
		outmsg(SERVER_SESSION_SWITCHED, NULL, 0);
	else
		v = EINVAL, outmsg(SERVER_ERROR, &v, 4);
}
int main(void) {
	serve(script);
	struct libseat *s = libseat_open_seat(&listener, NULL);
	CHECK(s, "open_seat: %m");
	CHECK(libseat_switch_session(s, 300) == 0, "session 300 does not reach the daemon: %m");
	return 0;
}
''', "a session number above 255", "another session than the one named by the application is switched to", kind="lib")

seed("c19-name-prefix", "C19", [("libseat/libseat.c", "		while (iter->backend != NULL && strcmp(backend_type, iter->name) != 0) {", "		while (iter->backend != NULL &&\n		       strncmp(backend_type, iter->name, strlen(iter->name)) != 0) {")], r'''
#include "libs.h"
int main(void) {
	setenv("LIBSEAT_BACKEND", "noop2", 1);
	errno = 0;
	struct libseat *s = libseat_open_seat(&listener, NULL);
	CHECK(s == NULL && errno == EINVAL, "an unknown backend name is accepted");
	return 0;
}
''', "LIBSEAT_BACKEND set to a name that begins with a backend's name", "an unknown backend name selects a backend", kind="lib")

seed("c19-handler-errno", "C19", [("common/log.c", """	va_start(args, fmt);
	current_log_handler(level, fmt, args);
	va_end(args);

	errno = stored_errno;""", """	va_start(args, fmt);
	current_log_handler(level, fmt, args);
	va_end(args);

	if (current_log_handler == log_stderr) {
		errno = stored_errno;
	}""")], r'''
#include "libs.h"
#include <stdarg.h>
static void h(enum libseat_log_level l, const char *f, va_list a) { errno = ENOTTY; }
int main(void) {
	setenv("LIBSEAT_BACKEND", "noop", 1);
	libseat_set_log_handler(h);
	libseat_set_log_level(LIBSEAT_LOG_LEVEL_DEBUG);
	struct libseat *s = libseat_open_seat(&listener, NULL);
	CHECK(s, "open_seat");
	int fd, r = libseat_open_device(s, "./does-not-exist", &fd);
	CHECK(r == -1 && errno == ENOENT, "logging changes errno to %m");
	return 0;
}
''', "an application's log handler that changes errno", "errno of a failed call is that of the log handler", kind="lib")

seed("c27-through-a-link", "C27", [("libseat/backend/noop.c", "	int tmpfd = open(path, O_RDWR | O_NOCTTY | O_NOFOLLOW | O_CLOEXEC | O_NONBLOCK);", "	int tmpfd = open(path, O_RDWR | O_NOCTTY | O_CLOEXEC | O_NONBLOCK);")], r'''
#include "libs.h"
int main(void) {
	setenv("LIBSEAT_BACKEND", "noop", 1);
	struct libseat *s = libseat_open_seat(&listener, NULL);
	CHECK(s, "open_seat");
	close(open("file", O_CREAT | O_RDWR, 0600));
	CHECK(symlink("file", "link") == 0, "symlink");
	int fd;
	CHECK(libseat_open_device(s, "link", &fd) == -1, "a final symbolic link is followed");
	CHECK(libseat_open_device(s, "file", &fd) >= 0, "open");
	return 0;
}
''', "the device path is a symbolic link", "the link is followed", kind="lib")
