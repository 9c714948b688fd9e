P = "seatd/poller.c"
E = "seatd/seat.c"
K = "seatd/client.c"
S = "seatd/seatd.c"
B = "libseat/backend/seatd.c"
W = "seatd/server.c"
N = "libseat/backend/noop.c"
A = "seatd-launch/seatd-launch.c"
C = "common/connection.c"
rd = lambda f: open(V + "/tools/seedlib/" + f).read()

seed("c13-two-digits", "C13", [("common/terminal.c", "#define TTYPATHLEN 16\n", "#define TTYPATHLEN sizeof(\"/dev/tty0\")\n")], r'''
#include "mini.h"
int main(void) {
	fg = 12;
	start(true);
	struct cl *a = seated();
	CHECK(gfx[12] && kbd_off[12], "VT 12 is not prepared for its session");
	CHECK(!gfx[1], "VT 1 is in graphics mode");
	hangup(a);
	CHECK(!gfx[12] && !kbd_off[12], "VT 12 is not given back");
	return 0;
}
''', "a session on a VT with a number above 9", "another VT is prepared in its place")

seed("c06-short-id", "C06", [(K, "		.device_id = device->device_id,\n", "		.device_id = (int8_t)device->device_id,\n")], r'''
#include "mini.h"
int main(void) {
	start(false);
	struct cl *a = seated();
	int old = -1, fd;
	for (int i = 0; i < 200; i++) {
		char p[32];
		snprintf(p, sizeof p, "/dev/input/event%d", i % 2);
		int id = opendev(a, p, &fd);
		close(fd);
		if (old != -1) {
			reqi(a, CLIENT_CLOSE_DEVICE, old);
			EXPECT(a, SERVER_DEVICE_CLOSED);
		}
		old = id;
	}
	return 0;
}
''', "a session that always has some device open opens more than a hundred of them in turn", "the reply names a device that is not there")

seed("c15-both-gone", "C15", [(P, "		if (b->signal == bps->signal && !b->killed) {\n", "		if (b->signal == bps->signal && b != bps) {\n")], r'''
#define _GNU_SOURCE
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
#include "poller.h"
#include <signal.h>
#include <stdio.h>
static int cb(int sig, void *data) { return 0; }
int main(void) {
	struct poller p = {0};
	poller_init(&p);
	struct event_source_signal *a = poller_add_signal(&p, SIGUSR1, cb, NULL), *b = poller_add_signal(&p, SIGUSR1, cb, NULL);
	event_source_signal_destroy(a);
	event_source_signal_destroy(b);
	struct sigaction sa;
	sigaction(SIGUSR1, NULL, &sa);
	if (sa.sa_handler != SIG_DFL) {
		printf("FAIL the signal is still caught\n");
		return 1;
	}
	return 0;
}
''', "two sources of one signal, both destroyed before the next round", "the signal keeps being caught and does nothing", kind="conn")

seed("c16-does-not-wait", "C16", [(B, "	if (predispatch > 0 || timeout == 0) {\n", "	if (predispatch >= 0 && timeout >= 0) {\n")], r'''
#include "libs.h"
static void script(void) {
	in(), opened();
	nap(300);
	outmsg(SERVER_ENABLE_SEAT, NULL, 0);
}
int main(void) {
	pid_t p = serve(script);
	struct libseat *s = libseat_open_seat(&listener, NULL);
	CHECK(s, "open_seat: %m");
	CHECK(libseat_dispatch(s, 5000) > 0 && enabled == 1, "the dispatch does not wait for the event");
	return 0;
}
''', "an event that arrives while a dispatch with a timeout waits for it", "the dispatch returns at once", kind="lib")

seed("c17-not-an-event", "C17", [(B, """				errno = EBADMSG;
				packets = -1;
""", """				errno = EBADMSG;
				packets--;
""")], r'''
#include "libs.h"
static void script(void) {
	in(), opened();
	in();
	outmsg(SERVER_PONG, NULL, 0);
	outmsg(SERVER_DEVICE_CLOSED, NULL, 0);
}
int main(void) {
	pid_t p = serve(script);
	struct libseat *s = libseat_open_seat(&listener, NULL);
	CHECK(s, "open_seat: %m");
	// a request, so that what follows is there in one piece
	int r = 0;
	kill(p, 0);
	struct timespec t0, t1;
	errno = 0;
	extern int main2(struct libseat *);
	r = main2(s);
	CHECK(r == -1 && errno == EBADMSG, "the dispatch returns %d (%m) on a message nobody waits for", r);
	return 0;
}
int main2(struct libseat *s) {
	int fd = libseat_get_fd(s);
	uint16_t h[2] = {CLIENT_PING, 0};
	send(fd, h, 4, 0);
	nap(100);
	return libseat_dispatch(s, 1000);
}
''', "a message that is neither an event nor the answer to a request", "the dispatch that reads it succeeds", kind="lib")

seed("c19-any-case", "C19", [("libseat/libseat.c", "strcmp(backend_type, iter->name) != 0) {\n", "strcasecmp(backend_type, iter->name) != 0) {\n"), ("libseat/libseat.c", "#include <string.h>\n", "#include <string.h>\n#include <strings.h>\n")], r'''
#include "libs.h"
int main(void) {
	setenv("LIBSEAT_BACKEND", "NoOp", 1);
	errno = 0;
	struct libseat *s = libseat_open_seat(&listener, NULL);
	CHECK(s == NULL && errno == EINVAL, "a backend named NoOp is found");
	return 0;
}
''', "LIBSEAT_BACKEND differs from a backend's name by case alone", "the backend is used", kind="lib")

seed("c22-stop-twice", "C22", [(W, "	server->running = false;\n	return 0;\n}\n\nstatic int set_nonblock", "	server->running = !server->running;\n	return 0;\n}\n\nstatic int set_nonblock")], rd("seatd.sh") + r'''
./seatd -l silent &
p=$!
i=0
while [ ! -S "$SEATD_SOCK" ] && [ ! -S sock ] && [ $i -lt 20 ]; do sleep 0.05; i=$((i + 1)); done
sleep 0.3
kill -STOP $p
kill -TERM $p
kill -INT $p
kill -CONT $p
i=0
while kill -0 $p 2>/dev/null && [ $i -lt 60 ]; do sleep 0.05; i=$((i + 1)); done
if kill -0 $p 2>/dev/null; then
	kill -KILL $p
	fail "goes on"
fi
wait $p
exit 0
''', "SIGTERM and SIGINT at the same time", "the daemon goes on", kind="sh")

seed("c03-second-descriptor", "C03", [(K, "	int dupfd = dup(device->fd);\n", """	// A file description of its own for everyone, so that they do not share
	// a position and flags
	int dupfd = device->ref_cnt == 1 ? dup(device->fd) : open(device->path, O_RDWR | O_CLOEXEC | O_NONBLOCK | O_NOCTTY);
"""), (K, "#include <errno.h>\n", "#include <errno.h>\n#include <fcntl.h>\n")], r'''
#include "mini.h"
int main(void) {
	start(false);
	struct cl *a = seated(), *b = newc();
	int f1 = -1, f2 = -1;
	opendev(a, "/dev/input/event0", &f1);
	opendev(a, "/dev/input/event0", &f2);
	req(b, CLIENT_OPEN_SEAT);
	EXPECT(b, SERVER_SEAT_OPENED);
	reqi(a, CLIENT_SWITCH_SESSION, 2);
	CHECK(ofd_of(f1)->revoked, "the first descriptor is not revoked");
	CHECK(ofd_of(f2)->revoked, "the second descriptor is not revoked");
	return 0;
}
''', "a device opened twice by one session, then a switch", "the second descriptor keeps its access")

seed("c27-again-from-within", "C27", [(N, """		backend->initial_setup = false;
		backend->seat_listener->enable_seat(&backend->base, backend->seat_listener_data);
""", """		backend->seat_listener->enable_seat(&backend->base, backend->seat_listener_data);
		backend->initial_setup = false;
""")], r'''
#include "libs.h"
static int n;
static void en(struct libseat *s, void *d) {
	if (++n < 5)
		libseat_dispatch(s, 0);
}
static void dis(struct libseat *s, void *d) {}
static const struct libseat_seat_listener l2 = {en, dis};
int main(void) {
	setenv("LIBSEAT_BACKEND", "noop", 1);
	struct libseat *s = libseat_open_seat(&l2, NULL);
	CHECK(s, "open_seat: %m");
	libseat_dispatch(s, 0);
	CHECK(n == 1, "enabled %d times", n);
	return 0;
}
''', "a listener that dispatches again", "the seat is enabled more than once", kind="lib")

seed("c25-forgotten-descriptor", "C25", [(E, """		log_errorf("Allocation failed: %s", strerror(errno));
		close(fd);
		free(device);
		return NULL;
""", """		log_errorf("Allocation failed: %s", strerror(errno));
		free(device);
		return NULL;
""")], r'''
#include "mini.h"
static int fails;
char *strdup(const char *s) {
	if (fails > 0) {
		fails--;
		errno = ENOMEM;
		return NULL;
	}
	char *p = malloc(strlen(s) + 1);
	return p ? strcpy(p, s) : NULL;
}
static int count(void) {
	int n = 0;
	for (int i = 0; i < 1024; i++)
		if (fcntl(i, F_GETFD) != -1)
			n++;
	return n;
}
int main(void) {
	start(false);
	struct cl *a = seated();
	int before = count();
	fails = 1;
	reqdev(a, "/dev/input/event0");
	EXPECT(a, SERVER_ERROR);
	CHECK(count() == before, "%d descriptors are left over", count() - before);
	return 0;
}
''', "an allocation fails while a device is opened", "the device's descriptor is leaked")

seed("c04-told-first", "C04", [(E, """	for (struct linked_list *elem = client->devices.next; elem != &client->devices;
	     elem = elem->next) {
		struct seat_device *device = (struct seat_device *)elem;
		if (seat_activate_device(device) == -1) {
			log_errorf("Could not activate %s: %s", device->path, strerror(errno));
		}
	}

	client->state = CLIENT_ACTIVE;
	seat->active_client = client;
	if (client_send_enable_seat(client) == -1) {
		log_error("Could not send enable signal to client");
		goto error;
	}
""", """	client->state = CLIENT_ACTIVE;
	seat->active_client = client;
	if (client_send_enable_seat(client) == -1) {
		log_error("Could not send enable signal to client");
		goto error;
	}

	for (struct linked_list *elem = client->devices.next; elem != &client->devices;
	     elem = elem->next) {
		struct seat_device *device = (struct seat_device *)elem;
		if (seat_activate_device(device) == -1) {
			log_errorf("Could not activate %s: %s", device->path, strerror(errno));
		}
	}
""")], r'''
#include "mini.h"
#include <sys/syscall.h>
static int watched = -1, early;
ssize_t sendmsg(int fd, const struct msghdr *m, int fl) {
	for (size_t v = 0; v < m->msg_iovlen; v++)
		for (size_t i = 0; i + 4 <= m->msg_iov[v].iov_len; i += 4) {
			uint16_t h[2];
			memcpy(h, (char *)m->msg_iov[v].iov_base + i, 4);
			if (h[0] == SERVER_ENABLE_SEAT && watched != -1 && !ofd_of(watched)->master)
				early = 1;
		}
	return syscall(SYS_sendmsg, fd, m, fl);
}
int main(void) {
	start(false);
	struct cl *a = seated(), *b = newc();
	int fd = -1;
	opendev(a, "/dev/dri/card0", &fd);
	req(b, CLIENT_OPEN_SEAT);
	EXPECT(b, SERVER_SEAT_OPENED);
	reqi(a, CLIENT_SWITCH_SESSION, 2);
	EXPECT(a, SERVER_DISABLE_SEAT);
	EXPECT(a, SERVER_SESSION_SWITCHED);
	req(a, CLIENT_DISABLE_SEAT);
	EXPECT(a, SERVER_SEAT_DISABLED);
	EXPECT(b, SERVER_ENABLE_SEAT);
	CHECK(!ofd_of(fd)->master, "still master");
	watched = fd;
	hangup(b);
	EXPECT(a, SERVER_ENABLE_SEAT);
	CHECK(ofd_of(fd)->master, "not master");
	CHECK(!early, "told that it is enabled before its device is back");
	return 0;
}
''', "a session that returns and acts on the event at once", "the event is on its way before the session's devices are back")

seed("c14-left-outgoing", "C14", [(C, """	connection_buffer_close_fds(&connection->fds_in);
	connection_buffer_close_fds(&connection->fds_out);
}
""", """	connection_buffer_close_fds(&connection->fds_in);
	if (!connection->want_flush) {
		connection_buffer_close_fds(&connection->fds_out);
	}
}
""")], r'''
#define _GNU_SOURCE
#include "connection.h"
#include <fcntl.h>
#include <stdio.h>
#include <sys/socket.h>
int main(void) {
	int sv[2];
	socketpair(AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK, 0, sv);
	struct connection a = {.fd = sv[0]};
	int fd = open("/dev/null", O_RDONLY);
	connection_put_fd(&a, fd);
	connection_put(&a, "12345678", 8);
	connection_close_fds(&a);
	if (fcntl(fd, F_GETFD) != -1) {
		printf("FAIL a queued descriptor is not closed\n");
		return 1;
	}
	return 0;
}
''', "a connection is torn down with a descriptor still to be sent", "the descriptor is leaked", kind="conn")

seed("c09-kept-for-nobody", "C09", [(C, """		size_t max = sizeof(buffer->data) - connection_buffer_size(buffer);
		if (size > max || overflow) {
			overflow = true;
			size /= sizeof(int);
""", """		size_t max = sizeof(buffer->data) - connection_buffer_size(buffer);
		if (size > max || overflow) {
			overflow = true;
			size = max / sizeof(int);
""")], r'''
#include "mini.h"
static int count(void) {
	int n = 0;
	for (int i = 0; i < 2048; i++)
		if (fcntl(i, F_GETFD) != -1)
			n++;
	return n;
}
int main(void) {
	start(false);
	int before = count();
	struct cl *a = newc();
	for (int k = 0; k < 6; k++) {
		int fds[50];
		for (int i = 0; i < 50; i++)
			fds[i] = 0;
		char cb[CMSG_SPACE(sizeof fds)] = {0}, h[4] = {0};
		uint16_t hd[2] = {CLIENT_PING, 0};
		memcpy(h, hd, 4);
		struct iovec iov = {h, 4};
		struct msghdr m = {.msg_iov = &iov, .msg_iovlen = 1, .msg_control = cb, .msg_controllen = sizeof cb};
		struct cmsghdr *c = CMSG_FIRSTHDR(&m);
		c->cmsg_level = SOL_SOCKET, c->cmsg_type = SCM_RIGHTS, c->cmsg_len = CMSG_LEN(sizeof fds);
		memcpy(CMSG_DATA(c), fds, sizeof fds);
		sendmsg(a->fd, &m, MSG_NOSIGNAL);
		pump();
	}
	hangup(a);
	CHECK(count() <= before, "%d descriptors are left over", count() - before);
	return 0;
}
''', "a client that sends more descriptors than the daemon keeps", "those that do not fit are leaked")

seed("c25-counted-twice", "C25", [(K, """		log_errorf("Could not dup fd: %s", strerror(errno));
		seat_close_device(client, device);
""", """		log_errorf("Could not dup fd: %s", strerror(errno));
		if (device->ref_cnt == 1) {
			seat_close_device(client, device);
		}
""")], r'''
#include "mini.h"
int main(void) {
	start(false);
	struct cl *a = seated();
	int fd = -1, id = opendev(a, "/dev/input/event0", &fd);
	dup_fails = 1;
	reqdev(a, "/dev/input/event0");
	EXPECT(a, SERVER_ERROR);
	reqi(a, CLIENT_CLOSE_DEVICE, id);
	EXPECT(a, SERVER_DEVICE_CLOSED);
	CHECK(ofd_of(fd)->revoked, "closed by its only user, the device is still there");
	return 0;
}
''', "the descriptor of a device that is already open cannot be duplicated", "the device stays open for ever")

seed("c06-many-references", "C06", [("include/seat.h", "	int ref_cnt;\n", "	unsigned char ref_cnt;\n")], r'''
#include "mini.h"
int main(void) {
	start(false);
	struct cl *a = seated();
	int first = -1, fd;
	for (int i = 0; i < 260; i++) {
		int id = opendev(a, "/dev/input/event0", &fd);
		close(fd);
		if (first == -1) {
			first = id;
			opendev(a, "/dev/input/event1", &fd);
		}
		CHECK(id == first, "opening number %d returns id %d, not %d", i, id, first);
		if (i == 256) {
			reqi(a, CLIENT_CLOSE_DEVICE, id);
			EXPECT(a, SERVER_DEVICE_CLOSED);
		}
	}
	return 0;
}
''', "one device opened more than 255 times without being closed", "it is closed while it is still in use")
