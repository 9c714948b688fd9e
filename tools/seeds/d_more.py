E = "seatd/seat.c"
K = "seatd/client.c"
seed("c03-tried-once", "C03", [(E, """		return 0;
	}
	switch (seat_device->type) {
	case SEAT_DEVICE_TYPE_DRM:
		// EINVAL""", """		return 0;
	}
	seat_device->active = false;
	switch (seat_device->type) {
	case SEAT_DEVICE_TYPE_DRM:
		// EINVAL"""), (E, """		abort();
	}
	seat_device->active = false;
	return 0;
""", """		abort();
	}
	return 0;
""")], r'''
#include "mini.h"
int main(void) {
	start(false);
	struct cl *a = seated(), *b = newc();
	req(b, CLIENT_OPEN_SEAT);
	EXPECT(b, SERVER_SEAT_OPENED);
	int fd;
	opendev(a, "/dev/input/event0", &fd);
	revoke_fails = 1;
	reqi(a, CLIENT_SWITCH_SESSION, 2);
	hangup(a);
	EXPECT(b, SERVER_ENABLE_SEAT);
	CHECK(ofd_of(fd)->revoked, "the client that is gone still reads the input of its successor");
	return 0;
}
''', "revoking a device fails once when its client is disabled; the client then goes away", "the descriptor it sent elsewhere keeps working under the next client")

seed("c02-known-device", "C02", [(E, """	if (client->state != CLIENT_ACTIVE) {
		log_error("Could open device: client is not active");
		errno = EPERM;
		return NULL;
	}
	assert(seat->active_client == client);

	char sanitized_path[PATH_MAX];
	if (realpath(path, sanitized_path) == NULL) {
		log_errorf("Could not canonicalize path %s: %s", path, strerror(errno));
		return NULL;
	}
""", """	char sanitized_path[PATH_MAX];
	if (realpath(path, sanitized_path) == NULL) {
		log_errorf("Could not canonicalize path %s: %s", path, strerror(errno));
		return NULL;
	}

	if (client->state != CLIENT_ACTIVE) {
		// A device it has got already gives the client nothing new
		for (struct linked_list *elem = client->devices.next; elem != &client->devices;
		     elem = elem->next) {
			struct seat_device *known = (struct seat_device *)elem;
			if (strcmp(known->path, sanitized_path) == 0) {
				known->ref_cnt++;
				return known;
			}
		}
		log_error("Could open device: client is not active");
		errno = EPERM;
		return NULL;
	}
	assert(seat->active_client == client);
""")], r'''
#include "mini.h"
int main(void) {
	start(false);
	struct cl *a = seated(), *b = newc();
	req(b, CLIENT_OPEN_SEAT);
	EXPECT(b, SERVER_SEAT_OPENED);
	opendev(a, "/dev/dri/card0", NULL);
	reqi(a, CLIENT_SWITCH_SESSION, 2);
	EXPECT(a, SERVER_DISABLE_SEAT);
	EXPECT(a, SERVER_SESSION_SWITCHED);
	reqdev(a, "/dev/dri/card1");
	EXPECT(a, SERVER_ERROR);
	reqdev(a, "/dev/dri/card0");
	EXPECT(a, SERVER_ERROR);
	CHECK(takefd(a) == -1, "a client that is not active gets a device");
	return 0;
}
''', "a disabled client asks again for a device that it has open", "it is given the descriptor of a device while another client has the seat")

seed("c07-behind-a-switch", "C07", [(K, """			if (client_handle_opcode(client, header.opcode, header.size) == -1) {
				goto fail;
			}
		}
""", """			int res = client_handle_opcode(client, header.opcode, header.size);
			if (res == -1) {
				goto fail;
			} else if (client->state == CLIENT_PENDING_DISABLE) {
				// Nothing more until it has got the event
				break;
			}
		}
""")], r'''
#include "mini.h"
int main(void) {
	start(false);
	struct cl *a = seated(), *b = newc();
	req(b, CLIENT_OPEN_SEAT);
	EXPECT(b, SERVER_SEAT_OPENED);
	struct {
		uint16_t op, len;
		int32_t session;
		uint16_t op2, len2;
	} m = {CLIENT_SWITCH_SESSION, 4, 2, CLIENT_PING, 0};
	put(a, &m, sizeof m);
	pump();
	EXPECT(a, SERVER_DISABLE_SEAT);
	EXPECT(a, SERVER_SESSION_SWITCHED);
	EXPECT(a, SERVER_PONG);
	return 0;
}
''', "a request sent in one go behind a switch", "it is not answered until the client sends something else")

seed("c08-longer-body", "C08", [(K, """		if (sizeof msg != size ||
		    connection_get(&client->connection, &msg, sizeof msg) == -1) {
			log_error("Protocol error: invalid switch_session message");""", """		if (sizeof msg > size ||
		    connection_get(&client->connection, &msg, sizeof msg) == -1) {
			log_error("Protocol error: invalid switch_session message");""")], r'''
#include "mini.h"
int main(void) {
	start(false);
	struct cl *a = seated();
	struct {
		uint16_t op, len;
		int32_t session;
		uint16_t op2, len2;
	} m = {CLIENT_SWITCH_SESSION, 8, 1, CLIENT_PING, 0};
	put(a, &m, sizeof m);
	pump();
	int op;
	while ((op = next(a, NULL)) != -1)
		CHECK(op != SERVER_PONG, "the body of a message is taken for a message");
	CHECK(a->eof, "the connection survives a message of the wrong size");
	return 0;
}
''', "a switch request whose body is longer than it should be and looks like a message", "part of its body is handled as a request")

seed("c09-left-open", "C09", [(E, """		seat_deactivate_device(seat_device);
		close(seat_device->fd);
""", """		if (seat_deactivate_device(seat_device) == -1) {
			log_errorf("Could not deactivate %s", seat_device->path);
		} else {
			close(seat_device->fd);
		}
""")], r'''
#include "mini.h"
static int count(void) {
	int n = 0;
	for (int i = 0; i < 200; i++)
		n += fcntl(i, F_GETFD) != -1;
	return n;
}
int main(void) {
	start(false);
	struct cl *a = seated();
	int before = count(), fd;
	int id = opendev(a, "/dev/input/event0", &fd);
	close(fd);
	revoke_fails = 1;
	reqi(a, CLIENT_CLOSE_DEVICE, id);
	EXPECT(a, SERVER_DEVICE_CLOSED);
	CHECK(count() == before, "%d descriptors before, %d after", before, count());
	return 0;
}
''', "a device that is gone (revoking fails) is closed", "the daemon keeps its descriptor for ever")

seed("c10-small-number", "C10", [("include/client.h", "	int session;\n", "	signed char session;\n")], r'''
#include "mini.h"
int main(void) {
	start(false);
	for (int i = 0; i < 300; i++) {
		struct cl *c = seated();
		hangup(c);
	}
	struct cl *a = seated(), *b = newc();
	req(b, CLIENT_OPEN_SEAT);
	EXPECT(b, SERVER_SEAT_OPENED);
	reqi(a, CLIENT_SWITCH_SESSION, 302);
	EXPECT(a, SERVER_DISABLE_SEAT);
	EXPECT(a, SERVER_SESSION_SWITCHED);
	return 0;
}
''', "more than 127 sessions in the daemon's life", "later sessions cannot be switched to")

seed("c11-queued-and-gone", "C11", [(E, """	seat->active_client = NULL;
	seat_activate(seat);

	// If we're VT-bound""", """	seat->active_client = NULL;
	if (seat->vt_bound || seat->next_client != NULL) {
		seat_activate(seat);
	}

	// If we're VT-bound""")], r'''
#include "mini.h"
int main(void) {
	start(false);
	struct cl *a = seated(), *b = newc(), *c = newc();
	req(b, CLIENT_OPEN_SEAT);
	EXPECT(b, SERVER_SEAT_OPENED);
	req(c, CLIENT_OPEN_SEAT);
	EXPECT(c, SERVER_SEAT_OPENED);
	reqi(a, CLIENT_SWITCH_SESSION, 2);
	EXPECT(a, SERVER_DISABLE_SEAT);
	EXPECT(a, SERVER_SESSION_SWITCHED);
	hangup(b);
	req(a, CLIENT_DISABLE_SEAT);
	int ea = 0, op;
	while ((op = next(a, NULL)) != -1)
		ea += op == SERVER_ENABLE_SEAT;
	while ((op = next(c, NULL)) != -1)
		ea += op == SERVER_ENABLE_SEAT;
	CHECK(ea == 1, "the seat is left to nobody");
	return 0;
}
''', "the target of a switch dies before the old client has given up the seat", "the seat stays idle although clients wait for it")

seed("c12-back-before-the-answer", "C12", [("seatd/server.c", """	seat_vt_activate(seat);
	return 0;""", """	if (seat->active_client == NULL) {
		seat_vt_activate(seat);
	}
	return 0;""")], r'''
#include "mini.h"
int main(void) {
	start(true);
	struct cl *a = seated();
	kswitch(2);
	pump();
	CHECK(fg == 2, "the VT is not released");
	EXPECT(a, SERVER_DISABLE_SEAT);
	int n = acked;
	kswitch(1);
	pump();
	CHECK(acked == n + 1, "the acquisition is not acknowledged");
	return 0;
}
''', "switching back to a VT before its client has given up the seat", "the acquisition is never acknowledged")

seed("c01-not-there-any-more", "C01", [(E, """	if (seat->active_client == NULL) {
		seat_activate(seat);
	}
	return 0;""", """	if (seat->active_client == NULL || seat->active_client->session != seat->cur_vt) {
		// A client on another VT does not hold up those on this one
		seat->active_client = NULL;
		seat_activate(seat);
	}
	return 0;""")], r'''
#include "mini.h"
int main(void) {
	start(true);
	struct cl *a = seated();
	kswitch(2);
	pump();
	EXPECT(a, SERVER_DISABLE_SEAT);
	struct cl *b = newc();
	req(b, CLIENT_OPEN_SEAT);
	EXPECT(b, SERVER_SEAT_OPENED);
	NOTHING(b);
	kswitch(3);
	pump();
	kswitch(2);
	pump();
	NOTHING(b); // a has not given up the seat
	req(a, CLIENT_DISABLE_SEAT);
	EXPECT(a, SERVER_SEAT_DISABLED);
	EXPECT(b, SERVER_ENABLE_SEAT);
	return 0;
}
''', "returning to a VT whose session waits for a client that has not yet acknowledged being disabled", "two clients are on the seat at once")

seed("c05-look-alike", "C05", [("common/drm.c", """#if defined(__linux__) || defined(__NetBSD__)
int path_is_drm(const char *path) {
	if (STR_HAS_PREFIX("/dev/dri/", path))
		return 1;
	return 0;
}""", """#if defined(__linux__) || defined(__NetBSD__)
int path_is_drm(const char *path) {
	if (STR_HAS_PREFIX("/dev/dri", path))
		return 1;
	return 0;
}""")], r'''
#include "mini.h"
int main(void) {
	start(false);
	struct cl *a = seated();
	reqdev(a, "/dev/driver");
	EXPECT(a, SERVER_ERROR);
	opendev(a, "/dev/dri/card0", NULL);
	return 0;
}
''', "a path that begins like a supported directory", "a file that is no device of the seat is opened by the daemon")

seed("c15-new-in-a-callback", "C15", [("seatd/poller.c", "	bpfd->pollfd_idx = -1;\n", "	bpfd->pollfd_idx = 0;\n")], r'''
#define _GNU_SOURCE
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
#include "poller.h"
#include <signal.h>
#include <stdio.h>
#include <unistd.h>
static struct poller p;
static int fds[2], calls;
static int on_fd(int fd, uint32_t mask, void *d) {
	calls++;
	return 0;
}
static int on_sig(int s, void *d) {
	poller_add_fd(&p, fds[0], EVENT_READABLE, on_fd, NULL);
	return 0;
}
int main(void) {
	poller_init(&p);
	pipe(fds);
	poller_add_signal(&p, SIGUSR1, on_sig, NULL);
	raise(SIGUSR1);
	poller_poll(&p);
	if (calls)
		printf("FAIL a source is called though nothing is ready\n");
	return calls != 0;
}
''', "a source added from a signal's callback", "it is called in the same round for a descriptor that is not ready", kind="conn")

B = "libseat/backend/seatd.c"
seed("c16-lost-at-close", "C16", [(B, """done:
	execute_events(backend);
	destroy(backend);
	return res;""", """done:
	if (res == -1) {
		execute_events(backend);
	}
	destroy(backend);
	return res;""")], r'''
#include "libs.h"
static void script(void) {
	in();
	opened();
	outmsg(SERVER_ENABLE_SEAT, NULL, 0);
	while (in() == CLIENT_PING)
		outmsg(SERVER_PONG, NULL, 0);
	outmsg(SERVER_DISABLE_SEAT, NULL, 0);
	outmsg(SERVER_SEAT_CLOSED, NULL, 0);
}
int main(void) {
	serve(script);
	setenv("SEATD_SOCK", "sock", 1);
	setenv("LIBSEAT_BACKEND", "seatd", 1);
	struct libseat *s = libseat_open_seat(&listener, NULL);
	CHECK(s, "open");
	while (!enabled)
		libseat_dispatch(s, -1);
	CHECK(libseat_close_seat(s) == 0, "close");
	CHECK(disabled == 1, "the last event is lost");
	return 0;
}
''', "an event on its way while the seat is being closed", "it never reaches the application", kind="lib")

