seed("c01-nothing-to-give-up", "C01", [("seatd/seat.c", """	seat->next_client = target;
	seat_disable_client(seat->active_client);
	return 0;
}""", """	seat->next_client = target;
	if (seat_disable_client(client) == 0 && linked_list_empty(&client->devices)) {
		// There is nothing for the client to give up, so do not wait for it
		return seat_ack_disable_client(client);
	}
	return 0;
}""")], r'''
#include "mini.h"
int main(void) {
	start(false);
	struct cl *a = seated(), *b = newc();
	req(b, CLIENT_OPEN_SEAT);
	EXPECT(b, SERVER_SEAT_OPENED);
	reqi(a, CLIENT_SWITCH_SESSION, 2);
	NOTHING(b); // a has not acknowledged
	return 0;
}
''', "a session switch requested by a client that has no device open", "the target of the switch is enabled before the session that held the seat has acknowledged giving it up")

seed("c02-open-while-giving-up", "C02", [("seatd/seat.c", """	if (client->state != CLIENT_ACTIVE) {
		log_error("Could open device: client is not active");""", """	if (seat->active_client != client) {
		log_error("Could open device: client is not active");""")], r'''
#include "mini.h"
int main(void) {
	start(false);
	struct cl *a = seated(), *b = newc();
	req(b, CLIENT_OPEN_SEAT);
	EXPECT(b, SERVER_SEAT_OPENED);
	reqi(a, CLIENT_SWITCH_SESSION, 2);
	rd(a);
	CHECK(a->len == 8, "the switch is not answered");
	next(a, NULL), next(a, NULL);
	reqdev(a, "/dev/input/event0");
	int err = 0;
	CHECK(next(a, &err) == SERVER_ERROR && err == EPERM, "a device is opened for a session that was told to give up the seat");
	CHECK(takefd(a) == -1, "it gets a descriptor");
	return 0;
}
''', "a device is requested between the disable event and its acknowledgement", "a session that has been told to give up the seat still obtains device access")

seed("c03-gone-with-the-client", "C03", [("seatd/seat.c", """	if (seat_device->fd != -1) {
		seat_deactivate_device(seat_device);
		close(seat_device->fd);
	}""", """	if (seat_device->fd != -1) {
		// If the client is gone, so are its descriptors
		if (client->connection.fd != -1) {
			seat_deactivate_device(seat_device);
		}
		close(seat_device->fd);
	}""")], r'''
#include "mini.h"
int main(void) {
	start(false);
	struct cl *a = seated();
	int ev, card;
	opendev(a, "/dev/input/event3", &ev);
	opendev(a, "/dev/dri/card0", &card);
	hangup(a); // but a process it passed the descriptors to lives on
	CHECK(ofd_of(ev)->revoked, "the input device is not revoked");
	CHECK(!ofd_of(card)->master, "the DRM device is still master");
	return 0;
}
''', "the client disconnects or dies without closing its devices or the seat, while its descriptors live on elsewhere", "descriptors of a session whose connection is gone keep their privileges")

seed("c03-give-up-half-way", "C03", [("seatd/seat.c", """			log_errorf("Could not deactivate %s: %s", device->path, strerror(errno));
		}""", """			log_errorf("Could not deactivate %s, leaving it: %s", device->path,
				   strerror(errno));
			break;
		}""")], r'''
#include "mini.h"
int main(void) {
	start(false);
	struct cl *a = seated(), *b = newc();
	int e1, card, e2;
	req(b, CLIENT_OPEN_SEAT);
	opendev(a, "/dev/input/event1", &e1);
	opendev(a, "/dev/dri/card0", &card);
	opendev(a, "/dev/input/event2", &e2);
	dropmaster_fails = 1;
	reqi(a, CLIENT_SWITCH_SESSION, 2);
	CHECK(ofd_of(e1)->revoked && ofd_of(e2)->revoked, "an input device stays usable because revoking another device failed");
	return 0;
}
''', "revoking one device fails while a session with several devices is disabled", "the remaining devices are not revoked")

seed("c04-stop-at-input-device", "C04", [("seatd/seat.c", """			log_errorf("Could not activate %s: %s", device->path, strerror(errno));
		}""", """			log_errorf("Could not activate %s, leaving it: %s", device->path,
				   strerror(errno));
			break;
		}""")], r'''
#include "mini.h"
int main(void) {
	start(false);
	struct cl *a = seated(), *b = newc();
	req(b, CLIENT_OPEN_SEAT);
	EXPECT(b, SERVER_SEAT_OPENED);
	int card, ev;
	opendev(a, "/dev/dri/card0", &card);
	opendev(a, "/dev/input/event1", &ev);
	reqi(a, CLIENT_SWITCH_SESSION, 2);
	req(a, CLIENT_DISABLE_SEAT);
	EXPECT(b, SERVER_ENABLE_SEAT);
	CHECK(!ofd_of(card)->master, "still master while another session has the seat");
	reqi(b, CLIENT_SWITCH_SESSION, 1);
	req(b, CLIENT_DISABLE_SEAT);
	CHECK(ofd_of(card)->master, "the returning session is not DRM master again");
	return 0;
}
''', "a session returns that kept both an input device and a DRM device opened before it", "the DRM device does not regain master")

seed("c05-as-the-client-spells-it", "C05", [("seatd/seat.c", "	} else if (path_is_drm(sanitized_path)) {", "	} else if (path_is_drm(path)) {")], r'''
#include "mini.h"
int main(void) {
	start(false);
	links[0][0] = "/dev/dri/../../fake/shadow", links[0][1] = "/fake/shadow";
	struct cl *a = seated();
	reqdev(a, links[0][0]);
	CHECK(next(a, NULL) == SERVER_ERROR, "a file that is no device is opened");
	CHECK(nopens == 0, "%s is opened", last_opened);
	return 0;
}
''', "a device path that starts in /dev/dri but resolves to somewhere else", "a client gets a descriptor of an arbitrary file, opened with the daemon's privileges")

seed("c06-id-from-count", "C06", [("seatd/seat.c", """		if (old_device->device_id >= device_id) {
			device_id = old_device->device_id + 1;
		}
		device_count++;
	}""", """		device_count++;
	}
	device_id += (int)device_count;""")], r'''
#include "mini.h"
int main(void) {
	start(false);
	struct cl *a = seated();
	int f;
	int i1 = opendev(a, "/dev/input/event1", &f), i2 = opendev(a, "/dev/input/event2", &f);
	CHECK(i1 != i2, "ids");
	reqi(a, CLIENT_CLOSE_DEVICE, i1);
	EXPECT(a, SERVER_DEVICE_CLOSED);
	int i3 = opendev(a, "/dev/input/event3", &f);
	CHECK(i3 != i2, "two open devices have the id %d", i3);
	return 0;
}
''', "a device is closed while one opened later stays open, and another is opened then", "two open devices of a client share an id, so that closing one closes the other")

seed("c06-one-too-many", "C06", [("seatd/seat.c", "	if (device_count >= MAX_SEAT_DEVICES) {", "	if (device_count > MAX_SEAT_DEVICES) {")], r'''
#include "mini.h"
int main(void) {
	start(false);
	struct cl *a = seated();
	char p[64];
	int f, err = 0;
	for (int i = 0; i < 128; i++) {
		snprintf(p, sizeof p, "/dev/input/event%d", i);
		opendev(a, p, &f);
		close(f);
	}
	reqdev(a, "/dev/input/event128");
	CHECK(next(a, &err) == SERVER_ERROR && err == EMFILE, "a client holds more than 128 devices");
	return 0;
}
''', "a client that opens 129 devices", "the limit of devices per client is exceeded")

seed("c07-longest-path", "C07", [("seatd/client.c", "		if (msg.path_len > MAX_PATH_LEN) {", "		if (msg.path_len >= MAX_PATH_LEN) {")], r'''
#include "mini.h"
int main(void) {
	start(false);
	struct cl *a = seated();
	char p[256] = "/dev/input/";
	memset(p + strlen(p), 'x', 255 - strlen(p));
	reqdev(a, p);
	CHECK(next(a, NULL) == SERVER_ERROR, "a path of 255 bytes is not answered with an error");
	req(a, CLIENT_PING);
	CHECK(next(a, NULL) == SERVER_PONG, "the connection is gone after a path of 255 bytes");
	return 0;
}
''', "a device path of exactly 255 bytes", "a legal request ends the connection")

seed("c08-hidden-rest", "C08", [("seatd/client.c", "		if (msg.path_len == 0 || strnlen(path, msg.path_len) != (uint16_t)(msg.path_len - 1)) {", "		if (msg.path_len == 0 || strnlen(path, msg.path_len) >= msg.path_len) {")], r'''
#include "mini.h"
int main(void) {
	start(false);
	struct cl *a = seated();
	char b[64] = {0};
	const char p[] = "/dev/input/event0\0hidden";
	uint16_t l = sizeof p;
	memcpy(b, &l, 2);
	memcpy(b + 2, p, l);
	msg(a, CLIENT_OPEN_DEVICE, b, l + 2);
	CHECK(next(a, NULL) == -1 && a->eof, "a path with a zero byte inside is acted upon");
	CHECK(nopens == 0, "%s is opened", last_opened);
	return 0;
}
''', "an open-device request whose path contains a zero byte before its end", "a malformed message is acted upon instead of ending the connection")

seed("c25-kept-for-a-retry", "C25", [("seatd/client.c", """		log_errorf("Could not dup fd: %s", strerror(errno));
		seat_close_device(client, device);
""", """		log_errorf("Could not dup fd: %s", strerror(errno));
		if (device->ref_cnt > 1) {
			device->ref_cnt--;
		}
""")], r'''
#include "mini.h"
int main(void) {
	start(false);
	struct cl *a = seated();
	dup_fails = 1;
	reqdev(a, "/dev/input/event0");
	int err = 0;
	CHECK(next(a, &err) == SERVER_ERROR && err == EMFILE, "no error");
	struct ofd *first = &ofds[nofds - 1];
	CHECK(first->revoked, "the device of the failed request stays open in the daemon");
	return 0;
}
''', "duplicating the descriptor of a newly opened device fails", "the daemon keeps the device open and charged to the client although the request failed")

seed("c10-ack-again", "C10", [("seatd/seat.c", """	if (client->state != CLIENT_PENDING_DISABLE) {
		log_error("Could not ack disable: client is not pending disable");""", """	if (client->state != CLIENT_PENDING_DISABLE && client->state != CLIENT_DISABLED) {
		log_error("Could not ack disable: client is not pending disable");""")], r'''
#include "mini.h"
int main(void) {
	start(false);
	struct cl *a = seated(), *b = newc();
	req(b, CLIENT_OPEN_SEAT);
	EXPECT(b, SERVER_SEAT_OPENED);
	reqi(a, CLIENT_SWITCH_SESSION, 2);
	next(a, NULL), next(a, NULL);
	req(a, CLIENT_DISABLE_SEAT);
	EXPECT(a, SERVER_SEAT_DISABLED);
	req(a, CLIENT_DISABLE_SEAT);
	CHECK(next(a, NULL) == SERVER_ERROR, "a second acknowledgement is accepted");
	return 0;
}
''', "a disabled client acknowledges again", "an acknowledgement is accepted from a client that was not told to disable")

seed("c11-died-while-asked", "C11", [("seatd/seat.c", """	if (seat->active_client != NULL) {
		return 0;
	}

	struct client *next_client = NULL;
	if (seat->next_client != NULL) {""", """	if (seat->active_client != NULL) {
		return 0;
	}

	struct client *next_client = NULL;
	if (seat->next_client != NULL && seat->next_client->state == CLIENT_DISABLED) {""")], r'''
#include "mini.h"
int main(void) {
	start(false);
	struct cl *a = seated(), *b = newc(), *c = newc();
	req(b, CLIENT_OPEN_SEAT);
	EXPECT(b, SERVER_SEAT_OPENED);
	req(c, CLIENT_OPEN_SEAT);
	EXPECT(c, SERVER_SEAT_OPENED);
	reqi(a, CLIENT_SWITCH_SESSION, 2);
	next(a, NULL), next(a, NULL);
	req(a, CLIENT_DISABLE_SEAT);
	rd(a), rd(b), rd(c);
	CHECK(next(b, NULL) == SERVER_ENABLE_SEAT, "the session that was switched to is not enabled");
	return 0;
}
''', "a switch to a session that has not been enabled before, with more than two sessions", "another session than the requested one is enabled")

seed("c12-already-going", "C12", [("seatd/seat.c", """	log_debug("Releasing VT");
	if (seat->active_client != NULL) {
		seat_disable_client(seat->active_client);
	}
""", """	log_debug("Releasing VT");
	if (seat->active_client != NULL && seat_disable_client(seat->active_client) == -1) {
		log_debug("Client is already being disabled");
		return 0;
	}
""")], r'''
#include "mini.h"
int main(void) {
	start(true);
	struct cl *a = seated();
	kswitch(2);
	pump();
	CHECK(fg == 2, "the first switch hangs");
	EXPECT(a, SERVER_DISABLE_SEAT);
	struct cl *b = newc(); // on VT 2, while a has not acknowledged yet
	req(b, CLIENT_OPEN_SEAT);
	EXPECT(b, SERVER_SEAT_OPENED);
	kswitch(3);
	pump();
	CHECK(fg == 3, "the switch away from VT %d hangs", fg);
	return 0;
}
''', "a VT switch away from a session that waits for the previous one to acknowledge", "the kernel's release request is never granted, the VT switch hangs")

seed("c13-only-if-shown", "C13", [("seatd/seat.c", """	terminal_set_keyboard(ttyfd, true);
	terminal_set_graphics(ttyfd, false);
""", """	if (terminal_current_vt(ttyfd) == vt) {
		terminal_set_keyboard(ttyfd, true);
		terminal_set_graphics(ttyfd, false);
	}
""")], r'''
#include "mini.h"
int main(void) {
	start(true);
	struct cl *a = seated();
	CHECK(gfx[1] && kbd_off[1], "VT 1 is not prepared");
	kswitch(2);
	pump();
	EXPECT(a, SERVER_DISABLE_SEAT);
	req(a, CLIENT_DISABLE_SEAT);
	hangup(a);
	CHECK(!gfx[1] && !kbd_off[1], "VT 1 is left in graphics mode or without keyboard");
	return 0;
}
''', "a session ends while another VT is shown", "the VT of the session is left in graphics mode with the keyboard off")

seed("c09-sender-keeps-it", "C09", [("seatd/client.c", """	connection_close_fds(&client->connection);
	assert(linked_list_empty(&client->devices));""", """	if (connection_pending(&client->connection) > 0) {
		// Whatever came with an incomplete message
		connection_close_fds(&client->connection);
	}
	assert(linked_list_empty(&client->devices));""")], r'''
#include "mini.h"
#include <dirent.h>
static int count(void) {
	int n = 0;
	DIR *d = opendir("/proc/self/fd");
	while (readdir(d))
		n++;
	closedir(d);
	return n;
}
int main(void) {
	start(false);
	struct cl *first = seated();
	int before = count();
	struct cl *a = newc();
	uint16_t h[2] = {CLIENT_PING, 0};
	int nul = open("/etc/hostname", O_RDONLY), zero = dup(2);
	int fds[1] = {zero};
	char cb[CMSG_SPACE(sizeof fds)] = {0};
	struct iovec iov = {h, 4};
	struct msghdr m = {.msg_iov = &iov, .msg_iovlen = 1, .msg_control = cb, .msg_controllen = sizeof cb};
	struct cmsghdr *c = CMSG_FIRSTHDR(&m);
	c->cmsg_level = SOL_SOCKET;
	c->cmsg_type = SCM_RIGHTS;
	c->cmsg_len = CMSG_LEN(sizeof fds);
	memcpy(CMSG_DATA(c), fds, sizeof fds);
	CHECK(sendmsg(a->fd, &m, 0) == 4, "sendmsg");
	close(zero);
	if (nul != -1)
		close(nul);
	pump();
	EXPECT(a, SERVER_PONG);
	hangup(a);
	CHECK(count() == before, "%d descriptors are left behind by a client that sent one", count() - before);
	(void)first;
	return 0;
}
''', "a client sends a descriptor along with complete messages and disconnects", "the daemon keeps the descriptor for ever")

seed("c24-stop-listening", "C24", [("seatd/client.c", """		event_source_fd_update(client->event_source, EVENT_READABLE | EVENT_WRITABLE);
	} else if (ret == -1) {""", """		if (connection_pending(&client->connection) == 0) {
			event_source_fd_update(client->event_source, EVENT_READABLE | EVENT_WRITABLE);
		}
	} else if (ret == -1) {""")], r'''
#include "mini.h"
int main(void) {
	start(false);
	struct cl *a = newc();
	int small = 1;
	setsockopt(a->fd, SOL_SOCKET, SO_RCVBUF, &small, sizeof small);
	// pings without reading, until the daemon cannot answer at once any more, always with the beginning of the next one at the end
	uint16_t h[2] = {CLIENT_PING, 0};
	int sent = 0, got = 0;
	put(a, h, 2);
	for (int i = 0; i < 3000 && !a->eof; i++) {
		char b[4];
		memcpy(b, h + 1, 2);
		memcpy(b + 2, h, 2);
		if (send(a->fd, b, 4, MSG_NOSIGNAL | MSG_DONTWAIT) != 4)
			break;
		pump();
		sent++;
		struct client *sc = (struct client *)srv.idle_clients.next;
		if (sc->connection.want_flush)
			break;
	}
	for (int i = 0; i < 100; i++) {
		while (next(a, NULL) == SERVER_PONG)
			got++;
		pump();
	}
	CHECK(got == sent, "%d of %d answers arrive at a client that reads again", got, sent);
	return 0;
}
''', "an answer does not fit into the socket buffer while the beginning of a further request has been read", "the rest of the answers only arrives once the client sends something else")
