From 17b7060b828ad1c70baf8f2b50caafe698371672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:34 +0000
Subject: [PATCH 01/40] fix: return the existing device when a client opens it
 again

seat_open_device increased the reference count of a device that was already
open, but returned NULL with a stale errno, so that the open failed and the
reference was never given back.
---
 seatd/seat.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seatd/seat.c b/seatd/seat.c
index 700bb63..d81f839 100644
--- a/seatd/seat.c
+++ b/seatd/seat.c
@@ -360,7 +360,7 @@ struct seat_device *seat_open_device(struct client *client, const char *path) {
 
 		if (strcmp(old_device->path, sanitized_path) == 0) {
 			old_device->ref_cnt++;
-			return device;
+			return old_device;
 		}
 
 		if (old_device->device_id >= device_id) {
-- 
2.43.0


From c16c12fd717ef3bd3e816163f1211a66183af414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:00 +0000
Subject: [PATCH 02/40] fix: clean up a removed client's own VT

seat_remove_client cleaned up the seat's current VT when the active client was
removed. If the client had not acknowledged its disable yet, that is another
VT, or -1 during a VT switch, which failed an assertion and ended the daemon.
If another client was activated instead, no VT was cleaned up at all. In each
case the VT of the removed client remained in graphics mode with its keyboard
turned off.
---
 seatd/seat.c | 21 +++++++--------------
 1 file changed, 7 insertions(+), 14 deletions(-)

diff --git a/seatd/seat.c b/seatd/seat.c
index d81f839..adbfca6 100644
--- a/seatd/seat.c
+++ b/seatd/seat.c
@@ -264,24 +264,17 @@ void seat_remove_client(struct client *client) {
 		}
 	}
 
-	bool was_current = seat->active_client == client;
-	if (was_current) {
+	if (seat->active_client == client) {
 		seat->active_client = NULL;
 		seat_activate(seat);
 	}
 
-	if (seat->vt_bound) {
-		if (was_current && seat->active_client == NULL) {
-			// This client was current, but there were no clients
-			// waiting to take this VT, so clean it up.
-			log_debug("Closing active VT");
-			vt_close(seat->cur_vt);
-		} else if (!was_current && client->state != CLIENT_CLOSED) {
-			// This client was not current, but as the client was
-			// running, we need to clean up the VT.
-			log_debug("Closing inactive VT");
-			vt_close(client->session);
-		}
+	if (seat->vt_bound && client->state != CLIENT_CLOSED &&
+	    (seat->active_client == NULL || seat->active_client->session != client->session)) {
+		// No other client has taken this client's VT, so clean it up.
+		// Note that it might not be the current VT.
+		log_debug("Closing VT");
+		vt_close(client->session);
 	}
 
 	client->state = CLIENT_CLOSED;
-- 
2.43.0


From 74c7cdfaed8dd64aa6ca03c881cb87371f1d8e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:33 +0000
Subject: [PATCH 03/40] fix: number the sessions of a seat that is not VT-bound
 from 1

The first session was given number 0, which seat_set_next_session refuses as
invalid, so that it was impossible to switch back to it.
---
 seatd/seat.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/seatd/seat.c b/seatd/seat.c
index adbfca6..297cb5c 100644
--- a/seatd/seat.c
+++ b/seatd/seat.c
@@ -40,6 +40,7 @@ struct seat *seat_create(const char *seat_name, bool vt_bound) {
 	seat->vt_bound = vt_bound;
 	seat->seat_name = strdup(seat_name);
 	seat->cur_vt = 0;
+	seat->session_cnt = 1;
 	if (seat->seat_name == NULL) {
 		free(seat);
 		return NULL;
-- 
2.43.0


From 4e20d1b539d67d3bd3145fd2b4d22d5f48717214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:19 +0000
Subject: [PATCH 04/40] fix: make room for a whole message in the connection
 buffers

A request to open a device whose path has 250 to 255 characters is longer than
the 256 bytes of a connection buffer. As messages are only handled once they
have been received in full, the server disconnected the client instead.
---
 include/connection.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/connection.h b/include/connection.h
index d32e766..a726f48 100644
--- a/include/connection.h
+++ b/include/connection.h
@@ -4,7 +4,7 @@
 #include <stddef.h>
 #include <stdint.h>
 
-#define CONNECTION_BUFFER_SIZE 256
+#define CONNECTION_BUFFER_SIZE 512
 
 #define MAX_FDS (CONNECTION_BUFFER_SIZE / sizeof(int))
 
-- 
2.43.0


From b96e59b2827b7c365dbb82df060b1ed28791d6cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:45 +0000
Subject: [PATCH 05/40] fix: report end of stream although data is left in the
 buffer

connection_read returned the size of the buffered data at end of stream if part
of a message had been received, which callers cannot tell from new data: seatd
span on such a client forever, as did a request waiting for a reply.
---
 common/connection.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/common/connection.c b/common/connection.c
index ab79e0e..dc1607b 100644
--- a/common/connection.c
+++ b/common/connection.c
@@ -207,6 +207,10 @@ int connection_read(struct connection *connection) {
 	if (decode_cmsg(&connection->fds_in, &msg) != 0) {
 		return -1;
 	}
+	if (len == 0) {
+		// End of stream, regardless of what is left in our buffer
+		return 0;
+	}
 	connection->in.head += len;
 
 	return connection_buffer_size(&connection->in);
-- 
2.43.0


From a3a78b867e639fe575ffa89f99b8eca0aa0257d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:45 +0000
Subject: [PATCH 06/40] fix: report a lost connection from libseat_dispatch
 without a timeout

If dispatch did not wait for events, end of stream was taken for there being
nothing to read, so an application polling the connection itself was never told
about it.
---
 libseat/backend/seatd.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/libseat/backend/seatd.c b/libseat/backend/seatd.c
index 90dd7f7..833ba1e 100644
--- a/libseat/backend/seatd.c
+++ b/libseat/backend/seatd.c
@@ -340,6 +340,13 @@ static int dispatch(struct libseat *base, int timeout) {
 	int read = 0;
 	if (predispatch > 0 || timeout == 0) {
 		read = connection_read(&backend->connection);
+		if (read == 0) {
+			set_error(backend);
+			errno = EIO;
+			read = -1;
+		} else if (read == -1 && errno != EAGAIN) {
+			set_error(backend);
+		}
 	} else {
 		read = poll_connection(backend, timeout);
 	}
-- 
2.43.0


From c4441e0f05f8dd73e21a3ff8354bc9a7fb938eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:12 +0000
Subject: [PATCH 07/40] fix: deliver seat events to clients that are slow to
 read

Enable and disable events were flushed once. If the socket was full, nothing
waited for it to become writable, so the event stayed behind until the client
sent a request. If the event could not be queued or sent at all it was lost, and
the seat kept waiting for a client that did not know about it.
---
 seatd/client.c | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/seatd/client.c b/seatd/client.c
index ef5d625..374ca90 100644
--- a/seatd/client.c
+++ b/seatd/client.c
@@ -458,30 +458,31 @@ static int client_handle_opcode(struct client *client, uint16_t opcode, size_t s
 	return res;
 }
 
-int client_send_disable_seat(struct client *client) {
+/*
+ * client_send_event sends an event to the client outside of the handling of
+ * its own requests. If this is not possible, the connection is shut down, so
+ * that the client is destroyed from the event loop.
+ */
+static int client_send_event(struct client *client, uint16_t opcode) {
 	struct proto_header header = {
-		.opcode = SERVER_DISABLE_SEAT,
+		.opcode = opcode,
 		.size = 0,
 	};
 	if (connection_put(&client->connection, &header, sizeof header) == -1 ||
-	    connection_flush(&client->connection) == -1) {
+	    client_flush(client) == -1) {
 		log_errorf("Could not send event: %s", strerror(errno));
+		shutdown(client->connection.fd, SHUT_RDWR);
 		return -1;
 	}
 	return 0;
 }
 
+int client_send_disable_seat(struct client *client) {
+	return client_send_event(client, SERVER_DISABLE_SEAT);
+}
+
 int client_send_enable_seat(struct client *client) {
-	struct proto_header header = {
-		.opcode = SERVER_ENABLE_SEAT,
-		.size = 0,
-	};
-	if (connection_put(&client->connection, &header, sizeof header) == -1 ||
-	    connection_flush(&client->connection) == -1) {
-		log_errorf("Could not send event: %s", strerror(errno));
-		return -1;
-	}
-	return 0;
+	return client_send_event(client, SERVER_ENABLE_SEAT);
 }
 
 int client_handle_connection(int fd, uint32_t mask, void *data) {
-- 
2.43.0


From 2d4fc826f23c82932ab497c79207e9bd9e7741c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:12 +0000
Subject: [PATCH 08/40] fix: do not lose signals arriving during their own
 handling

The raised flag of a signal source was cleared after its callback, so a signal
arriving in the meantime was never handled.
---
 seatd/poller.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seatd/poller.c b/seatd/poller.c
index ceadb24..a414eb4 100644
--- a/seatd/poller.c
+++ b/seatd/poller.c
@@ -287,8 +287,8 @@ static void dispatch(struct poller *poller) {
 			if (!bps->raised || bps->killed) {
 				continue;
 			}
-			bps->func(bps->signal, bps->data);
 			bps->raised = false;
+			bps->func(bps->signal, bps->data);
 		}
 	}
 
-- 
2.43.0


From df3ccfc1ec7225c0aedbac97df718e987efb8932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:12 +0000
Subject: [PATCH 09/40] fix: restore the default action with the last source of
 a signal

event_source_signal_destroy counted the source being destroyed as a user of
the signal, so the handler remained installed.
---
 seatd/poller.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seatd/poller.c b/seatd/poller.c
index a414eb4..da963da 100644
--- a/seatd/poller.c
+++ b/seatd/poller.c
@@ -178,6 +178,7 @@ int event_source_signal_destroy(struct event_source_signal *event_source) {
 	struct event_source_signal *bps = (struct event_source_signal *)event_source;
 	struct poller *poller = bps->poller;
 
+	bps->killed = true;
 	int refcnt = 0;
 	for (struct linked_list *elem = poller->signals.next; elem != &poller->signals;
 	     elem = elem->next) {
@@ -196,7 +197,6 @@ int event_source_signal_destroy(struct event_source_signal *event_source) {
 	}
 
 	poller->dirty = true;
-	bps->killed = true;
 	return 0;
 }
 
-- 
2.43.0


From 174472c07c0af47c7f33769c708c6547b9a24244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:12 +0000
Subject: [PATCH 10/40] fix: close the signal pipe of a finished poller

---
 seatd/poller.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/seatd/poller.c b/seatd/poller.c
index da963da..d4dc96d 100644
--- a/seatd/poller.c
+++ b/seatd/poller.c
@@ -112,6 +112,8 @@ int poller_finish(struct poller *poller) {
 	}
 	free(poller->pollfds);
 	global_poller = NULL;
+	close(poller->signal_fds[0]);
+	close(poller->signal_fds[1]);
 	return 0;
 }
 
-- 
2.43.0


From c27e3e3459544f1be991462be320e1036f8f4e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:06 +0000
Subject: [PATCH 11/40] fix: refuse a connection instead of ending when out of
 memory

Making room for the pollfd of a new connection was left to the next poll, where
a failed allocation ended the whole server. Do it when the source is added,
where the failure concerns the new connection alone.
---
 seatd/poller.c | 32 ++++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/seatd/poller.c b/seatd/poller.c
index d4dc96d..e823c18 100644
--- a/seatd/poller.c
+++ b/seatd/poller.c
@@ -117,12 +117,34 @@ int poller_finish(struct poller *poller) {
 	return 0;
 }
 
+/*
+ * reserve_pollfds makes room for at least len pollfds.
+ */
+static int reserve_pollfds(struct poller *poller, size_t len) {
+	if (len <= poller->pollfds_len) {
+		return 0;
+	}
+	struct pollfd *fds = realloc(poller->pollfds, len * sizeof(struct pollfd));
+	if (fds == NULL) {
+		return -1;
+	}
+	poller->pollfds = fds;
+	poller->pollfds_len = len;
+	return 0;
+}
+
 struct event_source_fd *poller_add_fd(struct poller *poller, int fd, uint32_t mask,
 				      event_source_fd_func_t func, void *data) {
 	struct event_source_fd *bpfd = calloc(1, sizeof(struct event_source_fd));
 	if (bpfd == NULL) {
 		return NULL;
 	}
+	// Done here rather than when the pollfds are regenerated, as only adding
+	// a source is allowed to fail.
+	if (reserve_pollfds(poller, poller->fd_event_sources + 1) == -1) {
+		free(bpfd);
+		return NULL;
+	}
 	bpfd->fd = fd;
 	bpfd->mask = mask;
 	bpfd->data = data;
@@ -231,14 +253,8 @@ static uint32_t poll_mask_to_event_mask(int poll_mask) {
 }
 
 static int regenerate(struct poller *poller) {
-	if (poller->fd_event_sources > poller->pollfds_len) {
-		struct pollfd *fds =
-			realloc(poller->pollfds, poller->fd_event_sources * sizeof(struct pollfd));
-		if (fds == NULL) {
-			return -1;
-		}
-		poller->pollfds = fds;
-		poller->pollfds_len = poller->fd_event_sources;
+	if (reserve_pollfds(poller, poller->fd_event_sources) == -1) {
+		return -1;
 	}
 
 	size_t idx = 0;
-- 
2.43.0


From 8047849c924dc44569813fe018114e8d8eaf5139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:06 +0000
Subject: [PATCH 12/40] fix: allow one session per VT only

seat_add_client looked for a session on the current VT only while a client was
pending disable. A second session for a VT could be opened while its session
was disabled, and was then in the way of the first one.
---
 seatd/seat.c | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/seatd/seat.c b/seatd/seat.c
index 297cb5c..2173f83 100644
--- a/seatd/seat.c
+++ b/seatd/seat.c
@@ -217,15 +217,13 @@ int seat_add_client(struct seat *seat, struct client *client) {
 			errno = EINVAL;
 			return -1;
 		}
-		if (seat->active_client != NULL) {
-			for (struct linked_list *elem = seat->clients.next; elem != &seat->clients;
-			     elem = elem->next) {
-				struct client *client = (struct client *)elem;
-				if (client->session == seat->cur_vt) {
-					log_error("Could not add client: seat is VT-bound and already has pending client");
-					errno = EBUSY;
-					return -1;
-				}
+		for (struct linked_list *elem = seat->clients.next; elem != &seat->clients;
+		     elem = elem->next) {
+			struct client *client = (struct client *)elem;
+			if (client->session == seat->cur_vt) {
+				log_error("Could not add client: seat is VT-bound and VT already has a client");
+				errno = EBUSY;
+				return -1;
 			}
 		}
 		client->session = seat->cur_vt;
-- 
2.43.0


From a15c661738e331e36f643499bf4ac367ccb4f3dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:41 +0000
Subject: [PATCH 13/40] fix: control switching of the VT of a session that
 waits for the seat

A session added to a VT-bound seat while another one has yet to acknowledge
being disabled is not opened, and its VT was left with automatic switching.
The seat then saw no release or acquire signals for it: a switch back to this
VT never enabled the session, and a switch away was not noticed.
---
 seatd/seat.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/seatd/seat.c b/seatd/seat.c
index 2173f83..ec709ba 100644
--- a/seatd/seat.c
+++ b/seatd/seat.c
@@ -75,6 +75,17 @@ static void seat_update_vt(struct seat *seat) {
 	close(tty0fd);
 }
 
+static int vt_watch(int vt) {
+	int ttyfd = terminal_open(vt);
+	if (ttyfd == -1) {
+		log_errorf("Could not open terminal for VT %d: %s", vt, strerror(errno));
+		return -1;
+	}
+	terminal_set_process_switching(ttyfd, true);
+	close(ttyfd);
+	return 0;
+}
+
 static int vt_open(int vt) {
 	int ttyfd = terminal_open(vt);
 	if (ttyfd == -1) {
@@ -227,6 +238,10 @@ int seat_add_client(struct seat *seat, struct client *client) {
 			}
 		}
 		client->session = seat->cur_vt;
+
+		// The client might not be opened right away. We must know about
+		// switches to and from its VT regardless.
+		vt_watch(seat->cur_vt);
 	} else {
 		client->session = seat->session_cnt++;
 	}
-- 
2.43.0


From fd0b2e4457467b0610091d5bdf4fcf3f07c2ca2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:43 +0000
Subject: [PATCH 14/40] fix: stay on the current VT if its release was
 cancelled

Configuring a VT cancels a pending switch away from it. When the release
signal was then handled, the acknowledgement failed and the seat was left
without a current VT although no acquire signal was to follow, so that no
session was enabled again.
---
 seatd/seat.c | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/seatd/seat.c b/seatd/seat.c
index ec709ba..0df55b0 100644
--- a/seatd/seat.c
+++ b/seatd/seat.c
@@ -131,13 +131,14 @@ static int vt_ack(struct seat *seat, bool release) {
 		log_errorf("Could not open tty0 to ack VT signal: %s", strerror(errno));
 		return -1;
 	}
+	int res;
 	if (release) {
-		terminal_ack_release(tty0fd);
+		res = terminal_ack_release(tty0fd);
 	} else {
-		terminal_ack_acquire(tty0fd);
+		res = terminal_ack_acquire(tty0fd);
 	}
 	close(tty0fd);
-	return 0;
+	return res;
 }
 
 /*
@@ -743,7 +744,10 @@ int seat_vt_release(struct seat *seat) {
 		seat_disable_client(seat->active_client);
 	}
 
-	vt_ack(seat, true);
-	seat->cur_vt = -1;
+	if (vt_ack(seat, true) == 0) {
+		seat->cur_vt = -1;
+	}
+	// Otherwise, the kernel is no longer waiting to switch, as configuring
+	// a VT cancels the switch. We remain on the current VT.
 	return 0;
 }
-- 
2.43.0


From 147c85e2dc9078d85ddd42b4ea627d35af034b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:16 +0000
Subject: [PATCH 15/40] fix: deliver queued seat events in the order they
 arrived

Events received while waiting for a response were queued at the head of the
list and executed from the head, i.e. in reverse.
---
 libseat/backend/seatd.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libseat/backend/seatd.c b/libseat/backend/seatd.c
index 833ba1e..492e12f 100644
--- a/libseat/backend/seatd.c
+++ b/libseat/backend/seatd.c
@@ -187,7 +187,7 @@ static int queue_event(struct backend_seatd *backend, int opcode) {
 	}
 
 	ev->opcode = opcode;
-	linked_list_insert(&backend->pending_events, &ev->link);
+	linked_list_insert(backend->pending_events.prev, &ev->link);
 	return 0;
 }
 
-- 
2.43.0


From a98ef0a0ae2615c7c87980dfdc1942051545190f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:18 +0000
Subject: [PATCH 16/40] fix: keep the errno of a failed libseat request

Looking for pending events after a request replaced the errno that the server
had given for its failure.
---
 libseat/backend/seatd.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/libseat/backend/seatd.c b/libseat/backend/seatd.c
index 492e12f..2591122 100644
--- a/libseat/backend/seatd.c
+++ b/libseat/backend/seatd.c
@@ -488,14 +488,16 @@ static int send_ping(struct backend_seatd *backend) {
 }
 
 static void check_pending_events(struct backend_seatd *backend) {
+	// Called with the outcome of a request at hand, whose errno must be kept
+	int saved_errno = errno;
 	if (read_and_queue(backend, NULL) == -1) {
-		return;
+		goto done;
 	}
 	if (linked_list_empty(&backend->pending_events)) {
-		return;
+		goto done;
 	}
 	if (backend->awaiting_pong) {
-		return;
+		goto done;
 	}
 
 	// We have events pending execution, so a dispatch is required.
@@ -504,9 +506,12 @@ static void check_pending_events(struct backend_seatd *backend) {
 	// user will be woken up by its response.
 	if (send_ping(backend) == -1) {
 		log_errorf("Could not send ping request: %s", strerror(errno));
-		return;
+		goto done;
 	}
 	backend->awaiting_pong = true;
+
+done:
+	errno = saved_errno;
 }
 
 static int open_device(struct libseat *base, const char *path, int *fd) {
-- 
2.43.0


From 4adb7a59288b16f9e8b1569bf5b07acb04d39dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:34 +0000
Subject: [PATCH 17/40] fix: do not close the connection twice when opening a
 seat fails

The second close replaced errno with EBADF, and in a threaded application
might have closed an unrelated descriptor.
---
 libseat/backend/seatd.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libseat/backend/seatd.c b/libseat/backend/seatd.c
index 2591122..de16e06 100644
--- a/libseat/backend/seatd.c
+++ b/libseat/backend/seatd.c
@@ -430,7 +430,9 @@ static struct libseat *_open_seat(const struct libseat_seat_listener *listener,
 	return &backend->base;
 
 backend_error:
+	// This closes the fd as well
 	destroy(backend);
+	return NULL;
 alloc_error:
 	close(fd);
 	return NULL;
-- 
2.43.0


From ad3284142c41eb51a71a8592f9e9268ca1d6858a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:36 +0000
Subject: [PATCH 18/40] fix: wake up the application for events read while
 opening a seat

Events read together with the response stayed in the connection buffer, and
an application waiting for the libseat fd was not woken up for them.
---
 libseat/backend/seatd.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libseat/backend/seatd.c b/libseat/backend/seatd.c
index de16e06..0d9395a 100644
--- a/libseat/backend/seatd.c
+++ b/libseat/backend/seatd.c
@@ -315,6 +315,8 @@ static int read_until_response(struct backend_seatd *backend) {
 	return 0;
 }
 
+static void check_pending_events(struct backend_seatd *backend);
+
 static int get_fd(struct libseat *base) {
 	struct backend_seatd *backend = backend_seatd_from_libseat_backend(base);
 	return backend->connection.fd;
@@ -427,6 +429,7 @@ static struct libseat *_open_seat(const struct libseat_seat_listener *listener,
 	}
 
 	execute_events(backend);
+	check_pending_events(backend);
 	return &backend->base;
 
 backend_error:
-- 
2.43.0


From 3d559192bf2c12285e3d9a5670c5360adcb44aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:38 +0000
Subject: [PATCH 19/40] fix: set errno when closing a seat whose connection is
 lost

---
 libseat/backend/seatd.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libseat/backend/seatd.c b/libseat/backend/seatd.c
index 0d9395a..7404bc5 100644
--- a/libseat/backend/seatd.c
+++ b/libseat/backend/seatd.c
@@ -454,6 +454,7 @@ static int close_seat(struct libseat *base) {
 	int res = 0;
 	struct backend_seatd *backend = backend_seatd_from_libseat_backend(base);
 	if (backend->error) {
+		errno = ENOTCONN;
 		res = -1;
 		goto done;
 	}
-- 
2.43.0


From 4f32bd5884537b63b74d124ac27fc8693f92b9b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:29 +0000
Subject: [PATCH 20/40] fix: set errno when libseat_get_fd fails

---
 libseat/backend/seatd.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libseat/backend/seatd.c b/libseat/backend/seatd.c
index 7404bc5..3ef1b11 100644
--- a/libseat/backend/seatd.c
+++ b/libseat/backend/seatd.c
@@ -319,6 +319,10 @@ static void check_pending_events(struct backend_seatd *backend);
 
 static int get_fd(struct libseat *base) {
 	struct backend_seatd *backend = backend_seatd_from_libseat_backend(base);
+	if (backend->error) {
+		errno = ENOTCONN;
+		return -1;
+	}
 	return backend->connection.fd;
 }
 
-- 
2.43.0


From 870804d9e001699d37444cdc99ab2458c66d2553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:31 +0000
Subject: [PATCH 21/40] fix: read D-Bus booleans into ints

sd-bus stores a boolean as an int, so reading one into a bool overwrote the
adjacent memory.
---
 libseat/backend/logind.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/libseat/backend/logind.c b/libseat/backend/logind.c
index b5eeed2..1241c22 100644
--- a/libseat/backend/logind.c
+++ b/libseat/backend/logind.c
@@ -280,11 +280,14 @@ static const char *seat_name(struct libseat *base) {
 
 static int session_get_active(struct backend_logind *session, bool *active) {
 	sd_bus_error error = SD_BUS_ERROR_NULL;
+	int value = 0; // sd-bus booleans are ints
 	int ret = sd_bus_get_property_trivial(session->bus, "org.freedesktop.login1", session->path,
 					      "org.freedesktop.login1.Session", "Active", &error,
-					      'b', active);
+					      'b', &value);
 	if (ret < 0) {
 		log_errorf("Could not check if session is active: %s", error.message);
+	} else {
+		*active = value;
 	}
 
 	sd_bus_error_free(&error);
@@ -434,7 +437,7 @@ static int handle_properties_changed(sd_bus_message *msg, void *userdata, sd_bus
 				goto error;
 			}
 
-			bool value;
+			int value;
 			ret = sd_bus_message_read_basic(msg, 'b', &value);
 			if (ret < 0) {
 				goto error;
@@ -479,7 +482,7 @@ static int handle_properties_changed(sd_bus_message *msg, void *userdata, sd_bus
 			sd_bus_error error = SD_BUS_ERROR_NULL;
 			const char *obj = "org.freedesktop.login1.Session";
 			const char *field = "Active";
-			bool value;
+			int value;
 			ret = sd_bus_get_property_trivial(session->bus, "org.freedesktop.login1",
 							  session->path, obj, field, &error, 'b',
 							  &value);
-- 
2.43.0


From 0c6b18ea24e89c9f74b2444394c7785cb8e58de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:33 +0000
Subject: [PATCH 22/40] fix: release the reply and errors of D-Bus calls made
 from signal handlers

The reply to PauseDeviceComplete leaked, and so did the error of a failing
query of the Active property.
---
 libseat/backend/logind.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/libseat/backend/logind.c b/libseat/backend/logind.c
index 1241c22..6b2716f 100644
--- a/libseat/backend/logind.c
+++ b/libseat/backend/logind.c
@@ -357,6 +357,7 @@ static void set_active(struct backend_logind *backend, bool active) {
 }
 
 static int handle_pause_device(sd_bus_message *msg, void *userdata, sd_bus_error *ret_error) {
+	(void)ret_error;
 	struct backend_logind *session = userdata;
 
 	uint32_t major, minor;
@@ -389,13 +390,16 @@ static int handle_pause_device(sd_bus_message *msg, void *userdata, sd_bus_error
 		// When "force" is sent, we don't need to ack and can just rely
 		// on the coming Active session property change.
 		set_active(session, false);
+		sd_bus_message *reply = NULL;
+		sd_bus_error error = SD_BUS_ERROR_NULL;
 		ret = sd_bus_call_method(session->bus, "org.freedesktop.login1", session->path,
 					 "org.freedesktop.login1.Session", "PauseDeviceComplete",
-					 ret_error, &msg, "uu", major, minor);
+					 &error, &reply, "uu", major, minor);
 		if (ret < 0) {
-			log_errorf("Could not send PauseDeviceComplete signal: %s",
-				   ret_error->message);
+			log_errorf("Could not send PauseDeviceComplete signal: %s", error.message);
 		}
+		sd_bus_error_free(&error);
+		sd_bus_message_unref(reply);
 	}
 
 	return 0;
@@ -488,8 +492,10 @@ static int handle_properties_changed(sd_bus_message *msg, void *userdata, sd_bus
 							  &value);
 			if (ret < 0) {
 				log_errorf("Could not get '%s' property: %s", field, error.message);
+				sd_bus_error_free(&error);
 				continue;
 			}
+			sd_bus_error_free(&error);
 
 			log_debugf("%s state changed: %d", field, value);
 			set_active(session, value);
-- 
2.43.0


From bee5cdf1a8f34f598da14d02003c441a3334fba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:35 +0000
Subject: [PATCH 23/40] fix: report a lost D-Bus connection from
 libseat_dispatch

---
 libseat/backend/logind.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/libseat/backend/logind.c b/libseat/backend/logind.c
index 6b2716f..2c8fe17 100644
--- a/libseat/backend/logind.c
+++ b/libseat/backend/logind.c
@@ -260,7 +260,7 @@ static int dispatch_and_execute(struct libseat *base, int timeout) {
 	while ((dispatched = sd_bus_process(backend->bus, NULL)) > 0) {
 		total_dispatched += dispatched;
 	}
-	if (total_dispatched == 0 && timeout != 0) {
+	if (dispatched == 0 && total_dispatched == 0 && timeout != 0) {
 		if (poll_connection(backend, timeout) == -1) {
 			log_errorf("Could not poll connection: %s", strerror(errno));
 			return -1;
@@ -269,6 +269,11 @@ static int dispatch_and_execute(struct libseat *base, int timeout) {
 			total_dispatched += dispatched;
 		}
 	}
+	if (dispatched < 0) {
+		log_errorf("Could not process D-Bus messages: %s", strerror(-dispatched));
+		errno = -dispatched;
+		return -1;
+	}
 	check_pending_events(backend);
 	return total_dispatched;
 }
-- 
2.43.0


From 0840f1da51da6aaac283f6dac2320f26488437fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:04 +0000
Subject: [PATCH 24/40] fix: give up the connection if waiting for a response
 fails

---
 libseat/backend/seatd.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libseat/backend/seatd.c b/libseat/backend/seatd.c
index 3ef1b11..e9d23b8 100644
--- a/libseat/backend/seatd.c
+++ b/libseat/backend/seatd.c
@@ -309,6 +309,9 @@ static int read_until_response(struct backend_seatd *backend) {
 		}
 		if (poll_connection(backend, -1) == -1) {
 			log_errorf("Could not poll connection: %s", strerror(errno));
+			// The response is still to come, and would be taken
+			// for that of the next request
+			set_error(backend);
 			return -1;
 		}
 	}
-- 
2.43.0


From 2bed3080f3fae2b9f103abf8e9e7abca3d8966bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:33 +0000
Subject: [PATCH 25/40] fix: refuse a negative device id from the server

---
 libseat/backend/seatd.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/libseat/backend/seatd.c b/libseat/backend/seatd.c
index e9d23b8..0680ed9 100644
--- a/libseat/backend/seatd.c
+++ b/libseat/backend/seatd.c
@@ -557,6 +557,13 @@ static int open_device(struct libseat *base, const char *path, int *fd) {
 	if (read_header(backend, SERVER_DEVICE_OPENED, sizeof rmsg, false) == SIZE_MAX ||
 	    conn_get(backend, &rmsg, sizeof rmsg) == -1 || conn_get_fd(backend, fd)) {
 		res = -1;
+	} else if (rmsg.device_id < 0) {
+		log_errorf("Invalid message: negative device id %d", rmsg.device_id);
+		close(*fd);
+		*fd = -1;
+		set_error(backend);
+		errno = EBADMSG;
+		res = -1;
 	} else {
 		res = rmsg.device_id;
 	}
-- 
2.43.0


From 64f716e0cfa2f5caab56b75ef61652b739266923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:35 +0000
Subject: [PATCH 26/40] fix: refuse an error from the server that is none

---
 libseat/backend/seatd.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libseat/backend/seatd.c b/libseat/backend/seatd.c
index 0680ed9..094c4fd 100644
--- a/libseat/backend/seatd.c
+++ b/libseat/backend/seatd.c
@@ -160,7 +160,8 @@ static size_t read_header(struct backend_seatd *backend, uint16_t expected_opcod
 				   expected_opcode, header.opcode);
 			set_error(backend);
 			errno = EBADMSG;
-		} else if (header.size != sizeof msg || conn_get(backend, &msg, sizeof msg) == -1) {
+		} else if (header.size != sizeof msg ||
+			   conn_get(backend, &msg, sizeof msg) == -1 || msg.error_code <= 0) {
 			set_error(backend);
 			errno = EBADMSG;
 		} else {
-- 
2.43.0


From df30fed8ec0924d3a1432e6c61a3cb6158a68f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:48 +0000
Subject: [PATCH 27/40] fix: set errno when the no-op backend refuses to switch
 session

libseat_switch_session promises -1 with errno set on error.
---
 libseat/backend/noop.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libseat/backend/noop.c b/libseat/backend/noop.c
index 18f26c3..7d07281 100644
--- a/libseat/backend/noop.c
+++ b/libseat/backend/noop.c
@@ -72,6 +72,7 @@ static int switch_session(struct libseat *base, int s) {
 	(void)base;
 	(void)s;
 	log_errorf("No-op backend cannot switch to session %d", s);
+	errno = ENOSYS;
 	return -1;
 }
 
-- 
2.43.0


From 22e53e80b23c8f8d930b1cdde4da832e3dd8c95c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:46 +0000
Subject: [PATCH 28/40] fix: remove the logind signal handlers when the seat is
 closed

The system bus may be shared with the application and outlive the seat. Its
signal handlers then still referred to the freed seat.
---
 libseat/backend/logind.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/libseat/backend/logind.c b/libseat/backend/logind.c
index 2c8fe17..df23e2f 100644
--- a/libseat/backend/logind.c
+++ b/libseat/backend/logind.c
@@ -34,6 +34,8 @@ struct backend_logind {
 	void *seat_listener_data;
 
 	sd_bus *bus;
+	sd_bus_slot *pause_slot;
+	sd_bus_slot *properties_slot;
 	char *id;
 	char *seat;
 	char *path;
@@ -52,6 +54,8 @@ static struct backend_logind *backend_logind_from_libseat_backend(struct libseat
 
 static void destroy(struct backend_logind *backend) {
 	assert(backend);
+	sd_bus_slot_unref(backend->pause_slot);
+	sd_bus_slot_unref(backend->properties_slot);
 	if (backend->bus != NULL) {
 		sd_bus_unref(backend->bus);
 	}
@@ -530,15 +534,16 @@ static int add_signal_matches(struct backend_logind *backend) {
 	static const char *property_interface = "org.freedesktop.DBus.Properties";
 	int ret;
 
-	ret = sd_bus_match_signal(backend->bus, NULL, logind, backend->path, session_interface,
-				  "PauseDevice", handle_pause_device, backend);
+	ret = sd_bus_match_signal(backend->bus, &backend->pause_slot, logind, backend->path,
+				  session_interface, "PauseDevice", handle_pause_device, backend);
 	if (ret < 0) {
 		log_errorf("Could not add D-Bus match: %s", strerror(-ret));
 		return ret;
 	}
 
-	ret = sd_bus_match_signal(backend->bus, NULL, logind, backend->path, property_interface,
-				  "PropertiesChanged", handle_properties_changed, backend);
+	ret = sd_bus_match_signal(backend->bus, &backend->properties_slot, logind, backend->path,
+				  property_interface, "PropertiesChanged",
+				  handle_properties_changed, backend);
 	if (ret < 0) {
 		log_errorf("Could not add D-Bus match: %s", strerror(-ret));
 		return ret;
-- 
2.43.0


From 11b029d395f345ad45ba3090e4ec6a683e9bb362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:47 +0000
Subject: [PATCH 29/40] fix: fail opening a logind seat if memory runs out

---
 libseat/backend/logind.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/libseat/backend/logind.c b/libseat/backend/logind.c
index df23e2f..0927164 100644
--- a/libseat/backend/logind.c
+++ b/libseat/backend/logind.c
@@ -573,6 +573,9 @@ static int manager_get_session_path(struct backend_logind *session, char **sessi
 	}
 	free(*session_path);
 	*session_path = strdup(path);
+	if (*session_path == NULL) {
+		ret = -ENOMEM;
+	}
 
 out:
 	sd_bus_error_free(&error);
@@ -602,6 +605,9 @@ static int manager_get_seat_path(struct backend_logind *session, char **seat_pat
 	}
 	free(*seat_path);
 	*seat_path = strdup(path);
+	if (*seat_path == NULL) {
+		ret = -ENOMEM;
+	}
 
 out:
 	sd_bus_error_free(&error);
@@ -623,6 +629,10 @@ static int get_display_session(char **session_id) {
 			goto error;
 		}
 		*session_id = strdup(xdg_session_id);
+		if (*session_id == NULL) {
+			ret = -ENOMEM;
+			goto error;
+		}
 		goto success;
 	}
 
-- 
2.43.0


From e92e8ee9968e693bea7e5f73a58c6c226a562b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:49 +0000
Subject: [PATCH 30/40] fix: set errno when a logind request fails

libseat promises -1 with errno set on error, but sd-bus returns the error.
---
 libseat/backend/logind.c | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/libseat/backend/logind.c b/libseat/backend/logind.c
index 0927164..88eb746 100644
--- a/libseat/backend/logind.c
+++ b/libseat/backend/logind.c
@@ -142,7 +142,8 @@ static int open_device(struct libseat *base, const char *path, int *fd) {
 	// so we just clone it.
 	tmpfd = fcntl(tmpfd, F_DUPFD_CLOEXEC, 0);
 	if (tmpfd < 0) {
-		log_errorf("Could not duplicate fd: %s", strerror(errno));
+		ret = -errno;
+		log_errorf("Could not duplicate fd: %s", strerror(-ret));
 		tmpfd = -1;
 		goto out;
 	}
@@ -153,6 +154,9 @@ out:
 	sd_bus_error_free(&error);
 	sd_bus_message_unref(msg);
 	check_pending_events(session);
+	if (tmpfd < 0) {
+		errno = -ret;
+	}
 	return tmpfd;
 }
 
@@ -183,7 +187,11 @@ static int close_device(struct libseat *base, int device_id) {
 	sd_bus_error_free(&error);
 	sd_bus_message_unref(msg);
 	check_pending_events(session);
-	return ret < 0 ? -1 : 0;
+	if (ret < 0) {
+		errno = -ret;
+		return -1;
+	}
+	return 0;
 }
 
 static int switch_session(struct libseat *base, int s) {
@@ -206,7 +214,11 @@ static int switch_session(struct libseat *base, int s) {
 	sd_bus_error_free(&error);
 	sd_bus_message_unref(msg);
 	check_pending_events(session);
-	return ret < 0 ? -1 : 0;
+	if (ret < 0) {
+		errno = -ret;
+		return -1;
+	}
+	return 0;
 }
 
 static int disable_seat(struct libseat *base) {
-- 
2.43.0


From 670ca876f69110404b1c1649429efca61966c7b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:17 +0000
Subject: [PATCH 31/40] fix: leave the options of the command to the command

glibc's getopt also picks up options that follow the first non-option
argument, so seatd-launch took options meant for the command as its own.
---
 seatd-launch/seatd-launch.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seatd-launch/seatd-launch.c b/seatd-launch/seatd-launch.c
index 65d4f33..de30673 100644
--- a/seatd-launch/seatd-launch.c
+++ b/seatd-launch/seatd-launch.c
@@ -20,7 +20,7 @@ int main(int argc, char *argv[]) {
 
 	int c;
 	char loglevel[16] = "info";
-	while ((c = getopt(argc, argv, "vhl:")) != -1) {
+	while ((c = getopt(argc, argv, "+vhl:")) != -1) {
 		switch (c) {
 		case 'l':
 			strncpy(loglevel, optarg, sizeof loglevel);
-- 
2.43.0


From 0db7e2e0e9edf0ed0d3e029a51af8e6227f621d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:55 +0000
Subject: [PATCH 32/40] fix: do not signal a seatd that has already been waited
 for

Its process id may belong to another process by then.
---
 seatd-launch/seatd-launch.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seatd-launch/seatd-launch.c b/seatd-launch/seatd-launch.c
index de30673..f2355d8 100644
--- a/seatd-launch/seatd-launch.c
+++ b/seatd-launch/seatd-launch.c
@@ -77,7 +77,7 @@ int main(int argc, char *argv[]) {
 		pid_t p = waitpid(seatd_child, NULL, WNOHANG);
 		if (p == seatd_child) {
 			fprintf(stderr, "seatd exited prematurely\n");
-			goto error_seatd;
+			goto error;
 		} else if (p == -1 && (errno != EINTR && errno != ECHILD)) {
 			perror("Could not wait for seatd process");
 			goto error_seatd;
-- 
2.43.0


From 771869c84436c5de200364d45f0e1b5eca521b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:33 +0000
Subject: [PATCH 33/40] fix: refuse a client if the current VT cannot be
 determined

If /dev/tty0 could not be opened, the last known VT, or VT 0, was used
instead.
---
 seatd/seat.c | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/seatd/seat.c b/seatd/seat.c
index 0df55b0..e4a9c02 100644
--- a/seatd/seat.c
+++ b/seatd/seat.c
@@ -65,14 +65,19 @@ void seat_destroy(struct seat *seat) {
 	free(seat);
 }
 
-static void seat_update_vt(struct seat *seat) {
+static int seat_update_vt(struct seat *seat) {
 	int tty0fd = terminal_open(0);
 	if (tty0fd == -1) {
 		log_errorf("Could not open tty0 to update VT: %s", strerror(errno));
-		return;
+		return -1;
 	}
-	seat->cur_vt = terminal_current_vt(tty0fd);
+	int vt = terminal_current_vt(tty0fd);
 	close(tty0fd);
+	if (vt == -1) {
+		return -1;
+	}
+	seat->cur_vt = vt;
+	return 0;
 }
 
 static int vt_watch(int vt) {
@@ -223,8 +228,7 @@ int seat_add_client(struct seat *seat, struct client *client) {
 	}
 
 	if (seat->vt_bound) {
-		seat_update_vt(seat);
-		if (seat->cur_vt == -1) {
+		if (seat_update_vt(seat) == -1) {
 			log_error("Could not determine VT for client");
 			errno = EINVAL;
 			return -1;
-- 
2.43.0


From 6d185f707f447767e58bec6a0a251244a3d8b864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:34 +0000
Subject: [PATCH 34/40] fix: do not abort if a VT acquisition cannot be looked
 up

The VT is not known between a release and the next acquisition. If
/dev/tty0 could not be opened at the acquisition, acknowledging it
failed an assertion in terminal_open.
---
 seatd/seat.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/seatd/seat.c b/seatd/seat.c
index e4a9c02..51285bb 100644
--- a/seatd/seat.c
+++ b/seatd/seat.c
@@ -130,8 +130,8 @@ static int vt_switch(struct seat *seat, int vt) {
 	return 0;
 }
 
-static int vt_ack(struct seat *seat, bool release) {
-	int tty0fd = terminal_open(seat->cur_vt);
+static int vt_ack(bool release) {
+	int tty0fd = terminal_open(0);
 	if (tty0fd == -1) {
 		log_errorf("Could not open tty0 to ack VT signal: %s", strerror(errno));
 		return -1;
@@ -724,7 +724,7 @@ int seat_vt_activate(struct seat *seat) {
 	}
 	seat_update_vt(seat);
 	log_debug("Activating VT");
-	vt_ack(seat, false);
+	vt_ack(false);
 	if (seat->active_client == NULL) {
 		seat_activate(seat);
 	}
@@ -748,7 +748,7 @@ int seat_vt_release(struct seat *seat) {
 		seat_disable_client(seat->active_client);
 	}
 
-	if (vt_ack(seat, true) == 0) {
+	if (vt_ack(true) == 0) {
 		seat->cur_vt = -1;
 	}
 	// Otherwise, the kernel is no longer waiting to switch, as configuring
-- 
2.43.0


From 2431b48b14b56bcd636d488b2eacc5b2e58b41b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:23 +0000
Subject: [PATCH 35/40] fix: do not wait in the first logind dispatch after
 telling the state

---
 libseat/backend/logind.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/libseat/backend/logind.c b/libseat/backend/logind.c
index 88eb746..c8b1cc0 100644
--- a/libseat/backend/logind.c
+++ b/libseat/backend/logind.c
@@ -260,7 +260,11 @@ static int poll_connection(struct backend_logind *backend, int timeout) {
 
 static int dispatch_and_execute(struct libseat *base, int timeout) {
 	struct backend_logind *backend = backend_logind_from_libseat_backend(base);
+	int total_dispatched = 0;
 	if (backend->initial_setup) {
+		// This counts as a dispatched event, so that we do not wait for
+		// another one that may never come.
+		total_dispatched++;
 		backend->initial_setup = false;
 		if (backend->active) {
 			backend->seat_listener->enable_seat(&backend->base,
@@ -271,7 +275,6 @@ static int dispatch_and_execute(struct libseat *base, int timeout) {
 		}
 	}
 
-	int total_dispatched = 0;
 	int dispatched = 0;
 	while ((dispatched = sd_bus_process(backend->bus, NULL)) > 0) {
 		total_dispatched += dispatched;
-- 
2.43.0


From fb1f31733b0b0c988d0d5a3b27145cf182e5e2b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:39 +0000
Subject: [PATCH 36/40] fix: do not wait in the first no-op dispatch after
 enabling the seat

---
 libseat/backend/noop.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libseat/backend/noop.c b/libseat/backend/noop.c
index 7d07281..dfa0af8 100644
--- a/libseat/backend/noop.c
+++ b/libseat/backend/noop.c
@@ -87,6 +87,8 @@ static int dispatch_background(struct libseat *base, int timeout) {
 	if (backend->initial_setup) {
 		backend->initial_setup = false;
 		backend->seat_listener->enable_seat(&backend->base, backend->seat_listener_data);
+		// The event the caller might be waiting for was just delivered.
+		timeout = 0;
 	}
 
 	struct pollfd fd = {
-- 
2.43.0


From f718d572cf73dc113ddb5c64d4cb0e8aec8ff908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:30 +0000
Subject: [PATCH 37/40] fix: restore the default action of SIGCHLD in
 seatd-launch

If it is started with SIGCHLD ignored, waitpid returns no status: the
exit status of the command was lost, and a seatd which exited before
becoming ready was waited for forever, without pausing.
---
 seatd-launch/seatd-launch.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/seatd-launch/seatd-launch.c b/seatd-launch/seatd-launch.c
index f2355d8..6b87cc5 100644
--- a/seatd-launch/seatd-launch.c
+++ b/seatd-launch/seatd-launch.c
@@ -46,6 +46,9 @@ int main(int argc, char *argv[]) {
 	}
 	char **command = &argv[optind];
 
+	// An ignored SIGCHLD is inherited, and leaves nothing to wait for
+	signal(SIGCHLD, SIG_DFL);
+
 	int readiness_pipe[2];
 	if (pipe(readiness_pipe) == -1) {
 		perror("Could not create pipe");
-- 
2.43.0


From e89d2ec128bb40e91de3f456b3e9729a784157a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:56 +0000
Subject: [PATCH 38/40] fix: have DRM devices that never were master try again
 when re-enabled

---
 seatd/seat.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/seatd/seat.c b/seatd/seat.c
index 51285bb..5250e17 100644
--- a/seatd/seat.c
+++ b/seatd/seat.c
@@ -450,7 +450,10 @@ static int seat_deactivate_device(struct seat_device *seat_device) {
 	}
 	switch (seat_device->type) {
 	case SEAT_DEVICE_TYPE_DRM:
-		if (drm_drop_master(seat_device->fd) == -1) {
+		// EINVAL means that the fd is not master, as it may be if
+		// another one was when it tried to become it. There is nothing
+		// to revoke then, but it has to try again when re-activated.
+		if (drm_drop_master(seat_device->fd) == -1 && errno != EINVAL) {
 			log_errorf("Could not revoke drm master on device fd: %s", strerror(errno));
 			return -1;
 		}
-- 
2.43.0


From 230def7ef06824af19d6eba68e68347c2f57bb9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:19 +0000
Subject: [PATCH 39/40] fix: release a device that was taken from logind but
 cannot be returned

---
 libseat/backend/logind.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/libseat/backend/logind.c b/libseat/backend/logind.c
index c8b1cc0..e566d74 100644
--- a/libseat/backend/logind.c
+++ b/libseat/backend/logind.c
@@ -135,7 +135,7 @@ static int open_device(struct libseat *base, const char *path, int *fd) {
 	if (ret < 0) {
 		log_errorf("Could not parse D-Bus response: %s", strerror(-ret));
 		tmpfd = -1;
-		goto out;
+		goto error_release;
 	}
 
 	// The original fd seems to be closed when the message is freed
@@ -145,10 +145,17 @@ static int open_device(struct libseat *base, const char *path, int *fd) {
 		ret = -errno;
 		log_errorf("Could not duplicate fd: %s", strerror(-ret));
 		tmpfd = -1;
-		goto out;
+		goto error_release;
 	}
 
 	*fd = tmpfd;
+	goto out;
+
+error_release:
+	// logind would refuse to hand out the device again
+	sd_bus_call_method(session->bus, "org.freedesktop.login1", session->path,
+			   "org.freedesktop.login1.Session", "ReleaseDevice", NULL, NULL, "uu",
+			   major(st.st_rdev), minor(st.st_rdev));
 
 out:
 	sd_bus_error_free(&error);
-- 
2.43.0


From 91b894552fe0c0e26c838bfdae057f4914c9e1e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:40 +0000
Subject: [PATCH 40/40] fix: report why a device descriptor could not be
 duplicated

---
 seatd/client.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/seatd/client.c b/seatd/client.c
index 374ca90..6403451 100644
--- a/seatd/client.c
+++ b/seatd/client.c
@@ -232,8 +232,10 @@ static int handle_open_device(struct client *client, char *path) {
 
 	int dupfd = dup(device->fd);
 	if (dupfd == -1) {
+		int saved_errno = errno;
 		log_errorf("Could not dup fd: %s", strerror(errno));
 		seat_close_device(client, device);
+		errno = saved_errno;
 		goto fail;
 	}
 
-- 
2.43.0

