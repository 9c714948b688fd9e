#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=()):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
      "anchors": {"files": files,
        "state": [dict(zip(("name","meaning","where"), s)) for s in state],
        "mechanism": [dict(zip(("name","where"), m)) for m in mech],
        "observe_at": observe, "hook_needed": None}})

NT = "No existing test touches this code: the suite only exercises the linked list, the connection buffer and the poller with a few fixed examples. "

p("C01", "At most one session holds a seat at a time",
  "At any moment at most one client of a seat is enabled: after the daemon has sent a client the enable-seat event, it sends enable-seat to no client of that seat until the enabled client has acknowledged a disable, closed the seat or disconnected. A client that already holds the seat, or that has been told to disable and has not acknowledged, is never told it is enabled again.",
  ["histories","schedules"], "Every interleaving of connects, seat opens/closes, acknowledgements, switch requests, VT signals, disconnects and kills of any number of clients, on VT-bound and non-VT-bound seats.",
  NT + "Exclusivity is a claim about all multi-client histories.",
  ["seatd/seat.c","seatd/client.c","seatd/server.c"],
  [("active-client guard","seat_open_client/seat_activate in seatd/seat.c"),("pending-disable state until ack","seat_disable_client/seat_ack_disable_client in seatd/seat.c")],
  ["bytes the daemon sends to each client"], [("active_client","the client holding the seat","include/seat.h"),("state","client life-cycle state","include/client.h")])

p("C02", "Only the enabled session can obtain device access",
  "A device-open request yields a device descriptor only if it is processed while the requesting client is the enabled session of its seat. Clients without a seat, waiting, told to disable but not yet acknowledged, disabled, or closed never receive a descriptor; a seated client that is not enabled gets an error reply with EPERM.",
  ["histories","inputs"], "Every client state reachable through any history, with requests arriving in any order relative to seat hand-overs, including requests pipelined before the client has read the disable event.",
  NT + "It quantifies over all reachable states and races between requests and hand-over.",
  ["seatd/seat.c","seatd/client.c"],
  [("state check on open","seat_open_device in seatd/seat.c"),("seat membership check","handle_open_device in seatd/client.c")],
  ["replies and passed descriptors","device opens made by the daemon"])

p("C03", "Losing the seat or a handle revokes device access",
  "Whenever a client stops being the enabled session (told to disable by a switch or VT release, closes the seat, disconnects, dies) or closes a device, every descriptor it obtained for the devices concerned loses its privileges: DRM master is dropped and evdev/hidraw descriptors are revoked. This has happened before any other client is told it is enabled and before a VT release is granted to the kernel. A failing revocation of one device does not keep the remaining devices from being revoked, and is tried again when the device or the session is later torn down.",
  ["histories","fault_sequences","schedules"], "Every set of open devices (all device types, several handles), every way of losing the seat, every order of events, and failures of individual revoke calls.",
  NT + "It needs every device set, every exit path and every injected revoke failure.",
  ["seatd/seat.c","seatd/client.c","common/drm.c","common/evdev.c","common/hidraw.c"],
  [("deactivate all on disable","seat_disable_client in seatd/seat.c"),("deactivate on close/removal","seat_close_device/seat_remove_client in seatd/seat.c")],
  ["privilege state of every open file description handed to a client (ioctls seen by the kernel)"])

p("C04", "A returning session gets its kept DRM devices back",
  "When a client is enabled again, every DRM device it kept open regains DRM master on the same open file description, without being reopened, before the client is told it is enabled. Input devices that were revoked are never silently replaced, and no device of a client that is not being enabled is activated. A master failure on one device does not prevent the session from being enabled or the other devices from being restored.",
  ["histories","fault_sequences"], "All device sets kept over any number of disable/enable cycles, contention with other sessions' masters on the same cards, and failing set-master calls.",
  NT + "It needs multi-cycle histories with contention over the same card.",
  ["seatd/seat.c","common/drm.c"],
  [("re-activation before enable event","seat_open_client/seat_activate_device in seatd/seat.c")],
  ["master state per open file description at the time the enable event is sent"])

p("C05", "Clients can reach only genuine seat device files",
  "On behalf of clients, the daemon opens only files whose fully resolved path is a DRM node under /dev/dri/, an evdev node /dev/input/event*, or (where the platform supports revoking it) a /dev/hidraw* node; any other path (links, dot-dot, relative, lookalike prefixes, non-existing, replaced by a symlink between check and open) gets an error reply and no descriptor. A path that resolves to such a node is accepted however it is spelled. Devices are opened non-blocking, close-on-exec, read-write, without becoming a controlling terminal and without following a final symlink.",
  ["inputs","schedules"], "All path strings up to the protocol limit over arbitrary file-system layouts (symlink chains, loops, dot-dot, missing parts), including a concurrent replacement of the file between resolution and open.",
  NT + "It quantifies over all paths, layouts and races.",
  ["seatd/seat.c","seatd/client.c","common/drm.c","common/evdev.c","common/hidraw.c"],
  [("canonicalise then classify then open the canonical path","seat_open_device in seatd/seat.c"),("prefix tests","path_is_drm/path_is_evdev/path_is_hidraw in common/")],
  ["every open the daemon performs (resolved object and flags)"])

p("C06", "Device handles are exact: id, descriptor, sharing, limit",
  "A successful open reply carries a positive device id and exactly one descriptor, which refers to the requested device; ids are unique among the client's open devices and mean nothing to other clients. Opening a device that is already open and usable returns the same id and the same open file description, and it stays usable until it has been closed as many times as it was opened; closing an id that is not open gets EBADF and affects nothing. A client holds at most 128 distinct devices: further opens get EMFILE, and closing one makes room again.",
  ["histories","inputs"], "All sequences of open/close of arbitrary paths and ids (own, foreign, zero, negative, stale) by several clients, up to and beyond the device limit, across disable/enable cycles.",
  NT + "It is a claim about all open/close histories and all id values.",
  ["seatd/seat.c","seatd/client.c"],
  [("id allocation, ref-count and limit","seat_open_device/seat_close_device/seat_find_device in seatd/seat.c")],
  ["ids in replies, passed descriptors, device opens/closes by the daemon"],
  [("ref_cnt","opens minus closes of a device entry","include/seat.h")])

p("C07", "Exactly one reply per request, in order, whatever the framing",
  "Every well-formed request on an open connection is answered by exactly one reply of the matching kind or one error reply carrying the errno of the cause (EPERM, EINVAL, EBUSY, EBADF, EMFILE, ENOENT or the failing system call's), in request order, with event messages only ever placed between whole messages. The outcome does not depend on how the byte stream is cut into writes, on pipelining, on partial or interrupted socket writes, or on what other clients are doing at the same time; every legal request size, up to a path of 255 bytes, is accepted. Pings are answered in every state.",
  ["inputs","histories","schedules"], "All request sequences, all fragmentations and coalescings of the byte stream, several clients interleaved, partial/interrupted sends.",
  NT + "The connection tests never go through the protocol layer.",
  ["seatd/client.c","common/connection.c","include/protocol.h"],
  [("header/size framing loop with restore","client_handle_connection in seatd/client.c"),("one reply per handler","handle_* in seatd/client.c")],
  ["byte streams in both directions"])

p("C08", "Malformed or hostile clients are dropped and hurt only themselves",
  "Whatever bytes or descriptors a client sends, the daemon never crashes, corrupts memory, blocks or spins: a malformed message (unknown opcode, wrong size, bad path encoding, over-long message) ends that client's connection without being acted upon, as does end-of-stream in any position. Other clients' sessions, replies and devices are unaffected, new clients are still accepted, and the requests a client sent before its malformed message are honoured.",
  ["inputs","histories"], "All byte strings at any point in any history, including truncated messages followed by a half-close, descriptor floods, and disconnects at any byte.",
  NT + "It quantifies over all byte strings in all states.",
  ["seatd/client.c","common/connection.c","seatd/server.c"],
  [("message validation","client_handle_opcode in seatd/client.c"),("bounded buffers","common/connection.c")],
  ["daemon liveness, sanitizer reports, other clients' streams"])

p("C09", "The daemon leaks no descriptors and no memory",
  "Whenever the daemon is idle it holds open exactly its own sockets and pipes, one socket per connected client and one descriptor per distinct device still open by a client; everything belonging to a device, seat session or client is released when it is closed or goes away, on every path including errors, and nothing is closed twice. Descriptors sent by clients are discarded with the client. After the last client has gone, the daemon's memory use is back to what it was before the first one came.",
  ["histories","fault_sequences"], "All histories of connects, requests (successful, failing, malformed), disconnects and injected failures of system calls.",
  NT + "Leaks accumulate over histories; no test observes descriptors or memory.",
  ["seatd/seat.c","seatd/client.c","seatd/server.c","common/connection.c","seatd/poller.c"],
  [("teardown","client_destroy/seat_remove_client/seat_close_device"),("descriptor queues closed after send and on teardown","common/connection.c")],
  ["table of descriptors and allocations owned by the daemon"])

p("C10", "Session life cycle and switching follow the requests",
  "A connection can open the seat once; opening twice, reopening after closing, or using seat requests without a seat ends the connection, and on a VT-bound seat a second session for a VT, or any new session while another is enabled, is refused. Only the enabled session may switch: switching to another existing session (on a VT-bound seat, asking the kernel for that VT) disables it and, once it has acknowledged, enables exactly the requested session, unless that one has gone; a request for the own session succeeds without effect, and an invalid, unknown or unauthorised one is refused with EINVAL or EPERM. Disable acknowledgements are accepted only from a client that has been told to disable, and every session can be reached by its number.",
  ["histories","inputs"], "All request histories of several clients with arbitrary session numbers, on VT-bound and non-VT-bound seats, including targets that disappear while the switch is pending.",
  NT + "It is a state-machine claim over all histories.",
  ["seatd/seat.c","seatd/client.c"],
  [("state machine","seat_add_client/seat_set_next_session/seat_ack_disable_client/seat_remove_client in seatd/seat.c")],
  ["replies, events and VT activation requests"], [("next_client","queued switch target","include/seat.h")])

p("C11", "The seat never stays idle while a session could take it",
  "Whenever the daemon has handled everything pending and no client holds the seat (enabled, or told to disable and not yet acknowledged), there is no session that could take it: on a non-VT-bound seat no other session exists, on a VT-bound seat none belongs to the current VT. The session chosen is told so by an enable event, a session asked to give up the seat is told by exactly one disable event, and these events reach a client that reads its socket, no matter how late it reads.",
  ["histories","schedules"], "All ways the holder can go away (ack, close, disconnect, crash, protocol error) in any order with other clients' arrivals and departures, including slow readers.",
  NT + "It is a quiescent-state liveness claim over all histories.",
  ["seatd/seat.c","seatd/client.c","seatd/server.c"],
  [("activation after every release of the seat","seat_activate callers in seatd/seat.c"),("flush of event messages","client_send_enable_seat/client_send_disable_seat in seatd/client.c")],
  ["events each client receives"])

p("C12", "VT switches are always acknowledged, and sessions follow VTs",
  "On a VT-bound seat every VT release the kernel requests is granted without waiting for the client, and every VT acquisition is acknowledged, so no VT switch hangs, wherever in the daemon's work the signals arrive. From a release until the next acquisition or seat open no session is enabled; at an acquisition the session belonging to the new VT, if any, is enabled once the previous holder has given up the seat, and a session of another VT never is. On a non-VT-bound seat the VT signals have no effect and no terminal is touched.",
  ["histories","schedules"], "All sequences of user- and client-initiated VT switches over several VTs, with and without sessions, signals arriving between or inside any of the daemon's system calls, clients acknowledging early, late or never.",
  NT + "It quantifies over all VT switch sequences and signal arrival points.",
  ["seatd/seat.c","seatd/server.c","seatd/poller.c","common/terminal.c"],
  [("release/acquire handlers","seat_vt_release/seat_vt_activate in seatd/seat.c"),("signal dispatch","seatd/poller.c")],
  ["VT ioctls as the kernel sees them; enable events"], [("cur_vt","VT believed current, -1 while released","include/seat.h")])

p("C13", "Consoles are prepared for sessions and always given back",
  "While a session of a VT-bound seat is enabled its VT is in graphics mode, with kernel keyboard handling off and process-controlled switching on. When a session ends, by seat close, disconnect, crash, error or daemon shutdown, and in whatever state it was (enabled, waiting for its acknowledgement, disabled, switched away), its own VT is put back to text mode with the keyboard enabled in its default Unicode mode, unless another session has been enabled on that VT. VTs that belong to no session are never put in graphics mode, whatever their number, and no console becomes the daemon's controlling terminal.",
  ["histories","crash_points"], "All histories of VT-bound sessions over several VTs ending in any state and order, including between a VT release and the next acquisition, and daemon termination at any point.",
  NT + "It needs all ways a session can end combined with all VT positions.",
  ["seatd/seat.c","common/terminal.c"],
  [("vt_open/vt_close","seat_open_client and seat_remove_client in seatd/seat.c"),("teardown at exit","server_finish in seatd/server.c")],
  ["keyboard, display and switching mode of every VT"])

p("C14", "The message transport is a bounded lossless FIFO",
  "Bytes queued on a connection arrive at the other end exactly once, in order and unmodified, and descriptors queued with them arrive once, in order, not later than the bytes queued after them, across any mix of queueing, flushing, partial or interrupted or refused socket writes, reads of any size, un-reading and ring-buffer wrap-around. Operations that do not fit fail cleanly without disturbing what is queued; a read that has too little data reports EAGAIN and consumes nothing; end of stream is reported as such. Received descriptors are close-on-exec, and those that do not fit, and all undelivered ones at teardown, are closed and never leaked.",
  ["inputs","histories","fault_sequences"], "All sequences of put/flush/read/get/restore/descriptor operations of all sizes, from any counter position including 32-bit wrap-around, with short and failing socket calls.",
  "The connection tests use seven short fixed sequences, never wrap the ring, never pass descriptors and never see a short write.",
  ["common/connection.c","include/connection.h"],
  [("ring buffers and control messages","common/connection.c")],
  ["data and descriptors returned by the transport"])

p("C15", "The event loop dispatches exactly what is ready, exactly when live",
  "Each poll round calls exactly the callbacks of the descriptors that were registered before the round, not destroyed since, and ready for an event in their mask (or in error/hang-up), once each and with the events that hold; a destroyed source is never called again and a changed mask takes effect in the next round, even when sources are added, updated or destroyed from inside callbacks. Every signal that arrives is followed by at least one call of each live source registered for it, wherever it arrives, including during that source's own callback and between any two instructions of the loop, and no source is called without a signal since its last call. Destroying the last source for a signal restores the default handling, destroyed sources do not pile up, the loop waits again once everything has been served, and tearing the poller down releases everything.",
  ["histories","schedules"], "All sequences of add/update/destroy/readiness/signal operations, executed outside and inside callbacks, with signals at any system-call boundary and interrupted polls.",
  "The poller tests check one or two sources with fixed readiness, and never destroy or update a source or deliver a signal during dispatch.",
  ["seatd/poller.c","include/poller.h"],
  [("deferred destruction and table regeneration","regenerate/dispatch in seatd/poller.c"),("self-pipe","signal_handler in seatd/poller.c")],
  ["callback invocations"])

p("C16", "libseat delivers seat events once, in order, and never strands them",
  "With the seatd backend, each enable or disable event the server sends reaches the application's listener exactly once, in the order sent, from within a libseat dispatch, open or close call and never from another request. When an event arrived while a request was waiting for its reply, the application is woken up: the libseat descriptor becomes readable again without further calls, and the next dispatch delivers the event. Events interleaved with replies, in any fragmentation, do not disturb the replies, and a dispatch that finds nothing waits for something to arrive, up to its timeout.",
  ["histories","schedules","inputs"], "All interleavings of server events with replies and application calls, all fragmentations of the server's byte stream.",
  NT + "It quantifies over interleavings of events and replies.",
  ["libseat/backend/seatd.c"],
  [("pending event queue","queue_event/execute_events/read_and_queue"),("ping wake-up","check_pending_events/send_ping")],
  ["listener calls; readability of the libseat descriptor"])

p("C17", "libseat survives any server and reports connection loss",
  "Whatever the server sends, and whenever it stops or closes the connection, libseat calls return instead of crashing, corrupting memory, spinning or waiting for a peer that is gone. Malformed or unexpected messages and connection loss make the current call fail with -1 (or NULL) and errno set to a non-zero value, every later request fails likewise, and dispatch reports the loss whatever its timeout. All descriptors and memory are released by a failing open or by close, exactly once.",
  ["inputs","fault_sequences","crash_points"], "All server byte streams (malformed headers, sizes, opcodes, missing or surplus descriptors), truncation and closure at every byte, during every call.",
  NT + "It quantifies over all server behaviours and disconnect points.",
  ["libseat/backend/seatd.c","common/connection.c"],
  [("error state","set_error/cleanup in libseat/backend/seatd.c"),("reply validation","read_header and _open_seat")],
  ["return values, errno, descriptor table, sanitizer reports"])

p("C18", "libseat calls mean what the daemon decided, end to end",
  "An application using libseat against the daemon observes each request's true outcome: on success the device id and an independent, working, close-on-exec descriptor of the requested device (or 0), on refusal -1 with errno equal to the reason the daemon gave, and the connection stays usable afterwards. Once all events are dispatched, an application believes the seat enabled exactly when the daemon has it enabled, the seat name is the daemon's, and invalid arguments (over-long path, negative id or session) are refused with EINVAL without disturbing the session. Paths of every length up to 255 bytes work, and the daemon is looked for at the path SEATD_SOCK names (any that fits a socket address), by default at the compiled-in one.",
  ["histories","inputs"], "All sequences of libseat API calls by several applications with arbitrary arguments, interleaved with switches, VT events and deaths of other applications.",
  NT + "There is no test in which libseat and the daemon meet.",
  ["libseat/libseat.c","libseat/backend/seatd.c","seatd/client.c","seatd/seat.c"],
  [("request/reply wrappers","libseat/backend/seatd.c")],
  ["libseat API results versus a model of the seat"])

p("C19", "Backend selection and logging controls are honoured",
  "With LIBSEAT_BACKEND set, opening a seat uses exactly the backend of that name or fails (EINVAL for an unknown name), trying no other; without it the compiled-in backends are tried in the order seatd, logind, builtin until one succeeds, never the no-op one, and ENOSYS is reported if none does. A missing listener or listener callback is refused with EINVAL before any backend is tried, and every later call goes to the chosen backend with its arguments, result and errno unchanged. A log handler receives exactly the messages at or below the current log level, NULL restores the default, which prints each as one line to standard error, and logging never changes errno.",
  ["configurations","inputs","histories"], "All values of LIBSEAT_BACKEND, all subsets of failing backends, all argument values, all sequences of log level/handler changes and messages.",
  NT + "It quantifies over configurations.",
  ["libseat/libseat.c","common/log.c"],
  [("backend table walk","libseat_open_seat in libseat/libseat.c"),("level filter and errno save","_logf in common/log.c")],
  ["which backends are called, results, errno, handler calls"])

p("C20", "The logind backend mirrors the logind session state",
  "With the logind backend the listener is told the initial state once, at the first dispatch, and afterwards exactly every change of the session's Active state, those while the seat is being opened included, in order and without repeats, whether it arrives as a changed value, as an invalidated property or as a graceful pause of a device; a dispatch that has told it something does not wait for more, one that has found nothing waits up to its timeout, and one whose wait is ended by a message delivers it. A graceful pause is acknowledged to logind for exactly that device after the application was told to disable; forced pauses and removals are not acknowledged and unrelated properties or interfaces cause nothing. Handling messages corrupts no memory and leaks no message.",
  ["histories","inputs"], "All sequences of PropertiesChanged/PauseDevice signals with arbitrary contents, interleaved with application calls and failing D-Bus calls.",
  NT + "The backend is compiled but never run.",
  ["libseat/backend/logind.c"],
  [("signal handlers","handle_properties_changed/handle_pause_device/set_active")],
  ["listener calls; D-Bus calls made; message reference counts"])

p("C21", "The logind backend takes and releases exactly the right device",
  "The seat of the session named by XDG_SESSION_ID is opened, else of the process's, else of the user's display session, taking control of it without force and releasing it when closed; opening a device takes the device number of the given path (following links) and returns an independent close-on-exec descriptor of what logind supplied, usable as device id, and closing that id releases exactly the device number it refers to. Switching, seat name and session type are forwarded with the caller's values (the type once control is held; that it is refused fails nothing); if a D-Bus call or allocation fails, the call fails with -1 (or NULL) and errno set, leaking neither descriptors, messages nor memory, and a device taken meanwhile is released. If events were read while waiting for a reply, the application is woken up to dispatch them.",
  ["inputs","histories","fault_sequences"], "All device numbers, session names and environments, all sequences of calls, failure of every D-Bus call in turn.",
  NT + "The backend is compiled but never run.",
  ["libseat/backend/logind.c"],
  [("TakeDevice/ReleaseDevice by major:minor","open_device/close_device"),("ping wake-up","check_pending_events")],
  ["D-Bus calls made, descriptors, message reference counts"])

p("C22", "The daemon's socket life cycle and options are safe",
  "At start the daemon removes a left-over socket at its path, but refuses to start, leaving it untouched, if the path holds anything that is not a socket, or under seatd-launch anything at all. With a user or group given, the socket ends up mode 0770 and owned as requested, otherwise ownership is untouched; readiness is signalled by exactly one newline, followed by closing the descriptor, only once clients can connect. On SIGINT or SIGTERM it tears down every session, removes its socket and exits 0; invalid or conflicting options make it exit non-zero before touching anything.",
  ["configurations","fault_sequences","crash_points"], "All option combinations and orders, all pre-existing file types at the socket path, failures of each start-up system call, termination signals at any point.",
  NT + "The daemon's main program is never run by the tests.",
  ["seatd/seatd.c","seatd/server.c"],
  [("lstat/unlink guard, chmod/chown, readiness","main and open_socket in seatd/seatd.c"),("kill handler","server_handle_kill in seatd/server.c")],
  ["exit status, file system, readiness descriptor"])

p("C23", "seatd-launch runs the command safely and reports its fate",
  "seatd-launch starts the command only after its seatd has signalled readiness, with the real user's and group's ids in all three positions, with SEATD_SOCK pointing at the socket, and with the socket owned by that user and mode 0700; if anything before that fails the command is never run and the exit status is non-zero. It exits with the command's exit status, or 128+N if the command died of signal N, and whenever it exits after having started seatd it has told that seatd to terminate, and no other process, whatever SIGCHLD disposition and standard descriptors it inherited. The command gets its own arguments, including its options; seatd gets the requested log level and none of the environment.",
  ["configurations","fault_sequences","histories"], "All exit statuses and signals of the command, all behaviours of seatd (slow, early exit, no readiness, crash), real/effective ids, argument vectors, environments.",
  NT + "seatd-launch is never run by the tests.",
  ["seatd-launch/seatd-launch.c"],
  [("readiness wait, privilege drop, wait/kill","main in seatd-launch/seatd-launch.c")],
  ["ids, environment and arguments seen by the two children; exit status; socket ownership"])

p("C24", "Slow readers lose nothing and delay no one",
  "A client that does not read its socket neither blocks the daemon nor delays other clients. When it reads again it gets every reply and event in order, with the right descriptors, without having to send anything; if its backlog exceeds what can be buffered it is disconnected, and its session is released like that of any other lost client.",
  ["schedules","histories"], "All interleavings of a stalled client's requests and events with other clients' activity, any socket buffer size, any resume point, partial writes.",
  NT + "No test ever fills a socket.",
  ["seatd/client.c","common/connection.c","seatd/poller.c"],
  [("write-readiness re-arming","client_flush and client_handle_connection in seatd/client.c"),("bounded out queue","connection_put in common/connection.c")],
  ["byte and descriptor streams after the stalled client resumes"])

p("C25", "A failing system call or allocation is contained",
  "If any single memory allocation or system call (other than the wait for events) fails while the daemon serves clients, it keeps running and its guarantees keep holding: at most the request or connection being served fails, with an error reply or a disconnect, other clients are unaffected, no privileged device is left with a session that does not hold the seat, and nothing is leaked. The same request succeeds once the failure is gone. When controlling the consoles fails, which VT is shown and how its terminal is set may be wrong, but the daemon keeps running, no session is given out for a VT that could not be determined, and new clients are served afterwards.",
  ["fault_sequences","histories"], "For generated histories, every system call and allocation the daemon makes while serving clients is made to fail once, with each plausible errno.",
  NT + "No test injects failures.",
  ["seatd/seat.c","seatd/client.c","seatd/server.c","seatd/poller.c","common/connection.c"],
  [("error paths","seat_open_device, handle_open_device, client_create, server_add_client, poller_add_fd")],
  ["daemon liveness, replies, descriptor and privilege state after the fault"])

p("C26", "The embedded seatd behaves like the daemon and ends with its seat",
  "With the builtin backend an application gets the same results for the same calls as through a seatd daemon serving it alone, including devices, errors, events and VT handling. Closing the seat, or the death of the application, ends the embedded server, even while programs that the application started go on, and the server first revokes every device and restores the VT; if it cannot start, opening the seat fails and nothing stays behind.",
  ["histories","configurations","crash_points"], "All API call sequences, all environments, application death at any point.",
  NT + "The builtin backend is only covered by a smoke test that needs real hardware.",
  ["libseat/backend/seatd.c","seatd/server.c","seatd/client.c"],
  [("forked server over a socket pair","builtin_open_seat in libseat/backend/seatd.c"),("stop with only client","client_destroy in seatd/client.c")],
  ["API results, kernel device/VT state, server process state"])

p("C27", "The no-op backend acts as an always-enabled seat",
  "With the no-op backend the listener is enabled exactly once, at the first dispatch, which does not wait after that, and never disabled; a later dispatch waits for its timeout and no longer, returns 0 when interrupted, and -1 with errno if waiting fails. The seat is named seat0 and its descriptor is close-on-exec. Opening a device yields a fresh descriptor of the given file, opened non-blocking and close-on-exec without following a final symlink, or -1 with errno; descriptors belong to the application, closing and disabling always succeed, switching always fails, and closing the seat releases everything the library allocated.",
  ["histories","inputs"], "All sequences of API calls with arbitrary arguments and file-system layouts.",
  NT + "The backend is never run by the tests.",
  ["libseat/backend/noop.c"],
  [("noop_impl","libseat/backend/noop.c")],
  ["API results, descriptors, listener calls"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
for x in P:
    assert len(x["title"]) <= 80, x["id"]
    n = x["statement"].count(". ") + 1
    assert n <= 3, (x["id"], n)
