L = "libseat/backend/logind.c"
P = "seatd/poller.c"
E = "seatd/seat.c"
K = "seatd/client.c"
S = "seatd/seatd.c"
B = "libseat/backend/seatd.c"
W = "seatd/server.c"
N = "libseat/backend/noop.c"
A = "seatd-launch/seatd-launch.c"
rd = lambda f: open(V + "/tools/seedlib/" + f).read()

seed("c21-type-first", "C21", [(L, """	ret = session_take_control(backend);
	if (ret < 0) {
		goto error;
	}

	const char *env = getenv("XDG_SESSION_TYPE");
	if (env != NULL) {
		session_set_type(backend, env);
	}
""", """	const char *env = getenv("XDG_SESSION_TYPE");
	if (env != NULL) {
		session_set_type(backend, env);
	}

	ret = session_take_control(backend);
	if (ret < 0) {
		goto error;
	}
""")], r'''
#include "logind.h"
int main(void) {
	setenv("LIBSEAT_BACKEND", "logind", 1);
	setenv("XDG_SESSION_TYPE", "wayland", 1);
	unsetenv("XDG_SESSION_ID");
	struct libseat *s = libseat_open_seat(&listener, NULL);
	CHECK(s, "open_seat: %m");
	char *t = strstr(LOG, "SetType wayland"), *c = strstr(LOG, "TakeControl");
	CHECK(c && t && c < t, "the type is set by one who has no control of the session");
	libseat_close_seat(s);
	return 0;
}
''', "a session whose type is known", "the type is refused, since only the controller may set it", kind="logind")

seed("c21-needs-a-type", "C21", [(L, """		session_set_type(backend, env);
	}
""", """		ret = session_set_type(backend, env);
		if (ret < 0) {
			goto error;
		}
	}
""")], r'''
#include "logind.h"
int main(void) {
	setenv("LIBSEAT_BACKEND", "logind", 1);
	setenv("XDG_SESSION_TYPE", "wayland", 1);
	unsetenv("XDG_SESSION_ID");
	fail_member = "SetType";
	struct libseat *s = libseat_open_seat(&listener, NULL);
	CHECK(s, "the seat is not opened: %m");
	libseat_close_seat(s);
	return 0;
}
''', "a logind that does not know SetType (before version 246) and a session with a type", "the seat cannot be opened", kind="logind")


seed("c22-short-ids", "C22", [(S, "	int uid = -1, gid = -1;\n", "	short uid = -1, gid = -1;\n")], rd("seatd.sh") + r'''
[ "$(id -u nobody)" -gt 32767 ] || exit 0
cat > pre.c <<'EOF2'
#include <stdio.h>
#include <stdlib.h>
int chown(const char *p, unsigned u, unsigned g) {
	FILE *f = fopen("owner", "w");
	fprintf(f, "%u", u);
	fclose(f);
	return 0;
}
EOF2
gcc -shared -fPIC -w -o pre.so pre.c || exit 2
LD_PRELOAD=$t/pre.so ./seatd -u nobody -l silent &
p=$!
i=0
while [ ! -s owner ] && [ $i -lt 40 ]; do sleep 0.05; i=$((i + 1)); done
kill $p
wait $p
[ "$(cat owner)" = "$(id -u nobody)" ] || fail "owner $(cat owner)"
''', "a user whose id does not fit into 16 bits", "the socket is given to somebody else", kind="sh")

seed("c22-no-standard-input", "C22", [(S, "			if (readiness < 0) {\n", "			if (readiness <= 0) {\n")], rd("seatd.sh") + r'''
./seatd -l silent -n 0 0<> ready &
p=$!
i=0
while [ ! -s ready ] && [ $i -lt 40 ]; do sleep 0.05; i=$((i + 1)); done
kill $p 2>/dev/null
wait $p
[ -s ready ] || fail "no readiness"
''', "readiness is to be signalled on descriptor 0", "the daemon does not start", kind="sh")

seed("c23-not-in-path", "C23", [(A, "		execvp(command[0], command);\n", "		execv(command[0], command);\n")], rd("launch.sh") + r'''
./launch -- true 2>/dev/null
[ $? = 0 ] || fail "not run"
''', "a command given by its name alone", "the command is not found", kind="sh")

seed("c23-stopped", "C23", [(A, "		pid_t p = waitpid(child, &status, 0);\n", "		pid_t p = waitpid(child, &status, WUNTRACED);\n"), (A, "		abort(); // unreachable\n", "		return 0;\n")], rd("launch.sh") + r'''
./launch -- sh -c '(sleep 0.5; kill -CONT $$) & kill -STOP $$; echo > done; exit 7'
[ $? = 7 ] || fail "status"
[ -f done ] || fail "does not wait for the command"
''', "the command is stopped and continued", "seatd is ended while the command goes on", kind="sh")

seed("c18-interrupted", "C18", [(B, "		return (errno == EAGAIN || errno == EINTR) ? 0 : -1;\n	}\n\n	if (fd.revents", "		return errno == EAGAIN ? 0 : -1;\n	}\n\n	if (fd.revents")], r'''
#include "libs.h"
static void on_usr1(int s) {}
static void script(void) {
	in(), opened();
	in();
	nap(30);
	kill(getppid(), SIGUSR1);
	nap(30);
	char b[8];
	int id = 7;
	int fd = open("/dev/null", O_RDWR);
	outfd(b, mk(b, SERVER_DEVICE_OPENED, &id, 4), fd);
}
int main(void) {
	struct sigaction sa = {.sa_handler = on_usr1};
	sigaction(SIGUSR1, &sa, NULL);
	pid_t p = serve(script);
	struct libseat *s = libseat_open_seat(&listener, NULL);
	CHECK(s, "open_seat: %m");
	int fd = -1;
	CHECK(libseat_open_device(s, "/dev/dri/card0", &fd) == 7, "the request fails: %m");
	return 0;
}
''', "a signal arrives while a request waits for its reply", "the request fails and the connection is lost", kind="lib")

seed("c11-only-waiting", "C11", [(E, """		log_debugf("Activating first client on %s", seat->seat_name);
		next_client = (struct client *)seat->clients.next;
""", """		log_debugf("Activating first waiting client on %s", seat->seat_name);
		for (struct linked_list *elem = seat->clients.next; elem != &seat->clients;
		     elem = elem->next) {
			struct client *client = (struct client *)elem;
			if (client->state == CLIENT_NEW) {
				next_client = client;
				goto done;
			}
		}
		return -1;
""")], r'''
#include "mini.h"
int main(void) {
	start(false);
	struct cl *a = seated(), *b = newc();
	req(b, CLIENT_OPEN_SEAT);
	EXPECT(b, SERVER_SEAT_OPENED);
	reqi(a, CLIENT_SWITCH_SESSION, 2);
	EXPECT(a, SERVER_DISABLE_SEAT);
	EXPECT(a, SERVER_SESSION_SWITCHED);
	req(a, CLIENT_DISABLE_SEAT);
	EXPECT(a, SERVER_SEAT_DISABLED);
	EXPECT(b, SERVER_ENABLE_SEAT);
	hangup(b);
	EXPECT(a, SERVER_ENABLE_SEAT);
	return 0;
}
''', "the only session left is one that had the seat before", "nobody gets the seat")
