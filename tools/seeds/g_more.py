B = "libseat/backend/seatd.c"
L = "libseat/backend/logind.c"
N = "libseat/backend/noop.c"

seed("c18-long-socket-path", "C18", [(B, "strncpy(addr.unix.sun_path, path, sizeof addr.unix.sun_path - 1);", "strncpy(addr.unix.sun_path, path, 99);")], r'''
#include "libs.h"
int main(void) {
	char d[101];
	memset(d, 'd', sizeof d);
	memcpy(d, "./", 2);
	d[100] = 0;
	int l = socket(AF_UNIX, SOCK_STREAM, 0);
	struct sockaddr_un a = {.sun_family = AF_UNIX};
	strcpy(a.sun_path, d); // in the scratch directory
	CHECK(bind(l, (void *)&a, sizeof a) == 0 && listen(l, 4) == 0, "bind: %m");
	setenv("SEATD_SOCK", d, 1);
	pid_t p = fork();
	if (p == 0) {
		S = accept(l, NULL, NULL);
		in(), opened();
		while (in() != -1)
			;
		_exit(0);
	}
	struct libseat *s = libseat_open_seat(&listener, NULL);
	if (!s) {
		printf("FAIL the daemon is not found: %m\n");
		kill(p, SIGTERM);
		return 1;
	}
	return 0;
}
''', "SEATD_SOCK is a path of 100 bytes or more", "another path is tried", kind="lib")

seed("c18-switch-result", "C18", [(B, "	int res = 0;\n	if (read_header(backend, SERVER_SESSION_SWITCHED", "	int res = session;\n	if (read_header(backend, SERVER_SESSION_SWITCHED")], r'''
#include "libs.h"
static void script(void) {
	in(), opened();
	in();
	outmsg(SERVER_SESSION_SWITCHED, NULL, 0);
}
int main(void) {
	serve(script);
	struct libseat *s = libseat_open_seat(&listener, NULL);
	CHECK(s, "open_seat: %m");
	int r = libseat_switch_session(s, 7);
	CHECK(r == 0, "a switch that is granted returns %d", r);
	return 0;
}
''', "a switch to a session other than 0", "it returns the number of the session instead of 0", kind="lib")

seed("c19-line-buffer", "C19", [("common/log.c", "	vfprintf(stderr, fmt, args);\n", "	char line[256];\n	vsnprintf(line, sizeof(line), fmt, args);\n	fputs(line, stderr);\n")], r'''
#include "libs.h"
int main(void) {
	char name[400], out[4000] = "";
	memset(name, 'n', sizeof name);
	name[399] = 0;
	setenv("LIBSEAT_BACKEND", name, 1);
	libseat_set_log_level(LIBSEAT_LOG_LEVEL_ERROR);
	int p[2], e = dup(2);
	CHECK(pipe(p) == 0, "pipe");
	dup2(p[1], 2);
	libseat_open_seat(&listener, NULL);
	dup2(e, 2);
	CHECK(read(p[0], out, sizeof out - 1) > 0, "nothing is printed");
	CHECK(strstr(out, name), "the message is cut: %s", out);
	return 0;
}
''', "a message of more than 255 bytes", "the rest of it is lost", kind="lib")

seed("c20-only-bounded-waits", "C20", [(L, "	if (poll(&fd, 1, timeout) == -1) {\n", "	if (poll(&fd, 1, timeout > 0 ? timeout : 0) == -1) {\n")], r'''
#include "logind.h"
#include <signal.h>
#include <sys/wait.h>
int main(void) {
	struct libseat *s = open_seat();
	libseat_dispatch(s, 0);
	if (fork() == 0) {
		usleep(300000);
		write(PIPE[1], "x", 1);
		_exit(0);
	}
	libseat_dispatch(s, -1);
	bool ended = waitpid(-1, NULL, WNOHANG) != 0;
	char c;
	struct timespec z = {0, 50000000};
	nanosleep(&z, NULL);
	fcntl(PIPE[0], F_SETFL, O_NONBLOCK);
	CHECK(read(PIPE[0], &c, 1) == 1, "a dispatch without a time limit does not wait");
	return 0;
}
''', "a dispatch without a time limit that finds nothing", "it returns at once, so an application that waits in it spins", kind="logind")

seed("c27-only-unbounded-waits", "C27", [(N, "	if (poll(&fd, 1, timeout) < 0) {\n", "	if (poll(&fd, 1, timeout < 0 ? timeout : 0) < 0) {\n")], r'''
#include "libs.h"
static long ms(void) {
	struct timespec t;
	clock_gettime(CLOCK_MONOTONIC, &t);
	return t.tv_sec * 1000 + t.tv_nsec / 1000000;
}
int main(void) {
	setenv("LIBSEAT_BACKEND", "noop", 1);
	struct libseat *s = libseat_open_seat(&listener, NULL);
	CHECK(s, "open_seat: %m");
	libseat_dispatch(s, 0);
	long t = ms();
	libseat_dispatch(s, 200);
	CHECK(ms() - t >= 190, "a dispatch with a timeout of 200 ms returns after %ld", ms() - t);
	return 0;
}
''', "a second dispatch, with a timeout", "it returns at once, so an application that waits in it spins", kind="lib")
