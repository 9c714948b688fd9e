L = "libseat/backend/logind.c"
seed("c20-second-device", "C20", [(L, "	if (pause) {\n", "	if (pause && session->active) {\n")], r'''
#include "logind.h"
int main(void) {
	struct libseat *s = open_seat();
	libseat_dispatch(s, 0);
	emit(&on_pause, msg("226", "0", "pause", NULL));
	emit(&on_pause, msg("226", "1", "pause", NULL));
	libseat_dispatch(s, 0);
	CHECK(strstr(LOG, "PauseDeviceComplete 226 0") && strstr(LOG, "PauseDeviceComplete 226 1"), "a graceful pause is not acknowledged");
	libseat_close_seat(s);
	return 0;
}
''', "two devices paused gracefully in one switch", "the second device's pause is never acknowledged, which holds up logind's switch", kind="logind")

seed("c20-acknowledged-too-early", "C20", [(L, "		set_active(session, false);\n", ""), (L, "					 \"org.freedesktop.login1.Session\", \"PauseDeviceComplete\",\n", "					 \"org.freedesktop.login1.Session\", \"PauseDeviceComplete\",\n"), (L, "					 &error, &reply, \"uu\", major, minor);\n		if (ret < 0) {\n			log_errorf(\"Could not send PauseDeviceComplete signal", "					 &error, &reply, \"uu\", major, minor);\n		set_active(session, false);\n		if (ret < 0) {\n			log_errorf(\"Could not send PauseDeviceComplete signal")], r'''
#include "logind.h"
int main(void) {
	struct libseat *s = open_seat();
	libseat_dispatch(s, 0);
	emit(&on_pause, msg("226", "0", "pause", NULL));
	libseat_dispatch(s, 0);
	char *d = strstr(LOG, "DISABLE"), *a = strstr(LOG, "PauseDeviceComplete 226 0");
	CHECK(d && a && d < a, "the pause is acknowledged before the application is told");
	libseat_close_seat(s);
	return 0;
}
''', "a graceful pause; the order against the acknowledgement", "the device is handed over while the application still uses it", kind="logind")

seed("c20-forced-pause", "C20", [(L, '	bool pause = strcmp(type, "pause") == 0;\n	if (gone) {', '	bool pause = !gone && session->active;\n	if (gone) {')], r'''
#include "logind.h"
int main(void) {
	struct libseat *s = open_seat();
	libseat_dispatch(s, 0);
	emit(&on_pause, msg("13", "64", "force", NULL));
	libseat_dispatch(s, 0);
	CHECK(!strstr(LOG, "DISABLE") && !strstr(LOG, "PauseDeviceComplete"), "a forced pause is treated like a graceful one");
	emit(&on_pause, msg("226", "0", "pause", NULL));
	libseat_dispatch(s, 0);
	CHECK(strstr(LOG, "PauseDeviceComplete 226 0"), "a graceful pause is not acknowledged");
	libseat_close_seat(s);
	return 0;
}
''', "a device paused by force while the session is active", "forced pauses disable the seat and are acknowledged", kind="logind")

seed("c20-only-the-first", "C20", [(L, """			ret = sd_bus_message_skip(msg, "v");
			if (ret < 0) {
				goto error;
			}
		}
""", """			break;
		}
""")], r'''
#include "logind.h"
int main(void) {
	struct libseat *s = open_seat();
	libseat_dispatch(s, 0);
	emit(&on_props, msg("org.freedesktop.login1.Session", "(", "(", "IdleHint", "(", "1", ")", ")", "(", "Active", "(", "0", ")", ")", ")", "(", ")", NULL));
	libseat_dispatch(s, 0);
	CHECK(strstr(LOG, "DISABLE"), "the state change is lost");
	libseat_close_seat(s);
	return 0;
}
''', "another property changed in the same signal, in front of Active", "the change of the Active state is lost", kind="logind")

seed("c21-final-link", "C21", [(L, "	if (stat(path, &st) < 0) {", "	if (lstat(path, &st) < 0) {")], r'''
#include "logind.h"
int main(void) {
	struct libseat *s = open_seat();
	symlink("/dev/null", "link");
	device = open("/dev/null", O_RDWR | O_CLOEXEC);
	int fd;
	libseat_open_device(s, "link", &fd);
	CHECK(strstr(LOG, "TakeDevice 1 3"), "not the device behind the link is taken");
	libseat_close_seat(s);
	return 0;
}
''', "a device opened through a symbolic link (/dev/dri/by-path/...)", "another device number is requested", kind="logind")

seed("c21-not-woken", "C21", [(L, "	if (queued_read == 0 && queued_write == 0) {", "	if (queued_read == 0 || queued_write == 0) {")], r'''
#include "logind.h"
int main(void) {
	struct libseat *s = open_seat();
	libseat_dispatch(s, 0);
	queued_in = 1; // read while waiting for the reply
	libseat_switch_session(s, 2);
	CHECK(strstr(LOG, "async Ping"), "the application will not be woken up");
	libseat_close_seat(s);
	return 0;
}
''', "a signal read from the socket while waiting for the reply to a call, with nothing left to write", "the application is not woken up to dispatch it", kind="logind")

seed("c21-control-kept", "C21", [(L, "	session_release_control(backend);\n	destroy(backend);", "	if (backend->active) {\n		session_release_control(backend);\n	}\n	destroy(backend);")], r'''
#include "logind.h"
int main(void) {
	active = 0;
	struct libseat *s = open_seat();
	libseat_dispatch(s, 0);
	libseat_close_seat(s);
	CHECK(strstr(LOG, "ReleaseControl"), "control of the session is kept");
	return 0;
}
''', "a seat closed while its session is not active", "the session stays under control", kind="logind")

seed("c21-inherited", "C21", [(L, "	tmpfd = fcntl(tmpfd, F_DUPFD_CLOEXEC, 0);", "	tmpfd = dup(tmpfd);")], r'''
#include "logind.h"
int main(void) {
	struct libseat *s = open_seat();
	device = open("/dev/null", O_RDWR | O_CLOEXEC);
	int fd = -1;
	CHECK(libseat_open_device(s, "/dev/null", &fd) >= 0, "open_device");
	CHECK(fcntl(fd, F_GETFD) & FD_CLOEXEC, "programs started by the application inherit the device");
	return 0;
}
''', "the application runs another program", "device descriptors are inherited", kind="logind")

B = "libseat/backend/seatd.c"
seed("c26-own-peer", "C26", [(B, "	} else if (pid == 0) {\n		close(fds[1]);\n", "	} else if (pid == 0) {\n")], r'''
#include "builtin.h"
int main(void) {
	signal(SIGPIPE, SIG_IGN);
	if (fork() == 0) {
		open_seat();
		_exit(0); // the application dies
	}
	prctl(PR_SET_CHILD_SUBREAPER, 1);
	usleep(300000);
	CHECK(all_end(3000), "the server outlives the application");
	return 0;
}
''', "the application dies without closing the seat", "the embedded server stays, with its devices and its VT", kind="builtin")

seed("c26-inherited", "C26", [(B, "	if (socketpair(AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK | SOCK_CLOEXEC, 0, fds) == -1) {", "	if (socketpair(AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK, 0, fds) == -1) {")], r'''
#include "builtin.h"
int main(void) {
	struct libseat *s = open_seat();
	CHECK(s, "open_seat: %m");
	int fd = libseat_get_fd(s);
	CHECK(fd >= 0 && (fcntl(fd, F_GETFD) & FD_CLOEXEC), "programs started by the application keep the server alive");
	libseat_close_seat(s);
	CHECK(all_end(3000), "the server does not end");
	return 0;
}
''', "the application has started another program when it dies", "the embedded server lives on, because the program has inherited the connection", kind="builtin")

seed("c26-half-of-the-pair", "C26", [(B, "		close(fds[0]);\n		int fd = fds[1];", "		int fd = fds[1];")], r'''
#include "builtin.h"
int main(void) {
	struct libseat *s = open_seat();
	CHECK(s, "open_seat: %m");
	libseat_dispatch(s, 0);
	int p = a_child();
	CHECK(p > 0, "no server");
	kill(p, SIGKILL); // our own child: the server
	for (int i = 0; i < 20; i++) {
		usleep(20000);
		if (libseat_dispatch(s, 0) == -1)
			return 0;
	}
	CHECK(0, "the loss of the server is not noticed");
}
''', "the embedded server dies", "the loss of the server is never noticed", kind="builtin")

S = "seatd/seatd.c"
rd = lambda f: open(V + "/tools/seedlib/" + f).read()
seed("c22-only-a-group", "C22", [(S, "	if (uid != -1 || gid != -1) {\n		if (chmod", "	if (uid != -1) {\n		if (chmod")], rd("seatd.sh") + r'''
g=$(id -gn)
./seatd -g "$g" -l silent &
p=$!
i=0
while [ ! -S sock ] && [ $i -lt 40 ]; do sleep 0.05; i=$((i + 1)); done
sleep 0.2
m=$(stat -c %a sock)
kill $p
wait $p
[ "$m" = 770 ] || fail "mode $m"
''', "a group, but no user, given", "members of the group cannot connect", kind="sh")

seed("c22-through-a-link", "C22", [(S, "	if (lstat(SEATD_DEFAULTPATH, &st) == 0) {", "	if (stat(SEATD_DEFAULTPATH, &st) == 0) {")], rd("seatd.sh") + r'''
python3 -c 'import socket; socket.socket(socket.AF_UNIX).bind("other")' || exit 2
ln -s other sock
timeout 1 ./seatd -l silent
[ $? = 1 ] || fail "starts although the path is no socket"
[ -L sock ] || fail "the link is gone"
''', "a symbolic link to a socket at the socket path", "something that is no socket is removed", kind="sh")

seed("c22-late-conflict", "C22", [(S, "			if (uid != -1 || gid != -1) {\n				fprintf(stderr", "			if (uid != -1 && gid != -1) {\n				fprintf(stderr")], rd("seatd.sh") + r'''
g=$(id -gn)
timeout 1 ./seatd -l silent -g "$g" -z 2>/dev/null
[ $? = 1 ] || fail "conflicting options are accepted"
[ -e sock ] && fail "a socket was made"
exit 0
''', "-g followed by -z", "conflicting options are accepted", kind="sh")

seed("c22-early-readiness", "C22", [(S, '	if (listen(fd, LISTEN_BACKLOG) == -1) {\n		log_errorf("Could not listen on socket: %s", strerror(errno));\n		goto error;\n	}\n', ""), (S, '	log_info("seatd started");\n\n	if (readiness != -1) {', '	log_info("seatd started");\n\n	if (readiness != -1 && server.running) {'), (S, "		close(readiness);\n	}\n", "		close(readiness);\n	}\n	if (listen(socket_fd, LISTEN_BACKLOG) == -1) {\n		log_errorf(\"Could not listen on socket: %s\", strerror(errno));\n		goto error_socket;\n	}\n")], rd("seatd.sh") + r'''
cat > pre.c <<'EOF'
#define _GNU_SOURCE
#include <dlfcn.h>
#include <stdlib.h>
#include <unistd.h>
#include <sys/socket.h>
static int listening;
int listen(int fd, int n) { listening = 1; return ((int (*)(int, int))dlsym(RTLD_NEXT, "listen"))(fd, n); }
ssize_t write(int fd, const void *p, size_t n) {
	if (fd == 3 && !listening)
		_exit(99);
	return ((ssize_t (*)(int, const void *, size_t))dlsym(RTLD_NEXT, "write"))(fd, p, n);
}
EOF
gcc -shared -fPIC -w -o pre.so pre.c -ldl || exit 2
LD_PRELOAD=$t/pre.so timeout 1 ./seatd -l silent -n 3 3>ready
[ $? = 99 ] && fail "readiness is signalled before clients can connect"
[ "$(wc -c < ready)" = 1 ] || fail "no readiness"
''', "a client that connects as soon as readiness is signalled", "the client is refused", kind="sh")

Q = "seatd-launch/seatd-launch.c"
seed("c23-seatd-survives", "C23", [(Q, """	if (kill(seatd_child, SIGTERM) != 0) {
		perror("Could not kill seatd");
	}

	if (WIFEXITED(status)) {
		return WEXITSTATUS(status);
	} else if""", """	if (WIFEXITED(status)) {
		if (kill(seatd_child, SIGTERM) != 0) {
			perror("Could not kill seatd");
		}
		return WEXITSTATUS(status);
	} else if""")], rd("launch.sh") + r'''
./launch -- sh -c 'kill -9 $$' 2>/dev/null
[ $? = 137 ] || fail "status"
i=0
while [ ! -f ended ] && [ $i -lt 20 ]; do sleep 0.1; i=$((i + 1)); done
[ -f ended ] || fail "seatd is left behind"
''', "the command dies of a signal", "its seatd is left running", kind="sh")

seed("c23-large-status", "C23", [(Q, "		return WEXITSTATUS(status);", "		return (signed char)WEXITSTATUS(status) > 0 ? WEXITSTATUS(status) : 0;")], rd("launch.sh") + r'''
./launch -- sh -c 'exit 130'
[ $? = 130 ] || fail "status"
./launch -- sh -c 'exit 3'
[ $? = 3 ] || fail "status"
''', "an exit status above 127", "a failed command is reported as successful", kind="sh")

seed("c23-late-owner", "C23", [(Q, '	if (chown(SEATD_DEFAULTPATH, uid, gid) == -1) {\n		perror("Could not chown seatd socket");\n		goto error_seatd;\n	}\n', '	if (uid != geteuid() && chown(SEATD_DEFAULTPATH, uid, -1) == -1) {\n		perror("Could not chown seatd socket");\n		goto error_seatd;\n	}\n')], rd("launch.sh") + r'''
cat > as.c <<'EOF'
#define _GNU_SOURCE
#include <unistd.h>
int main(int c, char **v) { // the real group is not the one files are made with
	if (setresgid(65534, 0, 0))
		return 2;
	execv(v[1], v + 1);
	return 2;
}
EOF
gcc -w -o as as.c || exit 2
./as ./launch -- true
[ "$(stat -c %u:%g sock)" = 0:65534 ] || fail "$(stat -c %u:%g sock)"
''', "real and effective user are the same, the groups are not", "the socket has the wrong group", kind="sh")
