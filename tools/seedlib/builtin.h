// The embedded server on a seat that is not bound to a VT: no console is touched.
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <stdbool.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <unistd.h>
#include "libseat.h"
#define CHECK(c, ...) \
	do { \
		if (!(c)) { \
			printf("FAIL line %d: ", __LINE__); \
			printf(__VA_ARGS__); \
			printf("\n"); \
			for (int p_; (p_ = a_child()) > 0;) \
				kill(p_, SIGKILL), waitpid(p_, NULL, 0); \
			exit(1); \
		} \
	} while (0)
// a child of this process that is still there, -1 if there is none
static int a_child(void) {
	char path[64];
	snprintf(path, sizeof path, "/proc/self/task/%d/children", getpid());
	FILE *f = fopen(path, "r");
	int p = -1;
	if (f && fscanf(f, "%d", &p) != 1)
		p = -1;
	if (f)
		fclose(f);
	return p;
}
// waits for every child to end
static bool all_end(int ms) {
	for (; ms > 0; ms -= 10) {
		while (waitpid(-1, NULL, WNOHANG) > 0)
			;
		if (a_child() == -1)
			return true;
		usleep(10000);
	}
	return false;
}
static int enabled, disabled;
static void on_enable(struct libseat *s, void *d) { enabled++; }
static void on_disable(struct libseat *s, void *d) { disabled++, libseat_disable_seat(s); }
static const struct libseat_seat_listener listener = {on_enable, on_disable};
static struct libseat *open_seat(void) {
	setenv("LIBSEAT_BACKEND", "builtin", 1);
	setenv("SEATD_VTBOUND", "0", 1);
	prctl(PR_SET_CHILD_SUBREAPER, 1);
	return libseat_open_seat(&listener, NULL);
}
