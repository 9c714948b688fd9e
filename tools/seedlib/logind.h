// A stand-in for the D-Bus and login libraries: calls are recorded, replies and signals are lists of words.
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdbool.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/sysmacros.h>
#include <systemd/sd-bus.h>
#include <systemd/sd-login.h>
#include <unistd.h>
#include "libseat.h"
#define CHECK(c, ...) \
	do { \
		if (!(c)) { \
			printf("FAIL line %d: ", __LINE__); \
			printf(__VA_ARGS__); \
			printf("\nlog: %s\n", LOG); \
			exit(1); \
		} \
	} while (0)
static char LOG[8192];
static void rec(const char *f, ...) {
	va_list a;
	va_start(a, f);
	vsnprintf(LOG + strlen(LOG), sizeof LOG - strlen(LOG) - 1, f, a);
	va_end(a);
	strcat(LOG, ";");
}
struct sd_bus_message {
	char words[16][96]; // "(" and ")" delimit containers
	int n, at, refs;
};
static struct sd_bus_message *msg(const char *first, ...) {
	struct sd_bus_message *m = calloc(1, sizeof *m);
	m->refs = 1;
	va_list a;
	va_start(a, first);
	for (; first; first = va_arg(a, const char *))
		strcpy(m->words[m->n++], first);
	va_end(a);
	return m;
}
static uint64_t queued_in, queued_out;
static int PIPE[2] = {-1, -1};
static int active = 1, device = -1;
static const char *fail_member = "";
static sd_bus_message_handler_t on_pause, on_props;
static void *on_data;
struct { sd_bus_message_handler_t *h; struct sd_bus_message *m; } signals[16];
static int nsignals;
static void emit(sd_bus_message_handler_t *h, struct sd_bus_message *m) { signals[nsignals].h = h, signals[nsignals++].m = m; }

int sd_bus_call_method(sd_bus *b, const char *dest, const char *path, const char *iface, const char *member, sd_bus_error *e, sd_bus_message **reply, const char *types, ...) {
	char args[256] = "";
	va_list a;
	va_start(a, types);
	for (const char *t = types ? types : ""; *t; t++)
		if (*t == 's' || *t == 'o')
			sprintf(args + strlen(args), " %s", va_arg(a, const char *));
		else
			sprintf(args + strlen(args), " %u", va_arg(a, unsigned));
	va_end(a);
	rec("%s%s", member, args);
	if (!strcmp(member, fail_member))
		return -EACCES;
	if (!reply)
		return 1;
	char fd[16];
	sprintf(fd, "%d", device);
	*reply = !strcmp(member, "GetSession") ? msg("/session", NULL) : !strcmp(member, "GetSeat") ? msg("/seat", NULL) : !strcmp(member, "TakeDevice") ? msg(fd, "0", NULL) : msg(NULL, NULL);
	return 1;
}
int sd_bus_call_method_async(sd_bus *b, sd_bus_slot **s, const char *dest, const char *path, const char *iface, const char *member, sd_bus_message_handler_t h, void *d, const char *types, ...) {
	rec("async %s", member);
	return 1;
}
int sd_bus_match_signal(sd_bus *b, sd_bus_slot **s, const char *sender, const char *path, const char *iface, const char *member, sd_bus_message_handler_t h, void *d) {
	*(strcmp(member, "PauseDevice") ? &on_props : &on_pause) = h;
	on_data = d;
	return 0;
}
int sd_bus_get_property_trivial(sd_bus *b, const char *dest, const char *path, const char *iface, const char *member, sd_bus_error *e, char type, void *p) {
	if (!strcmp(member, fail_member))
		return -EACCES;
	*(int *)p = active;
	return 0;
}
int sd_bus_message_read_basic(sd_bus_message *m, char type, void *p) {
	if (m->at >= m->n || !strcmp(m->words[m->at], ")"))
		return 0;
	char *w = m->words[m->at++];
	if (type == 's' || type == 'o')
		*(const char **)p = w;
	else
		*(int *)p = atoi(w);
	return 1;
}
int sd_bus_message_read(sd_bus_message *m, const char *types, ...) {
	va_list a;
	va_start(a, types);
	for (; *types; types++)
		if (sd_bus_message_read_basic(m, *types, va_arg(a, void *)) != 1)
			return -EBADMSG;
	va_end(a);
	return 1;
}
int sd_bus_message_enter_container(sd_bus_message *m, char type, const char *contents) {
	if (m->at >= m->n || strcmp(m->words[m->at], "("))
		return 0;
	m->at++;
	return 1;
}
int sd_bus_message_exit_container(sd_bus_message *m) {
	if (m->at >= m->n || strcmp(m->words[m->at], ")"))
		return -EBUSY;
	m->at++;
	return 1;
}
int sd_bus_message_skip(sd_bus_message *m, const char *types) {
	int depth = 0;
	do {
		depth += !strcmp(m->words[m->at], "(") - !strcmp(m->words[m->at], ")");
		m->at++;
	} while (depth > 0);
	return 1;
}
sd_bus_message *sd_bus_message_unref(sd_bus_message *m) {
	if (m && --m->refs == 0)
		free(m);
	return NULL;
}
int sd_bus_process(sd_bus *b, sd_bus_message **r) {
	if (nsignals == 0)
		return 0;
	sd_bus_message_handler_t h = *signals[0].h;
	struct sd_bus_message *m = signals[0].m;
	memmove(signals, signals + 1, --nsignals * sizeof signals[0]);
	h(m, on_data, NULL);
	sd_bus_message_unref(m);
	return 1;
}
int sd_bus_get_n_queued_read(sd_bus *b, uint64_t *r) { return *r = queued_in, 0; }
int sd_bus_get_n_queued_write(sd_bus *b, uint64_t *r) { return *r = queued_out, 0; }
int sd_bus_get_fd(sd_bus *b) { return PIPE[0]; }
int sd_bus_default_system(sd_bus **b) { return *b = NULL, pipe2(PIPE, O_CLOEXEC); }
sd_bus *sd_bus_unref(sd_bus *b) { return NULL; }
sd_bus_slot *sd_bus_slot_unref(sd_bus_slot *s) { return NULL; }
void sd_bus_error_free(sd_bus_error *e) {}
int sd_bus_message_is_method_error(sd_bus_message *m, const char *n) { return 0; }
const sd_bus_error *sd_bus_message_get_error(sd_bus_message *m) { return NULL; }
int sd_session_is_active(const char *s) { return 1; }
int sd_session_get_seat(const char *s, char **r) { return *r = strdup("seat0"), 0; }
int sd_pid_get_session(pid_t p, char **r) { return *r = strdup("c1"), 0; }
int sd_uid_get_display(uid_t u, char **r) { return *r = strdup("c2"), 0; }

static void on_enable(struct libseat *s, void *d) { rec("ENABLE"); }
static void on_disable(struct libseat *s, void *d) { rec("DISABLE"); }
static const struct libseat_seat_listener listener = {on_enable, on_disable};
static struct libseat *open_seat(void) {
	setenv("LIBSEAT_BACKEND", "logind", 1);
	unsetenv("XDG_SESSION_TYPE");
	unsetenv("XDG_SESSION_ID");
	struct libseat *s = libseat_open_seat(&listener, NULL);
	CHECK(s, "open_seat: %m");
	return s;
}
