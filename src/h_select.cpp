// C19: backend selection, call forwarding and logging controls, with fake backends, for every set of compiled-in backends.
#include "engine.hpp"
#include "sys.hpp"
#include <algorithm>
#include <cerrno>
#include <cstring>
#include <map>
extern "C" {
#include "backend.h"
#include "libseat.h"
void _logf(enum libseat_log_level level, const char *fmt, ...);
}
#define VAR(n)                                                                                             \
	extern "C" {                                                                                       \
	struct libseat *v##n##_libseat_open_seat(const struct libseat_seat_listener *, void *);            \
	int v##n##_libseat_disable_seat(struct libseat *);                                                 \
	int v##n##_libseat_close_seat(struct libseat *);                                                   \
	const char *v##n##_libseat_seat_name(struct libseat *);                                            \
	int v##n##_libseat_open_device(struct libseat *, const char *, int *);                             \
	int v##n##_libseat_close_device(struct libseat *, int);                                            \
	int v##n##_libseat_get_fd(struct libseat *);                                                       \
	int v##n##_libseat_dispatch(struct libseat *, int);                                                \
	int v##n##_libseat_switch_session(struct libseat *, int);                                          \
	}
VAR(1) VAR(2) VAR(3) VAR(4) VAR(5) VAR(6) VAR(7)
struct Api {
	decltype(&v1_libseat_open_seat) open_seat;
	decltype(&v1_libseat_disable_seat) disable_seat;
	decltype(&v1_libseat_close_seat) close_seat;
	decltype(&v1_libseat_seat_name) seat_name;
	decltype(&v1_libseat_open_device) open_device;
	decltype(&v1_libseat_close_device) close_device;
	decltype(&v1_libseat_get_fd) get_fd;
	decltype(&v1_libseat_dispatch) dispatch;
	decltype(&v1_libseat_switch_session) switch_session;
};
#define AV(n) {v##n##_libseat_open_seat, v##n##_libseat_disable_seat, v##n##_libseat_close_seat, v##n##_libseat_seat_name, v##n##_libseat_open_device, v##n##_libseat_close_device, v##n##_libseat_get_fd, v##n##_libseat_dispatch, v##n##_libseat_switch_session}
static const Api apis[] = {AV(1), AV(2), AV(3), AV(4), AV(5), AV(6), AV(7)}; // bit 0: seatd, bit 1: logind, bit 2: builtin

enum { SEATD, LOGIND, BUILTIN, NOOP };
static const char *bn[] = {"seatd", "logind", "builtin", "noop"};
enum { OPEN, CALL, LOG, SETLEVEL, SETHANDLER, PLAN, ENV, NK };
static const char *kn[] = {"open", "call", "log", "set-level", "set-handler", "plan", "env"};
enum { FN_OPEN, FN_DISABLE, FN_CLOSE, FN_NAME, FN_OPENDEV, FN_CLOSEDEV, FN_GETFD, FN_DISPATCH, FN_SWITCH };
static const char *fn[] = {"open_seat", "disable_seat", "close_seat", "seat_name", "open_device", "close_device", "get_fd", "dispatch", "switch_session"};
static const char *NAMES[] = {"seatd", "logind", "builtin", "noop", "", "SEATD", "seatd ", " seatd", "seat", "seatdx", "xyz", "no", "log", "logindd", "builtin\n", "NULL", "noop,seatd", "seatd:logind", "b", "noopx"};

struct Seat {
	struct libseat base;
	int backend;
};
struct Rec {
	int fn, backend;
	const void *p1, *p2;
	int i1;
};
struct Sel;
static Sel *H;
static void dummy_enable(struct libseat *, void *) {}
static void dummy_disable(struct libseat *, void *) {}

struct Sel : Harness, Sys {
	std::vector<Rec> calls;
	bool ok[4];
	int fail_errno[4];
	int next_ret, next_errno;
	int next_fd;
	const char *next_name;
	std::vector<Seat *> seats;
	std::string envv;
	bool env_set;
	int level;
	bool custom;        // a handler of ours is set
	int which;          // which of the two
	std::vector<std::pair<int, std::string>> got; // by the handler
	int got_which;
	std::string err;
	bool clobber, inlog;
	int log_in_call;
	bool wrong_which;
	int tty = -1;

	char *getenv(const char *n) override {
		if (!strcmp(n, "LIBSEAT_BACKEND"))
			return env_set ? (char *)envv.c_str() : NULL;
		return NULL;
	}
	// whether standard error is a terminal is looked at once in a process
	int isatty(int fd) override {
		if (fd == 2 && tty)
			return 1;
		errno = ENOTTY;
		return 0;
	}
	int output(const char *s, size_t n, bool e) override {
		if (e)
			err.append(s, n);
		else
			eng::inv(T(19), "stdout", "the library writes to standard output");
		if (clobber)
			errno = 77;
		return (int)n;
	}
	void backend_log() {
		if (!log_in_call)
			return;
		emit(1 + log_in_call % 3, log_in_call, "from a backend");
	}
	// logs a message and judges what becomes of it
	void emit(int lvl, int n, const char *s) {
		size_t g0 = got.size(), e0 = err.size();
		std::string pad; // long messages
		if (n % 4 == 0)
			pad.assign(n / 64 % 800, 'a' + n % 26);
		std::string want = "msg " + std::to_string(n) + " " + s + pad + " " + std::to_string(lvl);
		int e = 1 + n % 100;
		errno = e;
		_logf((enum libseat_log_level)lvl, "msg %d %s%s %d", n, s, pad.c_str(), lvl);
		if (errno != e)
			eng::inv(T(19), "log-errno", "logging at level %d (current level %d) changes errno from %d to %d", lvl, level, e, errno);
		bool due = lvl <= level;
		if (custom) {
			if (got.size() - g0 != (due ? 1u : 0u))
				eng::inv(T(19), "log-handler", "a message of level %d at log level %d reaches the handler %zu times", lvl, level, got.size() - g0);
			else if (due && (got.back().first != lvl || got.back().second != want))
				eng::inv(T(19), "log-content", "the handler gets level %d, \"%s\" instead of level %d, \"%s\"", got.back().first, got.back().second.c_str(), lvl, want.c_str());
			else if (due && got_which != which)
				eng::inv(T(19), "log-other-handler", "a message reaches a handler that is not set any more");
			if (err.size() != e0)
				eng::inv(T(19), "log-default", "a message is printed although a handler is set");
		} else {
			if (got.size() != g0)
				eng::inv(T(19), "log-handler-reset", "a message reaches a handler that has been reset");
			std::string o = err.substr(e0);
			if (due ? o.find(want) == std::string::npos : !o.empty())
				eng::inv(T(19), "log-default", "a message of level %d at log level %d: the default handler prints \"%s\"", lvl, level, o.c_str());
			size_t p = o.find(want);
			if (p != std::string::npos && o.find(want, p + 1) != std::string::npos)
				eng::inv(T(19), "log-default", "the default handler prints a message twice");
			if (due && (std::count(o.begin(), o.end(), '\n') != 1 || o.back() != '\n'))
				eng::inv(T(19), "log-line", "the default handler does not print one line: \"%s\"", o.c_str());
		}
		eng::count(due ? "messages due" : "messages suppressed");
	}
	// messages of the library itself during a call
	void check_own(size_t g0, size_t e0) {
		for (size_t i = g0; i < got.size(); i++)
			if (got[i].first > level || got[i].first < 1)
				eng::inv(T(19), "log-level", "a message of level %d is processed at log level %d: %s", got[i].first, level, got[i].second.c_str());
		if (custom ? err.size() != e0 : got.size() != g0)
			eng::inv(T(19), "log-route", "messages of the library go to the wrong handler");
		if (level <= 0 && err.size() != e0)
			eng::inv(T(19), "log-silent", "something is printed although logging is off: %s", err.c_str() + e0);
	}
	static struct libseat *open_b(int b, const struct libseat_seat_listener *l, void *d) {
		H->calls.push_back({FN_OPEN, b, l, d, 0});
		H->backend_log();
		if (!H->ok[b]) {
			errno = H->fail_errno[b];
			return NULL;
		}
		Seat *s = new Seat;
		extern const struct seat_impl *const fakes[];
		s->base.impl = fakes[b];
		s->backend = b;
		H->seats.push_back(s);
		return &s->base;
	}
	static int rec(int f, int b, const void *p1, const void *p2, int i1) {
		H->calls.push_back({f, b, p1, p2, i1});
		H->backend_log();
		errno = H->next_errno;
		return H->next_ret;
	}
	void exec(const Op &o, const Case &c) {
		const Api &api = apis[c.cfg[0] % 7];
		int mask = c.cfg[0] % 7 + 1;
		switch (o.k % NK) {
		case PLAN:
			for (int i = 0; i < 4; i++) {
				ok[i] = (o.a >> i) & 1;
				fail_errno[i] = 1 + (o.b >> (i * 3)) % 120;
			}
			break;
		case ENV:
			env_set = o.a % 4 != 0;
			envv = o.a % 4 == 1 ? bn[o.b % 4] : NAMES[o.b % (sizeof NAMES / sizeof *NAMES)];
			if (o.b % 7 == 3)
				envv.append(o.c % 512, 'x');
			else if (o.b % 7 == 4)
				envv.insert(0, o.c % 512, 's');
			break;
		case OPEN: {
			struct libseat_seat_listener l = {dummy_enable, dummy_disable};
			const struct libseat_seat_listener *lp = &l;
			bool bad = false;
			switch (o.a % 12) {
			case 0: lp = NULL; bad = true; break;
			case 1: l.enable_seat = NULL; bad = true; break;
			case 2: l.disable_seat = NULL; bad = true; break;
			case 3: l.disable_seat = NULL; l.enable_seat = NULL; bad = true; break;
			}
			void *data = o.b % 5 ? (void *)(uintptr_t)(0x1000 + o.b) : NULL;
			log_in_call = o.c % 4 == 0 ? o.c / 4 + 1 : 0;
			// what is due
			std::vector<int> tried;
			int res = -1, e = 0;
			if (bad)
				e = EINVAL;
			else if (env_set) {
				e = EINVAL;
				for (int i = 0; i < 4; i++)
					if (envv == bn[i] && (i == NOOP || (mask >> i & 1))) {
						tried.push_back(i);
						if (ok[i])
							res = i;
						else
							e = fail_errno[i];
					}
			} else {
				e = ENOSYS;
				for (int i = 0; i < 3 && res < 0; i++)
					if (mask >> i & 1) {
						tried.push_back(i);
						if (ok[i])
							res = i;
					}
			}
			calls.clear();
			size_t g0 = got.size(), e0 = err.size(), ns = seats.size();
			errno = 0;
			struct libseat *s = api.open_seat(lp, data);
			int got_e = errno;
			log_in_call = 0;
			check_own(g0, e0);
			eng::sig(mask * 64 + tried.size() * 8 + res + 1);
			eng::sig(env_set ? 7 : 8);
			eng::nontrivial();
			std::string order;
			for (auto &r : calls)
				order += std::string(order.empty() ? "" : ", ") + fn[r.fn] + " of " + bn[r.backend];
			bool same = calls.size() == tried.size();
			for (size_t i = 0; same && i < tried.size(); i++)
				same = calls[i].fn == FN_OPEN && calls[i].backend == tried[i];
			if (!same)
				eng::inv(T(19), "selection", "compiled-in %s%s%s, LIBSEAT_BACKEND %s%s: the backends asked are: %s", mask & 1 ? "seatd " : "", mask & 2 ? "logind " : "", mask & 4 ? "builtin " : "",
					 env_set ? "=" : "unset", env_set ? envv.c_str() : "", order.c_str());
			for (auto &r : calls)
				if (r.p1 != lp || r.p2 != data)
					eng::inv(T(19), "open-args", "a backend is given another listener or other user data than the application's");
			if (res >= 0 && (!s || seats.size() != ns + 1 || s != &seats.back()->base))
				eng::inv(T(19), "open-result", "backend %s opened the seat, but the application gets another result", bn[res]);
			if (res < 0 && (s || got_e != e))
				eng::inv(T(19), "open-errno", "no backend opened the seat: the application gets %p, errno %d instead of %d", (void *)s, got_e, e);
			if (bad)
				eng::count("bad listeners");
			eng::count(res < 0 ? "failed opens" : "successful opens");
			break;
		}
		case CALL: {
			if (seats.empty())
				break;
			size_t i = o.a % seats.size();
			Seat *s = seats[i];
			int f = 1 + o.b % 8;
			next_ret = o.c % 5 == 0 ? -1 : (int)o.c - 100;
			next_errno = o.c % 3 ? 1 + o.c % 130 : 0;
			log_in_call = o.f & 8 ? o.c % 50 + 1 : 0;
			int arg = (int)o.d;
			static const char path[] = "/dev/some/path";
			int fd = -5;
			static const char nm[] = "a name";
			next_name = o.c % 7 ? nm : NULL;
			next_fd = o.c;
			calls.clear();
			size_t g0 = got.size(), e0 = err.size();
			int r = 0;
			const char *rn = NULL;
			errno = 0;
			switch (f) {
			case FN_DISABLE: r = api.disable_seat(&s->base); break;
			case FN_CLOSE: r = api.close_seat(&s->base); break;
			case FN_NAME: rn = api.seat_name(&s->base); break;
			case FN_OPENDEV: r = api.open_device(&s->base, path, &fd); break;
			case FN_CLOSEDEV: r = api.close_device(&s->base, arg); break;
			case FN_GETFD: r = api.get_fd(&s->base); break;
			case FN_DISPATCH: r = api.dispatch(&s->base, arg); break;
			case FN_SWITCH: r = api.switch_session(&s->base, arg); break;
			}
			int e = errno;
			log_in_call = 0;
			check_own(g0, e0);
			if (calls.size() != 1 || calls[0].fn != f || calls[0].backend != s->backend)
				eng::inv(T(19), "forward", "%s on a seat of backend %s leads to %zu calls%s%s", fn[f], bn[s->backend], calls.size(), calls.empty() ? "" : ", first ", calls.empty() ? "" : fn[calls[0].fn]);
			const Rec &c0 = calls[0];
			if (c0.p1 != &s->base || (f == FN_OPENDEV && c0.p2 != path) || ((f == FN_CLOSEDEV || f == FN_DISPATCH || f == FN_SWITCH) && c0.i1 != arg) || (f == FN_OPENDEV && fd != next_fd))
				eng::inv(T(19), "forward-args", "%s passes on other arguments", fn[f]);
			if (f == FN_NAME ? rn != next_name : r != next_ret)
				eng::inv(T(19), "forward-result", "%s returns %d instead of the backend's %d", fn[f], r, next_ret);
			if (f != FN_NAME && e != next_errno)
				eng::inv(T(19), "forward-errno", "%s leaves errno %d instead of the backend's %d", fn[f], e, next_errno);
			eng::count("calls forwarded");
			eng::sig(1000 + f * 4 + s->backend);
			if (f == FN_CLOSE) {
				delete s;
				seats.erase(seats.begin() + i);
			}
			break;
		}
		case LOG: emit(1 + o.a % 3, o.b, "direct"); break;
		case SETLEVEL: {
			static const int lv[] = {0, 1, 2, 3, 4, 1, 2, 3};
			level = lv[o.a % 8];
			libseat_set_log_level((enum libseat_log_level)level);
			eng::sig(2000 + level);
			break;
		}
		case SETHANDLER:
			set_handler(o.a % 3);
			clobber = o.b & 1;
			break;
		}
	}
	void set_handler(int a);
	void handle(int w, int l, const char *f, va_list ap) {
		char *b = NULL;
		if (vasprintf(&b, f, ap) >= 0) {
			got.push_back({l, b});
			free(b);
		}
		got_which = w;
		if (clobber)
			errno = 88;
	}
	void run(const Case &c) override {
		H = this;
		sut_sys = this;
		if (tty < 0)
			tty = c.cfg[4] % 4 == 0;
		else if (tty != (c.cfg[4] % 4 == 0))
			return;
		if (tty)
			eng::count("with a terminal");
		seats.clear();
		calls.clear();
		got.clear();
		err.clear();
		env_set = false;
		clobber = false;
		log_in_call = 0;
		for (int i = 0; i < 4; i++) {
			ok[i] = (c.cfg[1] >> i) & 1;
			fail_errno[i] = 5 + i;
		}
		level = c.cfg[2] % 4;
		libseat_set_log_level((enum libseat_log_level)level);
		set_handler(c.cfg[3] % 3);
		for (auto &o : c.ops)
			exec(o, c);
		for (auto s : seats)
			delete s;
	}
	size_t max_ops() override { return 60; }
	void gen(Rng &r, Case &c, int) override {
		for (auto &b : c.cfg)
			b = r.next();
		if (tty >= 0 && tty != (c.cfg[4] % 4 == 0))
			c.cfg[4] = !tty;
		int n = 4 + r.below(40);
		static const int ks[] = {OPEN, OPEN, OPEN, OPEN, CALL, CALL, CALL, LOG, LOG, SETLEVEL, SETHANDLER, PLAN, PLAN, ENV, ENV, ENV};
		for (int i = 0; i < n; i++) {
			Op o;
			o.k = ks[r.below(sizeof ks / sizeof *ks)];
			o.f = r.next();
			o.a = r.next();
			o.b = r.next();
			o.c = r.next();
			o.d = r.next();
			c.ops.push_back(o);
		}
	}
	std::string rule(int) override { return "a seat is opened; distinct by compiled-in backends, environment, which backend was chosen, calls and log levels"; }
	std::string describe(const Case &c) override {
		std::string s = "compiled-in set " + std::to_string(c.cfg[0] % 7 + 1) + ": ";
		char b[100];
		for (auto &o : c.ops) {
			snprintf(b, sizeof b, "%s(%u,%u,%u) ", kn[o.k % NK], o.a, o.b, o.c);
			s += b;
		}
		return s;
	}
};
static void handler1(enum libseat_log_level l, const char *f, va_list a) { H->handle(1, l, f, a); }
static void handler2(enum libseat_log_level l, const char *f, va_list a) { H->handle(2, l, f, a); }
void Sel::set_handler(int a) {
	custom = a != 0;
	which = a;
	libseat_set_log_handler(a == 0 ? NULL : a == 1 ? handler1 : handler2);
}
#define FAKE(name, b)                                                                                                                      \
	extern "C" const struct seat_impl name;                                                                                            \
	const struct seat_impl name = {                                                                                                    \
		[](const struct libseat_seat_listener *l, void *d) { return Sel::open_b(b, l, d); },                                       \
		[](struct libseat *s) { return Sel::rec(FN_DISABLE, b, s, NULL, 0); },                                                      \
		[](struct libseat *s) { return Sel::rec(FN_CLOSE, b, s, NULL, 0); },                                                        \
		[](struct libseat *s) -> const char * { Sel::rec(FN_NAME, b, s, NULL, 0); return H->next_name; },                           \
		[](struct libseat *s, const char *p, int *fd) { *fd = H->next_fd; return Sel::rec(FN_OPENDEV, b, s, p, 0); },               \
		[](struct libseat *s, int i) { return Sel::rec(FN_CLOSEDEV, b, s, NULL, i); },                                              \
		[](struct libseat *s, int i) { return Sel::rec(FN_SWITCH, b, s, NULL, i); },                                                \
		[](struct libseat *s) { return Sel::rec(FN_GETFD, b, s, NULL, 0); },                                                        \
		[](struct libseat *s, int i) { return Sel::rec(FN_DISPATCH, b, s, NULL, i); },                                              \
	};
FAKE(seatd_impl, SEATD)
FAKE(logind_impl, LOGIND)
FAKE(builtin_impl, BUILTIN)
FAKE(noop_impl, NOOP)
extern const struct seat_impl *const fakes[];
const struct seat_impl *const fakes[] = {&seatd_impl, &logind_impl, &builtin_impl, &noop_impl};
Harness *make_harness() { return new Sel; }
