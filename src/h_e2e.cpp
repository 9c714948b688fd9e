// C18: libseat applications against the real daemon. Applications are fibers that run inside the daemon's poll; a fiber that
// waits for its connection yields. The daemon's replies, as it sends them, are the reference for what libseat returns.
#define DAEMON_NO_HARNESS
#include "daemon.cpp"
#include <sanitizer/common_interface_defs.h>
#include <sys/mman.h>
#include <ucontext.h>
extern "C" {
#include "libseat.h"
}

enum { A_NONE, A_OPEN, A_CLOSE, A_DISPATCH, A_OPENDEV, A_CLOSEDEV, A_SWITCH, A_DISABLE, A_NAME, A_SETTLE, A_KILL, A_N };
static const char *AN[] = {"none", "open_seat", "close_seat", "dispatch", "open_device", "close_device", "switch_session", "disable_seat", "seat_name", "settle", "kill"};

struct E2E;
static E2E *E;
struct Dv {
	int id, fd;
	uint64_t ino;
};
struct App {
	int no;
	ucontext_t ctx;
	char *stack = nullptr;
	void *fake = nullptr;
	bool started = false, busy = false, waiting = false, want_quiet = false, timed_out = false, intr = false;
	bool disp = false; // the wait is dispatch's
	int timeout = 0, wfd = -1;
	int cmd = A_NONE;
	Op op{};
	struct libseat *seat = nullptr;
	Cl *c = nullptr;
	bool dead = false, believed = false, in_cb = false, opening = false, killed = false, was_up = false;
	bool owe = false; // told to disable, not acknowledged
	int evs = 0, waits = 0;
	std::vector<Dv> devs;
	const char *api = "nothing";
	int depth = 0;
};
static const int NAPP = 3;
static const size_t STK = 512 * 1024;

struct LibSys : Sys {
	int open(const char *, int, int) override { errno = EACCES; return -1; }
	int close(int fd) override;
	int socket(int d, int t, int p) override;
	int connect(int fd, const struct sockaddr *a, socklen_t l) override;
	ssize_t sendmsg(int fd, const struct msghdr *m, int fl) override;
	ssize_t recvmsg(int fd, struct msghdr *m, int fl) override;
	ssize_t read(int fd, void *b, size_t n) override {
		struct iovec v = {b, n};
		struct msghdr m = {};
		m.msg_iov = &v;
		m.msg_iovlen = 1;
		return recvmsg(fd, &m, 0);
	}
	ssize_t write(int fd, const void *b, size_t n) override {
		struct iovec v = {(void *)b, n};
		struct msghdr m = {};
		m.msg_iov = &v;
		m.msg_iovlen = 1;
		return sendmsg(fd, &m, MSG_NOSIGNAL);
	}
	int poll(struct pollfd *f, nfds_t n, int timeout) override;
	int output(const char *s, size_t n, bool) override {
		eng::trace("      lib log: %.*s", (int)n, s);
		return (int)n;
	}
	char *getenv(const char *n) override;
};
static void on_enable(struct libseat *s, void *d);
static void on_disable(struct libseat *s, void *d);
static const struct libseat_seat_listener listener = {on_enable, on_disable};
static void fiber_main();

struct E2E : Daemon {
	LibSys ls;
	App app[NAPP];
	App *cur_app = nullptr;
	ucontext_t mainctx;
	const void *main_bottom = nullptr;
	size_t main_size = 0;
	int ending = 0, endn = 0;
	std::map<int, int> lown; // descriptors owned by libseat, by application

	// ---------------- fibers
	void start_fiber(App &a) {
		if (!a.stack)
			a.stack = (char *)mmap(NULL, STK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		getcontext(&a.ctx);
		a.ctx.uc_stack.ss_sp = a.stack;
		a.ctx.uc_stack.ss_size = STK;
		a.ctx.uc_link = NULL;
		makecontext(&a.ctx, fiber_main, 0);
		a.started = true;
	}
	void resume(App &a) {
		if (!a.started)
			start_fiber(a);
		App *old = cur_app;
		if (old)
			abort();
		cur_app = &a;
		void *fake = nullptr;
		__sanitizer_start_switch_fiber(&fake, a.stack, STK);
		swapcontext(&mainctx, &a.ctx);
		__sanitizer_finish_switch_fiber(fake, NULL, NULL);
		cur_app = nullptr;
	}
	void yield() {
		App &a = *cur_app;
		__sanitizer_start_switch_fiber(&a.fake, main_bottom, main_size);
		swapcontext(&a.ctx, &mainctx);
		__sanitizer_finish_switch_fiber(a.fake, &main_bottom, &main_size);
	}
	bool runnable(App &a) {
		if (!a.busy || !a.waiting)
			return false;
		if (a.timed_out || a.intr)
			return true;
		if (a.want_quiet)
			return false;
		struct pollfd p = {a.wfd, POLLIN, 0};
		return ::poll(&p, 1, 0) > 0;
	}
	bool pump() override {
		bool any = false;
		for (auto &a : app)
			if (runnable(a)) {
				resume(a);
				any = true;
			}
		return any;
	}
	// the daemon is idle and no application can go on
	void lib_quiet() override {
		for (auto &a : app) {
			if (!a.busy)
				continue;
			if (a.want_quiet)
				a.timed_out = true;
			else if (a.disp && a.timeout >= 0)
				a.timed_out = true;
			else if (a.disp) {
				if (ending || io.chance(40))
					a.intr = true;
			} else
				eng::inv(tg(T(18) | T(7)), "unanswered", "the daemon has handled everything, but application %d still waits for the reply of its %s", a.no, a.api);
		}
		pump();
	}
	void command(App &a, int cmd, const Op &o) {
		a.cmd = cmd;
		a.op = o;
		a.busy = true;
		a.waiting = false;
		a.waits = 0;
		resume(a);
	}
	// ---------------- applications
	bool gone(App &a) { return !a.c || a.c->dropped || a.c->fd < 0; }
	void fiber() {
		App &a = *cur_app;
		for (;;) {
			step(a);
			a.busy = false;
			a.waiting = false;
			yield();
		}
	}
	int rnd(App &a, int salt) { return (a.op.d >> salt) & 0xff; }
	struct Api {
		App &a;
		const char *old;
		Api(App &x, const char *n) : a(x), old(x.api) { a.api = n; a.depth++; }
		~Api() { a.api = old; a.depth--; }
	};
	// the reply the daemon gave to the request, if it did
	bool take(App &a, Msg &m) {
		while (!a.c->lrep.empty()) {
			m = a.c->lrep.front();
			a.c->lrep.pop_front();
			if (m.op != S_PONG)
				return true;
		}
		return false;
	}
	void judge(App &a, const char *what, int r, int e, int okop, const std::string &req, bool inval, int *val = nullptr, uint64_t *ino = nullptr) {
		if (a.c && !inval && !a.dead) {
			if (a.c->lreq.size() > 1)
				eng::inv(T(18), "requests", "%s makes the daemon handle %zu requests", what, a.c->lreq.size());
			else if (a.c->lreq.size() && a.c->lreq[0] != req)
				eng::inv(T(18), "request-changed", "%s reaches the daemon as %s with other arguments", what, op_name(*(uint16_t *)a.c->lreq[0].data()));
		}
		if (a.c)
			a.c->lreq.clear();
		Msg m;
		bool have = a.c && take(a, m);
		eng::trace("   app%d: %s = %d errno %d (daemon: %s)", a.no, what, r, r < 0 ? e : 0, have ? op_name(m.op) : "nothing");
		eng::sig(r < 0 ? e : 300 + okop);
		if (r < 0 && e == 0)
			eng::inv(T(18) | T(17), "no-errno", "%s fails without setting errno", what);
		if (a.dead) {
			if (r >= 0)
				eng::inv(T(18) | T(17), "dead-ok", "%s succeeds after the connection was lost", what);
			return;
		}
		if (inval) {
			if (r >= 0 || e != EINVAL)
				eng::inv(T(18), "inval", "%s with an invalid argument returns %d (errno %d)", what, r, e);
			if (have)
				eng::inv(T(18), "inval-sent", "%s with an invalid argument reaches the daemon, which answers with %s", what, op_name(m.op));
			eng::count("invalid arguments");
			return;
		}
		if (!have) {
			if (r >= 0)
				eng::inv(T(18), "no-reply", "%s succeeds although the daemon has not replied", what);
			// close_seat ends the connection itself, but only once it has been answered
			bool over = !strcmp(what, "close_seat") && a.c && !a.killed && a.was_up ? a.c->dropped : gone(a);
			if (!over && !a.c->must_drop && model_on && !eng::desynced())
				eng::fail(T(18), "lost", "%s fails with errno %d although the daemon neither replied nor ended the connection", what, e);
			eng::count("requests cut off");
			a.dead = true;
			return;
		}
		if (m.op == S_ERROR) {
			int code = *(int *)m.body.data();
			if (r >= 0)
				eng::inv(T(18), "outcome", "%s returns %d although the daemon refused it with error %d", what, r, code);
			if (e != code)
				eng::inv(T(18), "errno", "%s fails with errno %d, but the daemon's reason was %d", what, e, code);
			eng::nontrivial();
			eng::count("requests refused");
			return;
		}
		if (m.op != okop)
			eng::inv(T(18), "reply-kind", "%s was answered with %s", what, op_name(m.op));
		if (r < 0)
			eng::inv(T(18), "outcome", "%s fails with errno %d although the daemon granted it", what, e);
		if (r > 0 && okop != S_DEVOPENED)
			eng::inv(T(18), "ret", "%s returns %d although the daemon granted it", what, r);
		if (val)
			*val = m.body.size() >= 4 ? *(int *)m.body.data() : 0;
		if (ino)
			*ino = m.has_ino ? m.ino : 0;
		eng::count(what);
	}
	void event(int k, struct libseat *s, void *d) {
		App &a = *cur_app;
		eng::trace("   app%d: event %s in %s", a.no, k ? "enable" : "disable", a.api);
		if (d != &a || (a.seat && s != a.seat))
			eng::inv(T(18) | T(16), "event-target", "an event of another seat is delivered");
		if (strcmp(a.api, "dispatch") && strcmp(a.api, "open_seat") && strcmp(a.api, "close_seat"))
			eng::inv(T(16) | T(18), "event-where", "an event is delivered from within %s", a.api);
		a.believed = k;
		a.evs++;
		if (!strcmp(a.api, "close_seat") || !a.seat)
			return;
		if (!k) {
			a.owe = true;
			if ((a.op.f & 3) == 1 && a.depth < 3)
				disable(a);
		} else if ((a.op.f & 0x60) == 0x20 && a.depth < 3)
			opendev(a, path_for(a.op.d >> 3));
	}
	void disable(App &a) {
		Api g(a, "disable_seat");
		errno = 0;
		int r = libseat_disable_seat(a.seat), e = errno;
		if (r == 0)
			a.owe = false;
		judge(a, "disable_seat", r, e, S_DISABLED, msg(DISABLE_SEAT), false);
	}
	void opendev(App &a, const std::string &path) {
		Api g(a, "open_device");
		int fd = -77;
		errno = 0;
		int r = libseat_open_device(a.seat, path.c_str(), &fd), e = errno;
		int id = 0;
		uint64_t ino = 0;
		bool was_dead = a.dead;
		judge(a, "open_device", r, e, S_DEVOPENED, msg_open(path), path.size() > 255, &id, &ino);
		if (r >= 0 && !was_dead) {
			if (r != id)
				eng::inv(T(18), "devid", "open_device returns %d, but the daemon said %d", r, id);
			auto it = lown.find(fd);
			if (fd < 0 || it == lown.end())
				eng::inv(T(18), "dev-fd", "open_device gives descriptor %d, which is not a fresh one", fd);
			else
				lown.erase(it);
			if (fd >= 0 && ino_of(fd) != ino)
				eng::inv(T(18) | T(6), "dev-which", "open_device gives the descriptor of another device");
			if (fd >= 0 && !(::fcntl(fd, F_GETFD) & FD_CLOEXEC))
				eng::inv(T(18), "dev-inherited", "open_device gives a descriptor that programs started later inherit");
			std::string canon;
			Ofd *o = K.by_ino(ino);
			if (!vfs_ever && o && K.resolve(path, canon, true) == 0 && K.byidx[o->node] != canon)
				eng::inv(T(18) | T(6), "dev-path", "open_device of %s gives a descriptor of %s", path.c_str(), K.byidx[o->node].c_str());
			if (fd >= 0)
				a.devs.push_back({r, fd, ino});
			if (path.size() > 200)
				eng::nontrivial(), eng::count("long paths");
		}
	}
	bool vfs_ever = false;
	void check_devs(App &a) {
		for (auto &d : a.devs)
			if (ino_of(d.fd) != d.ino)
				eng::inv(T(18) | T(17), "dev-closed", "the application's device descriptor %d was closed by the library", d.fd);
	}
	void drop_devs(App &a) {
		check_devs(a);
		for (auto &d : a.devs)
			::close(d.fd);
		a.devs.clear();
	}
	int dispatch(App &a, int timeout) {
		Api g(a, "dispatch");
		a.timeout = timeout;
		errno = 0;
		int ev0 = a.evs;
		int r = libseat_dispatch(a.seat, timeout), e = errno;
		eng::trace("   app%d: dispatch(%d) = %d errno %d, %d events", a.no, timeout, r, r < 0 ? e : 0, a.evs - ev0);
		if (r < 0) {
			if (e == 0)
				eng::inv(T(18) | T(17), "no-errno", "dispatch fails without setting errno");
			if (!a.dead && !gone(a) && !a.c->must_drop && !finished && model_on && !eng::desynced())
				eng::fail(T(18), "dispatch-fail", "dispatch fails with errno %d although the daemon has not ended the connection", e);
			a.dead = true;
		}
		if (a.evs > ev0 && r == 0)
			eng::inv(T(18) | T(16), "dispatch-ret", "dispatch returns 0 although it delivered %d events", a.evs - ev0);
		return r;
	}
	bool readable(App &a) {
		struct pollfd p = {libseat_get_fd(a.seat), POLLIN, 0};
		return p.fd >= 0 && ::poll(&p, 1, 0) > 0;
	}
	void wait_quiet(App &a) {
		a.want_quiet = true;
		a.timed_out = false;
		a.waiting = true;
		yield();
		a.waiting = a.want_quiet = a.timed_out = a.intr = false;
	}
	// event loop until nothing is left, then the application's belief has to be right
	void settle(App &a) {
		bool loop = !(a.op.a & 64); // dispatch only when the descriptor is readable, as an event loop would
		for (int i = 0; i < 200; i++) {
			if (a.dead)
				return;
			bool rd = readable(a);
			if (rd || !loop) {
				int r = dispatch(a, 0);
				if (r < 0)
					return;
				if (rd || r > 0)
					continue;
			}
			wait_quiet(a);
			if (a.dead || a.c->dropped)
				break;
			if (!readable(a))
				break;
			if (i == 199)
				eng::inv(T(18) | T(16), "no-end", "dispatching never comes to an end");
		}
		if (gone(a) || a.c->limbo || a.c->must_drop)
			return;
		eng::count("settled");
		if (a.believed != a.c->told_enabled)
			eng::inv(T(18) | T(16), "belief", "all events are dispatched, but the application believes the seat %s; the last thing the daemon sent was %s", a.believed ? "enabled" : "disabled",
				a.c->told_enabled ? "enable" : "disable");
		if (model_on && a.believed != (a.c->st == ACTIVE))
			eng::fail(T(18), "belief-state", "all events are dispatched, but the application believes the seat %s, while its session is %s", a.believed ? "enabled" : "disabled", st_name(a.c->st));
	}
	void open(App &a) {
		Api g(a, "open_seat");
		a.dead = a.believed = a.owe = a.killed = false;
		a.c = nullptr;
		errno = 0;
		a.seat = libseat_open_seat(&listener, &a);
		int e = errno;
		if (!a.c) {
			if (a.seat)
				eng::inv(T(18), "no-connection", "opening the seat succeeds without a connection");
			return;
		}
		if (a.c->lreq.size() > 1 || (a.c->lreq.size() == 1 && a.c->lreq[0] != msg(OPEN_SEAT)))
			eng::inv(T(18), "request-changed", "open_seat reaches the daemon as other requests");
		a.c->lreq.clear();
		Msg m;
		bool have = take(a, m);
		eng::trace("   app%d: open_seat = %p errno %d (daemon: %s)", a.no, (void *)a.seat, a.seat ? 0 : e, have ? op_name(m.op) : "nothing");
		if (!a.seat) {
			if (e == 0)
				eng::inv(T(18) | T(17), "no-errno", "open_seat fails without setting errno");
			if (have && m.op == S_OPENED)
				eng::inv(T(18), "outcome", "open_seat fails with errno %d although the daemon opened the seat", e);
			if (have && m.op == S_ERROR && e != *(int *)m.body.data())
				eng::inv(T(18), "errno", "open_seat fails with errno %d, but the daemon's reason was %d", e, *(int *)m.body.data());
			if (!have && !a.c->dropped && !a.c->must_drop && model_on && !eng::desynced())
				eng::fail(T(18), "lost", "open_seat fails with errno %d although the daemon neither replied nor ended the connection", e);
			leak_check(a, "a failed open_seat");
			eng::count("refused opens");
			a.dead = true;
			return;
		}
		if (!have || m.op != S_OPENED)
			eng::inv(T(18), "outcome", "open_seat succeeds although the daemon did not open the seat");
		else {
			uint16_t l;
			memcpy(&l, m.body.data(), 2);
			std::string nm(m.body.data() + 2, strnlen(m.body.data() + 2, l));
			const char *n = libseat_seat_name(a.seat);
			if (!n || nm != n)
				eng::inv(T(18), "seat-name", "the seat is called '%s' instead of '%s'", n ? n : "(null)", nm.c_str());
		}
		eng::count("open_seat");
	}
	void leak_check(App &a, const char *what) {
		for (auto &p : lown)
			if (p.second == a.no)
				eng::inv(T(18) | T(17), "leak-fd", "%s leaves descriptor %d open", what, p.first);
	}
	void close_seat(App &a) {
		{
			Api g(a, "close_seat");
			errno = 0;
			a.was_up = !gone(a);
			int r = libseat_close_seat(a.seat), e = errno;
			judge(a, "close_seat", r, e, S_CLOSED, msg(CLOSE_SEAT), false);
		}
		leak_check(a, "close_seat");
		drop_devs(a);
		a.seat = nullptr;
		a.c = nullptr;
		a.believed = a.owe = false;
	}
	void step(App &a) {
		const Op &o = a.op;
		eng::trace("   app%d: %s a=%u b=%u c=%u d=%u", a.no, AN[a.cmd], o.a, o.b, o.c, o.d);
		if (!a.seat && a.cmd != A_OPEN)
			return;
		switch (a.cmd) {
		case A_OPEN:
			if (!a.seat)
				open(a);
			break;
		case A_CLOSE: close_seat(a); break;
		case A_DISPATCH: {
			static const int t[] = {0, -1, 10, 0};
			dispatch(a, t[o.b % 4]);
			break;
		}
		case A_OPENDEV: {
			std::string p = path_for(o.d);
			if (o.b % 12 == 0) // around the limit
				while (p.size() < 252u + o.c % 8 && p.size() < 270 && !p.empty() && p[0] == '/')
					p = "/" + p;
			if (o.b % 40 == 1)
				p = std::string(256 + o.c % 3000, '/') + "dev/dri/card0";
			opendev(a, p);
			break;
		}
		case A_CLOSEDEV: {
			static const int ids[] = {0, -1, 1, 2, 129, INT_MAX, INT_MIN, 65536, 3, 128};
			int id = ids[o.c % 10];
			size_t i = a.devs.empty() ? 0 : o.c % a.devs.size();
			bool known = o.b % 8 && !a.devs.empty();
			if (known)
				id = a.devs[i].id;
			int r, e;
			{
				Api g(a, "close_device");
				errno = 0;
				r = libseat_close_device(a.seat, id);
				e = errno;
				judge(a, "close_device", r, e, S_DEVCLOSED, msg_int(CLOSE_DEVICE, id), id < 0);
			}
			check_devs(a);
			if (known && r == 0) {
				::close(a.devs[i].fd);
				a.devs.erase(a.devs.begin() + i);
			}
			break;
		}
		case A_SWITCH: {
			std::vector<int> ss;
			for (auto &p : cl)
				if (p->member)
					ss.push_back(p->session);
			static const int v[] = {0, -1, 99, INT_MAX, INT_MIN, 1, 2, 3, 4, 63};
			int s = o.b % 3 && !ss.empty() ? ss[o.c % ss.size()] : vtb ? 1 + o.c % 6 : v[o.c % 10];
			if (o.b % 16 == 0)
				s = v[o.c % 10];
			Api g(a, "switch_session");
			errno = 0;
			int r = libseat_switch_session(a.seat, s), e = errno;
			judge(a, "switch_session", r, e, S_SWITCHED, msg_int(SWITCH_SESSION, s), s < 0);
			break;
		}
		case A_DISABLE:
			if (a.owe || o.b % 8 == 0)
				disable(a);
			break;
		case A_NAME: {
			const char *n = libseat_seat_name(a.seat);
			if (!n || strcmp(n, "seat0"))
				eng::inv(T(18), "seat-name", "the seat is called '%s'", n ? n : "(null)");
			break;
		}
		case A_SETTLE:
			settle(a);
			if (a.seat && a.owe && (o.b & 1) && !a.dead)
				disable(a);
			break;
		case A_KILL: // the process dies: its descriptors are closed
			if (a.depth == 0)
				kill_app(a);
			break;
		}
	}
	void kill_app(App &a) {
		for (auto it = lown.begin(); it != lown.end();)
			if (it->second == a.no) {
				if (a.c && a.c->fd == it->first) {
					::close(a.c->fd);
					a.c->fd = -1;
					a.c->peer_closed = true;
				} else
					::close(it->first);
				// keep the number reserved so that the library's own close can be told apart
				zombies.insert(it->first);
				it = lown.erase(it);
			} else
				++it;
		a.dead = true;
		a.killed = true;
		// free what the dead application had allocated
		zombie = true;
		libseat_close_seat(a.seat);
		zombie = false;
		zombies.clear();
		drop_devs(a);
		a.seat = nullptr;
		a.c = nullptr;
		eng::count("applications killed");
	}
	std::set<int> zombies;
	bool zombie = false;
	// ---------------- hooks
	bool lib_op(const Op &o) override {
		if (finished)
			return false;
		App &a = app[o.a % NAPP];
		if (a.busy)
			return false;
		int k;
		if (!a.seat) {
			int live = 0;
			for (auto &p : cl)
				live += p->fd >= 0;
			if (backlog.size() >= 7 || live >= 13 || cl.size() > 58)
				return false;
			k = A_OPEN;
		} else {
			static const int w[] = {A_OPENDEV, A_OPENDEV, A_OPENDEV, A_OPENDEV, A_CLOSEDEV, A_CLOSEDEV, A_SWITCH, A_SWITCH, A_DISABLE, A_DISABLE, A_SETTLE, A_SETTLE, A_SETTLE,
						A_DISPATCH, A_DISPATCH, A_DISPATCH, A_NAME, A_CLOSE, A_OPENDEV, A_KILL, A_SETTLE, A_OPENDEV, A_SWITCH};
			k = w[(o.a >> 7) % N_OF(w)];
			if (k == A_KILL && o.c % 3)
				k = A_SETTLE;
		}
		command(a, k, o);
		return true;
	}
	bool lib_end() override {
		Op o{};
		if (ending == 0) {
			ending = 1;
			endn = 0;
		}
		for (auto &a : app)
			if (a.busy)
				return true;
		if (ending == 1) {
			for (auto &a : app)
				if (a.seat && !a.dead) {
					o.b = 1;
					command(a, A_SETTLE, o);
				}
			if (++endn >= 3)
				ending = 2;
			return true;
		}
		if (ending == 2) {
			ending = 3;
			if (!(cs->cfg[11] & 1)) {
				for (auto &a : app)
					if (a.seat)
						command(a, A_CLOSE, o);
				return true;
			}
		}
		return false;
	}
	void lib_after() override {
		// the daemon has gone: every call returns, and says so
		for (auto &a : app) {
			if (a.busy) {
				a.intr = true;
				for (int i = 0; i < 50 && a.busy; i++)
					resume(a);
			}
			if (a.busy)
				eng::inv(T(18) | T(17), "wait-gone", "%s does not return although the daemon has gone", a.api);
		}
		for (auto &a : app) {
			if (!a.seat)
				continue;
			Op o{};
			a.op = o;
			command(a, A_NONE, o);
			after_gone = true;
			for (int i = 0; i < 30 && !a.dead; i++) {
				Op d{};
				d.b = 0;
				command(a, A_DISPATCH, d);
			}
			if (!a.dead)
				eng::inv(T(18) | T(17), "loss-unreported", "dispatch keeps succeeding although the daemon has gone");
			Op d{};
			command(a, A_CLOSE, d);
			after_gone = false;
		}
		for (auto &p : lown)
			::close(p.first);
		lown.clear();
	}
	bool after_gone = false;
	Case mine;
	void run_case(const Case &cc) {
		mine = cc;
		mine.cfg[3] = 0; // no failing system calls here
		const Case &c = mine;
		E = this;
		lib_sys = &ls;
		ending = 0;
		lown.clear();
		vfs_ever = false;
		for (auto &o : c.ops)
			if (o.k % O_COUNT == O_VFS || o.k % O_COUNT == O_ARM)
				vfs_ever = true;
		for (int i = 0; i < NAPP; i++) {
			App &a = app[i];
			a.no = i;
			a.busy = a.waiting = a.want_quiet = a.timed_out = a.intr = false;
			a.seat = nullptr;
			a.c = nullptr;
			a.devs.clear();
			a.dead = false;
			a.depth = 0;
			a.api = "nothing";
		}
		run(c);
	}
};
static void fiber_main() {
	__sanitizer_finish_switch_fiber(NULL, &E->main_bottom, &E->main_size);
	E->fiber();
}
static void on_enable(struct libseat *s, void *d) { E->event(1, s, d); }
static void on_disable(struct libseat *s, void *d) { E->event(0, s, d); }

int LibSys::close(int fd) {
	if (E->zombie && E->zombies.erase(fd))
		return 0;
	auto it = E->lown.find(fd);
	if (it == E->lown.end()) {
		eng::inv(T(17) | T(18), "bad-close", "close(%d): libseat does not own that descriptor", fd);
		errno = EBADF;
		return -1;
	}
	E->lown.erase(it);
	App &a = *E->cur_app;
	if (a.c && a.c->fd == fd) {
		a.c->fd = -1;
		a.c->peer_closed = true;
	}
	return ::close(fd);
}
int LibSys::socket(int d, int t, int p) {
	int fd = ::socket(d, t, p);
	if (fd >= 0)
		E->lown[fd] = E->cur_app->no;
	return fd;
}
int LibSys::connect(int fd, const struct sockaddr *, socklen_t) {
	App &a = *E->cur_app;
	struct sockaddr_un u = {};
	u.sun_family = AF_UNIX;
	strcpy(u.sun_path, SOCKP);
	if (::connect(fd, (struct sockaddr *)&u, sizeof u) != 0)
		return -1;
	E->cl.emplace_back(new Cl);
	a.c = E->cl.back().get();
	a.c->id = (int)E->cl.size() - 1;
	a.c->fd = fd;
	a.c->is_lib = true;
	E->backlog.push_back(a.c->id);
	return 0;
}
ssize_t LibSys::sendmsg(int fd, const struct msghdr *m, int fl) {
	App &a = *E->cur_app;
	if (E->zombie) {
		errno = EBADF;
		return -1;
	}
	if (E->p_eintr && E->io.chance(E->p_eintr)) {
		errno = EINTR;
		return -1;
	}
	struct iovec v = {};
	std::string b;
	for (size_t i = 0; i < m->msg_iovlen; i++)
		b.append((char *)m->msg_iov[i].iov_base, m->msg_iov[i].iov_len);
	v.iov_base = (void *)b.data();
	v.iov_len = b.size();
	if (E->p_short && v.iov_len > 1 && E->io.chance(E->p_short))
		v.iov_len = 1 + E->io.below(v.iov_len - 1);
	struct msghdr mm = *m;
	mm.msg_iov = &v;
	mm.msg_iovlen = 1;
	ssize_t r = ::sendmsg(fd, &mm, fl | MSG_NOSIGNAL);
	if (r > 0 && a.c && a.c->fd == fd)
		a.c->sent += r;
	return r;
}
ssize_t LibSys::recvmsg(int fd, struct msghdr *m, int fl) {
	if (E->zombie) {
		errno = EBADF;
		return -1;
	}
	if (E->p_eintr && E->io.chance(E->p_eintr)) {
		errno = EINTR;
		return -1;
	}
	struct msghdr mm = *m;
	struct iovec v[4];
	if (m->msg_iovlen <= 4 && m->msg_iovlen && E->p_rshort && E->io.chance(E->p_rshort)) {
		v[0] = m->msg_iov[0];
		v[0].iov_len = std::min<size_t>(v[0].iov_len, 1 + E->io.below(12));
		mm.msg_iov = v;
		mm.msg_iovlen = 1;
	}
	ssize_t r = ::recvmsg(fd, &mm, fl);
	m->msg_controllen = mm.msg_controllen;
	m->msg_flags = mm.msg_flags;
	if (r >= 0 && m->msg_control)
		for (struct cmsghdr *h = CMSG_FIRSTHDR(m); h; h = CMSG_NXTHDR(m, h))
			if (h->cmsg_level == SOL_SOCKET && h->cmsg_type == SCM_RIGHTS)
				for (size_t i = 0; i < (h->cmsg_len - CMSG_LEN(0)) / sizeof(int); i++) {
					int f;
					memcpy(&f, CMSG_DATA(h) + i * sizeof f, sizeof f);
					E->lown[f] = E->cur_app->no;
				}
	return r;
}
int LibSys::poll(struct pollfd *f, nfds_t n, int timeout) {
	App &a = *E->cur_app;
	if (++a.waits > 5000)
		eng::inv(T(18) | T(17), "spin", "%s polls without end", a.api);
	int r = ::poll(f, n, 0);
	if (r || timeout == 0)
		return r;
	if (E->zombie) {
		errno = EINTR;
		return -1;
	}
	if (E->p_eintr && E->io.chance(E->p_eintr)) {
		errno = EINTR;
		return -1;
	}
	a.disp = !strcmp(a.api, "dispatch");
	a.timeout = timeout;
	a.wfd = f[0].fd;
	a.waiting = true;
	a.timed_out = a.intr = false;
	E->yield();
	a.waiting = false;
	r = ::poll(f, n, 0);
	if (r == 0 && a.intr) {
		a.intr = false;
		errno = EINTR;
		return -1;
	}
	a.intr = a.timed_out = false;
	return r;
}
char *LibSys::getenv(const char *n) {
	if (!strcmp(n, "LIBSEAT_BACKEND"))
		return (char *)"seatd";
	return !strcmp(n, "SEATD_SOCK") ? (char *)"seatd.sock" : NULL;
}

struct E2EHarness : Harness {
	E2E d;
	E2EHarness() { d.K.hidraw = false; }
	size_t max_ops() override { return eng::thorough() ? 240 : 130; }
	std::string rule(int) override { return "a request of an application was refused by the daemon or used a path longer than 200 bytes; distinct by the sequence of results"; }
	void gen(Rng &r, Case &c, int) override {
		c.ops.clear();
		for (auto &b : c.cfg)
			b = 0;
		c.cfg[0] = r.chance(45) ? (r.chance(50) ? 2 : 0) : 1 | (r.below(4) << 1);
		if (r.chance(45))
			c.cfg[1] = r.next() & 63;
		c.cfg[2] = r.chance(20);
		c.cfg[8] = r.chance(15);
		c.cfg[11] = (r.chance(30) ? 1 : 0) | (r.chance(30) ? 2 : 0);
		c.cfg[12] = r.chance(70);
		static const int w[O_COUNT] = {3, 3, 2, 6, 1, 3, 5, 2, 1, 3, 0, 0, 0, 2, 1, 0, 1, 1, 2, 1, 2, 8, 8, 0, 110};
		bool isvt = !(c.cfg[0] & 1);
		int total = 0;
		for (int i = 0; i < O_COUNT; i++)
			total += w[i];
		total += isvt ? 12 : 0;
		int n = 10 + r.below(r.chance(30) ? 100 : 60);
		while ((int)c.ops.size() < n) {
			int x = r.below(total), k = 0;
			while (k < O_COUNT && x >= w[k])
				x -= w[k++];
			if (k == O_COUNT)
				k = O_USERVT;
			Op o;
			o.k = k;
			o.f = (r.chance(22) ? 1 : 0) | (r.chance(12) ? 4 : 0) | (r.below(4) << 5) | (r.chance(50) ? 2 : 0);
			o.a = r.next();
			o.b = r.next();
			o.c = r.next();
			o.d = r.next();
			if (k == O_OPENDEV || k == O_LIB)
				if (r.chance(50))
					o.d = (o.d & ~0xffu) | r.below(110);
			if (k != O_LIB && r.chance(50))
				o.a = 4 | (o.a & ~7);
			c.ops.push_back(o);
		}
	}
	void run(const Case &c) override { d.run_case(c); }
	std::string describe(const Case &c) override {
		char b[300];
		snprintf(b, sizeof b, "%s seat; io mode %d; %s at the end\n", c.cfg[0] & 1 ? "non-VT" : "VT-bound", c.cfg[1] & 63, c.cfg[11] & 1 ? "shutdown with clients" : "clients leave");
		std::string s = b;
		for (auto &o : c.ops) {
			int k = o.k % O_COUNT;
			snprintf(b, sizeof b, "%s%s a=%u b=%u c=%u d=%u; ", ONAME[k], o.f & 1 ? "+" : "", o.a, o.b, o.c, o.d);
			s += b;
		}
		return s;
	}
};
Harness *make_harness() { return new E2EHarness; }
