// C26: the same application run twice, with the embedded server of the builtin backend (a real fork) and with a seatd daemon
// of its own (another real process), in lock step over a fake kernel in shared memory. What the application and the kernel
// see has to be the same; the end of the embedded server is checked by itself.
#include "engine.hpp"
#include "kern.hpp"
#include "sys.hpp"
#include <cerrno>
#include <climits>
#include <cstdlib>
#include <cstring>
#include <linux/kd.h>
#include <linux/vt.h>
#include <map>
#include <semaphore.h>
#include <set>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <sys/un.h>
#include <sys/wait.h>
#include <time.h>
extern "C" {
#include "libseat.h"
int seatd_main(int, char **);
}
#define N_OF(x) (sizeof(x) / sizeof *(x))
enum { OPEN, CLOSE, DISPATCH, OPENDEV, CLOSEDEV, SWITCH, DISABLE, NAME, USERVT, QUIET, SETTLE, FAULT, TERM, KILL, FOREIGN, NK };
static const char *kn[] = {"open_seat", "close_seat", "dispatch", "open_device", "close_device", "switch_session", "disable_seat", "seat_name", "user VT",
			   "quiet", "settle", "fault", "terminate server", "application dies", "foreign DRM master"};
static const char *GOODP[] = {"/dev/dri/card0", "/dev/dri/card1", "/dev/dri/renderD128", "/dev/input/event0", "/dev/input/event1", "/dev/input/event2",
			      "/dev/dri/card0", "/dev/input/event0", "/dev/input/../dri/card1", "/tmp/lnk-card", "/tmp/lnk-ev", "/dev/dri/by-path/pci-0-card"};
static const char *BADP[] = {"/dev/mem", "/etc/shadow", "/dev/tty1", "/dev/dri/evil", "/dev/dri", "/nowhere", "", "/dev/hidraw0", "dev/dri/card0", "/dev/input/event99",
			     "/tmp/lnk-loop", "/dev/inputs/event0", "/tmp/dev/dri/card0"};
static const int FCLS[] = {F_OPENDEV, F_DUP, F_SETMASTER, F_DROPMASTER, F_REVOKE, F_REALPATH, F_TTYOPEN, F_TTYIOCTL};
static const char *FN[] = {"open of a device", "dup", "DRM set master", "DRM drop master", "revoke", "realpath", "open of a terminal", "terminal control"};
enum { L_NONE, L_SOCKETPAIR, L_FORK, L_ALLOC, L_FCNTL, L_PIPE, L_PEERCRED, L_LIBALLOC, L_N };
static const char *LN[] = {"none", "socketpair", "fork", "allocation in the server", "fcntl", "pipe", "getsockopt", "allocation in libseat"};

struct Shm {
	sem_t go, back;
	int exited, code, spin, polls;
	uint64_t pend;
	int fault[F_NCLASS], fault_n[F_NCLASS];
	int late_kind, late_n, late_errno, late_fired; // failures while starting
	int tty_faults;
	char note[200];
};
static Shm *S;
struct Built;
static Built *B;
static void on_enable(struct libseat *s, void *d);
static void on_disable(struct libseat *s, void *d);
static const struct libseat_seat_listener listener = {on_enable, on_disable};

struct Built : Harness, Sys {
	Kern K;
	int role = 0; // 1 in the server
	pid_t srv = 0;
	bool builtin, alone; // which run
	std::vector<std::string> log[2];
	struct Dv {
		int id, fd, ord;
		uint64_t ino;
	};
	std::vector<Dv> devs;
	std::map<uint64_t, int> ords;
	std::set<uint64_t> granted;
	std::set<int> own;
	std::set<void *> blocks;
	struct libseat *seat;
	bool dead, believed, owe, zombie, in_lib, hopeless, lost_server;
	const char *api;
	int depth, events, evseq;
	Op cur;
	bool vtb;
	int wait_polls;

	// ---------------- server side
	bool late(int k) {
		if (!S->late_kind || S->late_kind != k || --S->late_n > 0)
			return false;
		S->late_kind = 0;
		S->late_fired = 1;
		errno = S->late_errno;
		return true;
	}
	pid_t fork() override {
		if (role == 0 && late(L_FORK))
			return -1;
		return spawn();
	}
	pid_t spawn() {
		if (role) {
			errno = EAGAIN;
			return -1;
		}
		S->exited = S->code = S->polls = 0;
		S->pend = 0;
		sem_init(&S->go, 1, 0);
		sem_init(&S->back, 1, 0);
		pid_t p = ::fork();
		if (p == 0) {
			role = 1;
			own.clear();
			blocks.clear();
			while (sem_wait(&S->go) != 0)
				;
		} else if (p > 0)
			srv = p;
		return p;
	}
	void exit(int c) override { _exit(c); }
	void _exit(int c) override {
		if (role) {
			S->code = c;
			S->exited = 1;
			sem_post(&S->back);
		}
		::_exit(0);
	}
	int poll(struct pollfd *f, nfds_t n, int timeout) override {
		if (role)
			return srv_poll(f, n, timeout);
		return lib_poll(f, n, timeout);
	}
	int srv_poll(struct pollfd *f, nfds_t n, int timeout) {
		for (;;) {
			if (S->pend) {
				for (int s = 1; s < 64; s++)
					if (S->pend >> s & 1) {
						S->pend &= ~(1ull << s);
						::raise(s);
					}
				errno = EINTR;
				return -1;
			}
			int r = ::poll(f, n, 0);
			if (r != 0 || timeout == 0) {
				if (++S->polls <= 20000)
					return r;
				S->spin = 1;
			}
			sem_post(&S->back);
			while (sem_wait(&S->go) != 0)
				;
			S->polls = 0;
		}
	}
	int open(const char *p, int fl, int) override {
		if (!role) {
			inv("lib-open", "libseat itself opens %s", p);
			errno = EACCES;
			return -1;
		}
		return K.do_open(p, fl, 0);
	}
	char *realpath(const char *p, char *out) override {
		std::string c;
		int e = K.fault(F_REALPATH);
		if (!e)
			e = K.resolve(p, c, true);
		if (e) {
			errno = e;
			return NULL;
		}
		if (!out)
			out = (char *)::malloc(c.size() + 1);
		strcpy(out, c.c_str());
		return out;
	}
	int ioctl(int fd, unsigned long r, void *a) override {
		int f = S->fault[F_TTYIOCTL];
		if (r == VT_GETSTATE) // does not fail
			S->fault[F_TTYIOCTL] = 0;
		int x = K.do_ioctl(fd, K.find(fd), r, a);
		if (r == VT_GETSTATE)
			S->fault[F_TTYIOCTL] = f;
		return x;
	}
	int dup(int fd) override {
		int e = role ? K.fault(F_DUP) : 0;
		if (e) {
			errno = e;
			return -1;
		}
		int r = ::dup(fd);
		if (!role && r >= 0)
			own.insert(r);
		return r;
	}
	int fcntl(int fd, int c, long a) override {
		if ((c == F_DUPFD || c == F_DUPFD_CLOEXEC)) {
			int e = role ? K.fault(F_DUP) : 0;
			if (e) {
				errno = e;
				return -1;
			}
		} else if (role && late(L_FCNTL))
			return -1;
		int r = ::fcntl(fd, c, a);
		if (!role && r >= 0 && (c == F_DUPFD || c == F_DUPFD_CLOEXEC))
			own.insert(r);
		return r;
	}
	int pipe2(int p[2], int fl) override {
		if (role && late(L_PIPE))
			return -1;
		int r = ::pipe2(p, fl);
		if (r == 0 && !role)
			own.insert(p[0]), own.insert(p[1]);
		return r;
	}
	int getsockopt(int fd, int l, int o, void *v, socklen_t *n) override {
		if (role && late(L_PEERCRED))
			return -1;
		return ::getsockopt(fd, l, o, v, n);
	}
	int unlink(const char *p) override { return role && p[0] != '/' ? ::unlink(p) : (errno = EPERM, -1); }
	void *malloc(size_t n) override {
		if (late(role ? L_ALLOC : L_LIBALLOC)) {
			errno = ENOMEM;
			return NULL;
		}
		void *p = ::malloc(n);
		if (!role)
			blocks.insert(p);
		return p;
	}
	void *calloc(size_t a, size_t b) override {
		void *p = malloc(a * b);
		if (p)
			memset(p, 0, a * b);
		return p;
	}
	void *realloc(void *o, size_t n) override {
		if (late(role ? L_ALLOC : L_LIBALLOC)) {
			errno = ENOMEM;
			return NULL;
		}
		if (!role)
			blocks.erase(o);
		void *p = ::realloc(o, n);
		if (!role)
			blocks.insert(p);
		return p;
	}
	void free(void *p) override {
		if (!role)
			blocks.erase(p);
		::free(p);
	}
	// ---------------- library side
	int close(int fd) override {
		if (role)
			return ::close(fd);
		if (zombie)
			return 0;
		if (!own.erase(fd)) {
			inv("bad-close", "close(%d): not a descriptor of the library", fd);
			errno = EBADF;
			return -1;
		}
		return ::close(fd);
	}
	int socketpair(int d, int t, int p, int sv[2]) override {
		if (!role && late(L_SOCKETPAIR))
			return -1;
		int r = ::socketpair(d, t, p, sv);
		if (r == 0 && !role)
			own.insert(sv[0]), own.insert(sv[1]);
		return r;
	}
	int socket(int d, int t, int p) override {
		int r = ::socket(d, t, p);
		if (r >= 0 && !role)
			own.insert(r);
		return r;
	}
	ssize_t sendmsg(int fd, const struct msghdr *m, int fl) override {
		if (!role && zombie) {
			errno = EBADF;
			return -1;
		}
		return ::sendmsg(fd, m, fl);
	}
	ssize_t recvmsg(int fd, struct msghdr *m, int fl) override {
		if (!role && zombie) {
			errno = EBADF;
			return -1;
		}
		ssize_t r = ::recvmsg(fd, m, fl);
		if (!role && r >= 0 && m->msg_control)
			for (struct cmsghdr *h = CMSG_FIRSTHDR(m); h; h = CMSG_NXTHDR(m, h))
				if (h->cmsg_level == SOL_SOCKET && h->cmsg_type == SCM_RIGHTS)
					for (size_t i = 0; i < (h->cmsg_len - CMSG_LEN(0)) / sizeof(int); i++) {
						int f;
						memcpy(&f, CMSG_DATA(h) + i * sizeof f, sizeof f);
						own.insert(f);
						granted.insert(ino_of(f));
					}
		return r;
	}
	int lib_poll(struct pollfd *f, nfds_t n, int timeout) {
		if (zombie) {
			errno = EIO;
			return -1;
		}
		if (++wait_polls > 2000) {
			inv("spin", "%s polls without end", api);
			errno = EIO;
			return -1;
		}
		int r = ::poll(f, n, 0);
		if (r != 0 || timeout == 0)
			return r;
		turn();
		r = ::poll(f, n, 0);
		if (r == 0 && timeout < 0) {
			inv("unanswered", "%s waits, but the server %s", api, srv ? "has handled everything" : "is gone");
			errno = EIO;
			return -1;
		}
		return r;
	}
	int output(const char *s, size_t n, bool) override {
		if (eng::verbose())
			fprintf(stderr, "        %s: %.*s%s", role ? (builtin ? "embedded" : "seatd") : "lib", (int)n, s, n && s[n - 1] == '\n' ? "" : "\n");
		return (int)n;
	}
	char *getenv(const char *n) override {
		if (!strcmp(n, "LIBSEAT_BACKEND"))
			return (char *)(builtin ? "builtin" : "seatd");
		if (!strcmp(n, "SEATD_VTBOUND"))
			return (char *)(vtb ? (cs->cfg[1] & 1 ? "1" : NULL) : "0");
		return NULL;
	}
	const Case *cs;
	void inv(const char *key, const char *f, ...) __attribute__((format(printf, 3, 4))) {
		char b[500];
		va_list a;
		va_start(a, f);
		vsnprintf(b, sizeof b, f, a);
		va_end(a);
		if (builtin || !strcmp(key, "spin") || !strcmp(key, "unanswered"))
			say("BROKEN %s", b);
		if (builtin)
			eng::inv(T(26), key, "builtin: %s", b);
		hopeless = true;
	}
	void say(const char *f, ...) __attribute__((format(printf, 2, 3))) {
		char b[600];
		va_list a;
		va_start(a, f);
		vsnprintf(b, sizeof b, f, a);
		va_end(a);
		eng::trace("  [%s] %s", builtin ? "builtin" : "seatd", b);
		log[builtin ? 0 : 1].push_back(b);
	}
	void reap(bool crashed) {
		int st = 0;
		if (crashed)
			::kill(srv, SIGKILL);
		while (::waitpid(srv, &st, 0) < 0 && errno == EINTR)
			;
		srv = 0;
	}
	// the server runs until it has nothing left to do or ends
	void turn() {
		if (!srv)
			return;
		sem_post(&S->go);
		for (int i = 0;; i++) {
			struct timespec t;
			clock_gettime(CLOCK_REALTIME, &t);
			t.tv_nsec += 50000000;
			if (t.tv_nsec >= 1000000000)
				t.tv_nsec -= 1000000000, t.tv_sec++;
			if (sem_timedwait(&S->back, &t) == 0)
				break;
			int st;
			if (!S->exited && ::waitpid(srv, &st, WNOHANG) == srv) {
				srv = 0;
				inv("crash", "the server process dies (%s %d)", WIFSIGNALED(st) ? "signal" : "status", WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st));
				if (!builtin)
					say("server dies");
				return;
			}
			if (i > 300) {
				inv("hang", "the server neither comes to rest nor ends");
				reap(true);
				return;
			}
		}
		if (S->exited)
			reap(false);
		else if (S->spin) {
			S->spin = 0;
			inv("spin", "the server polls without end");
		}
	}
	void start_daemon() {
		::unlink("seatd.sock");
		if (spawn() == 0) {
			char a0[] = "seatd";
			char *av[] = {a0, NULL};
			optind = 0;
			int r = seatd_main(1, av);
			_exit(r);
		}
		turn();
	}
	void stop_server(int sig) {
		for (int i = 0; i < 3 && srv; i++) {
			S->pend |= 1ull << sig;
			turn();
		}
	}
	// ---------------- application
	struct Api {
		Built &b;
		const char *o;
		Api(Built &x, const char *n) : b(x), o(x.api) { b.api = n; b.depth++; b.wait_polls = 0; errno = 0; }
		~Api() { b.api = o; b.depth--; }
	};
	void event(int k, struct libseat *s, void *d) {
		say("    event %s in %s", k ? "enable" : "disable", api);
		if (d != this || (seat && s != seat))
			inv("event-target", "an event of another seat");
		believed = k;
		events++;
		if (!k)
			owe = true;
		if (!seat || depth > 3 || !strcmp(api, "close_seat"))
			return;
		if (!k && (cur.f & 1))
			disable();
		if (k && (cur.f & 2))
			opendev(path(cur.d >> 5));
	}
	static std::string path(uint32_t d) {
		uint32_t k = d % 100, r = d / 128;
		if (k < 75)
			return GOODP[r % N_OF(GOODP)];
		if (k < 92)
			return BADP[r % N_OF(BADP)];
		std::string s = GOODP[r % N_OF(GOODP)];
		size_t want = 240 + (r >> 4) % 30;
		while (s.size() < want && s[0] == '/')
			s = "/" + s;
		return s;
	}
	void after(const char *what, int r, int e) {
		say("  %s = %d errno %d", what, r, r < 0 ? e : 0);
		eng::sig(r < 0 ? e + 1000 : 1);
		if (r < 0 && e == 0)
			inv("no-errno", "%s fails without setting errno", what);
	}
	void opendev(const std::string &p) {
		Api g(*this, "open_device");
		int fd = -77;
		int r = libseat_open_device(seat, p.c_str(), &fd), e = errno;
		after("open_device", r, e);
		if (r < 0)
			return;
		if (!own.erase(fd)) {
			inv("dev-fd", "open_device gives descriptor %d, which is not a fresh one", fd);
			return;
		}
		uint64_t ino = ino_of(fd);
		Ofd *o = K.by_ino(ino);
		auto it = ords.emplace(ino, (int)ords.size()).first;
		say("    device %s, description %d, flags %x %d", o ? K.byidx[o->node].c_str() : "?", it->second, o ? o->flags : 0, ::fcntl(fd, F_GETFD));
		devs.push_back({r, fd, it->second, ino});
		eng::count("devices opened");
	}
	void disable() {
		Api g(*this, "disable_seat");
		int r = libseat_disable_seat(seat), e = errno;
		owe = false;
		after("disable_seat", r, e);
	}
	int dispatch(int t) {
		Api g(*this, "dispatch");
		int r = libseat_dispatch(seat, t), e = errno;
		after("dispatch", r, e);
		if (r < 0)
			dead = true;
		return r;
	}
	bool readable() {
		struct pollfd p = {libseat_get_fd(seat), POLLIN, 0};
		return p.fd >= 0 && ::poll(&p, 1, 0) > 0;
	}
	void settle() {
		for (int i = 0; i < 60 && !dead && !hopeless; i++) {
			turn();
			if (!readable())
				return;
			dispatch(0);
		}
	}
	void snapshot() {
		std::string s;
		char b[200];
		for (auto &d : devs) {
			Ofd *o = K.by_ino(d.ino);
			if (o) {
				snprintf(b, sizeof b, "%d:%s%s%s ", d.ord, kind_name(o->kind), o->master ? " master" : "", o->revoked ? " revoked" : "");
				s += b;
			}
		}
		snprintf(b, sizeof b, "| vt %d, %d activations, %ld switches;", K.ks->fg, K.ks->activate_calls, K.ks->switches);
		s += b;
		for (int i = 1; i <= NVT; i++) {
			Vt &v = K.ks->vt[i];
			if (v.mode != VT_AUTO || v.kb != K_UNICODE || v.gfx != KD_TEXT || v.acq_unacked) {
				snprintf(b, sizeof b, " %d(%d %d %d %d %d)", i, v.mode, v.kb, v.gfx, v.newvt, v.acq_unacked);
				s += b;
			}
		}
		say("    %s", s.c_str());
	}
	void nothing_left(const char *what) {
		if (srv) {
			inv("server-left", "%s: the embedded server does not end", what);
			reap(true);
		} else if (builtin && !S->exited)
			inv("server-crash", "%s: the embedded server has crashed", what);
		if (hopeless)
			return;
		for (auto i : granted) {
			Ofd *o = K.by_ino(i);
			if (o && K.privileged(*o) && !o->exempt)
				inv("not-revoked", "%s: the embedded server has ended, a descriptor of %s is still usable", what, K.byidx[o->node].c_str());
		}
		if (!S->tty_faults)
			for (int i = 1; i <= NVT; i++) {
				Vt &v = K.ks->vt[i];
				if (v.kb != K_UNICODE || v.gfx != KD_TEXT)
					inv("vt-left", "%s: the embedded server has ended, VT %d has keyboard mode %d, graphics %d", what, i, v.kb, v.gfx);
			}
		if (S->exited && S->code && !S->late_fired && !S->tty_faults)
			say("    exit status %d", S->code);
	}
	void open() {
		if (!builtin)
			start_daemon();
		dead = believed = owe = false;
		lost_server = false;
		Api g(*this, "open_seat");
		seat = libseat_open_seat(&listener, this);
		int e = errno;
		say("  open_seat %s errno %d", seat ? "succeeds" : "fails", seat ? 0 : e);
		if (seat) {
			eng::count("seats opened");
			return;
		}
		if (e == 0)
			inv("no-errno", "open_seat fails without setting errno");
		turn();
		turn();
		if (builtin) {
			for (int f : own)
				inv("leak-fd", "a failed open_seat leaves descriptor %d open", f);
			if (!blocks.empty())
				inv("leak", "a failed open_seat leaves %zu allocations", blocks.size());
			if (srv || S->exited)
				nothing_left("after a failed open_seat");
		} else
			stop_server(SIGTERM);
		forget();
		eng::count("seats not opened");
	}
	void forget() {
		for (auto &d : devs)
			::close(d.fd);
		devs.clear();
		granted.clear();
		ords.clear();
		for (int f : own)
			::close(f);
		own.clear();
		for (auto b : blocks)
			::free(b);
		blocks.clear();
		seat = nullptr;
		if (srv)
			stop_server(SIGTERM);
		if (srv)
			reap(true);
	}
	// a program that the application has started, and that is still there, holds what it has inherited
	std::vector<int> program;
	void start_program() {
		if (builtin)
			for (int f : own)
				if (!(::fcntl(f, F_GETFD) & FD_CLOEXEC))
					program.push_back(::fcntl(f, F_DUPFD_CLOEXEC, 3000));
	}
	void end_program() {
		for (int f : program)
			::close(f);
		program.clear();
	}
	void close_seat() {
		if (devs.size())
			eng::nontrivial();
		start_program();
		{
			Api g(*this, "close_seat");
			int r = libseat_close_seat(seat), e = errno;
			after("close_seat", r, e);
		}
		seat = nullptr;
		turn();
		turn();
		snapshot();
		if (builtin) {
			for (int f : own)
				inv("leak-fd", "close_seat leaves descriptor %d open", f);
			if (!blocks.empty())
				inv("leak", "close_seat leaves %zu allocations", blocks.size());
			nothing_left("after close_seat");
		} else if (srv)
			stop_server(SIGTERM);
		end_program();
		forget();
		eng::count("seats closed");
	}
	void die() {
		if (devs.size())
			eng::nontrivial();
		start_program();
		for (int f : own)
			::close(f);
		own.clear();
		for (auto &d : devs) { // somebody else may hold a copy
			if (cur.f & 4)
				continue;
			::close(d.fd);
			d.fd = -1;
		}
		zombie = true;
		libseat_close_seat(seat);
		zombie = false;
		turn();
		turn();
		snapshot();
		if (builtin)
			nothing_left("after the death of the application");
		else if (srv)
			stop_server(SIGTERM);
		end_program();
		for (size_t i = 0; i < devs.size();)
			if (devs[i].fd < 0)
				devs.erase(devs.begin() + i);
			else
				i++;
		blocks.clear();
		forget();
		eng::count("applications killed");
	}
	void step(const Op &o) {
		int k = o.k % NK;
		cur = o;
		if (!seat && k != OPEN && k != USERVT && k != FAULT && k != FOREIGN)
			return;
		say("%s %u %u %u", kn[k], o.a, o.b, o.c);
		switch (k) {
		case OPEN:
			if (!seat)
				open();
			break;
		case CLOSE: close_seat(); break;
		case DISPATCH: dispatch(o.a % 3 ? 0 : 5); break;
		case OPENDEV: opendev(path(o.d)); break;
		case CLOSEDEV: {
			static const int ids[] = {0, -1, 1, 2, 129, INT_MAX, INT_MIN, 3};
			size_t i = devs.empty() ? 0 : o.c % devs.size();
			bool known = o.a % 8 && !devs.empty();
			int id = known ? devs[i].id : ids[o.c % 8], r, e;
			{
				Api g(*this, "close_device");
				r = libseat_close_device(seat, id);
				e = errno;
			}
			after("close_device", r, e);
			if (r == 0 && known) {
				turn();
				snapshot();
				::close(devs[i].fd);
				devs.erase(devs.begin() + i);
			}
			break;
		}
		case SWITCH: {
			static const int v[] = {0, -1, 99, INT_MAX, INT_MIN, 1, 2, 3, 4, 12, 13, 63};
			int s = o.a % 4 ? 1 + o.c % 6 : v[o.c % N_OF(v)];
			Api g(*this, "switch_session");
			int r = libseat_switch_session(seat, s), e = errno;
			after("switch_session", r, e);
			break;
		}
		case DISABLE:
			if (owe || o.a % 6 == 0)
				disable();
			break;
		case NAME: {
			const char *n = libseat_seat_name(seat);
			say("  seat name %s", n ? n : "(null)");
			break;
		}
		case USERVT:
			if (!srv) // the kernel reverts to automatic switching when the controlling process has died
				for (auto &v : K.ks->vt)
					v.mode = VT_AUTO;
			K.user_switch(o.a % 16 == 15 ? far_vt(o.c) : 1 + o.a % 5);
			if (o.b & 1)
				turn();
			break;
		case QUIET: turn(); break;
		case SETTLE:
			settle();
			say("  believed %d", believed);
			if (owe && (o.a & 1) && seat && !dead)
				disable();
			break;
		case FAULT: {
			static const int es[] = {EIO, ENODEV, EACCES, EINTR, ENOMEM, EMFILE, EINVAL, EBUSY};
			int n = o.a % N_OF(FCLS);
			S->fault[FCLS[n]] = es[o.b % 8];
			S->fault_n[FCLS[n]] = 1 + o.c % 3;
			if (n >= 6)
				S->tty_faults = 1;
			say("  %s number %d will fail with errno %d", FN[n], S->fault_n[FCLS[n]], es[o.b % 8]);
			break;
		}
		case TERM:
			S->pend |= 1ull << (o.a & 1 ? SIGTERM : SIGINT);
			if (o.b & 1) {
				turn();
				turn();
				if (srv)
					inv("term", "the server survives a termination signal");
			}
			eng::count("servers terminated");
			break;
		case KILL: die(); break;
		case FOREIGN: K.ks->foreign_master[o.a % 3] ^= 1; break;
		}
		if (seat && (o.b & 2))
			turn();
		if (seat) {
			turn_if(o);
			snapshot();
		}
	}
	void turn_if(const Op &o) {
		if (!(o.f & 8))
			turn();
	}
	void one(bool b) {
		builtin = b;
		log[b ? 0 : 1].clear();
		int late_kind = cs->cfg[3] % L_N;
		K.reset(false);
		K.hidraw = false;
		K.raise = [this](int s) {
			if (role)
				::raise(s);
			else if (srv)
				S->pend |= 1ull << s;
		};
		K.fault = [](int cls) {
			if (!S->fault[cls] || --S->fault_n[cls] > 0)
				return 0;
			int e = S->fault[cls];
			S->fault[cls] = 0;
			return e;
		};
		K.on_reldisp = nullptr;
		memset(S, 0, sizeof *S);
		static const int es[] = {ENOMEM, EMFILE, EIO, EAGAIN};
		if (alone) {
			S->late_kind = late_kind;
			S->late_n = 1 + cs->cfg[4] % (late_kind == L_ALLOC || late_kind == L_FCNTL ? 12 : 3);
			S->late_errno = es[cs->cfg[5] % 4];
			eng::trace("%s number %d will fail with errno %d", LN[late_kind], S->late_n, S->late_errno);
		}
		vtb = !(cs->cfg[0] & 1);
		K.ks->fg = 1 + cs->cfg[2] % 3;
		if (cs->cfg[6] & 1)
			K.ks->foreign_master[0] = 1;
		seat = nullptr;
		dead = believed = owe = zombie = hopeless = false;
		api = "nothing";
		depth = events = 0;
		srv = 0;
		devs.clear();
		granted.clear();
		ords.clear();
		own.clear();
		blocks.clear();
		Op o{};
		o.k = OPEN;
		step(o);
		for (auto &p : cs->ops) {
			if (hopeless)
				break;
			step(p);
		}
		if (seat && !hopeless) {
			Op q{};
			q.k = SETTLE;
			step(q);
			q.k = CLOSE;
			if (!hopeless)
				step(q);
		}
		if (seat) {
			zombie = true;
			libseat_close_seat(seat);
			zombie = false;
			blocks.clear();
		}
		forget();
		K.close_watch();
	}
	void run(const Case &c) override {
		if (!S)
			S = (Shm *)mmap(NULL, sizeof *S, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
		B = this;
		cs = &c;
		sut_sys = lib_sys = this;
		role = 0;
		alone = c.cfg[3] % L_N;
		libseat_set_log_level(LIBSEAT_LOG_LEVEL_DEBUG);
		one(true);
		if (alone) {
			if (S->late_fired)
				eng::count("failures while starting");
			return;
		}
		bool was_hopeless = hopeless;
		one(false);
		if (was_hopeless)
			return;
		auto &a = log[0], &b = log[1];
		for (size_t i = 0; i < std::max(a.size(), b.size()); i++) {
			std::string x = i < a.size() ? a[i] : "(nothing)", y = i < b.size() ? b[i] : "(nothing)";
			if (x != y) {
				eng::inv(T(26), "differs", "builtin: \"%s\", with a daemon: \"%s\"", x.c_str(), y.c_str());
				return;
			}
		}
		eng::count("histories compared");
	}
	size_t max_ops() override { return eng::thorough() ? 90 : 45; }
	void gen(Rng &r, Case &c, int) override {
		for (auto &b : c.cfg)
			b = 0;
		c.cfg[0] = r.chance(30);
		c.cfg[1] = r.next();
		c.cfg[2] = r.next();
		c.cfg[3] = r.chance(20) ? r.below(L_N) : 0;
		c.cfg[4] = r.next();
		c.cfg[5] = r.next();
		c.cfg[6] = r.chance(10);
		static const int w[] = {2, 3, 4, 14, 7, 6, 5, 1, 9, 2, 9, 4, 1, 3, 2};
		int tot = 0;
		for (int x : w)
			tot += x;
		int n = 3 + r.below(r.chance(30) ? 40 : 20);
		if (r.chance(70)) {
			for (int k : {SETTLE, OPENDEV, OPENDEV}) {
				Op o{};
				o.k = k;
				o.d = (r.next() & ~127ull) % 1000000;
				c.ops.push_back(o);
			}
		}
		while ((int)c.ops.size() < n) {
			int x = r.below(tot), k = 0;
			while (x >= w[k])
				x -= w[k++];
			Op o;
			o.k = k;
			o.f = (r.chance(40) ? 1 : 0) | (r.chance(15) ? 2 : 0) | (r.chance(40) ? 4 : 0) | (r.chance(20) ? 8 : 0);
			o.a = r.next();
			o.b = r.next();
			o.c = r.next();
			o.d = r.next();
			c.ops.push_back(o);
		}
	}
	std::string rule(int) override { return "a seat was closed, or its application died, with devices open; distinct by the sequence of results"; }
	std::string describe(const Case &c) override {
		char b[200];
		snprintf(b, sizeof b, "%s seat; failing while starting: %s; ", c.cfg[0] & 1 ? "non-VT" : "VT-bound", LN[c.cfg[3] % L_N]);
		std::string s = b;
		for (auto &o : c.ops) {
			snprintf(b, sizeof b, "%s(%u,%u,%u,%u) ", kn[o.k % NK], o.a, o.b, o.c, o.d);
			s += b;
		}
		return s;
	}
};
static void on_enable(struct libseat *s, void *d) { B->event(1, s, d); }
static void on_disable(struct libseat *s, void *d) { B->event(0, s, d); }
Harness *make_harness() { return new Built; }
