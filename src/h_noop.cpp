// C27: the no-op backend, with several seats at a time, generated files, timeouts and injected failures.
#include "engine.hpp"
#include "sys.hpp"
#include <algorithm>
#include <cerrno>
#include <cstring>
#include <map>
#include <set>
extern "C" {
#include "libseat.h"
}
enum { OPEN, CLOSE, DISPATCH, OPENDEV, CLOSEDEV, SWITCH, DISABLE, NAME, GETFD, FAULT, NK };
static const char *kn[] = {"open_seat", "close_seat", "dispatch", "open_device", "close_device", "switch_session", "disable_seat", "seat_name", "get_fd", "fault"};
static const char *PATHS[] = {"file", "fifo", "link", "dangling", "missing", "dir", "dir/inner", "linkdir/inner", "./file", "ro", "sock", "", "loop", "file/x", "other", "hard"};
struct Noop;
static Noop *N;
static void on_enable(struct libseat *s, void *d);
static void on_disable(struct libseat *s, void *d);
static const struct libseat_seat_listener listener = {on_enable, on_disable};

struct Noop : Harness, Sys {
	struct Seat {
		struct libseat *s = nullptr;
		int enables = 0, dispatches = 0;
		bool told = false;
	};
	Seat seats[3];
	Seat *in_dispatch;
	std::map<void *, size_t> blocks;
	std::set<int> own;
	std::vector<std::pair<int, uint64_t>> devs; // the application's
	int f_kind, f_n, f_errno;
	bool fired;
	int timeout_now, polls, poll_failed;
	bool waited = false;
	int nest;
	bool in_call;
	struct {
		bool seen;
		std::string p;
		int fl;
	} op;
	bool fault(int k) {
		if (f_kind != k || --f_n > 0)
			return false;
		f_kind = 0;
		fired = true;
		eng::count("faults fired");
		return true;
	}
	void *malloc(size_t n) override {
		if (fault(1)) {
			errno = ENOMEM;
			return NULL;
		}
		void *p = ::malloc(n);
		blocks[p] = n;
		return p;
	}
	void *calloc(size_t a, size_t b) override {
		void *p = malloc(a * b);
		if (p)
			memset(p, 0, a * b);
		return p;
	}
	void free(void *p) override {
		if (p && !blocks.erase(p))
			eng::inv(T(27), "bad-free", "memory that is not allocated is freed");
		::free(p);
	}
	int socketpair(int d, int t, int p, int sv[2]) override {
		if (fault(2)) {
			errno = EMFILE;
			return -1;
		}
		int r = ::socketpair(d, t, p, sv);
		if (r == 0)
			own.insert(sv[0]), own.insert(sv[1]);
		return r;
	}
	int pipe2(int sv[2], int fl) override {
		if (fault(2)) {
			errno = EMFILE;
			return -1;
		}
		int r = ::pipe2(sv, fl);
		if (r == 0)
			own.insert(sv[0]), own.insert(sv[1]);
		return r;
	}
	int close(int fd) override {
		if (!own.erase(fd)) {
			eng::inv(T(27), "bad-close", "close(%d): not a descriptor of the library (the application's or closed twice)", fd);
			errno = EBADF;
			return -1;
		}
		return ::close(fd);
	}
	int open(const char *p, int fl, int mode) override {
		op.seen = true;
		op.p = p;
		op.fl = fl;
		if (fault(3)) {
			errno = f_errno;
			return -1;
		}
		if (p[0] == '/' || strstr(p, "..") || (fl & (O_CREAT | O_TRUNC))) {
			errno = EACCES;
			return -1;
		}
		int r = ::open(p, fl, mode);
		if (r >= 0)
			own.insert(r);
		return r;
	}
	int fcntl(int fd, int c, long a) override {
		int r = ::fcntl(fd, c, a);
		if ((c == F_DUPFD || c == F_DUPFD_CLOEXEC) && r >= 0)
			own.insert(r);
		return r;
	}
	int dup(int fd) override {
		int r = ::dup(fd);
		if (r >= 0)
			own.insert(r);
		return r;
	}
	int poll(struct pollfd *f, nfds_t n, int timeout) override {
		if (++polls > 1000)
			eng::inv(T(27), "spin", "dispatch polls without end");
		for (nfds_t i = 0; i < n; i++)
			if (f[i].fd >= 0 && !own.count(f[i].fd))
				eng::inv(T(27), "bad-poll", "descriptor %d, which the library does not own, is polled", f[i].fd);
		if (timeout != 0 && in_dispatch && in_dispatch->told)
			eng::inv(T(27), "told-and-waits", "dispatch waits (timeout %d) although it has just enabled the seat", timeout);
		if (fault(4)) {
			poll_failed = f_errno;
			errno = f_errno;
			return -1;
		}
		if (fault(5)) {
			errno = EINTR;
			return -1;
		}
		if (timeout_now >= 0 && (timeout < 0 || timeout > timeout_now))
			eng::inv(T(27), "timeout", "dispatch with timeout %d waits for %d", timeout_now, timeout);
		if (timeout < 0 ? timeout_now < 0 : timeout == timeout_now)
			waited = true;
		int r = ::poll(f, n, 0);
		if (r == 0 && timeout < 0) { // nothing will ever come: a signal ends the wait
			errno = EINTR;
			return -1;
		}
		return r;
	}
	int output(const char *, size_t n, bool) override { return (int)n; }
	char *getenv(const char *n) override { return strcmp(n, "LIBSEAT_BACKEND") ? NULL : (char *)"noop"; }
	void event(int k, struct libseat *s, void *d) {
		Seat *st = (Seat *)d;
		if (!in_dispatch || st != in_dispatch || s != st->s)
			eng::inv(T(27), "event-where", "an event is delivered outside of the seat's dispatch, or for another seat");
		if (!k)
			eng::inv(T(27), "disabled", "the seat is disabled");
		st->told = true;
		if (++st->enables > 1)
			eng::inv(T(27), "enabled-twice", "the seat is enabled %d times", st->enables);
		if (st->dispatches != 1)
			eng::inv(T(27), "enabled-late", "the seat is enabled at dispatch number %d", st->dispatches);
		if (nest) { // what an application does when it is enabled
			Op o = {};
			static const uint8_t ks[] = {OPENDEV, OPENDEV, CLOSEDEV, DISABLE, NAME, GETFD, SWITCH};
			int i = st - seats, n = nest;
			nest = 0;
			if (n == 1) {
				eng::trace("   dispatch inside of the callback");
				eng::count("dispatches inside of a callback");
				int tn = timeout_now;
				timeout_now = 0;
				libseat_dispatch(s, 0);
				timeout_now = tn;
				poll_failed = 0;
			} else {
				o.k = ks[n % 7];
				o.a = i;
				o.b = o.c = n;
				o.d = n;
				exec(o);
			}
			st->told = true;
		}
	}
	void exec(const Op &o) {
		Seat &st = seats[o.a % 3];
		int k = o.k % NK;
		if (k != OPEN && k != FAULT && !st.s)
			k = OPEN;
		eng::trace("%s %d b=%u c=%u", kn[k], o.a % 3, o.b, o.c);
		fired = false;
		errno = 0;
		switch (k) {
		case FAULT:
			f_kind = 1 + o.b % 5;
			f_n = 1 + o.c % 2;
			static const int es[] = {ENODEV, EACCES, EMFILE, ENOMEM, EBUSY, EINVAL};
			f_errno = es[o.d % 6];
			break;
		case OPEN: {
			if (st.s)
				break;
			size_t b0 = blocks.size(), o0 = own.size();
			st.enables = st.dispatches = 0;
			st.s = libseat_open_seat(&listener, &st);
			if (!st.s) {
				if (!fired)
					eng::inv(T(27), "open-fails", "opening the no-op seat fails with errno %d", errno);
				if (errno == 0)
					eng::inv(T(27), "open-errno", "opening the seat fails without errno");
				if (blocks.size() != b0 || own.size() != o0)
					eng::inv(T(27), "open-leak", "a failed open leaves something behind");
				eng::count("failed opens");
				eng::nontrivial();
			} else
				eng::count("opens");
			break;
		}
		case CLOSE: {
			std::set<int> before = own;
			int r = libseat_close_seat(st.s);
			if (r != 0)
				eng::inv(T(27), "close", "closing the seat returns %d", r);
			st.s = nullptr;
			int live = 0;
			for (auto &s : seats)
				live += s.s != nullptr;
			if (live == 0 && (!blocks.empty() || !own.empty()))
				eng::inv(T(27), "close-leak", "after closing every seat %zu allocations and %zu descriptors are left", blocks.size(), own.size());
			if (live && own.size() >= before.size())
				eng::inv(T(27), "close-leak", "closing a seat closes no descriptor");
			check_devs("close_seat");
			break;
		}
		case DISPATCH: {
			static const int t[] = {0, 0, 10, 1000, -1, 1, 2147483647, -2};
			timeout_now = o.b % 9 == 8 ? o.c : t[o.b % 9];
			polls = poll_failed = 0;
			waited = fired = false;
			st.told = false;
			in_dispatch = &st;
			nest = o.c % 3 ? 0 : 1 + o.c / 3 % 16;
			st.dispatches++;
			int r = libseat_dispatch(st.s, timeout_now);
			int e = errno;
			in_dispatch = nullptr;
			nest = 0;
			if (st.enables != 1)
				eng::inv(T(27), "not-enabled", "the seat has been enabled %d times after dispatch %d", st.enables, st.dispatches);
			if (poll_failed && (r != -1 || e != poll_failed))
				eng::inv(T(27), "dispatch-failure", "waiting fails with errno %d, but dispatch returns %d, errno %d", poll_failed, r, e);
			if (r < 0 && !poll_failed && fired)
				eng::inv(T(27), "dispatch-interrupted", "an interrupted dispatch returns %d, errno %d", r, e);
			if (r < 0 && (!fired || e == 0))
				eng::inv(T(27), "dispatch", "dispatch(%d) returns %d, errno %d", timeout_now, r, e);
			if (st.dispatches > 1 && timeout_now != 0 && !waited && !fired)
				eng::inv(T(27), "no-wait", "dispatch(%d), with nothing to tell, does not wait", timeout_now);
			eng::sig(10 + (r < 0) + 2 * (st.dispatches == 1));
			break;
		}
		case OPENDEV: {
			std::string p = PATHS[o.b % (sizeof PATHS / sizeof *PATHS)];
			int fd = -33;
			op.seen = false;
			// what the kernel says
			int want = ::open(p.c_str(), O_RDWR | O_NOCTTY | O_NOFOLLOW | O_CLOEXEC | O_NONBLOCK), we = errno;
			struct stat s0 = {}, s1 = {};
			if (want >= 0) {
				::fstat(want, &s0);
				::close(want);
			}
			errno = 0;
			int r = libseat_open_device(st.s, p.c_str(), &fd);
			int e = errno;
			eng::trace("   = %d fd %d errno %d", r, fd, e);
			eng::sig(100 + (r < 0 ? e : 0));
			if (r < 0) {
				eng::nontrivial();
				eng::count("failed device opens");
				if (e == 0)
					eng::inv(T(27), "open-device-errno", "open_device fails without errno");
				if (want >= 0 && !fired)
					eng::inv(T(27), "open-device", "open_device of %s fails with errno %d", p.c_str(), e);
				if (!fired && e != we)
					eng::inv(T(27), "open-device-errno", "open_device of %s fails with errno %d instead of %d", p.c_str(), e, we);
				if (fired && e != f_errno && e != ENOMEM && e != EMFILE)
					eng::inv(T(27), "open-device-errno", "open_device fails with errno %d instead of %d", e, f_errno);
				break;
			}
			eng::count("device opens");
			if (want < 0)
				eng::inv(T(27), "open-device", "open_device of %s succeeds", p.c_str());
			if (fd < 0 || !own.count(fd))
				eng::inv(T(27), "device-fd", "open_device gives descriptor %d, which is not a fresh one", fd);
			::fstat(fd, &s1);
			if (s0.st_ino != s1.st_ino)
				eng::inv(T(27), "device-which", "open_device of %s gives the descriptor of another file", p.c_str());
			int fl = ::fcntl(fd, F_GETFL), dfl = ::fcntl(fd, F_GETFD);
			if (!(fl & O_NONBLOCK) || (fl & O_ACCMODE) != O_RDWR)
				eng::inv(T(27), "device-flags", "the device is opened with flags %#x", fl);
			if (!(dfl & FD_CLOEXEC))
				eng::inv(T(27), "device-cloexec", "the device's descriptor is inherited by children");
			if (op.seen && !(op.fl & O_NOCTTY))
				eng::inv(T(27), "device-noctty", "the device may become the controlling terminal");
			own.erase(fd);
			devs.push_back({fd, s1.st_ino});
			break;
		}
		case CLOSEDEV: {
			int id = o.b % 3 == 0 || devs.empty() ? (int)o.d : devs[o.c % devs.size()].first;
			int r = libseat_close_device(st.s, id);
			if (r != 0)
				eng::inv(T(27), "close-device", "close_device returns %d", r);
			check_devs("close_device");
			break;
		}
		case SWITCH: {
			int r = libseat_switch_session(st.s, o.b % 3 ? (int)o.c % 10 : (int)o.d);
			if (r != -1)
				eng::inv(T(27), "switch", "switch_session returns %d", r);
			if (errno == 0)
				eng::inv(T(27), "switch-errno", "switch_session fails without setting errno");
			eng::nontrivial();
			break;
		}
		case DISABLE: {
			int r = libseat_disable_seat(st.s);
			if (r != 0)
				eng::inv(T(27), "disable", "disable_seat returns %d", r);
			break;
		}
		case NAME: {
			const char *n = libseat_seat_name(st.s);
			if (!n || strcmp(n, "seat0"))
				eng::inv(T(27), "name", "the seat's name is %s", n ? n : "missing");
			break;
		}
		case GETFD: {
			int fd = libseat_get_fd(st.s);
			if (fd < 0 || !own.count(fd))
				eng::inv(T(27), "get-fd", "get_fd returns %d", fd);
			else if (!(::fcntl(fd, F_GETFD) & FD_CLOEXEC))
				eng::inv(T(27), "get-fd-inherited", "the seat's descriptor is inherited by children");
			for (auto &s : seats)
				if (s.s && s.s != st.s && libseat_get_fd(s.s) == fd)
					eng::inv(T(27), "get-fd", "two seats share a descriptor");
			break;
		}
		}
		f_errno = f_errno ? f_errno : EIO;
	}
	void check_devs(const char *what) {
		for (auto &d : devs) {
			struct stat s;
			if (::fstat(d.first, &s) != 0 || s.st_ino != d.second)
				eng::inv(T(27), "device-closed", "%s closes the application's descriptor", what);
		}
	}
	void files() {
		static int done = 0;
		if (done == (int)getpid())
			return;
		done = getpid();
		for (const char *f : {"file", "ro", "other"}) {
			int fd = ::open(f, O_CREAT | O_RDWR, 0600);
			::close(fd);
		}
		::chmod("ro", 0400);
		if (mkfifo("fifo", 0600) || symlink("file", "link") || symlink("nowhere", "dangling") || mkdir("dir", 0700) || symlink("dir", "linkdir") || symlink("loop", "loop") || link("other", "hard"))
			abort();
		::close(::open("dir/inner", O_CREAT | O_RDWR, 0600));
	}
	void run(const Case &c) override {
		N = this;
		sut_sys = this;
		files();
		blocks.clear();
		own.clear();
		devs.clear();
		f_kind = 0;
		f_errno = EIO;
		in_dispatch = nullptr;
		for (auto &s : seats)
			s = Seat();
		nest = 0;
		if (c.cfg[0] % 4 == 0) // an application that was started without standard input
			::close(0);
		for (auto &o : c.ops)
			exec(o);
		f_kind = 0;
		for (int i = 0; i < 3; i++)
			if (seats[i].s)
				exec(Op{CLOSE, 0, (uint16_t)i, 0, 0, 0});
		if (!blocks.empty() || !own.empty())
			eng::inv(T(27), "leak", "%zu allocations and %zu descriptors are left", blocks.size(), own.size());
		for (auto &d : devs)
			::close(d.first);
		if (::fcntl(0, F_GETFD) < 0)
			(void)!::open("/dev/null", O_RDWR);
	}
	size_t max_ops() override { return 60; }
	void gen(Rng &r, Case &c, int) override {
		for (auto &b : c.cfg)
			b = r.next();
		int n = 4 + r.below(40);
		static const int ks[] = {OPEN, OPEN, CLOSE, DISPATCH, DISPATCH, DISPATCH, OPENDEV, OPENDEV, OPENDEV, CLOSEDEV, SWITCH, DISABLE, NAME, GETFD, FAULT};
		for (int i = 0; i < n; i++) {
			Op o;
			o.k = ks[r.below(sizeof ks / sizeof *ks)];
			o.f = 0;
			o.a = r.next();
			o.b = r.next();
			o.c = r.next();
			o.d = r.next();
			c.ops.push_back(o);
		}
	}
	std::string rule(int) override { return "an open or a device open fails or a switch is asked for; distinct by the sequence of results"; }
	std::string describe(const Case &c) override {
		std::string s;
		char b[100];
		for (auto &o : c.ops) {
			snprintf(b, sizeof b, "%s(%u,%u,%u) ", kn[o.k % NK], o.a % 3, o.b, o.c);
			s += b;
		}
		return s;
	}
};
static void on_enable(struct libseat *s, void *d) { N->event(1, s, d); }
static void on_disable(struct libseat *s, void *d) { N->event(0, s, d); }
Harness *make_harness() { return new Noop; }
