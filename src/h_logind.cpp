// C20, C21: the logind backend over the real sd-bus library, against a scripted logind that speaks D-Bus over a
// socket in the same process. sd-bus waits in ppoll(), which is replaced here: it runs the server instead.
#include "engine.hpp"
#include "sys.hpp"
#include <algorithm>
#include <cerrno>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <map>
#include <set>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/sysmacros.h>
#include <sys/un.h>
#include <systemd/sd-bus.h>
#include <systemd/sd-id128.h>
extern "C" {
#include "libseat.h"
}
enum { OPEN, CLOSE, DISPATCH, OPENDEV, CLOSEDEV, SWITCH, DISABLE, NAME, GETFD, ACTIVE, PAUSE, NOISE, BADSIG, BEFORE, WAITING, FAULT, DROP, LISTENER, APP, NK };
static const char *kn[] = {"open_seat", "close_seat", "dispatch", "open_device", "close_device", "switch_session", "disable_seat", "seat_name", "get_fd", "active",
			   "pause", "noise", "bad_signal", "before_reply", "while_waiting", "fault", "drop", "listener", "app"};
#define SESS "org.freedesktop.login1.Session"
#define SEAT "org.freedesktop.login1.Seat"
#define MGR "org.freedesktop.login1.Manager"
static const char *IDS[] = {"1", "c2", "77", "bogus"};
static const char *SPATH[] = {"/org/freedesktop/login1/session/_31", "/org/freedesktop/login1/session/c2", "/org/freedesktop/login1/session/_377"};
static const char *SEATS[] = {"seat0", "seat-usb1", "seat0"};
static const char *TPATH[] = {"/org/freedesktop/login1/seat/seat0", "/org/freedesktop/login1/seat/seat_2dusb1", "/org/freedesktop/login1/seat/seat0"};
struct Dev {
	const char *path;
	unsigned maj, min;
};
static const Dev DEVS[] = {{"/dev/dri/card0", 226, 0}, {"/dev/dri/card1", 226, 1}, {"/dev/input/event3", 13, 67}, {"/dev/input/event300", 13, 300}, {"/dev/hidraw0", 241, 0},
			   {"/dev/dri/card200", 300, 5}, {"/dev/big", 4095, 1048575}, {"/dev/input/event1", 0x3e2, 13}, {"/dev/tty1", 67, 13}};
enum { ND = sizeof DEVS / sizeof *DEVS };
struct Logind;
static Logind *H;
static void on_enable(struct libseat *s, void *d);
static void on_disable(struct libseat *s, void *d);
static const struct libseat_seat_listener listener = {on_enable, on_disable};

struct Sig { // what a signal does: 0/1 the state becomes that, 2 the state is asked for, 3 graceful pause
	std::vector<int> eff;
	unsigned maj = 0, min = 0;
};
enum { M_ANY, M_GETSESSION, M_GETSEAT, M_GET, M_TAKECONTROL, M_SETTYPE, M_RELEASECONTROL, M_TAKE, M_RELEASE, M_SWITCH, M_ACK, M_PING, M_MATCH, M_HELLO, M_OTHER, NM };
struct Call {
	int m;
	std::string dest, path, iface, s;
	unsigned a = 0, b = 0;
	bool ok = false, refused = false;
};

struct Logind : Harness, Sys {
	// the server
	int lfd = -1;
	sd_bus *srv = nullptr;
	bool pumping = false, dead = false, gone = false;
	uint64_t serial = 0;
	bool active = false, control = false;
	bool only_type = false; // the one failure is that the type cannot be set
	int sess = -1; // the session in use
	std::vector<Sig> sigs;
	std::vector<int> gets; // replies to requests for Active since the seat is open: 0, 1, or -1 for failure
	std::vector<std::pair<unsigned, unsigned>> acks;
	std::vector<Call> calls;
	std::map<std::pair<unsigned, unsigned>, int> taken;
	std::deque<Op> before; // signals before the next reply
	Op waiting;
	bool have_waiting = false;
	int f_m = 0, f_mode = 0, f_n = 0;
	bool fired = false;
	int memfd[ND];
	ino_t ino[ND];
	// the client
	struct libseat *seat = nullptr;
	sd_bus *appbus = nullptr;
	bool shared = false;
	bool opening = false, in_dispatch = false, in_listener = false, was_dispatched = false;
	bool init_state = false;
	std::vector<bool> events;
	std::deque<Op> plan;
	struct Taken {
		int id, fd, dev;
	};
	std::vector<Taken> devs;
	std::map<void *, size_t> blocks;
	std::set<const void *> errs;
	std::string xdg_id, xdg_type;
	bool has_xdg_id = false, has_xdg_type = false;
	int pid_sess = -1, uid_sess = -1;
	bool seat_ok = true;
	int timeout_now = 0;
	int f_poll = 0;
	bool waited = false;
	size_t events0 = 0; // when the dispatch began
	size_t arrived = 0; // signals that ended its wait
	int depth = 0;
	int failed_dispatches = 0;
	int gone_dispatches = 0;
	bool f_dup = false, f_alloc = false;
	int f_alloc_n = 0;

	bool alloc_fault() {
		if (!f_alloc || --f_alloc_n > 0)
			return false;
		f_alloc = false;
		fired = true;
		errno = ENOMEM;
		return true;
	}
	void *malloc(size_t n) override {
		if (alloc_fault())
			return NULL;
		void *p = ::malloc(n);
		blocks[p] = n;
		return p;
	}
	void *calloc(size_t a, size_t b) override {
		void *p = malloc(a * b);
		if (p)
			memset(p, 0, a * b);
		return p;
	}
	void free(void *p) override {
		if (p && !blocks.erase(p))
			eng::inv(T(20) | T(21), "bad-free", "memory that is not allocated is freed");
		::free(p);
	}
	char *str(const char *s) {
		char *p = ::strdup(s);
		blocks[p] = strlen(s) + 1;
		return p;
	}
	int output(const char *s, size_t n, bool) override {
		if (eng::verbose())
			eng::trace("    log: %.*s", (int)n, s);
		return (int)n;
	}
	uid_t getuid() override { return 1000; }
	char *getenv(const char *n) override {
		if (!strcmp(n, "LIBSEAT_BACKEND"))
			return (char *)"logind";
		if (!strcmp(n, "XDG_SESSION_ID"))
			return has_xdg_id ? (char *)xdg_id.c_str() : NULL;
		if (!strcmp(n, "XDG_SESSION_TYPE"))
			return has_xdg_type ? (char *)xdg_type.c_str() : NULL;
		return NULL;
	}
	static int dev_of(const char *p) {
		for (int i = 0; i < ND; i++)
			if (!strcmp(p, DEVS[i].path))
				return i;
		return -1;
	}
	// links: /dev/link0 -> card1
	int stat(const char *p, struct stat *st, bool follow) override {
		memset(st, 0, sizeof *st);
		int d = dev_of(p);
		if (!strcmp(p, "/dev/by-path/gpu")) {
			if (!follow) {
				st->st_mode = S_IFLNK | 0777;
				return 0;
			}
			d = 1;
		}
		if (!strcmp(p, "/etc/file")) {
			st->st_mode = S_IFREG | 0644;
			return 0;
		}
		if (d < 0) {
			errno = ENOENT;
			return -1;
		}
		st->st_mode = S_IFCHR | 0660;
		st->st_rdev = makedev(DEVS[d].maj, DEVS[d].min);
		return 0;
	}
	int fd_dev(int fd) {
		struct stat st;
		if (fd < 0 || ::fstat(fd, &st) != 0)
			return -1;
		for (int i = 0; i < ND; i++)
			if (st.st_ino == ino[i])
				return i;
		return -2;
	}
	int fstat(int fd, struct stat *st) override {
		int r = ::fstat(fd, st);
		if (r != 0)
			return r;
		int d = fd_dev(fd);
		if (d >= 0) {
			st->st_mode = S_IFCHR | 0660;
			st->st_rdev = makedev(DEVS[d].maj, DEVS[d].min);
		}
		return 0;
	}
	int fcntl(int fd, int c, long a) override {
		if (f_dup && (c == F_DUPFD || c == F_DUPFD_CLOEXEC)) {
			f_dup = false;
			fired = true;
			errno = EMFILE;
			return -1;
		}
		return ::fcntl(fd, c, a);
	}
	int dup(int fd) override { return fcntl(fd, F_DUPFD, 0); }
	int open(const char *, int, int) override {
		errno = EACCES;
		return -1;
	}
	int close(int fd) override {
		for (auto &t : devs)
			if (t.fd == fd)
				eng::inv(T(21), "app-fd", "the application's descriptor %d is closed", fd);
		return ::close(fd);
	}
	int poll(struct pollfd *f, nfds_t n, int timeout) override {
		if (timeout_now >= 0 && (timeout < 0 || timeout > timeout_now))
			eng::inv(T(20), "timeout", "dispatch with timeout %d waits for %d", timeout_now, timeout);
		if (in_dispatch && events.size() > events0 && timeout != 0)
			eng::inv(T(20), "told-and-waits", "dispatch has told the application something and waits (%d) nevertheless", timeout);
		if (timeout < 0 ? timeout_now < 0 : timeout == timeout_now)
			waited = true;
		if (f_poll) {
			errno = f_poll;
			f_poll = 0;
			return -1;
		}
		if (have_waiting && timeout != 0) {
			have_waiting = false;
			eng::trace("  while waiting:");
			Op o = waiting;
			server_op(o);
		}
		pump();
		int r = ::poll(f, n, 0);
		if (r > 0 && in_dispatch)
			arrived = sigs.size();
		if (r == 0 && timeout < 0) { // nothing will come: a signal ends the wait
			errno = EINTR;
			return -1;
		}
		return r;
	}
	// --- login library
	int find(const char *id) {
		for (int i = 0; i < 3; i++)
			if (!strcmp(IDS[i], id))
				return i;
		return -1;
	}

	// --- server
	static int filter(sd_bus_message *m, void *u, sd_bus_error *) { return ((Logind *)u)->on_message(m); }
	void hangup() {
		if (!srv)
			return;
		eng::trace("    server closes the connection");
		gone = true;
		drop_now = true;
	}
	bool drop_now = false;
	void really_drop() {
		drop_now = false;
		if (srv) {
			sd_bus_close(srv);
			sd_bus_unref(srv);
			srv = nullptr;
		}
	}
	void send(sd_bus_message *m, const char *sender) {
		sd_bus_message_set_sender(m, sender);
		if (srv)
			sd_bus_send(srv, m, NULL);
		sd_bus_message_unref(m);
	}
	int which(const Call &c) {
		bool sess_path = sess >= 0 && c.path == SPATH[sess], seat_path = sess >= 0 && c.path == TPATH[sess];
		struct {
			const char *iface, *mem;
			int m;
			bool ok;
		} t[] = {
			{"org.freedesktop.DBus", "Hello", M_HELLO, true},
			{"org.freedesktop.DBus", "AddMatch", M_MATCH, true},
			{"org.freedesktop.DBus", "RemoveMatch", M_MATCH, true},
			{"org.freedesktop.DBus.Peer", "Ping", M_PING, true},
			{MGR, "GetSession", M_GETSESSION, c.path == "/org/freedesktop/login1"},
			{MGR, "GetSeat", M_GETSEAT, c.path == "/org/freedesktop/login1"},
			{"org.freedesktop.DBus.Properties", "Get", M_GET, sess_path},
			{SESS, "TakeControl", M_TAKECONTROL, sess_path},
			{SESS, "ReleaseControl", M_RELEASECONTROL, sess_path},
			{SESS, "SetType", M_SETTYPE, sess_path},
			{SESS, "TakeDevice", M_TAKE, sess_path},
			{SESS, "ReleaseDevice", M_RELEASE, sess_path},
			{SESS, "PauseDeviceComplete", M_ACK, sess_path},
			{SEAT, "SwitchTo", M_SWITCH, seat_path},
		};
		for (auto &e : t)
			if (c.iface == e.iface && c.s == e.mem && e.ok)
				return e.m;
		return M_OTHER;
	}
	int on_message(sd_bus_message *m) {
		uint8_t type = 0;
		sd_bus_message_get_type(m, &type);
		if (type == SD_BUS_MESSAGE_SIGNAL && sd_bus_message_is_signal(m, "org.freedesktop.DBus.Local", "Disconnected"))
			return 0;
		if (type != SD_BUS_MESSAGE_METHOD_CALL)
			return 0;
		if (gone)
			return 1;
		Call c;
		auto nn = [](const char *s) { return std::string(s ? s : ""); };
		c.path = nn(sd_bus_message_get_path(m));
		c.iface = nn(sd_bus_message_get_interface(m));
		c.dest = nn(sd_bus_message_get_destination(m));
		c.s = nn(sd_bus_message_get_member(m));
		c.m = which(c);
		std::string member = c.s;
		c.s = "";
		const char *s = "", *s2 = "";
		int b = 0;
		switch (c.m) {
		case M_GETSESSION:
		case M_GETSEAT:
		case M_SETTYPE:
		case M_MATCH:
			sd_bus_message_read(m, "s", &s);
			c.s = s;
			break;
		case M_GET:
			sd_bus_message_read(m, "ss", &s, &s2);
			c.s = std::string(s) + "." + s2;
			break;
		case M_TAKECONTROL:
			sd_bus_message_read(m, "b", &b);
			c.a = b;
			break;
		case M_TAKE:
		case M_RELEASE:
		case M_ACK:
			sd_bus_message_read(m, "uu", &c.a, &c.b);
			break;
		case M_SWITCH:
			sd_bus_message_read(m, "u", &c.a);
			break;
		}
		eng::trace("    server: %s(%s %u %u) at %s", member.c_str(), c.s.c_str(), c.a, c.b, c.path.c_str());
		if ((c.m >= M_GETSESSION && c.m <= M_ACK) || c.m == M_MATCH)
			while (!before.empty()) {
				Op &w = before.front(); // so many calls later
				if (w.f) {
					w.f--;
					break;
				}
				Op o = w;
				before.pop_front();
				server_op(o);
			}
		sd_bus_message *r = NULL;
		bool bad = false, err = false, dropafter = false;
		if (f_m && (f_m == M_ANY + 100 || f_m == c.m) && c.m != M_HELLO && c.m != M_OTHER && member != "RemoveMatch" && --f_n <= 0) {
			fired = true;
			f_m = 0;
			eng::count("faulty replies");
			only_type = c.m == M_SETTYPE && f_mode == 0;
			if (f_mode == 0)
				err = true;
			else if (f_mode == 1)
				bad = true;
			else if (f_mode == 2) {
				hangup();
				calls.push_back(c);
				return 1;
			} else
				dropafter = true;
		}
		// what logind itself refuses
		int d = -1;
		if (c.m == M_TAKE || c.m == M_RELEASE || c.m == M_ACK)
			for (int i = 0; i < ND; i++)
				if (DEVS[i].maj == c.a && DEVS[i].min == c.b)
					d = i;
		if (c.m == M_OTHER || (c.m == M_GETSESSION && find(c.s.c_str()) < 0) || (c.m == M_TAKE && d < 0) || (c.m == M_RELEASE && !taken.count({c.a, c.b})) ||
		    (c.m == M_GET && c.s != SESS ".Active"))
			err = true;
		if ((c.m == M_SETTYPE || c.m == M_TAKE || c.m == M_RELEASE || c.m == M_ACK || c.m == M_RELEASECONTROL) && !control) // only for who is in control
			err = true;
		if (c.m == M_GETSESSION && find(c.s.c_str()) >= 0)
			sess = find(c.s.c_str());
		if (c.m == M_GETSEAT) {
			bool known = false;
			for (auto x : SEATS)
				known |= c.s == x;
			if (!known)
				err = true;
		}
		if (err) {
			static const char *en[] = {"org.freedesktop.DBus.Error.AccessDenied", "org.freedesktop.login1.NoSuchDevice", "org.freedesktop.DBus.Error.NoReply",
						   "com.example.Strange", "org.freedesktop.DBus.Error.UnknownMethod"};
			sd_bus_error e = SD_BUS_ERROR_MAKE_CONST(en[f_mode == 0 && fired ? (c.a + c.b) % 5 : 4], "refused");
			sd_bus_message_new_method_error(m, &r, &e);
			c.refused = true;
		} else {
			sd_bus_message_new_method_return(m, &r);
			if (bad && c.m == M_GET)
				sd_bus_message_append(r, "v", "s", "yes");
			else if (bad)
				bad = c.m == M_GETSESSION || c.m == M_GETSEAT || c.m == M_TAKE;
			if (!bad)
				switch (c.m) {
				case M_HELLO: sd_bus_message_append(r, "s", ":1.7"); break;
				case M_MATCH:
					if (member == "AddMatch")
						rules.push_back(c.s);
					else {
						auto i = std::find(rules.begin(), rules.end(), c.s);
						if (i != rules.end())
							rules.erase(i);
					}
					break;
				case M_TAKECONTROL: control = true; break;
				case M_RELEASECONTROL: control = false; break;
				case M_GETSESSION: sd_bus_message_append(r, "o", SPATH[sess]); break;
				case M_GETSEAT: sd_bus_message_append(r, "o", c.s == "seat0" ? TPATH[0] : TPATH[1]); break;
				case M_GET: sd_bus_message_append(r, "v", "b", (int)active); break;
				case M_TAKE:
					taken[{c.a, c.b}]++;
					sd_bus_message_append(r, "hb", memfd[d], !active);
					break;
				case M_RELEASE:
					if (--taken[{c.a, c.b}] == 0)
						taken.erase({c.a, c.b});
					break;
				}
			else if (c.m == M_TAKE)
				sd_bus_message_append(r, "s", "nothing");
			else if (c.m != M_GET)
				sd_bus_message_append(r, "u", 5u);
			c.ok = !bad;
		}
		if (c.m == M_GET && c.s == SESS ".Active" && !opening)
			gets.push_back(c.ok ? active : -1);
		if (c.m == M_GET && opening && c.ok)
			init_state = active, asked = true, missed = false;
		if (c.m == M_ACK) {
			// the application has been told before
			if (events.empty() || events.back())
				eng::inv(T(20), "ack-early", "the pause of %u:%u is acknowledged before the application is told to disable", c.a, c.b);
			acks.push_back({c.a, c.b});
		}
		calls.push_back(c);
		send(r, c.m == M_HELLO || c.m == M_MATCH ? "org.freedesktop.DBus" : ":1.1");
		if (dropafter)
			hangup();
		return 1;
	}
	void pump() {
		if (pumping)
			return;
		pumping = true;
		if (!srv && lfd >= 0) {
			int c = ::accept4(lfd, NULL, NULL, SOCK_CLOEXEC | SOCK_NONBLOCK);
			if (c >= 0) {
				sd_id128_t id = SD_ID128_MAKE(11, 22, 33, 44, 55, 66, 77, 88, 99, aa, bb, cc, dd, ee, ff, 01);
				gone = false;
				rules.clear();
				sd_bus_new(&srv);
				sd_bus_set_fd(srv, c, c);
				sd_bus_set_server(srv, 1, id);
				sd_bus_set_anonymous(srv, 1);
				sd_bus_negotiate_fds(srv, 1);
				sd_bus_add_filter(srv, NULL, filter, this);
				sd_bus_start(srv);
			}
		}
		if (srv) {
			int r;
			while ((r = sd_bus_process(srv, NULL)) > 0 && !drop_now) {
			}
			if (drop_now)
				really_drop();
			else if (r < 0) {
				eng::trace("    the client has hung up");
				sd_bus_close(srv);
				sd_bus_unref(srv);
				srv = nullptr;
			}
		}
		pumping = false;
	}
	// the bus delivers what was asked for
	std::vector<std::string> rules;
	static bool rule_matches(const std::string &rule, sd_bus_message *m) {
		std::map<std::string, std::string> kv;
		for (size_t i = 0; i < rule.size();) {
			size_t e = rule.find('=', i);
			if (e == std::string::npos)
				break;
			std::string k = rule.substr(i, e - i), v;
			i = e + 1;
			bool q = false;
			for (; i < rule.size() && (q || rule[i] != ','); i++)
				if (rule[i] == '\'')
					q = !q;
				else
					v += rule[i];
			i++;
			kv[k] = v;
		}
		auto is = [&](const char *k, const char *v) { return !kv.count(k) || (v && kv[k] == v); };
		const char *path = sd_bus_message_get_path(m);
		std::string ns = kv.count("path_namespace") ? kv["path_namespace"] : "";
		return is("type", "signal") && is("sender", "org.freedesktop.login1") && is("interface", sd_bus_message_get_interface(m)) && is("member", sd_bus_message_get_member(m)) && is("path", path) &&
		       (ns.empty() || (path && !strncmp(path, ns.c_str(), ns.size()))) && (!kv.count("arg0") || kv["arg0"] == SESS);
	}
	void signal(const Sig &s, sd_bus_message *m, const char *sender = ":1.1") {
		bool due = false;
		for (auto &x : rules)
			due |= rule_matches(x, m);
		if (!due && opening && asked && !s.eff.empty() && s.eff[0] != 3)
			missed = true;
		if (!srv || gone || (!due && !appbus)) {
			sd_bus_message_unref(m);
			return;
		}
		if (due && (seat || opening))
			sigs.push_back(s);
		send(m, sender);
	}
	bool asked = false, missed = false; // the state has been asked for; a change after that was not subscribed to
	void server_op(const Op &o) {
		if (!srv || sess < 0) {
			if (o.k % NK == DROP)
				hangup();
			return;
		}
		const char *path = SPATH[sess];
		sd_bus_message *m = NULL;
		switch (o.k % NK) {
		case ACTIVE: {
			bool v = o.a % 8 ? !active : active;
			active = v;
			int mode = o.b % 4; // value, invalidated, with others before, with others after
			Sig s;
			sd_bus_message_new_signal(srv, &m, path, "org.freedesktop.DBus.Properties", "PropertiesChanged");
			sd_bus_message_append(m, "s", SESS);
			sd_bus_message_open_container(m, 'a', "{sv}");
			if (o.b & 8)
				sd_bus_message_append(m, "{sv}", "IdleHint", "b", 1);
			if (o.b & 16)
				sd_bus_message_append(m, "{sv}", "User", "(uo)", 1000u, "/org/freedesktop/login1/user/_1000");
			if (mode != 1) {
				sd_bus_message_append(m, "{sv}", "Active", "b", (int)v);
				s.eff.push_back(v);
			}
			if (o.b & 32)
				sd_bus_message_append(m, "{sv}", "State", "s", "Active");
			if (o.b & 64)
				sd_bus_message_append(m, "{sv}", "Scope", "s", "closing");
			sd_bus_message_close_container(m);
			sd_bus_message_open_container(m, 'a', "s");
			if (o.b & 128)
				sd_bus_message_append(m, "s", "LockedHint");
			if (mode == 1) {
				sd_bus_message_append(m, "s", "Active");
				s.eff.push_back(2);
			}
			if (o.b & 256)
				sd_bus_message_append(m, "s", "ActiveSince");
			sd_bus_message_close_container(m);
			eng::trace("    signal: Active %s %d", mode == 1 ? "invalidated, is" : "becomes", v);
			eng::count("state changes");
			signal(s, m);
			break;
		}
		case PAUSE: {
			static const char *ty[] = {"pause", "pause", "pause", "force", "gone", "pausex", "Pause", ""};
			int t = o.a % 8;
			const Dev &d = DEVS[o.b % ND];
			Sig s;
			sd_bus_message_new_signal(srv, &m, path, SESS, "PauseDevice");
			sd_bus_message_append(m, "uus", d.maj, d.min, ty[t]);
			if (!strcmp(ty[t], "pause")) {
				s.eff.push_back(3);
				s.maj = d.maj;
				s.min = d.min;
				eng::count("graceful pauses");
			}
			eng::trace("    signal: PauseDevice %u:%u %s", d.maj, d.min, ty[t]);
			signal(s, m);
			break;
		}
		case NOISE: {
			Sig s;
			int t = o.a % 8;
			const char *other = SPATH[(sess + 1) % 3];
			if (t == 0) { // another interface's property of that name
				sd_bus_message_new_signal(srv, &m, path, "org.freedesktop.DBus.Properties", "PropertiesChanged");
				sd_bus_message_append(m, "sa{sv}as", o.b % 2 ? "org.freedesktop.login1.Sessions" : "org.example.Other", 1, "Active", "b", (int)!active, 0);
			} else if (t == 1) { // another session
				sd_bus_message_new_signal(srv, &m, other, "org.freedesktop.DBus.Properties", "PropertiesChanged");
				sd_bus_message_append(m, "sa{sv}as", SESS, 1, "Active", "b", (int)!active, 0);
			} else if (t == 2) {
				sd_bus_message_new_signal(srv, &m, other, SESS, "PauseDevice");
				sd_bus_message_append(m, "uus", 226u, 0u, "pause");
			} else if (t == 3) {
				sd_bus_message_new_signal(srv, &m, path, "org.freedesktop.DBus.Properties", "PropertiesChanged");
				sd_bus_message_append(m, "sa{sv}as", SESS, 2, "IdleHint", "b", 1, "ActiveX", "b", (int)!active, 2, "LockedHint", "Activ");
			} else if (t == 4) {
				sd_bus_message_new_signal(srv, &m, path, SESS, "ResumeDevice");
				sd_bus_message_append(m, "uuh", 226u, 0u, memfd[0]);
			} else if (t == 5) {
				sd_bus_message_new_signal(srv, &m, path, SESS, "Lock");
			} else if (t == 6) { // values of every kind beside
				sd_bus_message_new_signal(srv, &m, path, "org.freedesktop.DBus.Properties", "PropertiesChanged");
				sd_bus_message_append(m, "sa{sv}as", SESS, 3, "A", "(uo)", 4u, "/x", "B", "as", 2, "x", "Active", "Active2", "s", "Active", 0);
			} else {
				sd_bus_message_new_signal(srv, &m, path, "org.freedesktop.DBus.Properties", "PropertiesChanged");
				sd_bus_message_append(m, "sa{sv}as", SESS, 0, 0);
			}
			eng::trace("    signal: noise %d", t);
			signal(s, m);
			break;
		}
		case BADSIG: {
			Sig s;
			int t = o.a % 6;
			if (t < 3) {
				sd_bus_message_new_signal(srv, &m, path, SESS, "PauseDevice");
				if (t == 1)
					sd_bus_message_append(m, "uu", 226u, 0u);
				if (t == 2)
					sd_bus_message_append(m, "sss", "226", "0", "pause");
			} else {
				sd_bus_message_new_signal(srv, &m, path, "org.freedesktop.DBus.Properties", "PropertiesChanged");
				if (t == 4)
					sd_bus_message_append(m, "sa{sv}as", SESS, 1, "Active", "s", "no", 0);
				if (t == 5)
					sd_bus_message_append(m, "ss", SESS, "Active");
			}
			eng::trace("    signal: malformed %d", t);
			signal(s, m);
			break;
		}
		case DROP: hangup(); break;
		default: sd_bus_message_unref(m);
		}
	}

	// --- what the listener should have heard: the first n states after the initial one, without repeats
	void expect(std::vector<bool> &st, std::vector<std::pair<unsigned, unsigned>> &ak, bool &lacking, size_t n = ~(size_t)0) {
		size_t g = 0;
		lacking = false;
		bool cur = init_state;
		st.push_back(cur);
		auto set = [&](bool v) {
			if (v != cur)
				st.push_back(cur = v);
		};
		for (auto &s : sigs) {
			if (n-- == 0)
				break;
			for (int e : s.eff) {
				if (e < 2)
					set(e);
				else if (e == 2) {
					if (g >= gets.size()) {
						lacking = true;
						return;
					}
					if (gets[g] >= 0)
						set(gets[g]);
					g++;
				} else {
					set(false);
					ak.push_back({s.maj, s.min});
				}
			}
		}
	}
	void check_events(bool full) {
		std::vector<bool> st;
		std::vector<std::pair<unsigned, unsigned>> ak;
		bool lacking;
		expect(st, ak, lacking);
		auto show = [](const std::vector<bool> &v) {
			std::string r;
			for (bool b : v)
				r += b ? "E" : "D";
			return r;
		};
		bool ok = events.size() <= st.size() && std::equal(events.begin(), events.end(), st.begin());
		if (full && (events.size() != st.size() || lacking))
			ok = false;
		if (!ok)
			eng::inv(T(20), "events", "the listener has heard %s, logind's history is %s%s", show(events).c_str(), show(st).c_str(), lacking ? " and the state was not asked for" : "");
		ok = acks.size() <= ak.size() && std::equal(acks.begin(), acks.end(), ak.begin());
		if (full && acks.size() != ak.size())
			ok = false;
		if (!ok)
			eng::inv(T(20), "acks", "%zu pauses are acknowledged, %zu are due (or they are of other devices)", acks.size(), ak.size());
	}
	void event(bool e, struct libseat *s, void *d) {
		eng::trace("  listener: %s", e ? "enable" : "disable");
		if (s != seat || d != &listener_data || !in_dispatch)
			eng::inv(T(20), "event-where", "an event is delivered outside of the seat's dispatch, or for another seat");
		events.push_back(e);
		check_events(false);
		eng::sig(3 + e);
		if (in_listener)
			return;
		in_listener = true;
		if (!plan.empty()) {
			Op o = plan.front();
			plan.pop_front();
			exec(o);
		}
		in_listener = false;
	}
	int listener_data = 0;

	// --- the calls a request must make: those that change something at logind
	struct Mark {
		size_t n;
		size_t ev, nsig;
	};
	std::vector<Call> since(size_t n) {
		std::vector<Call> r;
		for (size_t i = n; i < calls.size(); i++) {
			int m = calls[i].m;
			if (m == M_TAKE || m == M_RELEASE || m == M_SWITCH || m == M_TAKECONTROL || m == M_RELEASECONTROL || m == M_SETTYPE || m == M_OTHER)
				r.push_back(calls[i]);
		}
		return r;
	}
	void awake(const char *what) {
		// whatever logind has said and the listener has not heard must wake the application
		if (!seat || gone || !srv)
			return;
		pump();
		if (gone || !srv)
			return;
		bool lacking;
		std::vector<bool> st;
		std::vector<std::pair<unsigned, unsigned>> ak;
		expect(st, ak, lacking);
		if (!lacking && st.size() <= std::max<size_t>(events.size(), 1) && ak.size() == acks.size())
			return;
		struct pollfd p = {libseat_get_fd(seat), POLLIN, 0};
		if (::poll(&p, 1, 0) != 1)
			eng::inv(T(21) | T(20), "asleep", "after %s there are events to deliver, but the descriptor is not readable", what);
		eng::count("wake-ups needed");
	}

	void open_seat(const Op &o) {
		if (seat)
			return;
		if (shared) // the application has emptied its bus
			while (appbus && sd_bus_process(appbus, NULL) > 0) {
			}
		has_xdg_id = o.b & 1;
		xdg_id = IDS[o.b >> 1 & 3];
		has_xdg_type = o.b & 8;
		static const char *types[] = {"wayland", "x11", "", "tty"};
		xdg_type = types[o.b >> 4 & 3];
		pid_sess = o.c % 8 ? (int)(o.c >> 3) % 3 : -1;
		uid_sess = (o.c >> 5) % 8 ? (int)(o.c >> 8) % 3 : -1;
		seat_ok = o.d % 16 != 0;
		int want = has_xdg_id ? find(xdg_id.c_str()) : pid_sess >= 0 ? pid_sess : uid_sess;
		size_t b0 = blocks.size(), n0 = calls.size();
		sigs.clear();
		gets.clear();
		acks.clear();
		events.clear();
		was_dispatched = false;
		failed_dispatches = gone_dispatches = 0;
		opening = true;
		control = only_type = asked = missed = false;
		if (!shared)
			sess = -1;
		if (!appbus)
			gone = false;
		fired = false;
		if (o.d & 0x100) {
			f_alloc = (o.d & 0xe00) == 0;
			f_alloc_n = 1 + (o.d >> 12) % 5;
		}
		taken.clear();
		errno = 0;
		struct libseat *s = libseat_open_seat(&listener, &listener_data);
		int e = errno;
		opening = false;
		bool allocfault = f_alloc;
		f_alloc = false;
		allocfault = !allocfault && (o.d & 0x100) && (o.d & 0xe00) == 0;
		eng::trace("  -> %s, errno %d", s ? "open" : "failed", e);
		pump();
		seat = s;
		Call *tc = nullptr, *gs = nullptr, *gt = nullptr, *st = nullptr, *ga = nullptr;
		int ntc = 0;
		for (size_t i = n0; i < calls.size(); i++) {
			Call &c = calls[i];
			if (c.m == M_TAKECONTROL)
				tc = &c, ntc++;
			if (c.m == M_GETSESSION)
				gs = &c;
			if (c.m == M_GETSEAT)
				gt = &c;
			if (c.m == M_SETTYPE)
				st = &c;
			if (c.m == M_GET)
				ga = &c;
		}
		if (!s) {
			if (e == 0)
				eng::inv(T(21), "open-errno", "opening the seat fails without errno");
			if ((!fired || only_type) && !gone && want >= 0 && seat_ok && !allocfault)
				eng::inv(T(21), "open-fails", "opening the seat fails with errno %d", e);
			if (blocks.size() != b0)
				eng::inv(T(21), "open-leak", "a failed open leaves %zu allocations", blocks.size() - b0);
			check_bus("a failed open");
			eng::count("failed opens");
			eng::nontrivial();
		} else {
			eng::count("opens");
			if (want < 0 || !seat_ok)
				eng::inv(T(21), "open-succeeds", "opening a seat succeeds without session or seat");
			if (want >= 0 && (!gs || gs->s != IDS[want] || !gt || gt->s != SEATS[want]))
				eng::inv(T(21), "session", "the session used is %s instead of %s, the seat %s instead of %s", gs ? gs->s.c_str() : "none", IDS[want], gt ? gt->s.c_str() : "none", SEATS[want]);
			if (ntc != 1 || tc->a != 0 || !tc->ok)
				eng::inv(T(21), "control", "the seat is open but control was taken %d times (force %u)", ntc, tc ? tc->a : 0);
			if (missed && !gone)
				eng::inv(T(20), "missed-change", "the session's state changes between asking for it and subscribing to changes");
			if (!ga || !ga->ok)
				eng::inv(T(20), "no-state", "the seat is open without knowing the session's state");
			if ((has_xdg_type != (st != nullptr) && !gone) || (st && st->s != xdg_type) || (st && !st->ok && !fired && !gone))
				eng::inv(T(21), "type", "the session type %s is %s", has_xdg_type ? xdg_type.c_str() : "unset", st ? st->s.c_str() : "not forwarded");
			awake("open_seat");
		}
		eng::sig(10 + (s != nullptr));
	}
	// with a bus of its own nothing may be left of it; the application's bus must survive
	void check_bus(const char *what) {
		pump();
		if (!appbus && srv && !gone)
			eng::inv(T(20) | T(21), "bus-leak", "after %s the connection to the bus is still open", what);
		if (appbus && !srv && !gone)
			eng::inv(T(20) | T(21), "bus-closed", "%s closes the application's own connection to the bus", what);
		if (!errs.empty())
			eng::inv(T(20) | T(21), "error-leak", "after %s %zu D-Bus errors are not released", what, errs.size());
	}
	void close_seat() {
		if (!seat || in_dispatch)
			return;
		size_t n0 = calls.size();
		auto alive0 = srv != nullptr && !gone;
		int r = libseat_close_seat(seat);
		seat = nullptr;
		if (r != 0)
			eng::inv(T(21), "close", "closing the seat returns %d", r);
		pump();
		auto cs = since(n0);
		if (alive0 && !gone && !gone && appbus && !rules.empty())
			eng::inv(T(20), "match-leak", "after closing the seat its signal matches are still installed: %s", rules[0].c_str());
		if (alive0 && !gone && (cs.size() != 1 || cs[0].m != M_RELEASECONTROL))
			eng::inv(T(21), "release-control", "closing the seat does not release control exactly once");
		if (!blocks.empty())
			eng::inv(T(20) | T(21), "leak", "after closing the seat %zu allocations are left", blocks.size());
		check_bus("closing the seat");
		check_devs();
		sigs.clear();
		eng::sig(20);
	}
	void check_devs() {
		for (auto &t : devs)
			if (fd_dev(t.fd) != t.dev)
				eng::inv(T(21), "device-fd", "descriptor %d no longer refers to %s", t.fd, DEVS[t.dev].path);
	}
	void dispatch(const Op &o) {
		if (in_dispatch)
			return;
		static const int ts[] = {0, 0, 100, -1, 2147483647, 1};
		timeout_now = ts[o.b % 6];
		int perr = 0;
		if (o.c % 16 == 0)
			f_poll = perr = o.c & 16 ? EINTR : EIO;
		bool was_gone = gone;
		size_t e0 = events0 = events.size(), nsig = sigs.size();
		in_dispatch = true;
		fired = false;
		arrived = 0;
		waited = false;
		errno = 0;
		int r = libseat_dispatch(seat, timeout_now);
		int e = errno;
		in_dispatch = false;
		bool first = !was_dispatched;
		was_dispatched = true;
		eng::trace("  -> %d, errno %d", r, r < 0 ? e : 0);
		bool poll_failed = perr == EIO && f_poll == 0;
		f_poll = 0;
		have_waiting = false;
		if (r < 0 && e == 0)
			eng::inv(T(20), "dispatch-errno", "dispatch fails without errno");
		if (first && events.size() == e0)
			eng::inv(T(20), "initial", "the first dispatch does not tell the initial state");
		if (r < 0 && !gone && !poll_failed)
			eng::inv(T(20), "dispatch", "dispatch fails with errno %d", e);
		if (r == 0 && timeout_now != 0 && !waited && !fired && !gone && events.size() == e0)
			eng::inv(T(20), "no-wait", "dispatch(%d) finds nothing and returns without having waited", timeout_now);
		if (r >= 0 && poll_failed)
			eng::inv(T(20), "dispatch-poll", "waiting fails, dispatch returns %d", r);
		if (was_gone) {
			if (r < 0)
				failed_dispatches++;
			else if (failed_dispatches)
				eng::inv(T(20), "dispatch-recovers", "dispatch succeeds after it has reported that the connection is lost");
			if (++gone_dispatches >= 3 && !failed_dispatches)
				eng::inv(T(20), "loss", "logind is gone, but dispatch does not report it");
		}
		if (!gone && r >= 0) {
			std::vector<bool> st;
			std::vector<std::pair<unsigned, unsigned>> ak;
			bool lacking;
			pump();
			expect(st, ak, lacking, std::max(nsig, arrived));
			if (lacking || st.size() > events.size() || ak.size() > acks.size())
				eng::inv(T(20), "late", "signals that had arrived before the dispatch, or ended its wait, are not told by it: %zu of %zu events, %zu of %zu acknowledgements", events.size(), st.size(), acks.size(), ak.size());
			// what arrived meanwhile wakes the application
			for (int n = 0; n < 50 && !gone && unheard(); n++) {
				awake("dispatch");
				in_dispatch = true;
				timeout_now = 0;
				events0 = events.size();
				int r2 = libseat_dispatch(seat, 0);
				in_dispatch = false;
				if (r2 < 0)
					break;
			}
			if (!gone)
				check_events(true);
		} else
			check_events(false);
		eng::sig(30 + (r < 0) + 2 * (events.size() - e0));
		if (events.size() - e0 > 1 || gone)
			eng::nontrivial();
	}
	bool unheard() {
		bool lacking;
		std::vector<bool> st;
		std::vector<std::pair<unsigned, unsigned>> ak;
		expect(st, ak, lacking);
		return lacking || st.size() != events.size() || ak.size() != acks.size();
	}
	void open_device(const Op &o) {
		static const char *extra[] = {"/dev/by-path/gpu", "/etc/file", "/dev/none", ""};
		std::string path = o.b % (ND + 4) < ND ? DEVS[o.b % (ND + 4)].path : extra[o.b % (ND + 4) - ND];
		int d = dev_of(path.c_str());
		if (path == "/dev/by-path/gpu")
			d = 1;
		size_t n0 = calls.size();
		int fd = -77;
		fired = false;
		if (o.c % 16 == 0)
			f_dup = true;
		auto alive0 = srv != nullptr && !gone;
		errno = 0;
		int id = libseat_open_device(seat, path.c_str(), &fd);
		int e = errno;
		f_dup = false;
		eng::trace("  -> %d, fd %d, errno %d", id, fd, id < 0 ? e : 0);
		auto cs = since(n0);
		bool exists = path != "/dev/none" && path != "";
		// a device that was given but cannot be handed on is given back
		bool back = cs.size() > 1 && cs[0].m == M_TAKE && cs.back().m == M_RELEASE && cs.back().a == cs[0].a && cs.back().b == cs[0].b;
		if (!in_listener && exists && alive0 && !gone && (cs.size() != 1 + back || cs[0].m != M_TAKE || cs[0].a != (d < 0 ? 0 : DEVS[d].maj) || cs[0].b != (d < 0 ? 0 : DEVS[d].min)))
			eng::inv(T(21), "take", "opening %s makes %zu requests (%u:%u)", path.c_str(), cs.size(), cs.empty() ? 0 : cs[0].a, cs.empty() ? 0 : cs[0].b);
		if (!exists && !cs.empty())
			eng::inv(T(21), "take", "a device is taken for a path that does not exist");
		bool granted = !cs.empty() && cs[0].m == M_TAKE && cs[0].ok;
		if (back && (id >= 0 || cs[0].refused))
			eng::inv(T(21), "take", "a device that was %s is given back", id >= 0 ? "opened" : "not given");
		if (granted && id < 0 && !back && alive0 && !gone && !in_listener)
			eng::inv(T(21), "kept", "open_device of %s fails with errno %d, but logind is left to believe that the device is in use", path.c_str(), e);
		if (id >= 0) {
			if (!granted)
				eng::inv(T(21), "opened", "open_device succeeds, but logind has not given the device");
			if (fd_dev(fd) != d)
				eng::inv(T(21), "device-fd", "open_device of %s gives descriptor %d, which is not what logind supplied", path.c_str(), fd);
			for (auto &t : devs)
				if (t.fd == fd || t.id == id)
					eng::inv(T(21), "device-fd", "open_device gives a descriptor or id that the application already has");
			if (!(::fcntl(fd, F_GETFD) & FD_CLOEXEC))
				eng::inv(T(21), "device-cloexec", "the device's descriptor is inherited by children");
			devs.push_back({id, fd, d});
			eng::count("devices opened");
			eng::nontrivial();
		} else {
			if (id != -1)
				eng::inv(T(21), "open-device-value", "open_device returns %d", id);
			if (granted && !fired && !gone)
				eng::inv(T(21), "not-opened", "open_device fails with errno %d, but logind has given the device", e);
			if (e <= 0)
				eng::inv(T(21), "open-device-errno", "open_device fails without errno");
			if (fd != -77 && fd != -1)
				eng::inv(T(21), "failed-fd", "a failed open_device sets a descriptor");
			eng::count("failed device opens");
		}
		check_devs();
		check_fds("open_device");
		if (!in_dispatch)
			awake("open_device");
		eng::sig(40 + (id >= 0));
	}
	void close_device(const Op &o) {
		size_t n0 = calls.size();
		int id, d = -1;
		size_t idx = 0;
		if (o.b % 8 == 0 || devs.empty()) {
			static const int bad[] = {-1, -100, 900, 2147483647};
			id = bad[o.c % 4];
		} else {
			idx = o.c % devs.size();
			id = devs[idx].id;
			d = devs[idx].dev;
		}
		auto alive0 = srv != nullptr && !gone;
		fired = false;
		errno = 0;
		int r = libseat_close_device(seat, id);
		int e = errno;
		eng::trace("  id %d -> %d, errno %d", id, r, r < 0 ? e : 0);
		auto cs = since(n0);
		if (d < 0) {
			if (r != -1 || e <= 0)
				eng::inv(T(21), "close-bad-id", "closing device id %d returns %d, errno %d", id, r, e);
			if (!cs.empty())
				eng::inv(T(21), "close-bad-id", "closing device id %d releases %u:%u", id, cs[0].a, cs[0].b);
		} else {
			if (alive0 && !gone && (cs.size() != 1 || cs[0].m != M_RELEASE || cs[0].a != DEVS[d].maj || cs[0].b != DEVS[d].min))
				eng::inv(T(21), "release", "closing %s makes %zu requests, the first for %u:%u", DEVS[d].path, cs.size(), cs.empty() ? 0 : cs[0].a, cs.empty() ? 0 : cs[0].b);
			bool ok = !cs.empty() && cs[0].ok;
			if ((r == 0) != ok && !(ok && gone))
				eng::inv(T(21), "close-result", "close_device returns %d, logind says %s", r, ok ? "ok" : "no");
			if (r != 0 && (r != -1 || e <= 0))
				eng::inv(T(21), "close-errno", "close_device returns %d with errno %d", r, e);
			check_devs(); // before the application closes it
			::close(devs[idx].fd);
			devs.erase(devs.begin() + idx);
			eng::count("devices closed");
		}
		check_fds("close_device");
		if (!in_dispatch)
			awake("close_device");
		eng::sig(50 + (r == 0));
	}
	void do_switch(const Op &o) {
		static const int v[] = {1, 2, 7, 0, -1, 63, 2147483647, -2147483647 - 1, 255, 256, 65536};
		int s = v[o.b % 11];
		size_t n0 = calls.size();
		auto alive0 = srv != nullptr && !gone;
		fired = false;
		errno = 0;
		int r = libseat_switch_session(seat, s);
		int e = errno;
		eng::trace("  %d -> %d, errno %d", s, r, r < 0 ? e : 0);
		auto cs = since(n0);
		if (s < 0) {
			if (r != -1 || e <= 0 || !cs.empty())
				eng::inv(T(21), "switch-negative", "switching to %d returns %d, errno %d and makes %zu requests", s, r, e, cs.size());
		} else {
			if (alive0 && !gone && s > 0 && (cs.size() != 1 || cs[0].m != M_SWITCH || cs[0].a != (unsigned)s))
				eng::inv(T(21), "switch", "switching to %d makes %zu requests, the first for %u", s, cs.size(), cs.empty() ? 0 : cs[0].a);
			bool ok = !cs.empty() && cs[0].ok;
			if ((r == 0) != ok && !(ok && gone))
				eng::inv(T(21), "switch-result", "switch_session returns %d, logind says %s", r, ok ? "ok" : "no");
			if (r != 0 && (r != -1 || e <= 0))
				eng::inv(T(21), "switch-errno", "switch_session returns %d with errno %d", r, e);
		}
		if (!in_dispatch)
			awake("switch_session");
		eng::sig(60 + (r == 0));
	}
	void check_fds(const char *what) {
		if (!errs.empty())
			eng::inv(T(20) | T(21), "error-leak", "after %s %zu D-Bus errors are not released", what, errs.size());
	}
	int nfds() {
		int n = 0;
		for (int i = 0; i < 64; i++)
			n += ::fcntl(i, F_GETFD) >= 0;
		return n;
	}
	void exec(const Op &o) {
		int k = o.k % NK;
		eng::trace("%s%s a=%u b=%u c=%u", in_listener ? "    (listener) " : "", kn[k], o.a, o.b, o.c);
		if (in_listener && k != OPENDEV && k != CLOSEDEV && k != SWITCH && k != DISABLE && k != NAME && k != GETFD)
			return;
		switch (k) {
		case OPEN: open_seat(o); return;
		case CLOSE: close_seat(); return;
		case ACTIVE:
		case PAUSE:
		case NOISE:
		case BADSIG:
		case DROP:
			server_op(o);
			if (drop_now)
				really_drop();
			return;
		case BEFORE: {
			static const int ks[] = {ACTIVE, ACTIVE, PAUSE, PAUSE, NOISE, BADSIG, DROP};
			Op n = o;
			n.k = ks[o.d % 7 == 6 && o.c % 4 ? 0 : o.d % 7];
			n.f = o.d >> 16 & 8 ? o.d >> 20 & 7 : 0;
			if (before.size() < 4)
				before.push_back(n);
			return;
		}
		case WAITING: {
			static const int ks[] = {ACTIVE, ACTIVE, PAUSE, NOISE, DROP};
			waiting = o;
			waiting.k = ks[o.d % 5 == 4 && o.c % 2 ? 0 : o.d % 5];
			have_waiting = true;
			return;
		}
		case LISTENER: {
			static const int ks[] = {OPENDEV, CLOSEDEV, SWITCH, DISABLE, OPENDEV, CLOSEDEV, GETFD, NAME};
			Op n = o;
			n.k = ks[o.d % 8];
			if (plan.size() < 3)
				plan.push_back(n);
			return;
		}
		case FAULT: {
			f_m = o.a % 3 == 0 ? M_ANY + 100 : 1 + o.b % (M_MATCH - 1 + 1);
			f_n = 1 + o.c % (o.a % 3 == 0 ? 6 : 2);
			f_mode = o.d % 8 < 4 ? 0 : o.d % 8 < 6 ? 1 : o.d % 8 == 6 ? 2 : 3;
			return;
		}
		case APP: // the application uses its own connection
			if (appbus && !seat)
				while (sd_bus_process(appbus, NULL) > 0) {
				}
			return;
		}
		if (!seat) {
			if (!in_listener && k == DISPATCH)
				open_seat(o);
			return;
		}
		switch (k) {
		case DISPATCH: dispatch(o); break;
		case OPENDEV: open_device(o); break;
		case CLOSEDEV: close_device(o); break;
		case SWITCH: do_switch(o); break;
		case DISABLE: {
			int r = libseat_disable_seat(seat);
			if (r != 0)
				eng::inv(T(21), "disable", "disabling the seat returns %d", r);
			break;
		}
		case NAME: {
			const char *n = libseat_seat_name(seat);
			if (!n || strcmp(n, SEATS[sess]))
				eng::inv(T(21), "name", "the seat's name is %s instead of %s", n ? n : "NULL", SEATS[sess]);
			break;
		}
		case GETFD: {
			int fd = libseat_get_fd(seat), e = errno;
			if (fd >= 0 && ::fcntl(fd, F_GETFD) < 0)
				eng::inv(T(21), "fd", "get_fd gives a closed descriptor");
			if (fd < 0 && (!gone || e <= 0))
				eng::inv(T(21), "fd", "get_fd fails with errno %d", e);
			break;
		}
		}
	}
	void run(const Case &c) override {
		H = this;
		sut_sys = this;
		if (lfd < 0) {
			for (int i = 0; i < ND; i++) {
				struct stat st;
				memfd[i] = memfd_create("dev", MFD_CLOEXEC);
				::fstat(memfd[i], &st);
				ino[i] = st.st_ino;
			}
			std::string p = std::string(eng::scratch()) + "/bus";
			::unlink(p.c_str());
			struct sockaddr_un a = {};
			a.sun_family = AF_UNIX;
			strncpy(a.sun_path, p.c_str(), sizeof a.sun_path - 1);
			lfd = ::socket(AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK | SOCK_CLOEXEC, 0);
			if (::bind(lfd, (struct sockaddr *)&a, sizeof a) || ::listen(lfd, 8))
				abort();
			setenv("DBUS_SYSTEM_BUS_ADDRESS", ("unix:path=" + p).c_str(), 1);
		}
		int fds0 = nfds();
		srv = nullptr;
		seat = nullptr;
		appbus = nullptr;
		gone = drop_now = false;
		in_dispatch = in_listener = opening = false;
		sess = -1;
		active = c.cfg[0] & 1;
		shared = (c.cfg[0] & 6) == 0;
		calls.clear();
		sigs.clear();
		gets.clear();
		acks.clear();
		events.clear();
		before.clear();
		plan.clear();
		taken.clear();
		devs.clear();
		blocks.clear();
		errs.clear();
		have_waiting = false;
		f_m = f_poll = 0;
		f_dup = f_alloc = false;
		libseat_set_log_level(LIBSEAT_LOG_LEVEL_DEBUG);
		if (shared) {
			eng::trace("the application has its own reference to the system bus");
			if (sd_bus_default_system(&appbus) < 0)
				abort();
			while (sd_bus_process(appbus, NULL) > 0) {
			}
			pump();
			while (sd_bus_process(appbus, NULL) > 0) {
			}
		}
		for (auto &o : c.ops)
			exec(o);
		f_m = 0;
		before.clear();
		plan.clear();
		if (seat && srv && !gone) {
			Op o = {DISPATCH, 0, 0, 0, 1, 0};
			exec(o);
		}
		close_seat();
		if (appbus) {
			while (sd_bus_process(appbus, NULL) > 0)
				pump();
			sd_bus_close(appbus);
			sd_bus_unref(appbus);
			appbus = nullptr;
			pump();
		}
		for (auto &t : devs)
			::close(t.fd);
		devs.clear();
		if (srv) {
			sd_bus_close(srv);
			sd_bus_unref(srv);
			srv = nullptr;
		}
		for (int i = 0; i < 8; i++) { // connections never accepted
			int x = ::accept4(lfd, NULL, NULL, SOCK_CLOEXEC);
			if (x < 0)
				break;
			::close(x);
		}
		int fds1 = nfds();
		if (fds1 != fds0)
			eng::inv(T(20) | T(21), "fd-leak", "%d descriptors are left open", fds1 - fds0);
	}
	size_t max_ops() override { return 60; }
	void gen(Rng &r, Case &c, int prop) override {
		for (auto &b : c.cfg)
			b = r.next();
		int n = 4 + r.below(36);
		static const int k20[] = {DISPATCH, DISPATCH, DISPATCH, DISPATCH, ACTIVE, ACTIVE, ACTIVE, ACTIVE, PAUSE, PAUSE, PAUSE, NOISE, NOISE, BADSIG, BEFORE, BEFORE, WAITING,
					  LISTENER, OPENDEV, CLOSEDEV, SWITCH, CLOSE, OPEN, FAULT, DROP, APP};
		static const int k21[] = {DISPATCH, DISPATCH, ACTIVE, ACTIVE, PAUSE, NOISE, BEFORE, BEFORE, BEFORE, LISTENER, OPENDEV, OPENDEV, OPENDEV, OPENDEV, CLOSEDEV, CLOSEDEV,
					  CLOSEDEV, SWITCH, SWITCH, DISABLE, NAME, GETFD, CLOSE, OPEN, OPEN, FAULT, FAULT, FAULT, DROP, APP};
		bool quiet = r.chance(40);
		for (int i = 0, nb = r.chance(30) ? 1 + r.below(2) : 0; i < nb; i++) { // something happens while the seat is being opened
			Op o = {};
			o.k = BEFORE;
			o.a = r.next();
			o.b = r.next();
			o.c = r.next();
			o.d = r.next() | 8u << 16;
			c.ops.push_back(o);
		}
		for (int i = 0; i < n; i++) {
			Op o;
			o.k = prop == 21 ? k21[r.below(sizeof k21 / sizeof *k21)] : k20[r.below(sizeof k20 / sizeof *k20)];
			if (quiet && (o.k == DROP || o.k == FAULT))
				o.k = DISPATCH;
			if (o.k == DROP && r.chance(70))
				o.k = ACTIVE;
			if (i == 0)
				o.k = OPEN;
			o.f = 0;
			o.a = r.next();
			o.b = r.next();
			o.c = r.next();
			o.d = r.next();
			if (o.k == OPEN) {
				if (r.chance(90))
					o.b &= ~6; // a known session
				if (r.chance(80))
					o.c |= 0x21, o.d |= 1;
				if (r.chance(70))
					o.d &= ~0x100;
			}
			c.ops.push_back(o);
		}
	}
	std::string rule(int) override {
		return prop_rule;
	}
	std::string prop_rule = "an open fails, a device is opened, logind goes away, or one dispatch delivers more than one event; distinct by the sequence of results and events";
	std::string describe(const Case &c) override {
		std::string s;
		char b[100];
		for (auto &o : c.ops) {
			snprintf(b, sizeof b, "%s(%u,%u,%u) ", kn[o.k % NK], o.a, o.b, o.c);
			s += b;
		}
		return s;
	}
};
static void on_enable(struct libseat *s, void *d) { H->event(true, s, d); }
static void on_disable(struct libseat *s, void *d) { H->event(false, s, d); }
Harness *make_harness() { return new Logind; }

extern "C" {
int ppoll(struct pollfd *f, nfds_t n, const struct timespec *, const sigset_t *) {
	static int stuck;
	if (H)
		H->pump();
	struct timespec z = {0, 0};
	int r = (int)syscall(SYS_ppoll, f, n, &z, NULL, 8);
	if (r == 0 && H && ++stuck > 200) {
		eng::inv(T(20) | T(21), "waits", "the library waits for something the server will never send");
		_exit(3);
	}
	if (r > 0)
		stuck = 0;
	return r;
}
// the login library
int sd_session_is_active(const char *id) {
	int i = H->find(id);
	return i < 0 ? -ENXIO : H->active;
}
int sd_pid_get_session(pid_t p, char **s) {
	if (H->pid_sess < 0)
		return -ENODATA;
	*s = H->str(IDS[p == 0 || p == getpid() ? H->pid_sess : (H->pid_sess + 1) % 3]);
	return 0;
}
int sd_uid_get_display(uid_t u, char **s) {
	if (u != 1000 || H->uid_sess < 0)
		return -ENODATA;
	*s = H->str(IDS[H->uid_sess]);
	return 0;
}
int sd_session_get_seat(const char *id, char **s) {
	int i = H->find(id);
	if (i < 0)
		return -ENXIO;
	if (!H->seat_ok)
		return -ENODATA;
	*s = H->str(SEATS[i]);
	return 0;
}
// What the library writes to must be there
extern "C" void *__asan_region_is_poisoned(void *, size_t);
static void dest(char type, void *p) {
	static const char ty[] = "ybnqiuxtdsogh";
	static const int sz[] = {1, 4, 2, 2, 4, 4, 8, 8, 8, 8, 8, 8, 4};
	const char *i = type ? strchr(ty, type) : NULL;
	if (i && p && __asan_region_is_poisoned(p, sz[i - ty]))
		eng::inv(T(20) | T(21), "too-small", "a D-Bus value of type '%c' is written to something smaller", type);
}
int hx_sd_bus_message_read_basic(sd_bus_message *m, char type, void *p) {
	dest(type, p);
	return sd_bus_message_read_basic(m, type, p);
}
int hx_sd_bus_message_read(sd_bus_message *m, const char *types, ...) {
	va_list a, b;
	va_start(a, types);
	if (strspn(types, "ybnqiuxtdsogh") == strlen(types)) {
		va_copy(b, a);
		for (const char *t = types; *t; t++)
			dest(*t, va_arg(b, void *));
		va_end(b);
	}
	int r = sd_bus_message_readv(m, types, a);
	va_end(a);
	return r;
}
// D-Bus errors must be released
static void track(sd_bus_error *e) {
	if (e && e->_need_free)
		H->errs.insert(e);
}
int hx_sd_bus_call_method(sd_bus *b, const char *dest, const char *path, const char *iface, const char *member, sd_bus_error *e, sd_bus_message **reply, const char *types, ...) {
	va_list a;
	va_start(a, types);
	int r = sd_bus_call_methodv(b, dest, path, iface, member, e, reply, types, a);
	va_end(a);
	track(e);
	return r;
}
int hx_sd_bus_call(sd_bus *b, sd_bus_message *m, uint64_t usec, sd_bus_error *e, sd_bus_message **reply) {
	int r = sd_bus_call(b, m, usec, e, reply);
	track(e);
	return r;
}
int hx_sd_bus_get_property_trivial(sd_bus *b, const char *dest, const char *path, const char *iface, const char *member, sd_bus_error *e, char type, void *p) {
	::dest(type, p);
	int r = sd_bus_get_property_trivial(b, dest, path, iface, member, e, type, p);
	track(e);
	return r;
}
void hx_sd_bus_error_free(sd_bus_error *e) {
	H->errs.erase(e);
	sd_bus_error_free(e);
}
}
