// C16, C17 (and the client half of C18): the real libseat with its seatd backend against a scripted server. The harness is
// the server and acts whenever libseat waits; well-formed servers are judged exactly, hostile ones for containment.
#include "engine.hpp"
#include "sys.hpp"
#include <algorithm>
#include <cerrno>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <sys/mman.h>
#include <sys/un.h>
extern "C" {
#include "libseat.h"
}
#define T16 T(16)
#define T17 T(17)
#define T18 T(18)
enum { OPEN, CLOSE, DISPATCH, OPENDEV, CLOSEDEV, SWITCH, DISABLE, NAME, EVENTS, PLAN, WAKE, DELIVER, KILL, FAULT, IOMODE, GARBAGE, GETFD, NK };
static const char *kn[] = {"open_seat", "close_seat", "dispatch", "open_device", "close_device", "switch_session", "disable_seat", "seat_name", "server-events",
	"server-plan", "check-wakeup", "server-deliver", "server-closes", "fault", "io-mode", "server-garbage", "get_fd"};
enum { CL_OPEN = 1, CL_CLOSE, CL_OPENDEV, CL_CLOSEDEV, CL_DISABLE, CL_SWITCH, CL_PING };
static const int reply_op[] = {0, 0x8001, 0x8002, 0x8003, 0x8004, 0x8009, 0x8008, 0x8007};
// what the server answers the next request with
enum { PL_OK, PL_ERR, PL_WRONGOP, PL_UNKNOWN, PL_SHORT, PL_LONG, PL_BADERR, PL_NOFD, PL_CUT, PL_RESET, PL_SILENT, PL_BADNAME, PL_HUGE, PL_EVREPLY, PL_NEGID, PL_ERR0, NPL };
static const char *pn[] = {"ok", "error", "wrong-reply", "unknown-opcode", "short-body", "long-body", "bad-error", "no-fd", "cut-off", "reset", "silence", "bad-name", "huge", "request-opcode", "negative-id", "no-error"};

static uint64_t inode(int fd) {
	struct stat st;
	return ::fstat(fd, &st) == 0 ? (uint64_t)st.st_ino : 0;
}
static std::string m16(int a) { return std::string((const char *)&a, 2); }
static std::string m32(int a) { return std::string((const char *)&a, 4); }
static std::string msg(int op, const std::string &b, int size = -1) { return m16(op) + m16(size < 0 ? (int)b.size() : size) + b; }

struct LibH;
static LibH *L;
static void on_enable(struct libseat *s, void *d);
static void on_disable(struct libseat *s, void *d);
static const struct libseat_seat_listener listener = {on_enable, on_disable};
static char cookie;

struct LibH : Harness, Sys {
	const Case *cs;
	size_t opi;
	Rng io{1};
	// descriptors and memory owned by the library
	std::set<int> own;
	std::map<void *, size_t> blocks;
	// server
	int srv = -1, cli = -1;
	std::string outb;          // produced, from offset `sentb`
	size_t sentb, recvb;       // given to the socket, read by the library
	std::deque<std::pair<size_t, int>> outfd; // descriptor to go with the byte at this offset
	struct Ev { int k; size_t end; };
	std::vector<Ev> ev;
	size_t dlv;
	std::string inb;
	int plan, planv;
	bool stale, garbage, honest, lenient, dead, closed, kill_after, lost;
	struct Ans { bool have = false, ok = false, poison = false; int val = 0, err = 0; uint64_t ino = 0; size_t end = 0; } ans;
	std::string expect_req; // bytes the current request must consist of
	int reqk;
	std::string name;
	// library
	struct libseat *seat;
	std::vector<int> devs;
	std::vector<const char *> stack; // running API calls
	int cb_budget, waits;
	int timeout_now;
	bool reentered;
	bool waited;  // the running dispatch has been waiting
	size_t bad_at; // offset in outb behind the header of a message no one waits for
	// faults
	int f_kind, f_n;
	int p_short, p_eintr, frag;
	// reset_hit: the current call was told that the connection has been reset; reset_dead: it failed for that reason,
	// although the server's end still works
	bool fired, reset_hit = false, reset_dead = false;
	int eintrs;
	std::map<std::string, std::string> env;

	// ---------------- libc
	bool fault(int k) {
		if (f_kind != k || --f_n > 0)
			return false;
		f_kind = 0;
		fired = lenient = true;
		eng::count("faults fired");
		eng::trace("   [fault %d]", k);
		return true;
	}
	void *malloc(size_t n) override {
		if (fault(1)) {
			errno = ENOMEM;
			return NULL;
		}
		void *p = ::malloc(n);
		blocks[p] = n;
		return p;
	}
	void *calloc(size_t a, size_t b) override {
		void *p = malloc(a * b);
		if (p)
			memset(p, 0, a * b);
		return p;
	}
	void *realloc(void *o, size_t n) override {
		void *p = malloc(n);
		if (p && o) {
			memcpy(p, o, std::min(n, blocks[o]));
			free(o);
		}
		return p;
	}
	void free(void *p) override {
		if (p && !blocks.erase(p))
			eng::inv(T17, "bad-free", "the library frees memory that is not allocated");
		::free(p);
	}
	char *getenv(const char *n) override {
		auto it = env.find(n);
		return it == env.end() ? NULL : (char *)it->second.c_str();
	}
	int socket(int, int t, int) override {
		if (fault(2)) {
			errno = EMFILE;
			return -1;
		}
		int sv[2];
		if (::socketpair(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0, sv) != 0)
			return -1;
		if (!(t & SOCK_CLOEXEC))
			::fcntl(sv[0], F_SETFD, 0);
		if (t & SOCK_NONBLOCK)
			::fcntl(sv[0], F_SETFL, O_NONBLOCK);
		if (srv >= 0)
			::close(srv);
		srv = sv[1];
		cli = sv[0];
		own.insert(cli);
		return cli;
	}
	int socketpair(int, int, int, int[2]) override {
		errno = EMFILE;
		return -1;
	}
	int connect(int fd, const struct sockaddr *a, socklen_t l) override {
		const struct sockaddr_un *u = (const struct sockaddr_un *)a;
		std::string want = env.count("SEATD_SOCK") ? env["SEATD_SOCK"] : "seatd.sock";
		std::string p(u->sun_path, strnlen(u->sun_path, l > 2 ? std::min<size_t>(l - 2, sizeof u->sun_path) : 0));
		if (fd != cli || u->sun_family != AF_UNIX || (p != want && want.size() < sizeof u->sun_path))
			eng::inv(T17 | T18, "connect-path", "the library connects to '%s' instead of '%s'", p.c_str(), want.c_str());
		if (fault(3)) {
			errno = cs->cfg[5] & 1 ? ENOENT : ECONNREFUSED;
			return -1;
		}
		if (want.size() >= sizeof u->sun_path) {
			lenient = true;
			fired = true;
			errno = ENOENT;
			return -1;
		}
		return 0;
	}
	int close(int fd) override {
		if (!own.erase(fd)) {
			eng::inv(T17, "bad-close", "close(%d): the library does not own that descriptor (closed twice?)", fd);
			errno = EBADF;
			return -1;
		}
		if (fd == cli)
			cli = -1;
		return ::close(fd);
	}
	int fcntl(int fd, int c, long a) override {
		int r = ::fcntl(fd, c, a);
		if ((c == F_DUPFD || c == F_DUPFD_CLOEXEC) && r >= 0)
			own.insert(r);
		return r;
	}
	int dup(int fd) override {
		int r = ::dup(fd);
		if (r >= 0)
			own.insert(r);
		return r;
	}
	bool eintr() {
		if (eintrs < 40 && (int)io.below(100) < p_eintr) {
			eintrs++;
			errno = EINTR;
			return true;
		}
		return false;
	}
	ssize_t sendmsg(int fd, const struct msghdr *m, int fl) override {
		if (eintr())
			return -1;
		if (fault(4)) {
			static const int e[] = {EAGAIN, ENOMEM, ENOBUFS, ECONNRESET};
			errno = e[cs->cfg[6] % 4];
			reset_hit |= errno == ECONNRESET;
			return -1;
		}
		if (fd == -1) {
			errno = EBADF;
			return -1;
		}
		if (!own.count(fd))
			eng::inv(T17, "bad-send", "sendmsg on descriptor %d, which the library does not own", fd);
		std::string d;
		for (size_t i = 0; i < m->msg_iovlen; i++)
			d.append((char *)m->msg_iov[i].iov_base, m->msg_iov[i].iov_len);
		size_t n = d.size();
		if ((int)io.below(100) < p_short && n > 1)
			n = 1 + io.below(n - 1);
		struct iovec v = {(void *)d.data(), n};
		struct msghdr mm = *m;
		mm.msg_iov = &v;
		mm.msg_iovlen = 1;
		ssize_t r = ::sendmsg(fd, &mm, fl);
		if (r < 0)
			fired = true;
		return r;
	}
	ssize_t recvmsg(int fd, struct msghdr *m, int fl) override {
		if (eintr())
			return -1;
		if (fault(5)) {
			errno = cs->cfg[6] & 1 ? ENOMEM : ECONNRESET;
			reset_hit |= errno == ECONNRESET;
			return -1;
		}
		if (fd == -1) {
			errno = EBADF;
			return -1;
		}
		if (!own.count(fd))
			eng::inv(T17, "bad-recv", "recvmsg on descriptor %d, which the library does not own", fd);
		size_t room = 0;
		for (size_t i = 0; i < m->msg_iovlen; i++)
			room += m->msg_iov[i].iov_len;
		size_t n = room;
		if ((int)io.below(100) < p_short && n > 1)
			n = 1 + io.below(std::min<size_t>(n, 16));
		std::string buf(n, 0);
		struct iovec v = {&buf[0], n};
		struct msghdr mm = *m;
		mm.msg_iov = &v;
		mm.msg_iovlen = 1;
		ssize_t r = ::recvmsg(fd, &mm, fl);
		if (r < 0) {
			if (errno == EAGAIN && !(fl & MSG_DONTWAIT) && !(::fcntl(fd, F_GETFL) & O_NONBLOCK))
				eng::inv(T17, "blocking-read", "the library reads without the descriptor being ready");
			return r;
		}
		size_t o = 0;
		for (size_t i = 0; i < m->msg_iovlen && o < (size_t)r; i++) {
			size_t k = std::min<size_t>(m->msg_iov[i].iov_len, r - o);
			memcpy(m->msg_iov[i].iov_base, buf.data() + o, k);
			o += k;
		}
		m->msg_flags = mm.msg_flags;
		m->msg_controllen = mm.msg_controllen;
		if (mm.msg_controllen)
			for (cmsghdr *c = CMSG_FIRSTHDR(&mm); c; c = CMSG_NXTHDR(&mm, c))
				if (c->cmsg_level == SOL_SOCKET && c->cmsg_type == SCM_RIGHTS)
					for (size_t i = 0; i < (c->cmsg_len - CMSG_LEN(0)) / sizeof(int); i++) {
						int f;
						memcpy(&f, CMSG_DATA(c) + i * sizeof f, sizeof f);
						own.insert(f);
					}
		recvb += r;
		return r;
	}
	ssize_t read(int fd, void *b, size_t n) override {
		struct iovec v = {b, n};
		struct msghdr m = {};
		m.msg_iov = &v;
		m.msg_iovlen = 1;
		return recvmsg(fd, &m, 0);
	}
	ssize_t write(int fd, const void *b, size_t n) override {
		struct iovec v = {(void *)b, n};
		struct msghdr m = {};
		m.msg_iov = &v;
		m.msg_iovlen = 1;
		return sendmsg(fd, &m, 0);
	}
	int poll(struct pollfd *f, nfds_t n, int timeout) override {
		if (stack.empty())
			return ::poll(f, n, 0);
		if (timeout && stack.size() == 1)
			waited = true;
		if (++waits > 20000)
			eng::inv(T17, "spin", "%s polls %d times without ending", stack.back(), waits);
		if (eintr()) {
			eng::count("interrupted waits");
			return -1;
		}
		if (fault(6)) {
			errno = ENOMEM;
			return -1;
		}
		for (int i = 0; i < 3; i++) {
			int r = ::poll(f, n, 0);
			if (r)
				return r;
			if (i == 0)
				server_turn();
			else if (i == 1)
				deliver(false);
		}
		bool disp = !strcmp(stack.back(), "dispatch");
		if (disp && timeout_now >= 0 && (timeout < 0 || timeout > timeout_now))
			eng::inv(T16 | T17, "timeout", "dispatch with timeout %d waits with timeout %d", timeout_now, timeout);
		if (disp && timeout && dlv > disp0 && !lenient)
			eng::inv(T16, "wait-after", "dispatch delivers %zu events and then waits for more", dlv - disp0);
		if (timeout >= 0)
			return 0;
		if (closed || srv < 0)
			eng::inv(T17, "wait-gone", "%s waits for a server that is gone", stack.back());
		if (disp && io.below(3)) {
			push_event(1 + io.below(2));
			deliver(true);
			return ::poll(f, n, 0);
		}
		if (disp && io.below(2)) {
			errno = EINTR;
			return -1;
		}
		if (!disp && honest && ans.have && !lenient)
			eng::inv(T16 | T17 | T18, "wait-answered", "%s waits although the reply has been delivered completely", stack.back());
		if (!disp && !ans.have && !lenient && plan != PL_SILENT)
			eng::inv(T16 | T17 | T18, "wait-unsent", "%s waits for a reply without having sent its request (%zu of %zu bytes sent)", stack.back(), inb.size(), expect_req.size());
		eng::trace("   [server gives up and closes]");
		do_close();
		return ::poll(f, n, 0);
	}
	int output(const char *, size_t n, bool) override { return (int)n; }

	// ---------------- server
	void do_close() {
		if (srv < 0 || closed)
			return;
		char b[4096];
		while (::recv(srv, b, sizeof b, MSG_DONTWAIT) > 0) {
		}
		if (io.below(4) == 0) { // only its own side: no hang-up is reported, just the end of the stream
			::shutdown(srv, SHUT_WR);
			eng::count("half-closed connections");
		} else {
			::close(srv);
			srv = -1;
		}
		closed = true;
		honest = false;
		for (auto &p : outfd)
			::close(p.second);
		outfd.clear();
	}
	void push_event(int k) {
		outb += msg(k == 1 ? 0x8006 : 0x8005, "");
		ev.push_back({k, outb.size()});
	}
	void push_fd(uint64_t *ino) {
		int f = memfd_create("dev", MFD_CLOEXEC);
		*ino = inode(f);
		outfd.push_back({outb.size(), f});
	}
	// gives bytes to the socket
	void deliver(bool all) {
		if (srv < 0 || closed)
			return;
		while (sentb < outb.size()) {
			size_t n = outb.size() - sentb;
			if (!all && frag)
				n = frag == 1 ? 1 : frag == 2 ? 1 + io.below(n) : 1 + io.below(std::min<size_t>(n, 7));
			n = std::min<size_t>(n, 2000);
			std::vector<int> fs;
			while (!outfd.empty() && outfd.front().first < sentb + n && fs.size() < 100) {
				fs.push_back(outfd.front().second);
				outfd.pop_front();
			}
			char cb[CMSG_SPACE(100 * sizeof(int))] = {};
			struct iovec v = {&outb[sentb], n};
			struct msghdr m = {};
			m.msg_iov = &v;
			m.msg_iovlen = 1;
			if (!fs.empty()) {
				m.msg_control = cb;
				m.msg_controllen = CMSG_SPACE(fs.size() * sizeof(int));
				cmsghdr *c = CMSG_FIRSTHDR(&m);
				c->cmsg_level = SOL_SOCKET;
				c->cmsg_type = SCM_RIGHTS;
				c->cmsg_len = CMSG_LEN(fs.size() * sizeof(int));
				memcpy(CMSG_DATA(c), fs.data(), fs.size() * sizeof(int));
			}
			ssize_t r = ::sendmsg(srv, &m, MSG_DONTWAIT | MSG_NOSIGNAL);
			for (int f : fs)
				::close(f);
			if (r <= 0)
				break;
			sentb += r;
			if (!all && frag)
				break;
		}
		if (sentb == outb.size() && kill_after) {
			kill_after = false;
			do_close();
		}
	}
	void server_turn() {
		if (srv < 0 || closed)
			return;
		char b[2048];
		ssize_t r;
		while ((r = ::recv(srv, b, sizeof b, MSG_DONTWAIT)) > 0)
			inb.append(b, r);
		while (inb.size() >= 4) {
			uint16_t op, sz;
			memcpy(&op, inb.data(), 2);
			memcpy(&sz, inb.data() + 2, 2);
			if (inb.size() < 4u + sz)
				break;
			std::string m = inb.substr(0, 4 + sz);
			inb.erase(0, 4 + sz);
			if (op == CL_PING && sz == 0) {
				outb += msg(0x8007, "");
				eng::count("pings answered");
				continue;
			}
			if (m != expect_req && stale) // of an earlier request that failed
				continue;
			if (m != expect_req && !garbage) {
				eng::inv(T16 | T17 | T18, "request", "the library sends request %u with %u bytes of body, expected %s", op, sz,
					expect_req.empty() ? "none" : "another one");
				continue;
			}
			expect_req.clear();
			answer();
		}
		deliver(false);
	}
	void answer() {
		int p = plan, v = planv;
		plan = PL_OK;
		ans = Ans();
		ans.have = true;
		for (int i = v & 3; i > 0; i--)
			push_event(1 + io.below(2));
		int rop = reply_op[reqk];
		std::string body;
		std::string nm = name;
		if (reqk == CL_OPEN)
			body = m16((int)nm.size()) + nm;
		if (reqk == CL_OPENDEV)
			body = m32(ans.val = 1 + (v >> 2) % 900);
		if (p == PL_NOFD && reqk != CL_OPENDEV)
			p = PL_WRONGOP;
		if (p == PL_NEGID && reqk != CL_OPENDEV)
			p = PL_ERR0;
		if (p == PL_BADNAME && reqk != CL_OPEN)
			p = PL_SHORT;
		if (p == PL_SHORT && body.empty())
			p = PL_LONG;
		eng::trace("   [server answers with %s, %d events before]", pn[p], v & 3);
		eng::sig(p * 16 + reqk);
		ans.poison = p != PL_OK && p != PL_ERR;
		if (ans.poison) {
			honest = false;
			eng::count("malformed replies or losses");
		}
		switch (p) {
		case PL_OK:
		case PL_CUT:
		case PL_RESET: {
			ans.ok = true;
			size_t start = outb.size();
			if (reqk == CL_OPENDEV)
				push_fd(&ans.ino);
			outb += msg(rop, body);
			if (p == PL_CUT) {
				size_t len = outb.size() - start, keep = (v >> 4) % len;
				outb.resize(start + keep);
				while (!outfd.empty() && outfd.back().first >= outb.size()) {
					::close(outfd.back().second);
					outfd.pop_back();
				}
				kill_after = true;
			} else if (p == PL_RESET) {
				outb.resize(start);
				while (!outfd.empty() && outfd.back().first >= outb.size()) {
					::close(outfd.back().second);
					outfd.pop_back();
				}
				kill_after = true;
			}
			break;
		}
		case PL_ERR: {
			static const int e[] = {EPERM, EINVAL, EBUSY, EBADF, EMFILE, ENOENT, ENODEV, EACCES, EIO, ENOMEM, EAGAIN, EINTR};
			ans.err = e[(v >> 2) % 12];
			outb += msg(0xffff, m32(ans.err));
			break;
		}
		case PL_WRONGOP: {
			int o = reqk;
			while (o == reqk || o == 7)
				o = 1 + io.below(6);
			uint64_t x;
			if (o == CL_OPENDEV)
				push_fd(&x);
			outb += msg(reply_op[o], o == CL_OPENDEV ? m32(1) : o == CL_OPEN ? m16(0) : "");
			break;
		}
		case PL_UNKNOWN:
			outb += msg(io.below(2) ? 0x800a + io.below(100) : 0x0008 + io.below(1000), std::string(io.below(20), 'u'));
			break;
		case PL_SHORT:
			outb += msg(rop, body.substr(0, io.below(std::min<size_t>(body.size(), reqk == CL_OPEN ? 2 : 4))));
			break;
		case PL_LONG:
			if (reqk == CL_OPENDEV)
				push_fd(&ans.ino);
			outb += msg(rop, body + std::string(1 + io.below(12), 'l'));
			break;
		case PL_BADERR:
			outb += msg(0xffff, std::string(io.below(2) ? io.below(4) : 5 + io.below(8), 1));
			break;
		case PL_NOFD:
			outb += msg(rop, body);
			break;
		case PL_SILENT:
			break;
		case PL_BADNAME:
			switch (io.below(4)) {
			case 0: body = m16(65 + io.below(io.below(3) ? 2 : 60)), body += std::string(*(uint8_t *)body.data() - 1, 'x') + '\0'; break;
			case 1: body = m16(4 + io.below(10)) + std::string("abc\0", 4) + (io.below(2) ? "q" : ""); break; // length lies
			case 2: body = m16(6) + std::string("ab\0cd\0", 6); break; // embedded NUL
			default: body = m16(64) + std::string(64, 'y'); break; // not terminated
			}
			{
				uint16_t l;
				memcpy(&l, body.data(), 2);
				if (l == body.size() - 2 && l <= 64 && (l < 64 || body.back() == 0) && memchr(body.data() + 2, 0, l - 1) == NULL)
					body = m16(9) + "x";
			}
			outb += msg(rop, body);
			break;
		case PL_HUGE:
			outb += msg(io.below(2) ? rop : 0xffff, std::string(io.below(1200), 'h'), 60000);
			break;
		case PL_NEGID:
			push_fd(&ans.ino);
			outb += msg(rop, m32(-1 - (int)io.below(1000)));
			break;
		case PL_ERR0:
			outb += msg(0xffff, m32(-(int)io.below(200)));
			break;
		case PL_EVREPLY:
			outb += msg(1 + io.below(6), std::string(io.below(10), 'e'));
			break;
		}
		ans.end = outb.size();
		for (int i = (v >> 12) & 3; i > 0 && !ans.poison; i--)
			push_event(1 + io.below(2));
		if ((v >> 14) == 3 && io.below(4) == 0 && !ans.poison)
			for (int i = 0; i < 180; i++)
				push_event(1 + i % 2);
	}

	// ---------------- listener
	void event(int k, struct libseat *s, void *d) {
		const char *in = stack.empty() ? "nothing" : stack.back();
		eng::trace("%*sevent %s in %s", (int)stack.size() * 2, "", k == 1 ? "enable" : "disable", in);
		if (d != &cookie)
			eng::inv(T16, "userdata", "the listener is called with other user data");
		if (seat && s != seat)
			eng::inv(T16, "event-seat", "the listener is called for another seat");
		if (strcmp(in, "dispatch") && strcmp(in, "open_seat") && strcmp(in, "close_seat"))
			eng::inv(T16, "event-where", "an event is delivered from within %s", in);
		if (!garbage) {
			while (dead && dlv < ev.size() && ev[dlv].k != k) // what is queued is dropped with the connection
				dlv++;
			if (dlv >= ev.size() || ev[dlv].end > recvb)
				eng::inv(T16, "event-extra", "event %zu (%s) is delivered, but only %zu have been received", dlv, k == 1 ? "enable" : "disable", ev.size());
			else if (ev[dlv].k != k)
				eng::inv(T16, "event-order", "event %zu is delivered as %s, but the server sent %s", dlv, k == 1 ? "enable" : "disable", k == 1 ? "disable" : "enable");
			dlv++;
		}
		eng::count("events delivered");
		if (strcmp(in, "close_seat") == 0)
			return;
		if (!seat) // the seat is not known to the application yet
			seat_in_open = s;
		for (int i = 0; i < 2 && cb_budget > 0 && opi < cs->ops.size() && stack.size() < 6 && seat; i++, cb_budget--) {
			int kk = cs->ops[opi].k % NK;
			if (kk < OPENDEV || kk == KILL || kk == WAKE)
				break;
			eng::count("calls from inside listeners");
			reentered = true;
			exec(cs->ops[opi++]);
		}
	}
	struct libseat *seat_in_open = nullptr;

	// ---------------- application
	size_t unread_events() { // read by the library but not delivered
		size_t n = 0;
		for (size_t i = dlv; i < ev.size() && ev[i].end <= recvb; i++)
			n++;
		return n;
	}
	void enter(const char *what) {
		stack.push_back(what);
		if (stack.size() == 1)
			waits = eintrs = 0, reset_hit = false;
		errno = 0;
	}
	void leave() { stack.pop_back(); }
	bool gone() { return closed || srv < 0; }
	void failed_call(const char *what, int e) {
		if (e == 0)
			eng::inv(T17, "no-errno", "%s fails without setting errno", what);
	}
	// judges the outcome of a request
	void judge(const char *what, bool ok, int val, int e, bool was_dead, bool local_inval) {
		eng::trace("   -> %s %s %d errno %d", what, ok ? "ok" : "fails", val, e);
		if (!ok)
			failed_call(what, e);
		if (local_inval && !was_dead) {
			if (lenient)
				dead = dead || (!ok && e != EINVAL);
			else if (ok || e != EINVAL)
				eng::inv(T18 | T17, "inval", "%s with an invalid argument %s (errno %d)", what, ok ? "succeeds" : "fails", e);
			if (!expect_req.empty())
				expect_req.clear();
			eng::count("invalid arguments");
			return;
		}
		if (was_dead) {
			if (ok)
				eng::inv(T17, "dead-ok", "%s succeeds after the connection was lost", what);
			eng::count("requests after loss");
			return;
		}
		if (lenient) { // it may be the server's own answer; the next dispatch tells
			if (!ok && reset_hit)
				dead = reset_dead = true, eng::count("connections reset");
			return;
		}
		if (!ans.have || ans.poison || (gone() && recvb < ans.end)) {
			// no proper reply
			if (ok)
				eng::inv(T17, "bad-ok", "%s succeeds although %s", what, ans.have ? "the reply was malformed" : "there was no reply");
			dead = true;
			eng::nontrivial();
			return;
		}
		if (gone()) { // the reply arrived together with the loss: either outcome
			if (!ok && (ans.ok || e != ans.err))
				dead = true;
			return;
		}
		if (ans.ok != ok)
			eng::inv(T18 | T16 | T17, "outcome", "%s %s (errno %d) although the server replied with %s %d", what, ok ? "succeeds" : "fails", e, ans.ok ? "success" : "error", ans.err);
		else if (!ok && e != ans.err)
			eng::inv(T18, "errno", "%s fails with errno %d, but the server said %d", what, e, ans.err);
		else if (ok && ans.val && ans.val != val)
			eng::inv(T18 | T16, "value", "%s returns %d, but the server said %d", what, val, ans.val);
		if (ok)
			eng::count("requests answered");
		else
			eng::count("requests refused");
	}
	void after() {
		if (eng::prop() == 16 && unread_events() && seat && !dead && !lenient)
			eng::nontrivial(), eng::count("events read while waiting for a reply");
	}
	// whoever has events waiting is woken up
	void check_wake() {
		if (!seat || dead || lenient || gone() || !stack.empty())
			return;
		for (int i = 0; i < 5; i++) {
			server_turn();
			deliver(true);
		}
		size_t u = unread_events();
		errno = 0;
		int fd = libseat_get_fd(seat);
		if (fd < 0 || fd != cli) {
			eng::inv(T16 | T17, "get-fd", "libseat_get_fd returns %d (errno %d)", fd, errno);
			return;
		}
		struct pollfd p = {fd, POLLIN, 0};
		int r = ::poll(&p, 1, 0);
		bool waiting = dlv < ev.size();
		if (waiting)
			eng::count("wake-up checks with events waiting"), eng::sig(u + 3);
		if (waiting && r != 1)
			eng::inv(T16, "stranded", "%zu events have been sent, %zu of them read by the library and not delivered, but the descriptor is not readable", ev.size() - dlv, u);
		if (waiting) {
			size_t d0 = dlv;
			do_dispatch(io.below(2) ? 0 : -1);
			if (u && dlv < d0 + u && !reentered && !dead && !lenient)
				eng::inv(T16, "not-delivered", "%zu events were waiting, but the next dispatch delivers %zu", u, dlv - d0);
			if (dlv == d0 && !dead && !lenient && p_short == 0 && p_eintr == 0)
				eng::inv(T16, "not-delivered", "an event was waiting, but the next dispatch does not deliver it");
		}
	}
	void do_dispatch(int timeout) {
		size_t d0 = dlv, r0 = recvb, s0 = sentb;
		bool was_dead = dead, had = sentb > recvb || unread_events();
		size_t u = unread_events();
		disp0 = d0;
		enter("dispatch");
		timeout_now = timeout;
		reentered = waited = false;
		int r = libseat_dispatch(seat, timeout);
		int e = errno;
		leave();
		eng::trace("   -> dispatch(%d) = %d errno %d, %zu events", timeout, r, e, dlv - d0);
		eng::sig(r < 0 ? 900 : 901 + (r > 0));
		if (r < 0)
			failed_call("dispatch", e);
		if (was_dead) {
			if (r >= 0)
				eng::inv(T17, "dead-dispatch", "dispatch returns %d after the connection was lost", r);
			return;
		}
		if (dead) // by a request from a listener
			return;
		if (lenient) {
			if (bad_at && !fired && !reentered && r0 < bad_at) {
				if (recvb >= bad_at && r >= 0)
					eng::inv(T17, "unexpected-ok", "dispatch(%d) returns %d although the server has sent a message that is no event", timeout, r);
				if (recvb >= bad_at)
					eng::count("unexpected messages");
			}
			if (r < 0 && reset_hit)
				reset_dead = true, eng::count("connections reset");
			if (r < 0 && ((gone() && e != ENOMEM) || reset_hit))
				dead = true;
			if (r >= 0 && gone() && recvb == r0 && dlv == d0 && !fired && u == 0) {
				if (++lostn > 8)
					eng::inv(T17, "loss-unreported", "dispatch(%d) keeps returning %d although the connection is lost", timeout, r);
			}
			return;
		}
		if (gone()) {
			if (r < 0) {
				dead = true;
				eng::nontrivial();
			} else if (recvb == r0 && dlv == d0 && u == 0 && p_eintr == 0)
				eng::inv(T17, "loss-unreported", "dispatch(%d) returns %d although the connection is lost and nothing was left to read", timeout, r);
			return;
		}
		if (r < 0)
			eng::inv(T16 | T17, "dispatch-fail", "dispatch fails (errno %d) although the connection is fine", e);
		if (dlv > d0 && r <= 0)
			eng::inv(T16, "dispatch-ret", "dispatch delivers %zu events but returns %d", dlv - d0, r);
		if (r > 0 && dlv == d0 && !had && sentb == s0)
			eng::inv(T16, "dispatch-ret", "dispatch returns %d although nothing was there", r);
		if (r == 0 && timeout && !waited && recvb == r0)
			eng::inv(T16, "no-wait", "dispatch(%d) returns 0 without having waited for anything", timeout);
		if (r == 0 && timeout && waited)
			eng::count("waits that end without an event");
		if (u && dlv < d0 + u && !reentered)
			eng::inv(T16, "not-delivered", "%zu events were waiting, but dispatch delivers %zu", u, dlv - d0);
	}
	int lostn;
	size_t disp0 = 0;
	void request(const char *what, int k, const std::string &body, bool inval, const std::function<int()> &f, int *fdout) {
		bool was_dead = dead;
		reqk = k;
		expect_req = inval || (dead && !reset_dead) ? "" : msg(k, body);
		ans = Ans();
		if (fdout)
			*fdout = -77;
		enter(what);
		int r = f();
		int e = errno;
		leave();
		if (r < -1 || (r > 0 && k != CL_OPENDEV))
			eng::inv(T17 | T18, "ret", "%s returns %d", what, r);
		bool ok = r >= 0;
		if (ans.have && ans.ok && ans.val && r == ans.val)
			ok = true;
		if (fdout && ok) {
			int fd = *fdout;
			if (fd < 0 || !own.count(fd))
				eng::inv(T18 | T17, "dev-fd", "%s succeeds with descriptor %d", what, fd);
			if (fd >= 0 && !(::fcntl(fd, F_GETFD) & FD_CLOEXEC))
				eng::inv(T18, "dev-inherited", "%s gives a descriptor that programs started later inherit", what);
			if (!lenient && ans.ino && inode(fd) != ans.ino)
				eng::inv(T18 | T16, "dev-which", "%s returns the descriptor of another device", what);
			if (fd >= 0) {
				own.erase(fd); // now the application's
				::close(fd);
			}
		}
		judge(what, ok, r, e, was_dead, inval);
		if (!ok && !expect_req.empty())
			stale = true;
		expect_req.clear();
		after();
	}
	void exec(const Op &o) {
		int k = o.k % NK;
		if (k != OPEN && k != PLAN && k != IOMODE && k != FAULT && !seat)
			return;
		eng::trace("%*s%s a=%u b=%u c=%u (sent %zu read %zu events %zu/%zu%s)", (int)stack.size() * 2, "", kn[k], o.a, o.b, o.c, sentb, recvb, dlv, ev.size(), dead ? " dead" : "");
		switch (k) {
		case OPEN: {
			if (seat || !stack.empty())
				return;
			reset_server();
			size_t nl = o.a % 4 == 0 ? o.b % 64 : 5;
			name.assign("seat0");
			while (name.size() < nl)
				name += (char)('a' + name.size() % 26);
			name.resize(nl);
			std::string want = name;
			if (!(o.a % 8 == 1 && nl < 64)) // old servers do not terminate it
				name += '\0';
			if (nl == 0 && o.a % 8 == 1)
				name = "";
			env.clear();
			if (o.f & 1)
				env["LIBSEAT_BACKEND"] = "seatd";
			if (o.f & 2)
				env["SEATD_SOCK"] = o.c % 9 == 0 ? std::string(100 + o.c % 40, 'p') : "/some/where.sock";
			bool old = fired;
			fired = false;
			ans = Ans();
			reqk = CL_OPEN;
			expect_req = msg(CL_OPEN, "");
			enter("open_seat");
			seat_in_open = nullptr;
			struct libseat *s = libseat_open_seat(&listener, &cookie);
			int e = errno;
			leave();
			expect_req.clear();
			seat = s;
			if (s && seat_in_open && seat_in_open != s)
				eng::inv(T16, "event-seat", "the listener was called for another seat while opening");
			if (!s) {
				failed_call("open_seat", e);
				if (!blocks.empty() || !own.empty())
					eng::inv(T17, "open-leak", "a failed open leaves %zu allocations and %zu descriptors behind", blocks.size(), own.size());
				eng::count("failed opens");
				if (!lenient && !fired && ans.have && !ans.poison && ans.ok && !gone())
					eng::inv(T16 | T17 | T18, "outcome", "opening the seat fails (errno %d) although the server opened it", e);
				dead = true;
				eng::sig(700 + e);
			} else {
				if (!lenient && (!ans.have || !ans.ok || ans.poison))
					eng::inv(T17 | T18, "bad-ok", "opening the seat succeeds although the server did not open it");
				dead = false;
				if (!(::fcntl(cli, F_GETFD) & FD_CLOEXEC))
					eng::inv(T18, "inherited", "programs started later inherit the connection");
				const char *n = libseat_seat_name(seat);
				if (!lenient && want != n)
					eng::inv(T18, "seat-name", "the seat is called '%s' instead of '%s'", n, want.c_str());
				after();
			}
			fired = old && fired;
			break;
		}
		case CLOSE: {
			if (!stack.empty())
				return;
			bool was_dead = dead;
			reqk = CL_CLOSE;
			expect_req = dead && !reset_dead ? "" : msg(CL_CLOSE, "");
			ans = Ans();
			enter("close_seat");
			int r = libseat_close_seat(seat);
			int e = errno;
			leave();
			if (r != 0 && r != -1)
				eng::inv(T17 | T18, "ret", "close_seat returns %d", r);
			if (!was_dead && !dead && !lenient && !garbage && !closed && srv >= 0) {
				server_turn();
				if (!expect_req.empty())
					eng::inv(T18 | T17, "close-unsent", "close_seat never asks the server to close the seat");
			}
			judge("close_seat", r == 0, 0, e == 0 && r ? 1 : ans.err && r ? ans.err : e, was_dead, false);
			if (r && e == 0)
				failed_call("close_seat", e);
			if (r == 0 && !was_dead && !lenient && !dead && ans.have && dlv < ev.size() && ev[dlv].end <= ans.end)
				eng::inv(T16, "not-delivered", "event %zu, sent before the reply to close_seat, is never delivered", dlv);
			expect_req.clear();
			seat = nullptr;
			if (!blocks.empty() || !own.empty())
				eng::inv(T17, "close-leak", "closing the seat leaves %zu allocations and %zu descriptors behind", blocks.size(), own.size());
			if (srv >= 0)
				::close(srv);
			srv = -1;
			break;
		}
		case DISPATCH: {
			if (!stack.empty())
				return;
			static const int t[] = {0, -1, 10, 0, -1, 1000};
			if (o.c & 1)
				deliver((o.c & 2) != 0);
			do_dispatch(t[o.a % 6]);
			after();
			break;
		}
		case OPENDEV: {
			size_t l = o.a % 5 == 0 ? 250 + o.b % 12 : o.a % 5 == 1 ? o.b % 260 : 5 + o.b % 20;
			std::string p = "/dev/";
			while (p.size() < l)
				p += (char)('a' + (p.size() * 7 + o.c) % 26);
			p.resize(l);
			int fd = -77;
			request("open_device", CL_OPENDEV, m16((int)p.size() + 1) + p + '\0', p.size() > 255, [&] { return libseat_open_device(seat, p.c_str(), &fd); }, &fd);
			break;
		}
		case CLOSEDEV: {
			int id = o.a % 6 == 0 ? -1 - o.b : o.a % 6 == 1 ? INT32_MAX - o.b % 3 : o.b;
			request("close_device", CL_CLOSEDEV, m32(id), id < 0, [&] { return libseat_close_device(seat, id); }, nullptr);
			break;
		}
		case SWITCH: {
			int id = o.a % 6 == 0 ? -1 - o.b : o.a % 6 == 1 ? INT32_MAX - o.b % 3 : o.b;
			request("switch_session", CL_SWITCH, m32(id), id < 0, [&] { return libseat_switch_session(seat, id); }, nullptr);
			break;
		}
		case DISABLE:
			request("disable_seat", CL_DISABLE, "", false, [&] { return libseat_disable_seat(seat); }, nullptr);
			break;
		case NAME:
			if (!libseat_seat_name(seat))
				eng::inv(T18, "seat-name", "there is no seat name");
			break;
		case GETFD: {
			errno = 0;
			int fd = libseat_get_fd(seat);
			if (dead && (fd != -1 || errno == 0))
				eng::inv(T17, "get-fd", "libseat_get_fd returns %d with errno %d after the connection was lost", fd, errno);
			if (!dead && !lenient && fd != cli)
				eng::inv(T16 | T17, "get-fd", "libseat_get_fd returns %d instead of the connection's descriptor", fd);
			break;
		}
		case EVENTS:
			if (!gone())
				for (int i = o.a % 12 == 0 ? o.b % 200 : 1 + o.b % 4; i > 0; i--)
					push_event(1 + (o.c & 1 ? i & 1 : io.below(2)));
			break;
		case PLAN:
			plan = o.a % 3 == 0 ? PL_ERR : o.a % 3 == 1 ? PL_OK : o.f & 1 ? o.b % NPL : PL_OK;
			planv = o.c;
			break;
		case WAKE: check_wake(); break;
		case DELIVER: deliver(o.a & 1); break;
		case KILL:
			if (o.a % 3 == 0)
				deliver(true);
			if (o.a & 8)
				server_turn();
			do_close();
			eng::count("server closes");
			break;
		case FAULT:
			f_kind = 1 + o.a % 6;
			f_n = 1 + o.b % 4;
			break;
		case IOMODE:
			p_short = (o.a & 3) * 25;
			p_eintr = (o.a >> 2 & 3) * 15;
			frag = o.b & 3;
			break;
		case GARBAGE: {
			// anything at all, at any time
			bool sync = !lenient && !garbage && !stale && !dead && !kill_after && !gone() && stack.empty();
			lenient = garbage = true;
			honest = false;
			Rng g(o.d);
			for (int i = 1 + o.a % 4; i > 0; i--, sync = false) {
				int n = g.below(6);
				std::string s;
				if (n == 0)
					for (int j = g.below(40); j >= 0; j--)
						s += (char)g.next();
				else if (n == 1)
					s = msg(0x8001 + g.below(10), std::string(g.below(30), (char)g.next()));
				else if (n == 2)
					s = msg(0x8001 + g.below(10), std::string(g.below(8), 0), g.below(70));
				else if (n == 3)
					s = msg(0xffff, m32((int)g.next()));
				else if (n == 4)
					s = msg(0x8003, m32((int)g.next()));
				else
					s = msg(g.below(2) ? 0x8006 : 0x8005, std::string(g.below(6), 2));
				int nf = g.below(4) ? g.below(3) : g.below(90);
				uint64_t x;
				for (int j = 0; j < nf && !gone(); j++)
					push_fd(&x);
				if (sync && n >= 1 && n <= 4 && ((uint8_t)s[1] != 0x80 || (uint8_t)s[0] < 5 || (uint8_t)s[0] > 7))
					bad_at = outb.size() + 4;
				outb += s;
			}
			if (gone())
				while (!outfd.empty()) {
					::close(outfd.back().second);
					outfd.pop_back();
				}
			deliver(o.b & 1);
			if (o.b % 5 == 0)
				do_close();
			eng::count("garbage from the server");
			eng::nontrivial();
			break;
		}
		}
	}
	void reset_server() {
		if (srv >= 0)
			::close(srv);
		srv = cli = -1;
		for (auto &p : outfd)
			::close(p.second);
		outfd.clear();
		outb.clear();
		inb.clear();
		sentb = recvb = dlv = bad_at = 0;
		ev.clear();
		honest = true;
		reset_dead = stale = garbage = lenient = closed = kill_after = false;
		lostn = 0;
		dead = false;
	}
	void run(const Case &c) override {
		L = this;
		sut_sys = this;
		cs = &c;
		opi = 0;
		io = Rng(c.cfg[0] * 31 + c.cfg[1]);
		own.clear();
		blocks.clear();
		stack.clear();
		outfd.clear();
		srv = cli = -1;
		seat = nullptr;
		reset_server();
		plan = PL_OK;
		planv = 0;
		f_kind = p_short = p_eintr = frag = 0;
		fired = false;
		timeout_now = 0;
		while (opi < c.ops.size()) {
			if (!seat && c.ops[opi].k % NK != OPEN && c.ops[opi].k % NK != PLAN && c.ops[opi].k % NK != IOMODE && c.ops[opi].k % NK != FAULT && c.cfg[3] % 4)
				exec(Op{OPEN, (uint8_t)c.cfg[2], c.cfg[4], (uint16_t)opi, (uint16_t)(c.cfg[0] + opi), 0});
			cb_budget = c.cfg[7] % 4 ? 3 : 0;
			exec(c.ops[opi++]);
		}
		f_kind = 0;
		cb_budget = 0;
		check_wake();
		if (seat)
			exec(Op{CLOSE, 0, 0, 0, 0, 0});
		if (srv >= 0)
			::close(srv);
		srv = -1;
		reset_server();
	}
	size_t max_ops() override { return 100; }
	void gen(Rng &r, Case &c, int prop) override {
		for (auto &b : c.cfg)
			b = r.next();
		int n = 8 + r.below(60);
		bool nice = prop == 16 ? r.chance(80) : r.chance(35);
		for (int i = 0; i < n; i++) {
			Op o{};
			int x = r.below(100);
			o.k = x < 3 ? CLOSE : x < 16 ? DISPATCH : x < 28 ? OPENDEV : x < 36 ? CLOSEDEV : x < 43 ? SWITCH : x < 50 ? DISABLE : x < 51 ? NAME : x < 63 ? EVENTS : x < 75 ? PLAN
				: x < 84 ? WAKE : x < 88 ? DELIVER : x < 90 ? (nice ? WAKE : KILL) : x < 92 ? (nice ? EVENTS : FAULT) : x < 96 ? IOMODE : x < 98 ? (nice ? DISPATCH : GARBAGE) : GETFD;
			o.a = r.next();
			o.b = r.next();
			o.c = r.next();
			o.d = r.next();
			o.f = nice ? r.next() & ~1 : r.next();
			c.ops.push_back(o);
		}
		if (prop == 18 && r.chance(12)) { // a request fails while waiting for its reply, and more requests follow
			Op o{};
			o.k = FAULT;
			o.a = 5;
			o.b = r.below(2);
			c.ops.insert(c.ops.begin() + r.below(c.ops.size()), o);
		}
	}
	std::string rule(int p) override {
		return p == 16 ? "an event was read while a request waited for its reply, or the connection was lost or attacked; distinct by the sequence of replies, results and waiting events"
			       : "a reply was malformed or missing, the connection was lost, or the server sent garbage; distinct by the sequence of replies and results";
	}
	std::string describe(const Case &c) override {
		std::string o;
		char b[120];
		for (auto &p : c.ops) {
			int k = p.k % NK;
			if (k == PLAN)
				snprintf(b, sizeof b, "plan(%s,%u ev) ", p.a % 3 == 0 ? "error" : p.a % 3 == 1 ? "ok" : p.f & 1 ? pn[p.b % NPL] : "ok", p.c & 3);
			else
				snprintf(b, sizeof b, "%s(%u,%u) ", kn[k], p.a, p.b);
			o += b;
		}
		return o;
	}
};
static void on_enable(struct libseat *s, void *d) { L->event(1, s, d); }
static void on_disable(struct libseat *s, void *d) { L->event(2, s, d); }
Harness *make_harness() { return new LibH; }
