// C14: two connection objects (or one and a raw peer) joined by a real socket pair, driven by generated operations with
// partial, interrupted and refused I/O, against a FIFO model that watches the socket calls.
#include "engine.hpp"
#include "sys.hpp"
#include <signal.h>
#include <algorithm>
#include <cerrno>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <dirent.h>
#include <map>
#include <memory>
#include <set>
#include <sys/eventfd.h>
#include <sys/mman.h>
extern "C" {
#include "connection.h"
}
#define TG T(14)
static const size_t CAP = CONNECTION_BUFFER_SIZE, FCAP = CONNECTION_BUFFER_SIZE / sizeof(int);
enum { PUT, PUTFD, FLUSH, READ, GET, GETFD, RESTORE, RAWSEND, RAWRECV, SHUT, FAULTS, CLOSEFDS, NK };
static const char *kn[] = {"put", "put_fd", "flush", "read", "get", "get_fd", "restore", "raw-send", "raw-recv", "shutdown", "faults", "close_fds"};

static uint64_t inode(int fd) {
	struct stat st;
	return fstat(fd, &st) == 0 ? (uint64_t)st.st_ino : 0;
}
template <class C> static auto seed_idx(C &c, uint32_t v, int) -> decltype((void)c.in.head, (void)c.in.tail, (void)c.fds_out.tail) {
	c.in.head = c.in.tail = v;
	c.out.head = c.out.tail = v;
	c.fds_in.head = c.fds_in.tail = v & ~3u;
	c.fds_out.head = c.fds_out.tail = v & ~3u;
}
template <class C> static void seed_idx(C &, uint32_t, long) {}

struct Side { // one end
	std::unique_ptr<connection> c;
	int fd = -1;
	bool raw = false, shut = false, eof = false, broken = false;
	// outgoing
	std::deque<uint8_t> outq;                          // accepted by put, not yet taken by the socket
	std::deque<std::pair<size_t, uint64_t>> outfd;     // (bytes queued before it, inode), not yet sent
	size_t queued = 0, sent = 0;                       // totals
	std::deque<uint64_t> wirefd;                       // sent, not yet received by the other end
	std::deque<uint8_t> wire;
	// incoming
	std::deque<uint8_t> in;
	std::deque<uint64_t> infd;
	std::deque<uint8_t> consumed; // since the last read
	// faults
	int p_short = 0, eintr_s = 0, eintr_r = 0, fail_s = 0, fail_r = 0, fail_after = 0;
	// of the current call
	int calls = 0, ok = 0, err = 0;
	size_t moved = 0;
	bool overflow = false;
};

struct ConnH : Harness, Sys {
	Side s[2];
	std::set<int> lib;          // descriptors owned by the connection code
	std::set<uint64_t> inodes;  // of all descriptors made in this case
	Rng io{1};
	size_t ctr = 0;
	bool live = false;
	int cur = 0;

	Side *of(int fd) { return fd == s[0].fd ? &s[0] : fd == s[1].fd ? &s[1] : nullptr; }
	ssize_t sendmsg(int fd, const struct msghdr *m, int fl) override {
		Side *x = of(fd);
		if (!x) {
			errno = EBADF;
			return -1;
		}
		Side *y = &s[x == &s[0]];
		x->calls++;
		if (x->eintr_s > 0) {
			x->eintr_s--;
			errno = EINTR;
			return -1;
		}
		if (x->fail_s && x->fail_after-- <= 0) {
			errno = x->err = x->fail_s;
			x->fail_s = 0;
			return -1;
		}
		std::string data;
		for (size_t i = 0; i < m->msg_iovlen; i++)
			data.append((char *)m->msg_iov[i].iov_base, m->msg_iov[i].iov_len);
		size_t want = data.size();
		if (want == 0)
			eng::inv(TG, "empty-send", "sendmsg is called with nothing to send");
		if ((int)io.below(100) < x->p_short && want > 1)
			want = 1 + io.below(want - 1);
		struct iovec v = {(void *)data.data(), want};
		struct msghdr mm = *m;
		mm.msg_iov = &v;
		mm.msg_iovlen = 1;
		std::vector<uint64_t> att;
		if (m->msg_control && m->msg_controllen)
			for (cmsghdr *c = CMSG_FIRSTHDR(&mm); c; c = CMSG_NXTHDR(&mm, c)) {
				if (c->cmsg_level != SOL_SOCKET || c->cmsg_type != SCM_RIGHTS)
					continue;
				size_t n = (c->cmsg_len - CMSG_LEN(0)) / sizeof(int);
				for (size_t i = 0; i < n; i++) {
					int f;
					memcpy(&f, CMSG_DATA(c) + i * sizeof f, sizeof f);
					if (!lib.count(f))
						eng::inv(TG, "send-foreign-fd", "descriptor %d is sent, which was not queued or has been closed", f);
					att.push_back(inode(f));
				}
			}
		ssize_t r = ::sendmsg(fd, &mm, fl | MSG_NOSIGNAL);
		if (r < 0) {
			x->err = errno;
			int e = errno;
			if (e == EINVAL || e == EBADF)
				eng::inv(TG, "bad-sendmsg", "sendmsg is called with an invalid message (%s)", strerror(e));
			if (e == EPIPE && !(fl & MSG_NOSIGNAL) && signal(SIGPIPE, SIG_IGN) != SIG_IGN)
				eng::inv(TG, "sigpipe", "a write to a peer that is gone raises SIGPIPE instead of failing");
			errno = e;
			return r;
		}
		x->ok++;
		x->moved += r;
		for (ssize_t i = 0; i < r; i++) {
			if (x->outq.empty() || x->outq.front() != (uint8_t)data[i])
				eng::inv(TG, "out-data", "byte %zu on the wire is %s", x->sent, x->outq.empty() ? "one more than was queued" : "not the one queued next");
			y->wire.push_back(x->outq.front());
			x->outq.pop_front();
			x->sent++;
		}
		for (auto i : att) {
			if (x->outfd.empty() || x->outfd.front().second != i)
				eng::inv(TG, "out-fd", "a descriptor is sent %s", x->outfd.empty() ? "that was not queued or had been sent already" : "out of order");
			x->outfd.pop_front();
			y->wirefd.push_back(i);
		}
		// bytes queued after a descriptor must not overtake it
		if (!x->outfd.empty() && x->sent > x->outfd.front().first)
			eng::inv(TG, "fd-late", "byte %zu was sent, but the descriptor queued before it was not", x->sent);
		if (!att.empty() && (size_t)r < data.size())
			eng::count("partial send with descriptors"), eng::nontrivial();
		if ((size_t)r < data.size())
			eng::count("partial sends");
		return r;
	}
	ssize_t recvmsg(int fd, struct msghdr *m, int fl) override {
		Side *x = of(fd);
		if (!x) {
			errno = EBADF;
			return -1;
		}
		x->calls++;
		if (x->eintr_r > 0) {
			x->eintr_r--;
			errno = EINTR;
			return -1;
		}
		if (x->fail_r) {
			errno = x->err = x->fail_r;
			x->fail_r = 0;
			return -1;
		}
		size_t room = 0;
		for (size_t i = 0; i < m->msg_iovlen; i++)
			room += m->msg_iov[i].iov_len;
		if (room > CAP - x->in.size())
			eng::inv(TG, "read-room", "recvmsg may write %zu bytes, but only %zu are free", room, CAP - x->in.size());
		size_t want = room;
		if ((int)io.below(100) < x->p_short && want > 1)
			want = 1 + io.below(std::min<size_t>(want, io.below(2) ? 8 : want));
		std::string buf(want, 0);
		struct iovec v = {&buf[0], want};
		struct msghdr mm = *m;
		mm.msg_iov = &v;
		mm.msg_iovlen = 1;
		ssize_t r = ::recvmsg(fd, &mm, fl);
		if (r < 0) {
			x->err = errno;
			return r;
		}
		size_t o = 0;
		for (size_t i = 0; i < m->msg_iovlen && o < (size_t)r; i++) {
			size_t n = std::min<size_t>(m->msg_iov[i].iov_len, r - o);
			memcpy(m->msg_iov[i].iov_base, buf.data() + o, n);
			o += n;
		}
		m->msg_flags = mm.msg_flags;
		m->msg_controllen = mm.msg_controllen;
		x->ok++;
		x->moved += r;
		std::vector<int> got;
		if (mm.msg_controllen)
			for (cmsghdr *c = CMSG_FIRSTHDR(&mm); c; c = CMSG_NXTHDR(&mm, c))
				if (c->cmsg_level == SOL_SOCKET && c->cmsg_type == SCM_RIGHTS) {
					size_t n = (c->cmsg_len - CMSG_LEN(0)) / sizeof(int);
					for (size_t i = 0; i < n; i++) {
						int f;
						memcpy(&f, CMSG_DATA(c) + i * sizeof f, sizeof f);
						got.push_back(f);
					}
				}
		for (int f : got)
			lib.insert(f);
		if (!got.empty()) {
			bool of_ = x->infd.size() + got.size() > FCAP;
			if (of_)
				x->overflow = true;
			for (int f : got) {
				uint64_t i = inode(f);
				while (!x->wirefd.empty() && x->wirefd.front() != i && (mm.msg_flags & MSG_CTRUNC))
					x->wirefd.pop_front();
				if (!x->wirefd.empty())
					x->wirefd.pop_front();
				if (!of_)
					x->infd.push_back(i);
			}
			if (mm.msg_flags & MSG_CTRUNC)
				x->broken = true; // a raw peer sent more than fits: the kernel dropped some
		}
		for (ssize_t i = 0; i < r && !x->overflow; i++) {
			x->in.push_back(x->wire.front());
			x->wire.pop_front();
		}
		if (r == 0)
			x->eof = true;
		return r;
	}
	int close(int fd) override {
		if (!live)
			return ::close(fd);
		auto it = lib.find(fd);
		if (it == lib.end()) {
			eng::inv(TG, "bad-close", "close(%d): the connection does not own that descriptor (closed twice?)", fd);
			errno = EBADF;
			return -1;
		}
		lib.erase(it);
		return ::close(fd);
	}
	ssize_t read(int fd, void *b, size_t n) override {
		struct iovec v = {b, n};
		struct msghdr m = {};
		m.msg_iov = &v;
		m.msg_iovlen = 1;
		return recvmsg(fd, &m, MSG_DONTWAIT);
	}
	ssize_t write(int fd, const void *b, size_t n) override {
		struct iovec v = {(void *)b, n};
		struct msghdr m = {};
		m.msg_iov = &v;
		m.msg_iovlen = 1;
		return sendmsg(fd, &m, MSG_DONTWAIT);
	}

	size_t max_ops() override { return 140; }
	void gen(Rng &r, Case &c, int) override {
		for (auto &b : c.cfg)
			b = r.next();
		int n = 10 + r.below(110);
		bool heavy = r.chance(40);
		for (int i = 0; i < n; i++) {
			Op o{};
			int x = r.below(100);
			o.k = x < 22 ? PUT : x < 32 ? PUTFD : x < 46 ? FLUSH : x < 62 ? READ : x < 76 ? GET : x < 82 ? GETFD : x < 86 ? RESTORE : x < 91 ? RAWSEND : x < 94 ? RAWRECV
				: x < 95 && r.chance(20) ? SHUT : x < 99 ? FAULTS : r.chance(15) ? CLOSEFDS : FLUSH;
			o.f = r.below(2);
			int sz = r.below(10);
			o.a = sz < 4 ? r.below(20) : sz < 8 ? r.below(270) : sz < 9 ? r.range(480, 530) : r.below(1200);
			o.b = heavy ? r.below(140) : r.below(6);
			o.c = r.next();
			o.d = r.next();
			c.ops.push_back(o);
		}
	}
	std::string rule(int) override {
		return "at least one ring buffer wrapped around, a send was partial while descriptors were queued, an operation was refused for lack of room or data, "
		       "or end of stream met buffered data; distinct by the sequence of outcomes";
	}
	std::string describe(const Case &c) override {
		char b[160];
		snprintf(b, sizeof b, "%s peer, index start %s, %zu operations\n", c.cfg[0] % 3 ? "connection" : "raw", c.cfg[1] % 4 ? "0" : "near wrap of uint32", c.ops.size());
		std::string o = b;
		for (auto &p : c.ops) {
			snprintf(b, sizeof b, "%s%d(%u,%u,%u) ", kn[p.k % NK], p.f & 1, p.a, p.b, p.c);
			o += b;
		}
		return o;
	}
	void begin(Side &x) { x.calls = x.ok = x.err = 0, x.moved = 0, x.overflow = false; }
	int mkfd() {
		int f = memfd_create("x", MFD_CLOEXEC);
		inodes.insert(inode(f));
		return f;
	}
	void rejected(int k) { eng::sig(100 + k), eng::nontrivial(), eng::count("operations refused"); }
	void after(Side &x) {
		if (connection_pending(x.c.get()) != x.in.size())
			eng::inv(TG, "pending", "%zu bytes are pending, expected %zu", connection_pending(x.c.get()), x.in.size());
	}
	void do_flush(Side &x) {
		begin(x);
		errno = 0;
		int r = connection_flush(x.c.get());
		if (r >= 0) {
			if (!x.outq.empty())
				eng::inv(TG, "flush-left", "flush succeeds, but %zu of the queued bytes have not been sent", x.outq.size());
			if ((size_t)r != x.moved)
				eng::inv(TG, "flush-count", "flush returns %d after sending %zu bytes", r, x.moved);
		} else if (!x.err)
			eng::inv(TG, "flush-fail", "flush fails (%s) although no write was refused", strerror(errno));
		else if (errno != x.err)
			eng::inv(TG, "flush-errno", "flush fails with errno %d instead of %d", errno, x.err);
		eng::sig(r >= 0 ? 1 : 2);
	}
	int do_read(Side &x) {
		begin(x);
		bool full = x.in.size() >= CAP;
		size_t had = x.in.size();
		errno = 0;
		int r = connection_read(x.c.get());
		int e = errno;
		x.consumed.clear();
		if (full) {
			if (r != -1 || x.ok)
				eng::inv(TG, "read-full", "reading into a full buffer returns %d", r);
			rejected(1);
		} else if (x.overflow) {
			eng::count("descriptor overflows");
			eng::nontrivial();
			if (r != -1)
				eng::inv(TG, "fd-overflow", "descriptors that do not fit are not reported (read returns %d)", r);
			return -2; // the connection is unusable from here on
		} else if (x.err) {
			if (r != -1 || e != x.err)
				eng::inv(TG, "read-err", "recvmsg failed with errno %d, but read returns %d with errno %d", x.err, r, e);
		} else if (x.ok && x.moved == 0) {
			if (had)
				eng::nontrivial(), eng::count("end of stream with data buffered");
			if (r != 0)
				eng::inv(TG, "eof", "at end of stream, with %zu bytes buffered, read returns %d", had, r);
		} else if (!x.ok)
			eng::inv(TG, "read-none", "read returns %d without having read although there is room", r);
		else if (r <= 0)
			eng::inv(TG, "read-ret", "read returns %d (errno %d) after receiving %zu bytes", r, e, x.moved);
		eng::sig(r > 0 ? 3 : 4 + (r < 0));
		return r;
	}
	void do_get(Side &x, size_t n) {
		uint8_t *b = (uint8_t *)::malloc(n ? n : 1);
		memset(b, 0xA5, n ? n : 1);
		errno = 0;
		int r = connection_get(x.c.get(), b, n);
		if (n > x.in.size()) {
			if (r != -1 || errno != EAGAIN)
				eng::inv(TG, "get-short", "getting %zu bytes with %zu pending returns %d with errno %d instead of EAGAIN", n, x.in.size(), r, errno);
			rejected(2);
		} else {
			if (r < 0)
				eng::inv(TG, "get", "getting %zu of %zu pending bytes fails (errno %d)", n, x.in.size(), errno);
			for (size_t i = 0; i < n; i++) {
				if (b[i] != x.in.front())
					eng::inv(TG, "get-data", "byte %zu of %zu got is not the one received", i, n);
				x.consumed.push_back(x.in.front());
				x.in.pop_front();
			}
			eng::sig(6);
		}
		::free(b);
	}
	void do_getfd(Side &x) {
		int f = -7;
		errno = 0;
		int r = connection_get_fd(x.c.get(), &f);
		if (x.infd.empty()) {
			if (r != -1 || errno != EAGAIN)
				eng::inv(TG, "getfd-none", "getting a descriptor when none is there returns %d with errno %d", r, errno);
			return;
		}
		if (r != 0 || !lib.count(f))
			eng::inv(TG, "getfd", "getting a descriptor returns %d, descriptor %d", r, f);
		if (inode(f) != x.infd.front())
			eng::inv(TG, "getfd-which", "the descriptor got is not the one received first");
		if (!(::fcntl(f, F_GETFD) & FD_CLOEXEC))
			eng::inv(TG, "getfd-inherited", "a received descriptor is inherited by programs started later");
		x.infd.pop_front();
		lib.erase(f);
		::close(f);
		eng::sig(7);
		eng::count("descriptors passed");
	}
	void do_put(Side &x, size_t n) {
		std::vector<uint8_t> d(n);
		for (auto &b : d)
			b = (uint8_t)((ctr * 2654435761u) >> 13), ctr++;
		begin(x);
		size_t pend = x.outq.size();
		// sendmsg() inside takes from outq, so what is appended must come after
		uint8_t *p = (uint8_t *)::malloc(n ? n : 1);
		std::copy(d.begin(), d.end(), p);
		errno = 0;
		int r = connection_put(x.c.get(), p, n);
		::free(p);
		if (r == 0) {
			if (x.outq.size() + n > CAP)
				eng::inv(TG, "put-over", "putting %zu bytes succeeds with %zu still queued", n, x.outq.size());
			x.outq.insert(x.outq.end(), d.begin(), d.end());
			x.queued += n;
			eng::sig(8);
			if (x.queued > CAP && (x.queued - n) / CAP != x.queued / CAP)
				eng::count("ring wrap-arounds"), eng::nontrivial();
		} else {
			if (errno == 0 || r != -1)
				eng::inv(TG, "put-ret", "put returns %d with errno %d", r, errno);
			if (pend + n <= CAP)
				eng::inv(TG, "put-refused", "putting %zu bytes with %zu queued fails (errno %d)", n, pend, errno);
			if (n <= CAP && !x.err)
				eng::inv(TG, "put-refused", "putting %zu bytes fails (errno %d) although the queue of %zu could be flushed", n, errno, pend);
			rejected(3);
		}
	}
	bool drain() { // everything queued arrives
		for (int i = 0; i < 400; i++) {
			bool any = false;
			for (int k = 0; k < 2; k++) {
				Side &x = s[k];
				x.p_short = x.eintr_s = x.eintr_r = x.fail_s = x.fail_r = 0;
				if (x.raw)
					raw_recv(x, 4096);
				else {
					if (x.in.size())
						do_get(x, x.in.size());
					while (!x.infd.empty())
						do_getfd(x);
					size_t q = x.outq.size();
					if (q && !s[!k].shut && !s[!k].broken)
						do_flush(x);
					if (q != x.outq.size())
						any = true;
					size_t w = x.wire.size();
					if (do_read(x) == -2)
						return false;
					if (w != x.wire.size())
						any = true;
				}
			}
			if (!any)
				break;
		}
		return true;
	}
	void raw_recv(Side &x, size_t n) {
		char b[4096], cb[CMSG_LEN(1024)];
		struct iovec v = {b, std::min(n, sizeof b)};
		struct msghdr m = {};
		m.msg_iov = &v;
		m.msg_iovlen = 1;
		m.msg_control = cb;
		m.msg_controllen = sizeof cb;
		ssize_t r = ::recvmsg(x.fd, &m, MSG_DONTWAIT | MSG_CMSG_CLOEXEC);
		if (r <= 0)
			return;
		for (cmsghdr *c = CMSG_FIRSTHDR(&m); c; c = CMSG_NXTHDR(&m, c))
			if (c->cmsg_level == SOL_SOCKET && c->cmsg_type == SCM_RIGHTS)
				for (size_t i = 0; i < (c->cmsg_len - CMSG_LEN(0)) / sizeof(int); i++) {
					int f;
					memcpy(&f, CMSG_DATA(c) + i * sizeof f, sizeof f);
					if (!x.wirefd.empty())
						x.wirefd.pop_front();
					::close(f);
				}
		for (ssize_t i = 0; i < r; i++)
			x.wire.pop_front();
	}
	void raw_send(Side &x, Side &y, size_t n, int nf) {
		if (n == 0)
			n = 1;
		std::string d(n, 0);
		for (auto &b : d)
			b = (char)((ctr * 2654435761u) >> 13), ctr++;
		nf = std::min(nf, 253);
		char cb[CMSG_SPACE(253 * sizeof(int))] = {};
		struct iovec v = {&d[0], n};
		struct msghdr m = {};
		m.msg_iov = &v;
		m.msg_iovlen = 1;
		std::vector<int> fs;
		if (nf) {
			m.msg_control = cb;
			m.msg_controllen = CMSG_SPACE(nf * sizeof(int));
			cmsghdr *c = CMSG_FIRSTHDR(&m);
			c->cmsg_level = SOL_SOCKET;
			c->cmsg_type = SCM_RIGHTS;
			c->cmsg_len = CMSG_LEN(nf * sizeof(int));
			for (int i = 0; i < nf; i++) {
				int f = mkfd();
				fs.push_back(f);
				memcpy(CMSG_DATA(c) + i * sizeof f, &f, sizeof f);
			}
		}
		ssize_t r = ::sendmsg(x.fd, &m, MSG_DONTWAIT | MSG_NOSIGNAL);
		for (int f : fs) {
			if (r >= 0)
				y.wirefd.push_back(inode(f));
			::close(f);
		}
		for (ssize_t i = 0; i < r; i++)
			y.wire.push_back((uint8_t)d[i]);
	}
	void run(const Case &c) override {
		sut_sys = this;
		int sv[2];
		if (::socketpair(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0, sv) != 0)
			return;
		if (c.cfg[2] & 1) {
			int v = 1;
			::setsockopt(sv[0], SOL_SOCKET, SO_SNDBUF, &v, sizeof v);
			::setsockopt(sv[1], SOL_SOCKET, SO_SNDBUF, &v, sizeof v);
		}
		io = Rng(c.cfg[3] * 77 + 5);
		lib.clear();
		inodes.clear();
		ctr = c.cfg[4];
		for (int i = 0; i < 2; i++) {
			s[i] = Side();
			s[i].fd = sv[i];
			s[i].raw = i == 1 && c.cfg[0] % 3 == 0;
			s[i].c.reset(new connection());
			memset((void *)s[i].c.get(), 0, sizeof(connection));
			s[i].c->fd = sv[i];
			if (c.cfg[1] % 4 == 0)
				seed_idx(*s[i].c, 0xffffffffu - (uint32_t)(c.cfg[5] * 5), 0);
		}
		live = true;
		bool usable = true;
		for (auto &o : c.ops) {
			Side &x = s[o.f & 1], &y = s[!(o.f & 1)];
			int k = o.k % NK;
			if (x.raw && k != RAWSEND && k != RAWRECV && k != SHUT)
				continue;
			eng::trace("%s side %d a=%u b=%u (out %zu in %zu wire %zu)", kn[k], o.f & 1, o.a, o.b, x.outq.size(), x.in.size(), x.wire.size());
			switch (k) {
			case PUT: do_put(x, o.a); break;
			case PUTFD:
				for (int i = 0; i <= o.b; i++) {
					int f = mkfd();
					uint64_t ino = inode(f);
					lib.insert(f);
					errno = 0;
					int r = connection_put_fd(x.c.get(), f);
					if (r == 0) {
						if (x.outfd.size() >= FCAP)
							eng::inv(TG, "putfd-over", "queueing a descriptor succeeds with %zu queued", x.outfd.size());
						x.outfd.push_back({x.queued, ino});
					} else {
						if (!lib.count(f) || r != -1 || errno == 0)
							eng::inv(TG, "putfd-fail", "queueing a descriptor returns %d (errno %d); the descriptor is %s", r, errno, lib.count(f) ? "open" : "closed");
						if (x.outfd.size() < FCAP)
							eng::inv(TG, "putfd-refused", "queueing a descriptor with only %zu queued fails (errno %d)", x.outfd.size(), errno);
						rejected(4);
						lib.erase(f);
						::close(f);
						break;
					}
				}
				break;
			case FLUSH: do_flush(x); break;
			case READ:
				if (do_read(x) == -2)
					usable = false;
				break;
			case GET: do_get(x, o.a % (o.c % 4 ? 64 : 600)); break;
			case GETFD: do_getfd(x); break;
			case RESTORE: {
				size_t n = x.consumed.empty() ? 0 : o.a % (x.consumed.size() + 1);
				connection_restore(x.c.get(), n);
				for (size_t i = 0; i < n; i++) {
					x.in.push_front(x.consumed.back());
					x.consumed.pop_back();
				}
				if (n)
					eng::count("restores of data"), eng::sig(9);
				break;
			}
			case RAWSEND:
				if (x.raw && !x.shut)
					raw_send(x, y, o.a, o.c % 3 ? 0 : o.b);
				break;
			case RAWRECV:
				if (x.raw)
					raw_recv(x, o.a + 1);
				break;
			case SHUT:
				if (!x.shut)
					::shutdown(x.fd, SHUT_WR);
				x.shut = true;
				break;
			case FAULTS: {
				x.p_short = (o.c & 3) * 30;
				x.eintr_s = o.c & 4 ? o.d % 4 : 0;
				x.eintr_r = o.c & 8 ? (o.d >> 4) % 4 : 0;
				static const int se[] = {EAGAIN, EPIPE, ENOBUFS, EAGAIN, ECONNRESET, ENOMEM, ETOOMANYREFS}, re[] = {EAGAIN, ECONNRESET, ENOMEM};
				if (o.c & 16)
					x.fail_s = se[(o.d >> 8) % 7], x.fail_after = (o.d >> 12) % 3;
				if (o.c & 32)
					x.fail_r = re[(o.d >> 16) % 3];
				break;
			}
			case CLOSEFDS: {
				std::set<int> before = lib;
				connection_close_fds(x.c.get());
				x.infd.clear();
				x.outfd.clear();
				break;
			}
			}
			if (!usable)
				break;
			for (int i = 0; i < 2; i++)
				if (!s[i].raw)
					after(s[i]);
		}
		if (usable && c.cfg[6] % 3)
			usable = drain();
		if (usable && c.cfg[6] % 3)
			for (int i = 0; i < 2; i++)
				if (!s[i].raw && !s[i].shut && !s[!i].shut && !s[!i].raw && (!s[i].outq.empty() || (!s[!i].wire.empty())))
					eng::inv(TG, "undelivered", "%zu bytes queued and %zu sent never arrive", s[i].outq.size(), s[!i].wire.size());
		for (int i = 0; i < 2; i++)
			connection_close_fds(s[i].c.get());
		live = false;
		::close(sv[0]);
		::close(sv[1]);
		// nothing of what was passed around may still be open
		for (int f = 3; f < 1024; f++) {
			struct stat st;
			if (fstat(f, &st) == 0 && inodes.count(st.st_ino) && (st.st_mode & S_IFMT) == S_IFREG)
				eng::inv(TG, "fd-leak", "a descriptor is still open after teardown (%zu owned)", lib.size());
		}
	}
};
Harness *make_harness() { return new ConnH; }
