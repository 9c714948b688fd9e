#include "daemon.hpp"
#include <algorithm>
#include <cerrno>
#include <climits>
#include <cstdlib>
#include <cstring>
#include <linux/kd.h>
#include <linux/vt.h>
#include <sys/ioctl.h>
#include <sys/un.h>
#include <unistd.h>

extern "C" int seatd_main(int, char **);

const char *st_name(int s) {
	static const char *n[] = {"none", "new", "active", "pending-disable", "disabled", "closed"};
	return n[s];
}
const char *op_name(int op) {
	switch (op) {
	case OPEN_SEAT: return "OPEN_SEAT";
	case CLOSE_SEAT: return "CLOSE_SEAT";
	case OPEN_DEVICE: return "OPEN_DEVICE";
	case CLOSE_DEVICE: return "CLOSE_DEVICE";
	case DISABLE_SEAT: return "DISABLE_SEAT";
	case SWITCH_SESSION: return "SWITCH_SESSION";
	case PING: return "PING";
	case S_OPENED: return "SEAT_OPENED";
	case S_CLOSED: return "SEAT_CLOSED";
	case S_DEVOPENED: return "DEVICE_OPENED";
	case S_DEVCLOSED: return "DEVICE_CLOSED";
	case S_DISABLE: return "event DISABLE";
	case S_ENABLE: return "event ENABLE";
	case S_PONG: return "PONG";
	case S_SWITCHED: return "SESSION_SWITCHED";
	case S_DISABLED: return "SEAT_DISABLED";
	case S_ERROR: return "ERROR";
	}
	return "?";
}
static const char *SOCKP = "seatd.sock";
static const Tags TMODEL = T(1) | T(2) | T(3) | T(4) | T(5) | T(6) | T(7) | T(8) | T(9) | T(10) | T(11) | T(12) | T(13) | T(22) | T(24) | T(25);

Daemon::Daemon() {}

Tags Daemon::tg(Tags t) { return t | caseTags; }
Cl *Daemon::byd(int dfd) {
	auto it = owned.find(dfd);
	if (it == owned.end() || it->second.k != FdInfo::CLIENT)
		return nullptr;
	return cl[it->second.c].get();
}

// ---------------------------------------------------------------- faults and armed events
int Daemon::fault(int cls) {
	if (!serving || finished || cls != fclass || fcount <= 0)
		return 0;
	if (++fseen < fnth)
		return 0;
	fcount--;
	fired_window = fired_ever = true;
	caseTags |= T(25);
	eng::count("faults fired");
	if (eng::wants(25))
		eng::nontrivial(), eng::sig(cls * 1000 + fseen);
	eng::trace("   [fault class %d errno %d fires, serving c%d]", cls, ferrno, cur);
	if (cls >= F_TTYOPEN) { // what becomes of the consoles then is left open
		tty_fault = true;
		model_on = false;
		eng::desync();
		if (cur >= 0 && K.seen_vt == -2)
			cl[cur]->vt_unknown = true;
	} else if (cls != F_SETMASTER && cls != F_DROPMASTER && cls != F_REVOKE && cur >= 0) {
		cl[cur]->legit_drop = true;
		cl[cur]->legit = "fault";
	}
	return ferrno;
}
void Daemon::tick() {
	if (arm_after >= 0 && serving && !in_arm && arm_after-- == 0)
		fire_arm();
}
void Daemon::fire_arm() {
	in_arm = true;
	int e = errno;
	eng::trace("   [armed op fires mid-dispatch]");
	eng::count("armed events fired");
	exec(arm_op);
	errno = e;
	in_arm = false;
}
void Daemon::deliver(int sig) {
	auto it = acts.find(sig);
	if (it == acts.end() || it->second.sa_handler == SIG_DFL) {
		if (serving && !finished)
			eng::inv(TALL, "fatal-signal", "signal %d arrives while no handler is installed: the daemon would be killed", sig);
		return;
	}
	if (it->second.sa_handler == SIG_IGN)
		return;
	got_signal = true;
	eng::trace("   [signal %d]", sig);
	int e = errno;
	struct sigaction act = it->second;
	if (act.sa_flags & SA_RESETHAND)
		it->second.sa_handler = SIG_DFL;
	if (act.sa_flags & SA_SIGINFO) {
		siginfo_t si = {};
		act.sa_sigaction(sig, &si, NULL);
	} else
		act.sa_handler(sig);
	errno = e;
}

// ---------------------------------------------------------------- system calls
int Daemon::open(const char *p, int fl, int mode) {
	(void)mode;
	tick();
	touches++;
	std::string canon;
	int follow = !(fl & O_NOFOLLOW);
	int rc = K.resolve(p, canon, follow);
	int kind = N_NONE;
	if (rc == 0 && K.fs.count(canon))
		kind = K.fs[canon].kind;
	if (kind != N_VTTY) {
		// any other file the daemon opens has to be a device asked for by the client being served
		if (rc == 0 && kind != N_LINK && kind != N_DIR && kind != N_NONE) {
			if (!K.genuine(canon))
				eng::inv(tg(T(5)), "open-nongenuine", "the daemon opens %s (%s) which is not a seat device node [resolved to %s]", p, kind_name(kind), canon.c_str());
			int want = O_NOCTTY | O_NOFOLLOW | O_CLOEXEC | O_NONBLOCK;
			if ((fl & O_ACCMODE) != O_RDWR || (fl & want) != want)
				eng::inv(tg(T(5)), "open-flags", "%s is opened with flags %#x: not read-write, non-blocking, close-on-exec, no controlling terminal and no-follow", p, fl);
			if (cur < 0 || !serving)
				eng::inv(tg(T(2) | T(5)), "open-unasked", "the daemon opens %s while serving no client", p);
		}
	} else if (!vtb)
		eng::inv(tg(T(12)), "tty-nonvt", "the terminal %s is opened on a seat that is not VT-bound", p);
	else if (!(fl & O_NOCTTY))
		eng::inv(tg(T(13)), "tty-ctty", "the terminal %s is opened in a way that can make it the daemon's controlling terminal", p);
	int fd = K.do_open(p, fl, cur);
	if (fd < 0)
		return -1;
	Ofd *o = K.find(fd);
	owned[fd] = {o->kind == N_VTTY ? FdInfo::TTY : FdInfo::DEV, cur, o->ino};
	return fd;
}
int Daemon::close(int fd) {
	tick();
	if (fd == -1) {
		errno = EBADF;
		return -1;
	}
	if (fd == 0 && ready_zero && ready_fd >= 0)
		fd = ready_fd;
	if (fd == ready_fd) {
		ready_closed = true;
		ready_fd = -1;
		return ::close(fd);
	}
	auto it = owned.find(fd);
	if (it == owned.end()) {
		eng::inv(tg(T(9) | T(8)), "bad-close", "close(%d): the daemon does not own that descriptor (closed twice?)", fd);
		errno = EBADF;
		return -1;
	}
	FdInfo fi = it->second;
	if (fi.k == FdInfo::CLIENT) {
		Cl *c = cl[fi.c].get();
		eng::trace("   daemon closes the socket of c%d", c->id);
		input(I_DROP, c);
		if (c->fd >= 0) { // what has been sent is still readable by the peer
		}
		c->dropped = true;
		c->dfd = -1;
	}
	owned.erase(fd);
	return ::close(fd);
}
int Daemon::dup(int fd) {
	tick();
	int e = fault(F_DUP);
	if (e) {
		errno = e;
		return -1;
	}
	int n = ::dup(fd);
	if (n >= 0) {
		auto it = owned.find(fd);
		FdInfo fi = it == owned.end() ? FdInfo{FdInfo::OTHER, cur, ino_of(n)} : it->second;
		if (fi.k == FdInfo::DEV)
			fi.k = FdInfo::DUP;
		owned[n] = fi;
	}
	return n;
}
int Daemon::dup3(int fd, int nfd, int flags, bool two) {
	int n = two ? ::dup2(fd, nfd) : ::dup3(fd, nfd, flags);
	if (n >= 0)
		owned[n] = {FdInfo::OTHER, cur, ino_of(n)};
	return n;
}
int Daemon::fcntl(int fd, int cmd, long arg) {
	tick();
	if (cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC) {
		int e = fault(F_DUP);
		if (e) {
			errno = e;
			return -1;
		}
		int n = ::fcntl(fd, cmd, arg);
		if (n >= 0) {
			auto it = owned.find(fd);
			FdInfo fi = it == owned.end() ? FdInfo{FdInfo::OTHER, cur, ino_of(n)} : it->second;
			if (fi.k == FdInfo::DEV)
				fi.k = FdInfo::DUP;
			owned[n] = fi;
		}
		return n;
	}
	int e = fault(F_FCNTL);
	if (e) {
		errno = e;
		return -1;
	}
	return ::fcntl(fd, cmd, arg);
}
int Daemon::ioctl(int fd, unsigned long req, void *arg) {
	tick();
	auto it = owned.find(fd);
	if (it == owned.end()) {
		eng::inv(tg(T(9) | T(8) | T(3)), "bad-ioctl", "ioctl(%d): the daemon does not own that descriptor", fd);
		errno = EBADF;
		return -1;
	}
	Ofd *o = K.find(fd);
	uint64_t ino = o ? o->ino : 0;
	if (o && (req == 0x641f || o->kind == N_EVDEV || o->kind == N_HIDRAW))
		attempts[ino]++;
	int r = K.do_ioctl(fd, o, req, arg);
	int e = errno;
	if (o) {
		if (o->exempt)
			dead_exempt.insert(ino);
		else
			dead_exempt.erase(ino);
		if (r == 0 && (req == 0x641f || (o->kind == N_EVDEV && o->revoked)) && eng::wants(3))
			eng::nontrivial(), eng::sig(ino & 0 ? 1 : o->kind * 7 + 3);
	}
	errno = e;
	return r;
}
char *Daemon::realpath(const char *p, char *out) {
	tick();
	int e = fault(F_REALPATH);
	std::string c;
	if (!e)
		e = K.resolve(p, c, true);
	if (e) {
		errno = e;
		return NULL;
	}
	if (!out) {
		out = (char *)malloc(c.size() + 1);
		if (!out)
			return NULL;
	}
	strcpy(out, c.c_str());
	return out;
}
int Daemon::accept(int fd, struct sockaddr *a, socklen_t *l, int flags) {
	tick();
	finish_input();
	if (fd != listen_fd) {
		errno = EINVAL;
		return -1;
	}
	pin = I_NONE;
	fired_window = false;
	cur = -1;
	int e = fault(F_ACCEPT);
	if (e) {
		errno = e;
		return -1;
	}
	int n = ::accept4(fd, a, l, flags);
	if (n < 0)
		return n;
	if (backlog.empty()) {
		eng::trace("accept without a pending client?");
		owned[n] = {FdInfo::OTHER, -1, 0};
		return n;
	}
	Cl *c = cl[backlog.front()].get();
	backlog.pop_front();
	c->accepted = true;
	c->dfd = n;
	cur = c->id;
	owned[n] = {FdInfo::CLIENT, c->id, 0};
	if (cs->cfg[2] & 1) {
		int v = 1;
		::setsockopt(n, SOL_SOCKET, SO_SNDBUF, &v, sizeof v);
	}
	return n;
}
int Daemon::socket(int d, int t, int p) {
	touches++;
	int fd = ::socket(d, t, p);
	if (fd >= 0)
		owned[fd] = {FdInfo::LISTEN, -1, 0};
	return fd;
}
int Daemon::bind(int fd, const struct sockaddr *a, socklen_t l) {
	touches++;
	const struct sockaddr_un *u = (const struct sockaddr_un *)a;
	std::string p(u->sun_path, strnlen(u->sun_path, l > 2 ? l - 2 : 0));
	if (p != SOCKP) {
		eng::inv(tg(T(22)), "bind-path", "the daemon binds its socket to %s instead of %s", p.c_str(), SOCKP);
		errno = EACCES;
		return -1;
	}
	return ::bind(fd, a, l);
}
int Daemon::listen(int fd, int n) {
	int r = ::listen(fd, n < 16 ? n : 64);
	if (r == 0)
		listen_fd = fd;
	return r;
}
int Daemon::shutdown(int fd, int how) {
	tick();
	if (!owned.count(fd)) {
		errno = EBADF;
		return -1;
	}
	return ::shutdown(fd, how);
}
int Daemon::getsockopt(int fd, int l, int o, void *v, socklen_t *n) {
	tick();
	int e = fault(F_GETSOCKOPT);
	if (e) {
		errno = e;
		return -1;
	}
	return ::getsockopt(fd, l, o, v, n);
}
int Daemon::pipe2(int p[2], int flags) {
	int r = ::pipe2(p, flags);
	if (r == 0) {
		owned[p[0]] = {FdInfo::PIPE, -1, 0};
		owned[p[1]] = {FdInfo::PIPE, -1, 0};
	}
	return r;
}
ssize_t Daemon::read(int fd, void *b, size_t n) {
	tick();
	Cl *c = byd(fd);
	if (c) {
		struct iovec v = {b, n};
		struct msghdr m = {};
		m.msg_iov = &v;
		m.msg_iovlen = 1;
		return recvmsg(fd, &m, 0);
	}
	return ::read(fd, b, n);
}
ssize_t Daemon::write(int fd, const void *b, size_t n) {
	if (fd == 0 && ready_zero && ready_fd >= 0)
		fd = ready_fd;
	if (fd == ready_fd) {
		ready_data.append((const char *)b, n);
		if (listen_fd < 0)
			ready_before_listen = true;
		else {
			int s = ::socket(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC | SOCK_NONBLOCK, 0);
			struct sockaddr_un u = {};
			u.sun_family = AF_UNIX;
			strcpy(u.sun_path, SOCKP);
			if (::connect(s, (struct sockaddr *)&u, sizeof u) != 0)
				ready_before_listen = true;
			else {
				// becomes an ordinary client
				cl.emplace_back(new Cl);
				cl.back()->id = (int)cl.size() - 1;
				cl.back()->fd = s;
				backlog.push_back(cl.back()->id);
				s = -1;
			}
			if (s >= 0)
				::close(s);
		}
		return n;
	}
	Cl *c = byd(fd);
	if (c) {
		struct iovec v = {(void *)b, n};
		struct msghdr m = {};
		m.msg_iov = &v;
		m.msg_iovlen = 1;
		return sendmsg(fd, &m, 0);
	}
	auto it = owned.find(fd);
	if (it == owned.end() || it->second.k != FdInfo::PIPE) {
		errno = EBADF;
		return -1;
	}
	return ::write(fd, b, n);
}
ssize_t Daemon::sendmsg(int fd, const struct msghdr *m, int fl) {
	tick();
	Cl *c = byd(fd);
	if (!c) {
		eng::inv(tg(T(9) | T(8)), "bad-send", "sendmsg on descriptor %d which is no client's socket", fd);
		errno = EBADF;
		return -1;
	}
	std::string att;
	for (size_t i = 0; i < m->msg_iovlen; i++)
		att.append((const char *)m->msg_iov[i].iov_base, m->msg_iov[i].iov_len);
	std::vector<uint64_t> inos;
	if (m->msg_control && m->msg_controllen) {
		struct msghdr mm = *m;
		for (struct cmsghdr *h = CMSG_FIRSTHDR(&mm); h; h = CMSG_NXTHDR(&mm, h))
			if (h->cmsg_level == SOL_SOCKET && h->cmsg_type == SCM_RIGHTS) {
				size_t n = (h->cmsg_len - CMSG_LEN(0)) / sizeof(int);
				for (size_t i = 0; i < n; i++) {
					int f;
					memcpy(&f, CMSG_DATA(h) + i * sizeof(int), sizeof f);
					if (!owned.count(f))
						eng::inv(tg(T(9) | T(6)), "send-bad-fd", "a descriptor the daemon does not own is sent to c%d", c->id);
					inos.push_back(ino_of(f));
				}
			}
	}
	std::string rest = c->vis.substr(c->accepted_bytes);
	size_t k = std::min(rest.size(), att.size());
	if (memcmp(rest.data(), att.data(), k) != 0)
		eng::inv(tg(T(7) | T(24) | T(14)), "output-changed", "bytes queued for c%d changed between two send attempts (offset %zu)", c->id, c->accepted_bytes);
	if (att.size() > rest.size())
		c->vis.append(att, rest.size(), std::string::npos);
	if (inos.size() > c->visfds.size() - c->accepted_fds) {
		c->visfds.resize(c->accepted_fds);
		c->visfds.insert(c->visfds.end(), inos.begin(), inos.end());
	}
	for (uint64_t i : inos) {
		Ofd *o = K.by_ino(i);
		if (o)
			o->granted = true;
	}
	c->peak = std::max(c->peak, c->vis.size() - c->accepted_bytes);
	decode_vis(c);
	int e = fclass == F_SEND && serving ? fault(F_SEND) : 0;
	if (e) {
		c->legit_drop = true;
		c->legit = "fault";
		errno = e;
		return -1;
	}
	if (p_eintr && io.chance(p_eintr)) {
		errno = EINTR;
		return -1;
	}
	if (p_eagain && io.chance(p_eagain)) {
		errno = EAGAIN;
		return -1;
	}
	struct msghdr mm = *m;
	struct iovec iov[4];
	if (p_short && att.size() > 1 && m->msg_iovlen <= 4 && io.chance(p_short)) {
		size_t n = 1 + io.below(att.size() - 1);
		size_t cnt = 0;
		for (size_t i = 0; i < m->msg_iovlen && n; i++) {
			iov[cnt] = m->msg_iov[i];
			if (iov[cnt].iov_len > n)
				iov[cnt].iov_len = n;
			n -= iov[cnt].iov_len;
			cnt++;
		}
		mm.msg_iov = iov;
		mm.msg_iovlen = cnt;
		eng::count("short writes");
	}
	ssize_t r = ::sendmsg(fd, &mm, fl | MSG_NOSIGNAL | MSG_DONTWAIT);
	if (r > 0) {
		if (!(fl & MSG_NOSIGNAL) && c->peer_closed)
			eng::inv(tg(T(8)), "sigpipe", "sendmsg without MSG_NOSIGNAL");
		c->accepted_bytes += r;
		if (!c->blocked())
			c->peak = 0;
		c->accepted_fds += inos.size();
	} else if (r < 0) {
		e = errno;
		if (!(fl & MSG_NOSIGNAL) && e == EPIPE)
			eng::inv(tg(T(8)), "sigpipe", "sendmsg to a vanished client without MSG_NOSIGNAL: the daemon would be killed by SIGPIPE");
		if (e != EAGAIN && e != EINTR && c->peer_closed) {
			c->legit_drop = true;
			c->legit = "peer gone";
		}
		if (e == EAGAIN) {
			if (!(fl & MSG_DONTWAIT) && !(::fcntl(fd, F_GETFL) & O_NONBLOCK))
				eng::inv(tg(T(24) | T(8)), "blocking-send", "a blocking send is made to c%d, which does not read: the daemon would hang", c->id);
			eng::count("sends refused by a full socket");
			c->ever_slow = true;
			caseTags |= T(24);
			if (eng::wants(24))
				eng::nontrivial(), eng::sig(c->vis.size() - c->accepted_bytes);
		}
		errno = e;
	}
	return r;
}
ssize_t Daemon::recvmsg(int fd, struct msghdr *m, int fl) {
	tick();
	Cl *c = byd(fd);
	if (!c) {
		eng::inv(tg(T(9) | T(8)), "bad-recv", "recvmsg on descriptor %d which is no client's socket", fd);
		errno = EBADF;
		return -1;
	}
	if (pin != I_READ || pcl != c) {
		finish_input();
		pin = I_NONE;
		fired_window = false;
		cur = c->id;
	}
	int e = fault(F_RECV);
	if (e) {
		c->legit_drop = true;
		c->legit = "fault";
		errno = e;
		return -1;
	}
	if (p_eintr && io.chance(p_eintr)) {
		errno = EINTR;
		return -1;
	}
	struct msghdr mm = *m;
	struct iovec iov[4];
	if (p_rshort && m->msg_iovlen <= 4 && io.chance(p_rshort)) {
		size_t n = 1 + io.below(io.chance(50) ? 3 : 40), cnt = 0;
		for (size_t i = 0; i < m->msg_iovlen && n; i++) {
			iov[cnt] = m->msg_iov[i];
			if (iov[cnt].iov_len > n)
				iov[cnt].iov_len = n;
			n -= iov[cnt].iov_len;
			cnt++;
		}
		mm.msg_iov = iov;
		mm.msg_iovlen = cnt;
	}
	if (!(fl & MSG_DONTWAIT) && !(::fcntl(fd, F_GETFL) & O_NONBLOCK)) {
		struct pollfd pf = {fd, POLLIN, 0};
		if (::poll(&pf, 1, 0) == 0)
			eng::inv(tg(T(24) | T(8)), "blocking-recv", "a blocking receive is made on c%d, which has sent nothing", c->id);
	}
	ssize_t r = ::recvmsg(fd, &mm, fl | MSG_DONTWAIT);
	m->msg_controllen = mm.msg_controllen;
	m->msg_flags = mm.msg_flags;
	if (r < 0) {
		if (errno != EAGAIN && errno != EINTR && c->peer_closed)
			c->legit_drop = true, c->legit = "peer gone";
		return r;
	}
	if (m->msg_control)
		for (struct cmsghdr *h = CMSG_FIRSTHDR(m); h; h = CMSG_NXTHDR(m, h))
			if (h->cmsg_level == SOL_SOCKET && h->cmsg_type == SCM_RIGHTS) {
				size_t n = (h->cmsg_len - CMSG_LEN(0)) / sizeof(int);
				for (size_t i = 0; i < n; i++) {
					int f;
					memcpy(&f, CMSG_DATA(h) + i * sizeof(int), sizeof f);
					owned[f] = {FdInfo::RECV, c->id, 0};
				}
				eng::count("descriptors received by the daemon", n);
			}
	if (r == 0) {
		bool f = fired_window;
		input(I_EOF, c);
		fired_window = f;
		return r;
	}
	bool f = fired_window;
	input(I_READ, c);
	fired_window = f;
	size_t n = r;
	for (size_t i = 0; i < mm.msg_iovlen && n; i++) {
		size_t t = std::min(n, mm.msg_iov[i].iov_len);
		c->inbuf.append((char *)mm.msg_iov[i].iov_base, t);
		n -= t;
	}
	c->nread += r;
	feed(c);
	return r;
}
void *Daemon::malloc(size_t n) {
	tick();
	int e = fault(F_ALLOC);
	if (e) {
		errno = ENOMEM;
		return NULL;
	}
	void *p = ::malloc(n);
	if (p) {
		blocks[p] = n;
		allocs++;
		bytes += n;
	}
	return p;
}
void *Daemon::calloc(size_t a, size_t b) {
	tick();
	int e = fault(F_ALLOC);
	if (e) {
		errno = ENOMEM;
		return NULL;
	}
	void *p = ::calloc(a, b);
	if (p) {
		blocks[p] = a * b;
		allocs++;
		bytes += a * b;
	}
	return p;
}
void *Daemon::realloc(void *o, size_t n) {
	tick();
	int e = fault(F_ALLOC);
	if (e) {
		errno = ENOMEM;
		return NULL;
	}
	auto it = blocks.find(o);
	size_t old = it == blocks.end() ? 0 : it->second;
	void *p = ::realloc(o, n);
	if (p) {
		if (o) {
			blocks.erase(o);
			bytes -= old;
		} else
			allocs++;
		blocks[p] = n;
		bytes += n;
	}
	return p;
}
void Daemon::free(void *p) {
	if (p) {
		auto it = blocks.find(p);
		if (it != blocks.end()) {
			bytes -= it->second;
			allocs--;
			blocks.erase(it);
		}
	}
	::free(p);
}
int Daemon::stat(const char *p, struct stat *st, bool follow) {
	tick();
	if (!strcmp(p, SOCKP))
		return follow ? ::stat(p, st) : ::lstat(p, st);
	std::string c;
	int e = K.resolve(p, c, follow);
	if (e) {
		errno = e;
		return -1;
	}
	Node &n = K.fs[c];
	memset(st, 0, sizeof *st);
	st->st_mode = n.kind == N_DIR ? S_IFDIR | 0755 : n.kind == N_LINK ? S_IFLNK | 0777 : n.kind == N_REG ? S_IFREG | 0644 : S_IFCHR | 0660;
	st->st_rdev = n.rdev;
	st->st_ino = n.idx + 1;
	return 0;
}
ssize_t Daemon::readlink(const char *p, char *b, size_t sz) {
	std::string c;
	int e = K.resolve(p, c, false);
	if (e || K.fs[c].kind != N_LINK) {
		errno = e ? e : EINVAL;
		return -1;
	}
	size_t n = std::min(sz, K.fs[c].target.size());
	memcpy(b, K.fs[c].target.data(), n);
	return n;
}
int Daemon::access(const char *p, int) {
	if (!strcmp(p, SOCKP))
		return ::access(p, F_OK);
	std::string c;
	int e = K.resolve(p, c, true);
	if (e)
		errno = e;
	return e ? -1 : 0;
}
int Daemon::unlink(const char *p) {
	touches++;
	if (strcmp(p, SOCKP)) {
		eng::inv(tg(T(22)), "unlink-other", "the daemon unlinks %s", p);
		errno = EPERM;
		return -1;
	}
	unlinks++;
	struct stat st;
	if (::lstat(p, &st) == 0 && !S_ISSOCK(st.st_mode))
		eng::inv(tg(T(22)), "unlink-nonsocket", "the daemon unlinks %s, which is not a socket (mode %o)", p, st.st_mode);
	return ::unlink(p); // in the case's scratch directory
}
int Daemon::chmod(const char *p, mode_t m) {
	touches++;
	if (startup && (cs->cfg[12] & 0x30) == 0x10) {
		errno = EPERM;
		return -1;
	}
	chmods.push_back({p, (int)m});
	return 0;
}
int Daemon::chown(const char *p, uid_t u, gid_t g, bool) {
	touches++;
	if (startup && (cs->cfg[12] & 0x30) == 0x20) {
		errno = EPERM;
		return -1;
	}
	chowns.push_back({p, (long)(int)u, (long)(int)g});
	return 0;
}
int Daemon::fchmod(int, mode_t) { touches++; return 0; }
int Daemon::fchown(int, uid_t, gid_t) { touches++; return 0; }
int Daemon::kill(pid_t, int sig) {
	eng::inv(tg(T(8) | T(22)), "kill", "the daemon calls kill(%d)", sig);
	return 0;
}
void Daemon::exit(int c) {
	eng::inv(TALL, "exit", "the daemon calls exit(%d)", c);
	::_exit(0);
}
void Daemon::_exit(int c) { exit(c); }
int Daemon::sigaction(int s, const struct sigaction *n, struct sigaction *o) {
	if (o) {
		if (acts.count(s))
			*o = acts[s];
		else
			memset(o, 0, sizeof *o);
	}
	if (n)
		acts[s] = *n;
	return 0;
}
int Daemon::raise(int sig) {
	deliver(sig);
	return 0;
}
struct passwd *Daemon::getpwnam(const char *n) {
	static struct passwd pw;
	memset(&pw, 0, sizeof pw);
	pw.pw_name = (char *)n;
	pw.pw_gid = 77;
	if (!strcmp(n, "alice"))
		pw.pw_uid = 100070;
	else if (!strcmp(n, "root"))
		pw.pw_uid = 0;
	else
		return NULL;
	return &pw;
}
struct group *Daemon::getgrnam(const char *n) {
	static struct group gr;
	memset(&gr, 0, sizeof gr);
	gr.gr_name = (char *)n;
	if (!strcmp(n, "video"))
		gr.gr_gid = 70555;
	else if (!strcmp(n, "root"))
		gr.gr_gid = 0;
	else
		return NULL;
	return &gr;
}
int Daemon::output(const char *s, size_t n, bool) {
	if (eng::verbose())
		eng::trace("      log: %.*s", (int)n, s);
	else if (outlog.size() < 1000)
		outlog.append(s, n);
	return (int)n;
}
char *Daemon::getenv(const char *n) {
	auto it = env.find(n);
	return it == env.end() ? NULL : (char *)it->second.c_str();
}

// ---------------------------------------------------------------- model: inputs
void Daemon::input(In k, Cl *c) {
	// a client dropped amid its batch for a reason of its own: requests without a visible reply may not have been served
	if (k == I_DROP && pin == I_READ && pcl == c && (c->peer_closed || c->legit_drop || (c->blocked() && c->peak >= 200)))
		cut = c->cut_drop = true;
	finish_input();
	cut = false;
	pin = k;
	pcl = c;
	inputno++;
	fired_window = false;
	vfs_changed = false;
	K.seen_vt = -2;
	K.activations.clear();
	win_ofd = K.ks->nofd;
	if (c)
		cur = c->id;
}
// splits what the daemon has read from c into messages
void Daemon::feed(Cl *c) {
	while (!c->malformed && c->inbuf.size() >= 4) {
		uint16_t op, sz;
		memcpy(&op, c->inbuf.data(), 2);
		memcpy(&sz, c->inbuf.data() + 2, 2);
		bool hdr_ok;
		switch (op) {
		case OPEN_SEAT:
		case CLOSE_SEAT:
		case DISABLE_SEAT:
		case PING:
			hdr_ok = sz == 0;
			break;
		case CLOSE_DEVICE:
		case SWITCH_SESSION:
			hdr_ok = sz == 4;
			break;
		case OPEN_DEVICE:
			hdr_ok = sz >= 3 && sz <= 258;
			break;
		default:
			hdr_ok = false;
		}
		if (c->inbuf.size() < 4u + sz) {
			if (!hdr_ok)
				c->limbo = true; // may be refused already
			return;
		}
		std::string m = c->inbuf.substr(0, 4 + sz);
		if (hdr_ok && op == OPEN_DEVICE) {
			uint16_t pl;
			memcpy(&pl, m.data() + 4, 2);
			const char *p = m.data() + 6;
			if (pl != sz - 2 || pl == 0 || strnlen(p, pl) != (size_t)pl - 1)
				hdr_ok = false;
		}
		if (!hdr_ok) {
			c->malformed = true;
			c->limbo = true;
			c->msgs.push_back("");
			eng::count("malformed messages");
			return;
		}
		c->msgs.push_back(m);
		if (c->is_lib && op != PING)
			c->lreq.push_back(m);
		c->inbuf.erase(0, 4 + sz);
	}
}
void Daemon::finish_input() {
	if (pin == I_NONE)
		return;
	In k = pin;
	Cl *c = pcl;
	pin = I_NONE;
	m_act.clear();
	act_loose = fired_window;
	switch (k) {
	case I_READ:
		while (!c->msgs.empty()) {
			std::string m = c->msgs.front();
			c->msgs.pop_front();
			if (c->must_drop)
				continue;
			if (m.empty()) {
				c->must_drop = true;
				c->drop_why = "malformed message";
				continue;
			}
			if (cut && c->vrep.empty()) {
				uint16_t op;
				memcpy(&op, m.data(), 2);
				if (op == OPEN_SEAT && !c->member && c->session == -1) {
					if (!vtb)
						model_on = false, eng::desync(); // a session number may have been used up
					else if (K.seen_vt != -2)
						m_cur_vt = K.seen_vt;
				}
				if (op == SWITCH_SESSION)
					act_loose = true;
				c->msgs.clear();
				break;
			}
			apply(c, m);
		}
		break;
	case I_EOF:
		c->eof_read = true;
		break;
	case I_DROP:
		do_drop(c);
		break;
	case I_RELEASE:
		if (m_active && m_active->st == ACTIVE)
			to_pending(m_active);
		m_cur_vt = win_rel_ok ? -1 : win_acq_vt;
		break;
	case I_ACQUIRE:
		m_cur_vt = win_acq_vt;
		activate();
		break;
	default:
		break;
	}
	if (vtb && !act_loose && model_on && K.activations != m_act && k == I_READ) {
		std::string a, b;
		for (int x : K.activations)
			a += std::to_string(x) + " ";
		for (int x : m_act)
			b += std::to_string(x) + " ";
		eng::fail(tg(T(10) | T(12)), "vt-activate", "VT switches asked of the kernel: [%s], requested by the enabled client: [%s]", a.c_str(), b.c_str());
	} else if (k != I_READ && !K.activations.empty())
		eng::fail(tg(T(10) | T(12)), "vt-activate", "the kernel is asked to switch to VT %d although no client requested it", K.activations[0]);
	K.activations.clear();
	K.seen_vt = -2;
}
void Daemon::ev(Cl *c, int op) {
	c->xev.push_back(op);
	match(c);
}
void Daemon::expect(Cl *c, int req, int op, int err) {
	XRep x;
	x.req = req;
	x.op = op;
	x.err = err;
	if (fired_window)
		x.any = true;
	c->xrep.push_back(x);
	match(c);
}
static Tags req_tags(int req) {
	switch (req) {
	case OPEN_DEVICE: return T(7) | T(2) | T(5) | T(6);
	case CLOSE_DEVICE: return T(7) | T(6);
	case PING: return T(7);
	default: return T(7) | T(10);
	}
}
static Tags pending_tags(Cl *c) {
	if (!c->xrep.empty())
		return req_tags(c->xrep.front().req);
	if (!c->msgs.empty() && c->msgs.front().size() >= 2) {
		uint16_t op;
		memcpy(&op, c->msgs.front().data(), 2);
		return req_tags(op);
	}
	return 0;
}
void Daemon::match(Cl *c) {
	if (!model_on) {
		c->xev.clear();
		c->vev.clear();
		c->xrep.clear();
		c->vrep.clear();
		return;
	}
	while (!c->xev.empty() && !c->vev.empty()) {
		int x = c->xev.front(), v = c->vev.front().op;
		c->xev.pop_front();
		c->vev.pop_front();
		if (x != v)
			eng::fail(tg(T(1) | T(10) | T(11) | (vtb ? T(12) : 0)), "event-order", "c%d is sent %s where %s was due (c%d is %s)", c->id, op_name(v), op_name(x), c->id, st_name(c->st));
	}
	while (!c->xrep.empty() && !c->vrep.empty()) {
		XRep x = c->xrep.front();
		Msg m = c->vrep.front();
		c->xrep.pop_front();
		c->vrep.pop_front();
		int got_err = 0;
		if (m.op == S_ERROR) {
			if (m.body.size() != 4)
				eng::fail(tg(T(7)), "reply-size", "error reply with %zu bytes", m.body.size());
			else
				memcpy(&got_err, m.body.data(), 4);
			if (got_err <= 0)
				eng::fail(tg(T(7) | T(25)), "errno-range", "c%d: %s is answered by an error reply carrying errno %d", c->id, op_name(x.req), got_err);
		}
		if (x.any) {
			if (m.op == S_ERROR)
				continue;
			if (m.op != x.op && x.op != S_ERROR)
				eng::fail(tg(req_tags(x.req)), "reply-kind", "c%d: %s is answered by %s", c->id, op_name(x.req), op_name(m.op));
		} else if (m.op != x.op) {
			Tags t = req_tags(x.req);
			if (x.op == S_ERROR && x.err == EPERM && x.req == OPEN_DEVICE)
				t |= T(3);
			eng::fail(tg(t), "reply-kind", "c%d: %s is answered by %s%s%s, due: %s%s%s (state %s)", c->id, op_name(x.req), op_name(m.op), got_err ? " " : "",
				  got_err ? strerror(got_err) : "", op_name(x.op), x.err ? " " : "", x.err ? strerror(x.err) : "", st_name(c->st));
			return;
		}
		if (m.op == S_ERROR) {
			if (x.err && got_err != x.err)
				eng::fail(tg(T(7) | req_tags(x.req)), "reply-errno", "c%d: %s is refused with errno %d (%s), due: %d (%s)", c->id, op_name(x.req), got_err, strerror(got_err), x.err, strerror(x.err));
			continue;
		}
		if (m.op == S_OPENED) {
			uint16_t l = 0;
			if (m.body.size() >= 2)
				memcpy(&l, m.body.data(), 2);
			if (m.body.size() != 8 || l != 6 || memcmp(m.body.data() + 2, "seat0", 6))
				eng::fail(tg(T(7) | T(10)), "seat-name", "the seat-opened reply does not carry the seat name");
		} else if (m.op != S_DEVOPENED && !m.body.empty())
			eng::fail(tg(T(7)), "reply-size", "%s carries %zu unexpected bytes", op_name(m.op), m.body.size());
	}
}
void Daemon::dev_closed(Cl *c, Dev &d) {
	Ofd *o = K.by_ino(d.ino);
	if (o && o->granted && K.privileged(*o) && !dead_exempt.count(o->ino))
		eng::fail(tg(T(3)), "closed-privileged", "c%d's descriptor of %s keeps its privileges after the device was closed", c->id, d.path.c_str());
	if (o && o->granted && K.privileged(*o) && dead_exempt.count(o->ino) && inputno - d.att_input > 1) {
		if (attempts[o->ino] <= d.att)
			eng::fail(tg(T(3)), "not-retried", "c%d's %s, whose revocation failed before, is torn down without another attempt", c->id, d.path.c_str());
	}
	if (o && d.retry)
		eng::count("failed revocations tried again");
}
void Daemon::revoke_all(Cl *c) {
	for (auto &d : c->devs) {
		Ofd *o = K.by_ino(d.second.ino);
		if (o && (o->kind == N_EVDEV || o->kind == N_HIDRAW))
			d.second.revoked = true;
		d.second.att = attempts[d.second.ino];
		d.second.att_input = inputno;
		d.second.retry = o && dead_exempt.count(o->ino);
	}
}
void Daemon::to_pending(Cl *c) {
	c->st = PENDING;
	revoke_all(c);
	ev(c, S_DISABLE);
	eng::count("sessions told to disable");
}
void Daemon::set_active(Cl *c) {
	bool back = c->st == DISABLED;
	c->st = ACTIVE;
	m_active = c;
	eng::count(back ? "sessions re-enabled" : "sessions enabled");
	if (back && eng::wants(4))
		for (auto &d : c->devs)
			if (d.second.path.find("card") != std::string::npos)
				eng::nontrivial(), eng::sig(d.first);
	for (auto &d : c->devs) {
		d.second.att = attempts[d.second.ino];
		d.second.att_input = inputno;
	}
	ev(c, S_ENABLE);
}
void Daemon::activate() {
	if (m_active)
		return;
	std::vector<Cl *> cand;
	if (m_next) {
		cand.push_back(m_next);
		m_next = nullptr;
	} else
		for (auto &p : cl)
			if (p->member && (p->st == NEW || p->st == DISABLED))
				if (!vtb || (m_cur_vt != -1 && p->session == m_cur_vt))
					cand.push_back(p.get());
	if (cand.empty())
		return;
	Cl *ch = nullptr;
	for (Cl *p : cand)
		if (!p->vev.empty() && p->vev.front().op == S_ENABLE)
			ch = p;
	if (!ch)
		for (Cl *p : cand)
			if (p->blocked() && p->peak >= 200)
				ch = p;
	if (!ch)
		for (Cl *p : cand)
			if (!ch || p->order > ch->order)
				ch = p;
	if (eng::wants(11) || eng::wants(1))
		eng::nontrivial(), eng::sig(ch->id * 31 + cand.size());
	set_active(ch);
}
void Daemon::remove_from_seat(Cl *c) {
	if (!c->member)
		return;
	for (auto &d : c->devs)
		dev_closed(c, d.second);
	c->devs.clear();
	c->member = false;
	if (vtb && eng::wants(13))
		eng::nontrivial(), eng::sig(c->st);
	if (m_next == c)
		m_next = nullptr;
	if (m_active == c) {
		m_active = nullptr;
		activate();
	}
}
void Daemon::do_drop(Cl *c) {
	if (c->must_drop || c->malformed) {
		eng::count("clients dropped for cause");
		if (eng::wants(8))
			eng::nontrivial();
	}
	if (!finished && model_on) {
		bool legit = c->peer_closed || c->eof_read || c->must_drop || c->limbo || c->legit_drop || (c->blocked() && c->peak >= 200);
		if (!legit)
			eng::fail(tg(T(7) | T(8) | T(10) | (c->is_lib ? T(18) : 0) | (c->ever_slow ? T(24) : 0) | pending_tags(c)), "unexpected-drop", "the connection of c%d (%s) is ended without reason", c->id, st_name(c->st));
		if (!c->peer_closed && !c->legit_drop && !c->blocked() && !c->is_lib) {
			if (!c->xrep.empty())
				eng::fail(tg(T(7) | T(8) | pending_tags(c)), "request-unanswered", "c%d is dropped and its %s, sent before, was never answered", c->id, op_name(c->xrep.front().req));
			if (c->eof_read && !c->must_drop && c->nread != c->sent)
				eng::fail(tg(T(7)), "request-unread", "c%d is dropped at end of stream with %zu bytes unread", c->id, c->sent - c->nread);
		}
	}
	if (!c->devs.empty() && eng::wants(9))
		eng::nontrivial(), eng::sig(c->devs.size());
	eng::sig(c->st * 11 + 5);
	if (c->cut_drop) {
		c->xev.clear();
		c->vev.clear();
		c->vrep.clear();
	}
	remove_from_seat(c);
	c->st = CLOSED;
}
void Daemon::apply(Cl *c, const std::string &m) {
	uint16_t op;
	memcpy(&op, m.data(), 2);
	int arg = 0;
	if (op == CLOSE_DEVICE || op == SWITCH_SESSION)
		memcpy(&arg, m.data() + 4, 4);
	eng::sig(op * 8 + c->st);
	eng::count(op_name(op));
	if (eng::wants(7))
		if (io.s & 1 || p_short || p_rshort || p_eagain)
			eng::nontrivial();
	auto viol = [&](const char *why) {
		c->must_drop = true;
		c->drop_why = why;
		if (eng::wants(10))
			eng::nontrivial();
		eng::trace("   model: c%d must be dropped: %s", c->id, why);
	};
	eng::trace("   model: c%d (%s) %s %d", c->id, st_name(c->st), op_name(op), arg);
	if (op == OPEN_DEVICE || op == CLOSE_DEVICE)
		for (auto &d : c->devs)
			eng::trace("      has %d: %s x%d%s", d.first, d.second.path.c_str(), d.second.ref, d.second.revoked ? " revoked" : "");
	if (op == PING) {
		expect(c, op, S_PONG);
		return;
	}
	if (op == OPEN_SEAT) {
		if (c->member)
			return viol("opens the seat twice");
		if (c->session != -1)
			return viol("reopens the seat after closing it");
		if (fired_window && c->vrep.empty()) {
			// the failure hit this request: whether a session number was used up is open
			if (!vtb)
				model_on = false, eng::desync();
			return;
		}
		if (vtb) {
			if (m_active && m_active->st == ACTIVE)
				return viol("opens a VT-bound seat that is taken");
			m_cur_vt = seen_fg();
			for (auto &p : cl)
				if (p->member && p->session == m_cur_vt)
					return viol("opens a second session on a VT");
			c->session = m_cur_vt;
		} else
			c->session = ++m_sessions;
		c->member = true;
		c->st = NEW;
		c->order = ++m_order;
		expect(c, op, S_OPENED);
		if (!m_active) {
			if (eng::wants(11) || eng::wants(13))
				eng::sig(1);
			set_active(c);
		}
		return;
	}
	if (!c->member)
		return viol("uses seat requests without a seat");
	switch (op) {
	case CLOSE_SEAT:
		remove_from_seat(c);
		c->st = CLOSED;
		expect(c, op, S_CLOSED);
		break;
	case DISABLE_SEAT:
		if (c->st != PENDING) {
			expect(c, op, S_ERROR, EBUSY);
			break;
		}
		if (eng::wants(10))
			eng::nontrivial(), eng::sig(77);
		c->st = DISABLED;
		m_active = nullptr;
		activate();
		expect(c, op, S_DISABLED);
		break;
	case SWITCH_SESSION: {
		if (c->st != ACTIVE) {
			expect(c, op, S_ERROR, EPERM);
			break;
		}
		if (arg <= 0) {
			expect(c, op, S_ERROR, EINVAL);
			break;
		}
		if (arg == c->session) {
			expect(c, op, S_SWITCHED);
			break;
		}
		if (vtb) {
			XRep x;
			x.req = op;
			x.op = S_SWITCHED;
			x.any = arg > NVT || fired_window;
			m_act.push_back(arg);
			c->xrep.push_back(x);
			match(c);
			break;
		}
		Cl *t = nullptr;
		for (auto &p : cl)
			if (p->member && p->session == arg)
				t = p.get();
		if (!t) {
			expect(c, op, S_ERROR, EINVAL);
			break;
		}
		if (fired_window && !c->vrep.empty() && c->vrep.front().op == S_ERROR) {
			expect(c, op, S_SWITCHED);
			break;
		}
		eng::count("switches between sessions");
		if (eng::wants(10) || eng::wants(1))
			eng::nontrivial(), eng::sig(arg);
		m_next = t;
		to_pending(c);
		expect(c, op, S_SWITCHED);
		break;
	}
	case CLOSE_DEVICE: {
		auto it = c->devs.find(arg);
		if (it == c->devs.end()) {
			eng::count("closes of an id that is not open");
			if (eng::wants(6))
				eng::nontrivial();
			expect(c, op, S_ERROR, EBADF);
			break;
		}
		if (fired_window && !c->vrep.empty() && c->vrep.front().op == S_ERROR) {
			expect(c, op, S_DEVCLOSED);
			break;
		}
		if (--it->second.ref == 0) {
			dev_closed(c, it->second);
			c->devs.erase(it);
		}
		expect(c, op, S_DEVCLOSED);
		break;
	}
	case OPEN_DEVICE: {
		std::string path = m.c_str() + 6;
		XRep x;
		x.req = op;
		x.path = path;
		x.any = fired_window;
		x.op = S_ERROR;
		if (c->st != ACTIVE) {
			x.err = EPERM;
			eng::count("opens by a client that is not enabled");
			if (eng::wants(2))
				eng::nontrivial();
			c->xrep.push_back(x);
			match(c);
			break;
		}
		std::string canon;
		int rc = K.resolve(path, canon, true);
		bool loose = fired_window || vfs_changed;
		bool may_fail = loose, must_fail = false;
		int err = 0;
		std::map<int, Dev>::iterator ex = c->devs.end();
		if (rc) {
			must_fail = true;
			err = rc;
		} else if (!K.genuine(canon)) {
			must_fail = true;
			err = canon.compare(0, 9, "/dev/dri/") == 0 || canon.compare(0, 16, "/dev/input/event") == 0 || (canon.compare(0, 11, "/dev/hidraw") == 0) ? 0 : ENOENT;
		} else {
			for (auto it = c->devs.begin(); it != c->devs.end(); ++it)
				if (it->second.path == canon && (ex == c->devs.end() || ex->second.revoked))
					ex = it;
			bool reuse = ex != c->devs.end();
			if (!reuse || ex->second.revoked) {
				if (c->devs.size() >= 128) {
					if (!reuse)
						must_fail = true;
					may_fail = true;
					err = EMFILE;
					if (eng::wants(6))
						eng::nontrivial();
					eng::count("opens beyond the limit");
				}
				if (K.fs[canon].open_errno) {
					if (!reuse)
						must_fail = true;
					may_fail = true;
					err = err ? 0 : K.fs[canon].open_errno;
				}
			}
		}
		if (eng::wants(5) && (must_fail || canon != path))
			eng::nontrivial(), eng::sig(std::hash<std::string>()(path));
		if (vfs_changed) {
			must_fail = false;
			err = 0;
		}
		if (must_fail) {
			eng::count("opens refused for their path");
			x.err = fired_window ? 0 : err;
			if (fired_window && !c->vrep.empty() && c->vrep.front().op == S_DEVOPENED)
				x.any = false; // a failure elsewhere does not make this succeed
			c->xrep.push_back(x);
			match(c);
			break;
		}
		eng::trace("      open %s: due ok, %zu replies seen, %zu due before", canon.c_str(), c->vrep.size(), c->xrep.size());
		// success is due (or allowed)
		if (c->vrep.empty() || !c->xrep.empty()) {
			// not visible (yet)
			bool gone = c->blocked() || fired_window || c->legit_drop || c->peer_closed;
			if (!gone) {
				x.op = S_DEVOPENED;
				x.any = may_fail;
				c->xrep.push_back(x);
			}
			if (gone || c->dropped)
				break;
			break;
		}
		Msg &r = c->vrep.front();
		if (r.op == S_ERROR) {
			x.op = may_fail ? S_ERROR : S_DEVOPENED;
			x.any = loose;
			int got = 0;
			if (r.body.size() == 4)
				memcpy(&got, r.body.data(), 4);
			if (fired_window && !vfs_changed && err == 0 && (fclass == F_OPENDEV || fclass == F_DUP || fclass == F_REALPATH) && got > 0 && got != ferrno)
				eng::fail(tg(T(25) | T(18) | T(7)), "fault-errno", "c%d: opening %s fails with errno %d (%s) since a call failed with errno %d (%s)", c->id, path.c_str(), got, strerror(got), ferrno, strerror(ferrno));
			x.err = loose ? 0 : err;
			c->xrep.push_back(x);
			match(c);
			break;
		}
		if (r.op == S_DEVOPENED) {
			int id = 0;
			if (r.body.size() == 4)
				memcpy(&id, r.body.data(), 4);
			Ofd *o = r.has_ino ? K.by_ino(r.ino) : nullptr;
			if (id <= 0)
				eng::fail(tg(T(6) | T(7)), "device-id", "the device-opened reply for %s carries id %d", path.c_str(), id);
			if (!r.has_ino)
				eng::fail(tg(T(6) | T(14) | T(24)), "device-no-fd", "the device-opened reply for %s carries no descriptor", path.c_str());
			else if (!o)
				eng::fail(tg(T(6)), "device-fd", "the descriptor sent for %s is no device", path.c_str());
			else {
				const std::string &np = K.byidx[o->node];
				if (np != canon && !vfs_changed)
					eng::fail(tg(T(6) | T(5) | T(2)), "device-fd", "c%d asked for %s and is sent a descriptor of %s", c->id, path.c_str(), np.c_str());
				auto same = c->devs.find(id);
				if (same != c->devs.end()) {
					// handle shared with an earlier open
					if (same->second.path != canon && !vfs_changed)
						eng::fail(tg(T(6)), "device-id-clash", "c%d: opening %s returns id %d, which is open for %s", c->id, path.c_str(), id, same->second.path.c_str());
					if (same->second.ino != o->ino && same->second.sure)
						eng::fail(tg(T(6) | T(4)), "device-ofd", "c%d: reopening %s returns id %d with another open file description", c->id, path.c_str(), id);
					same->second.ref++;
					eng::count("opens of a device already open");
					if (eng::wants(6))
						eng::nontrivial(), eng::sig(same->second.ref);
				} else {
					if (ex != c->devs.end() && !ex->second.revoked && ex->second.sure && !vfs_changed)
						eng::fail(tg(T(6)), "device-not-shared", "c%d: reopening %s, open and usable as id %d, returns id %d", c->id, path.c_str(), ex->first, id);
					for (auto &d : c->devs)
						if (d.second.ino == o->ino)
							eng::fail(tg(T(6)), "device-ofd", "c%d: ids %d and %d share one open file description", c->id, d.first, id);
					if (o->owner != c->id)
						eng::fail(tg(T(6) | T(2) | T(3)), "device-owner", "c%d is sent a description opened for c%d", c->id, o->owner);
					else if ((int)(o - K.ks->ofd) < win_ofd)
						eng::fail(tg(T(6)), "device-stale", "c%d is sent an old description of %s", c->id, path.c_str());
					if (c->devs.size() >= 128)
						eng::fail(tg(T(6)), "device-limit", "c%d has %zu devices open", c->id, c->devs.size() + 1);
					Dev d;
					d.path = np;
					d.ino = o->ino;
					c->devs[id] = d;
				}
				eng::count("devices opened");
				if (eng::wants(2))
					eng::sig(9);
			}
		}
		x.op = S_DEVOPENED;
		x.any = false;
		c->xrep.push_back(x);
		match(c);
		break;
	}
	}
}

// ---------------------------------------------------------------- output as it becomes visible
void Daemon::decode_vis(Cl *c) {
	while (c->vis.size() - c->decoded >= 4) {
		uint16_t op, sz;
		memcpy(&op, c->vis.data() + c->decoded, 2);
		memcpy(&sz, c->vis.data() + c->decoded + 2, 2);
		if (c->vis.size() - c->decoded < 4u + sz)
			break;
		Msg m;
		m.op = op;
		m.body = c->vis.substr(c->decoded + 4, sz);
		c->decoded += 4 + sz;
		if (op < S_OPENED || (op > S_DISABLED && op != S_ERROR) || sz > 300) {
			eng::fail(tg(T(7) | T(24) | T(14)), "garbage-output", "c%d is sent a message with opcode %#x and size %u", c->id, op, sz);
			c->decoded = c->vis.size();
			break;
		}
		if (op == S_OPENED && c->vt_unknown && K.seen_vt == -2)
			eng::inv(tg(T(25) | T(10)), "vt-unknown", "c%d is given a session although the VT it belongs to could not be determined", c->id);
		if (op == S_OPENED || op == S_ERROR)
			c->vt_unknown = false;
		eng::trace("   -> c%d: %s%s", c->id, op_name(op), sz == 4 ? (" " + std::to_string(*(int *)m.body.data())).c_str() : "");
		if (op == S_DEVOPENED) {
			if (c->used_fds < c->visfds.size()) {
				m.ino = c->visfds[c->used_fds++];
				m.has_ino = true;
			}
		}
		if (op == S_ENABLE || op == S_DISABLE) {
			c->vev.push_back(m);
			if (op == S_ENABLE)
				on_enable(c);
			else
				c->told_enabled = false;
		} else {
			c->vrep.push_back(m);
			if (c->is_lib)
				c->lrep.push_back(m);
		}
		match(c);
	}
}
static bool batch_has(Cl *c, int op) {
	for (auto &m : c->msgs) {
		uint16_t o = 0;
		if (m.size() >= 4)
			memcpy(&o, m.data(), 2);
		if (o == op)
			return true;
	}
	return false;
}
void Daemon::on_enable(Cl *c) {
	if (tty_fault) { // whoever holds the seat
		holder = c;
		c->told_enabled = true;
		return;
	}
	auto let_go = [&](Cl *h) {
		return h->dropped || h->peer_closed || h->eof_read || h->must_drop || h->malformed || h->limbo || h->legit_drop || !h->member || batch_has(h, CLOSE_SEAT) ||
		       batch_has(h, DISABLE_SEAT) || h->st == DISABLED || h->st == CLOSED;
	};
	if (holder && (holder->id >= (int)cl.size() || !let_go(holder))) {
		if (holder == c)
			eng::inv(tg(T(1) | T(10)), "enabled-twice", "c%d is told it is enabled although it %s", c->id, c->told_enabled ? "already is" : "was told to disable and has not acknowledged");
		else
			susp.push_back({holder, c});
	}
	holder = c;
	c->told_enabled = true;
	for (int i = 0; i < K.ks->nofd; i++) {
		Ofd &o = K.ks->ofd[i];
		if (!o.granted || o.owner == c->id || !K.privileged(o) || dead_exempt.count(o.ino))
			continue;
		eng::inv(tg(T(3) | T(1) | T(4)), "privileged-at-enable", "c%d is told it is enabled while c%d's descriptor of %s still has its privileges", c->id, o.owner, K.byidx[o.node].c_str());
	}
	for (auto &d : c->devs) {
		Ofd *o = K.by_ino(d.second.ino);
		bool held = false; // not closed earlier in the batch being served
		for (auto &f : owned)
			held |= f.second.k == FdInfo::DEV && f.second.ino == d.second.ino;
		if (o && held && o->kind == N_CARD && o->lost_master && !o->master && !o->set_failed)
			eng::inv(tg(T(4)), "master-not-regained", "c%d is told it is enabled again but %s has not regained DRM master", c->id, d.second.path.c_str());
	}
}
void Daemon::on_release(int vt) {
	(void)vt;
	for (int i = 0; i < K.ks->nofd; i++) {
		Ofd &o = K.ks->ofd[i];
		if (o.granted && K.privileged(o) && !dead_exempt.count(o.ino))
			eng::inv(tg(T(3) | T(12)), "privileged-at-release", "the VT release is granted while c%d's descriptor of %s still has its privileges", o.owner, K.byidx[o.node].c_str());
	}
}
void Daemon::check_unmatched() {
	for (auto &s : susp)
		if (!tty_fault && !s.old_->dropped && s.old_->member && s.old_->st != DISABLED && s.old_->st != CLOSED)
			eng::inv(tg(T(1)), "two-holders", "c%d is told it is enabled while c%d holds the seat (%s)", s.new_->id, s.old_->id, st_name(s.old_->st));
	susp.clear();
	if (!model_on)
		return;
	for (auto &p : cl) {
		if (!p->vev.empty())
			eng::fail(tg(T(1) | T(10) | T(11) | (vtb ? T(12) : T(0) & 0)), "unexpected-event", "c%d (%s) is sent %s although nothing calls for it", p->id, st_name(p->st), op_name(p->vev.front().op));
		if (!p->vrep.empty())
			eng::fail(tg(T(7) | (p->malformed || p->limbo || p->must_drop ? T(8) : 0) | (p->must_drop && !p->malformed ? T(10) : 0)), "unexpected-reply", "c%d is sent %s without a request", p->id, op_name(p->vrep.front().op));
	}
}

// ---------------------------------------------------------------- checks when the daemon has nothing left to do
void Daemon::quiesce_checks() {
	if (!serving)
		return;
	Tags vt12 = vtb ? T(12) : 0;
	for (auto &p : cl) {
		Cl *c = p.get();
		if (!c->accepted || c->dropped)
			continue;
		if (c->must_drop) {
			bool mal = c->malformed;
			eng::fail(tg(mal ? T(8) : (T(10) | T(8))), "not-dropped", "c%d is still connected: %s", c->id, c->drop_why);
		}
		if (c->eof_read || c->peer_closed)
			eng::inv(tg(T(8) | T(9) | T(11) | T(3)), "eof-kept", "c%d has ended its stream but the daemon keeps the connection", c->id);
		if (c->limbo && c->inbuf.size() > 4096)
			eng::inv(tg(T(8)), "overlong-kept", "c%d keeps an over-long message going (%zu bytes)", c->id, c->inbuf.size());
		if (c->nread < c->sent && !c->blocked() && !c->limbo)
			eng::inv(tg(T(7) | T(8)), "not-reading", "the daemon is idle with %zu bytes from c%d unread", c->sent - c->nread, c->id);
		if (c->blocked()) {
			if (!c->slow && !c->is_lib)
				eng::inv(tg(T(24) | T(11) | T(7)), "output-stuck", "c%d reads its socket, but %zu bytes for it stay in the daemon", c->id, c->vis.size() - c->accepted_bytes);
			continue;
		}
		if (!c->xrep.empty() && model_on)
			eng::fail(tg(req_tags(c->xrep.front().req) | (c->ever_slow ? T(24) : 0)), "no-reply", "c%d's %s gets no reply", c->id, op_name(c->xrep.front().req));
		if (!c->xev.empty() && model_on) {
			Tags t = T(11) | T(10) | vt12 | (c->ever_slow ? T(24) : 0);
			eng::fail(tg(t), "no-event", "c%d (%s) is never sent the due %s", c->id, st_name(c->st), op_name(c->xev.front()));
		}
	}
	if (!backlog.empty())
		eng::inv(tg(T(8)), "not-accepting", "the daemon is idle with a connection waiting to be accepted");
	// descriptors
	size_t other = 0;
	std::map<uint64_t, int> devfds;
	for (auto &f : owned) {
		switch (f.second.k) {
		case FdInfo::LISTEN:
		case FdInfo::PIPE:
		case FdInfo::OTHER:
			other++;
			break;
		case FdInfo::TTY:
			eng::inv(tg(T(9)), "leak-tty", "a terminal descriptor stays open");
			break;
		case FdInfo::RECV:
			if (cl[f.second.c]->dropped)
				eng::inv(tg(T(9) | T(8)), "leak-received", "a descriptor sent by c%d stays open after the client is gone", f.second.c);
			break;
		case FdInfo::DEV:
		case FdInfo::DUP:
			devfds[f.second.ino]++;
			break;
		case FdInfo::CLIENT:
			break;
		}
	}
	if (other != base_fd_other)
		eng::inv(tg(T(9)), "leak-fd", "the daemon has %zu descriptors of its own, %zu at start", other, base_fd_other);
	if (model_on && !eng::desynced()) {
		std::map<uint64_t, Cl *> open;
		for (auto &p : cl)
			for (auto &d : p->devs)
				open[d.second.ino] = p.get();
		for (auto &d : devfds) {
			Ofd *o = K.by_ino(d.first);
			const char *pn = o ? K.byidx[o->node].c_str() : "?";
			if (o && o->owner >= 0 && cl[o->owner]->blocked() && !cl[o->owner]->dropped)
				continue;
			if (!open.count(d.first))
				eng::fail(tg(T(9) | T(6)), "leak-device", "a descriptor of %s stays open in the daemon although no client has it open", pn);
			else if (d.second != 1)
				eng::fail(tg(T(9)), "leak-device", "the daemon holds %d descriptors of one opening of %s", d.second, pn);
		}
		for (auto &d : open)
			if (!devfds.count(d.first))
				eng::fail(tg(T(9) | T(6) | T(4)), "device-lost", "the daemon no longer holds a device c%d has open", d.second->id);
		// privileges
		for (int i = 0; i < K.ks->nofd; i++) {
			Ofd &o = K.ks->ofd[i];
			if (!o.granted || !K.privileged(o) || dead_exempt.count(o.ino))
				continue;
			Cl *c = o.owner >= 0 ? cl[o.owner].get() : nullptr;
			if (!c || c->st != ACTIVE || !open.count(o.ino))
				eng::fail(tg(T(3) | (c && c->st == ACTIVE ? 0 : T(4)) | (c && c->ever_slow ? T(24) : 0)), "privileged", "c%d (%s) has a descriptor of %s with privileges%s", o.owner, c ? st_name(c->st) : "?", K.byidx[o.node].c_str(),
					  c && c->st == ACTIVE ? " after closing it" : "");
		}
	}
	if (!vtb && K.tty_used)
		eng::inv(tg(T(12)), "tty-nonvt", "a terminal is used on a seat that is not VT-bound");
	if (vtb && !tty_fault) {
		Vt &v = K.ks->vt[K.ks->fg];
		if (v.newvt >= 0 && v.mode == VT_PROCESS)
			eng::inv(tg(T(12)), "release-unanswered", "the kernel's request to release VT %d (for VT %d) is never answered", K.ks->fg, v.newvt);
		if (v.acq_unacked)
			eng::inv(tg(T(12)), "acquire-unacked", "the acquisition of VT %d is never acknowledged", K.ks->fg);
		if (model_on && !eng::desynced())
			for (int i = 1; i <= NVT; i++) {
				Cl *s = nullptr;
				for (auto &p : cl)
					if (p->member && p->session == i)
						s = p.get();
				Vt &w = K.ks->vt[i];
				if (!s) {
					if (w.gfx != KD_TEXT || w.kb != K_UNICODE)
						eng::fail(tg(T(13)), "vt-not-restored", "VT %d belongs to no session but is left in %s mode, keyboard %s", i, w.gfx == KD_TEXT ? "text" : "graphics", w.kb == K_OFF ? "off" : w.kb != K_UNICODE ? "not in Unicode mode" : "on");
				} else if (s->st == ACTIVE) {
					if (w.gfx != KD_GRAPHICS || w.kb != K_OFF || w.mode != VT_PROCESS)
						eng::fail(tg(T(13)), "vt-not-prepared", "c%d is enabled but its VT %d is in %s mode, keyboard %s, switching %s", s->id, i, w.gfx == KD_TEXT ? "text" : "graphics",
							  w.kb == K_OFF ? "off" : "on", w.mode == VT_PROCESS ? "process-controlled" : "automatic");
				}
			}
	}
	if (model_on && !eng::desynced() && !m_active) {
		for (auto &p : cl)
			if (p->member && (!vtb || p->session == m_cur_vt))
				eng::fail(tg(T(11) | T(10) | vt12), "idle-seat", "no client holds the seat although c%d could take it", p->id);
	}
	for (auto &p : cl)
		if (p->legit_drop && p->legit == std::string("fault"))
			p->legit_drop = false;
}
void Daemon::idle_checks() {
	for (auto &p : cl) {
		if (p->accepted && !p->dropped)
			return;
	}
	if (allocs != base_allocs || bytes > base_bytes + 4096) {
		std::string s;
		for (auto &b : blocks)
			if (s.size() < 60)
				s += std::to_string(b.second) + " ";
		eng::inv(tg(T(9)), "leak-memory", "all clients are gone: %zu allocations (%zu bytes) live, %zu (%zu bytes) before the first client [sizes %s]", allocs, bytes, base_allocs, base_bytes, s.c_str());
	}
	for (auto &f : owned)
		if (f.second.k != FdInfo::LISTEN && f.second.k != FdInfo::PIPE && f.second.k != FdInfo::OTHER)
			eng::inv(tg(T(9)), "leak-fd", "all clients are gone but the daemon still holds descriptor %d (kind %d)", f.first, f.second.k);
	for (auto &p : cl)
		if (p->rxfds != p->rxdevs && !p->is_lib && p->rx.size() == p->vis.size())
			eng::inv(tg(T(6) | T(14) | T(2)), "extra-descriptor", "c%d received %zu descriptors for %zu device-opened replies", p->id, p->rxfds, p->rxdevs);
}

// ---------------------------------------------------------------- the harness's clients
Cl *Daemon::connect_client() {
	int live = 0;
	for (auto &p : cl)
		live += p->fd >= 0;
	if (backlog.size() >= 8 || live >= 14 || cl.size() > (churned ? 420 : 60))
		return nullptr;
	int s = ::socket(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC | SOCK_NONBLOCK, 0);
	struct sockaddr_un u = {};
	u.sun_family = AF_UNIX;
	strcpy(u.sun_path, SOCKP);
	if (::connect(s, (struct sockaddr *)&u, sizeof u) != 0) {
		eng::inv(tg(T(8) | T(22)), "connect", "connecting to the daemon fails: %s", strerror(errno));
		::close(s);
		return nullptr;
	}
	cl.emplace_back(new Cl);
	Cl *c = cl.back().get();
	c->id = (int)cl.size() - 1;
	c->fd = s;
	backlog.push_back(c->id);
	return c;
}
static void push_raw(Cl *c, const std::string &s) {
	if (c->fd < 0)
		return;
	ssize_t n = ::send(c->fd, s.data(), s.size(), MSG_DONTWAIT | MSG_NOSIGNAL);
	if (n < 0)
		n = 0;
	c->sent += n;
	if ((size_t)n < s.size() && errno != EPIPE && errno != ECONNRESET)
		c->frags.push_front(s.substr(n));
}
void Daemon::send_bytes(Cl *c, const std::string &s, int frag, uint32_t seed) {
	if (c->fd < 0 || c->wrshut || s.empty())
		return;
	std::vector<std::string> parts;
	if (frag == 1 && s.size() <= 24)
		for (char ch : s)
			parts.push_back(std::string(1, ch));
	else if (frag == 2 || frag == 1) {
		Rng r(seed);
		size_t i = 0;
		while (i < s.size()) {
			size_t n = 1 + r.below(r.chance(50) ? 4 : 90);
			parts.push_back(s.substr(i, n));
			i += n;
		}
	} else if (frag == 3 && s.size() > 4) {
		parts.push_back(s.substr(0, 4));
		parts.push_back(s.substr(4));
	} else
		parts.push_back(s);
	if (c->frags.empty()) {
		push_raw(c, parts[0]);
		parts.erase(parts.begin());
	}
	for (auto &p : parts)
		c->frags.push_back(p);
	if (!parts.empty())
		eng::count("fragmented sends");
}
void Daemon::close_client(Cl *c) {
	if (c->fd < 0)
		return;
	::close(c->fd);
	c->fd = -1;
	c->peer_closed = true;
	c->frags.clear();
}
void Daemon::read_client(Cl *c, size_t limit) {
	char buf[4096], ctl[CMSG_SPACE(260 * sizeof(int))];
	while (limit && c->fd >= 0) {
		struct iovec v = {buf, std::min(limit, sizeof buf)};
		struct msghdr m = {};
		m.msg_iov = &v;
		m.msg_iovlen = 1;
		m.msg_control = ctl;
		m.msg_controllen = sizeof ctl;
		ssize_t n = ::recvmsg(c->fd, &m, MSG_DONTWAIT | MSG_CMSG_CLOEXEC);
		if (n < 0)
			return;
		for (struct cmsghdr *h = CMSG_FIRSTHDR(&m); h; h = CMSG_NXTHDR(&m, h))
			if (h->cmsg_level == SOL_SOCKET && h->cmsg_type == SCM_RIGHTS) {
				size_t k = (h->cmsg_len - CMSG_LEN(0)) / sizeof(int);
				for (size_t i = 0; i < k; i++) {
					int f;
					memcpy(&f, CMSG_DATA(h) + i * sizeof(int), sizeof f);
					uint64_t ino = ino_of(f);
					if (c->rxfds >= c->visfds.size() || c->visfds[c->rxfds] != ino)
						eng::inv(tg(T(6) | T(24) | T(14)), "descriptor-order", "c%d receives a descriptor out of order", c->id);
					c->rxfds++;
					Ofd *o = K.by_ino(ino);
					if (o && o->kind == N_CARD)
						c->fds.push_back(f); // keeps the description alive
					else
						::close(f);
				}
			}
		if (n == 0) {
			c->saw_eof = true;
			return;
		}
		limit -= n;
		if (c->rx.size() + n > c->vis.size() || memcmp(c->vis.data() + c->rx.size(), buf, n))
			eng::inv(tg(T(7) | T(24)), "stream", "c%d receives bytes that differ from what was sent", c->id);
		c->rx.append(buf, n);
		while (c->rx.size() - c->rxdec >= 4) {
			uint16_t op, sz;
			memcpy(&op, c->rx.data() + c->rxdec, 2);
			memcpy(&sz, c->rx.data() + c->rxdec + 2, 2);
			if (c->rx.size() - c->rxdec < 4u + sz)
				break;
			c->rxdec += 4 + sz;
			if (op == S_DEVOPENED) {
				c->rxdevs++;
				if (c->rxfds < c->rxdevs)
					eng::inv(tg(T(6) | T(24) | T(14)), "descriptor-late", "c%d receives a device-opened reply before its descriptor", c->id);
			}
			if (op == S_DISABLE && (cs->cfg[12] & 1) && !c->is_lib) {
				uint16_t h[2] = {DISABLE_SEAT, 0};
				send_bytes(c, std::string((char *)h, 4), 0, 0);
			}
		}
	}
}
void Daemon::autoread(bool force) {
	for (auto &p : cl)
		if (p->fd >= 0 && (!p->slow || force) && !p->is_lib)
			read_client(p.get(), (size_t)-1);
}

static void put16(std::string &s, int v) { s.append((const char *)&v, 2); }
static std::string msg(int op, const std::string &body = "") {
	std::string s;
	put16(s, op);
	put16(s, (int)body.size());
	return s + body;
}
static std::string msg_open(const std::string &path) {
	std::string b;
	put16(b, (int)path.size() + 1);
	b += path;
	b += '\0';
	return msg(OPEN_DEVICE, b);
}
static std::string msg_int(int op, int v) { return msg(op, std::string((char *)&v, 4)); }

static const char *GOOD[] = {"/dev/dri/card0", "/dev/dri/card1", "/dev/input/event0", "/dev/input/event1", "/dev/input/event2", "/dev/dri/renderD128", "/dev/input/event3", "/dev/dri/card2"};
static const char *ALT[] = {"/dev/dri/by-path/pci-0-card", "/dev//dri/./card0", "/dev/input/../dri/card1", "dev/dri/card0", "/tmp/lnk-card", "/tmp/lnk-ev", "/tmp/lnk-dri/card1",
			    "/home/u/chain", "/dev/input/by-id/usb-kbd", "/dev/input/eventlnk", "/dev/dri/by-path/../../input/event0", "//dev/input//event4", "/dev/dri/by-path/pci-0-render",
			    "/tmp/lnk-hid", "/dev/hidraw0", "/dev/hidraw2", "/dev/../dev/hidraw1", "/tmp/../dev/input/by-id/usb-mouse", "/dev/input/by-id/../event5"};
static const char *BAD[] = {"/etc/shadow", "/dev/mem", "/dev/tty1", "/dev/tty0", "/dev/dri/evil", "/dev/dri/eviltty", "/dev/input/event9x", "/dev/dri/../mem", "/dev/dri/../../etc/shadow",
			    "/dev/input/event0/../../mem", "/dev/input/mouse0", "/dev/input/js0", "/dev/inputs/event0", "/dev/drifoo/card0", "/dev/dri_card0", "/dev/hidra", "/dev/hidrawx",
			    "/dev/dri", "/dev/dri/", "/dev/dri/by-path", "/dev/input", "/nowhere", "/dev/dri/card9", "/dev/input/event99", "/tmp/lnk-loop", "/tmp/lnk-dang", "/tmp/lnk-shadow",
			    "/tmp/dev/dri/card0", "/tmp/dev/input/event0", "tmp/dev/dri/card0", "/", ".", "..", "/dev/dri/card0/", "/dev/dri/card0/x", "card0", "/dev/sda", "/dev/uinput", "/dev/fb0",
			    "/dev/input/mice", "/DEV/dri/card0", " /dev/dri/card0", "/dev/dri/card0 ", "/dev/input/even", "/dev/shm", "/dev/dri/.."};
#define N_OF(a) (sizeof(a) / sizeof((a)[0]))
std::string Daemon::path_for(uint32_t d) {
	uint32_t k = d & 0xff, r = d >> 8;
	if (k < 110)
		return GOOD[r % N_OF(GOOD)];
	if (k < 150)
		return ALT[r % N_OF(ALT)];
	if (k < 190)
		return BAD[r % N_OF(BAD)];
	if (k < 200)
		return "/dev/hidraw" + std::to_string(r % 4);
	if (k < 225) { // long spelling of a good or bad path
		std::string base = (r & 1) ? GOOD[(r >> 1) % N_OF(GOOD)] : (r & 2) ? BAD[(r >> 2) % N_OF(BAD)] : ALT[(r >> 2) % N_OF(ALT)];
		size_t want = 255 - (r % 5 == 0 ? (r >> 4) % 200 : (r >> 4) % 9);
		if (base[0] != '/')
			base = "/" + base;
		std::string pre;
		while (pre.size() + 2 + base.size() <= want)
			pre += (r & 8) ? "/." : "//";
		while (pre.size() + 1 + base.size() <= want)
			pre += "/";
		return pre + base;
	}
	if (k < 230)
		return "";
	if (k < 245)
		return "/dev/input/event" + std::to_string(r % 210);
	std::string s;
	Rng q(r);
	size_t n = 1 + q.below(255);
	for (size_t i = 0; i < n; i++)
		s += (char)(1 + q.below(255));
	return s;
}
Cl *Daemon::pick(uint16_t a) {
	std::vector<Cl *> live, f;
	for (auto &p : cl)
		if (p->fd >= 0 && !p->is_lib)
			live.push_back(p.get());
	if (live.empty())
		return nullptr;
	for (Cl *c : live)
		switch (a & 7) {
		case 4: if (c == m_active) f.push_back(c); break;
		case 5: if (c->member && c != m_active) f.push_back(c); break;
		case 6: if (!c->member && c->session == -1) f.push_back(c); break;
		case 7: if (c->member && c->st == PENDING) f.push_back(c); break;
		}
	if (f.empty())
		f = live;
	return f[(a >> 3) % f.size()];
}

enum { O_CONNECT, O_OPENSEAT, O_CLOSESEAT, O_OPENDEV, O_CLOSEDEV, O_ACK, O_SWITCH, O_PING, O_RAW, O_CLOSE, O_SHUTWR, O_SLOW, O_USERVT, O_ARM, O_SENDFDS, O_BURST, O_VFS, O_SIGNAL, O_IO,
       O_FOREIGN, O_PIPE, O_ACKALL, O_JOIN, O_READSOME, O_LIB, O_CHURN, O_ROLL, O_COUNT };
static const char *ONAME[] = {"connect", "open-seat", "close-seat", "open-device", "close-device", "ack-disable", "switch", "ping", "raw", "close", "shut-wr", "slow", "user-vt", "arm", "send-fds", "burst",
			      "vfs", "signal", "io", "foreign-master", "pings", "ack-all", "join", "read-some", "lib", "churn", "roll"};

static std::string raw_message(uint32_t d) {
	Rng r(d);
	std::string s;
	switch (r.below(16)) {
	case 0: // unknown opcode
		put16(s, 8 + r.below(60000));
		put16(s, r.below(2) ? 0 : r.below(40));
		for (int i = r.below(40); i > 0; i--)
			s += (char)r.next();
		return s;
	case 1: { // wrong size for a bodiless request
		static const int ops[] = {OPEN_SEAT, CLOSE_SEAT, DISABLE_SEAT, PING};
		int n = 1 + r.below(40);
		return msg(ops[r.below(4)], std::string(n, (char)r.next()));
	}
	case 2: { // close-device / switch with wrong size
		int n = r.below(12);
		if (n == 4)
			n = 5;
		return msg(r.below(2) ? CLOSE_DEVICE : SWITCH_SESSION, std::string(n, 1));
	}
	case 3: { // open-device: length field disagrees
		std::string b;
		put16(b, r.below(60));
		b += std::string(r.below(60), 'x') + std::string(1, '\0');
		return msg(OPEN_DEVICE, b);
	}
	case 4: { // open-device: not terminated
		std::string b, p = "/dev/dri/card0";
		put16(b, (int)p.size());
		b += p;
		return msg(OPEN_DEVICE, b);
	}
	case 5: { // embedded NUL
		std::string b, p = std::string("/dev/dri/card0\0/x", 17);
		p += '\0';
		put16(b, (int)p.size());
		b += p;
		return msg(OPEN_DEVICE, b);
	}
	case 6: { // empty body / only a length
		std::string b;
		if (r.below(2))
			put16(b, r.below(2) ? 0 : 0xffff);
		return msg(OPEN_DEVICE, b);
	}
	case 7: { // over-long path
		int n = 257 + r.below(r.below(2) ? 8 : 3000);
		std::string b;
		put16(b, n);
		b += std::string(n - 1, '/') + std::string(1, '\0');
		return msg(OPEN_DEVICE, b);
	}
	case 8: { // huge header, endless payload
		put16(s, r.below(10));
		put16(s, 600 + r.below(64000));
		s += std::string(r.below(2) ? 6000 : r.below(700), (char)r.next());
		return s;
	}
	case 9: // random bytes
		for (int i = 1 + r.below(300); i > 0; i--)
			s += (char)r.next();
		return s;
	case 10: // zeros
		return std::string(1 + r.below(200), '\0');
	case 11: // server opcodes
		return msg(0x8000 + r.below(12), r.below(2) ? std::string(4, 1) : "");
	case 12: { // maximal body that is all NUL
		int n = 1 + r.below(256);
		std::string b;
		put16(b, n);
		b += std::string(n, '\0');
		return msg(OPEN_DEVICE, b);
	}
	case 13:
	case 14: { // a proper path followed by more
		std::string b, p = r.below(2) ? "/dev/dri/card0" : "/dev/input/event0";
		put16(b, (int)p.size() + 1);
		b += p + std::string(1, '\0') + std::string(1 + r.below(r.below(2) ? 4 : 200), (char)(r.below(2) ? 0 : 'x'));
		return msg(OPEN_DEVICE, b);
	}
	default: { // path of exactly 256 non-NUL bytes
		std::string b;
		put16(b, 256);
		b += std::string(256, 'a');
		return msg(OPEN_DEVICE, b);
	}
	}
}

void Daemon::exec(const Op &o) {
	int k = o.k % O_COUNT;
	Cl *c = pick(o.a);
	int frag = (o.f >> 3) & 3;
	eng::trace("OP %s f=%d a=%d b=%d c=%d d=%u%s%s", ONAME[k], o.f, o.a, o.b, o.c, o.d, c ? " target c" : "", c ? std::to_string(c->id).c_str() : "");
	switch (k) {
	case O_CONNECT:
		connect_client();
		break;
	case O_JOIN: { // connect and open the seat
		Cl *n = connect_client();
		if (n)
			send_bytes(n, msg(OPEN_SEAT), frag, o.d);
		break;
	}
	case O_OPENSEAT:
		if (c)
			send_bytes(c, msg(OPEN_SEAT), frag, o.d);
		break;
	case O_CLOSESEAT:
		if (c)
			send_bytes(c, msg(CLOSE_SEAT), frag, o.d);
		break;
	case O_OPENDEV:
		if (c)
			send_bytes(c, msg_open(path_for(o.d)), frag, o.d);
		break;
	case O_CLOSEDEV:
		if (c) {
			int id = 0;
			if ((o.b & 7) < 6 && !c->devs.empty()) {
				auto it = c->devs.begin();
				std::advance(it, o.c % c->devs.size());
				id = it->first;
			} else if ((o.b & 7) == 6 && !cl.empty()) { // another client's id
				Cl *x = cl[o.c % cl.size()].get();
				id = x->devs.empty() ? 1 : x->devs.rbegin()->first;
			} else {
				static const int ids[] = {0, -1, 1, 2, 129, INT_MAX, INT_MIN, 65536, 3, 128};
				id = ids[o.c % 10];
			}
			send_bytes(c, msg_int(CLOSE_DEVICE, id), frag, o.d);
		}
		break;
	case O_ACK:
		if (c)
			send_bytes(c, msg(DISABLE_SEAT), frag, o.d);
		break;
	case O_ACKALL:
		for (auto &p : cl)
			if (p->fd >= 0 && p->st == PENDING && !p->is_lib)
				send_bytes(p.get(), msg(DISABLE_SEAT), 0, 0);
		break;
	case O_SWITCH:
		if (c) {
			int s = 0;
			std::vector<int> ss;
			for (auto &p : cl)
				if (p->member && p.get() != c)
					ss.push_back(p->session);
			if ((o.b & 7) < 5 && !ss.empty())
				s = ss[o.c % ss.size()];
			else if ((o.b & 7) == 5)
				s = c->session;
			else if ((o.b & 7) == 6 || (vtb && (o.d & 3)))
				s = cs->cfg[0] & 16 ? far_vt(o.c) : 1 + o.c % 6;
			else {
				static const int v[] = {0, -1, 99, INT_MAX, INT_MIN, 1, 2, 3, 4, 63};
				s = v[o.c % 10];
			}
			send_bytes(c, msg_int(SWITCH_SESSION, s), frag, o.d);
		}
		break;
	case O_PING:
		if (c)
			send_bytes(c, msg(PING), frag, o.d);
		break;
	case O_PIPE:
		if (c) {
			std::string s;
			int n = 1 + o.b % 60;
			for (int i = 0; i < n; i++) {
				uint32_t q = (o.d >> (i % 8)) + i * 7;
				if ((o.c & 7) == 7) // requests for sessions, some of them our own
					s += q % 3 == 0 ? msg(PING) : msg_int(SWITCH_SESSION, q % 3 == 1 ? c->session : 1 + (int)(q % 5));
				else if ((o.c & 7) == 6) // devices, one after another
					s += q % 4 == 0 ? msg(PING) : q % 4 == 1 ? msg_open(GOOD[q % N_OF(GOOD)]) : msg_int(CLOSE_DEVICE, 1 + q % 20);
				else if ((o.c & 15) == 5) // in and out of the seat
					s += q % 3 == 0 ? msg(PING) : msg(i & 1 ? OPEN_SEAT : CLOSE_SEAT);
				else s += (o.c & 1) ? msg(PING) : (q % 5 == 0) ? msg_int(CLOSE_DEVICE, 1 + q % 3) : (q % 5 == 1) ? msg_open(GOOD[q % N_OF(GOOD)]) : msg(PING);
			}
			send_bytes(c, s, frag, o.d);
		}
		break;
	case O_RAW:
		if (c) {
			std::string s;
			if (o.b & 1)
				s = msg(PING);
			if ((o.b & 6) == 2)
				s += msg_open(GOOD[o.c % N_OF(GOOD)]);
			s += raw_message(o.d);
			if (o.b & 8)
				s += msg(PING);
			send_bytes(c, s, frag, o.d);
		}
		break;
	case O_CLOSE:
		if (c)
			close_client(c);
		break;
	case O_SHUTWR:
		if (c) {
			if (!c->frags.empty())
				break;
			::shutdown(c->fd, SHUT_WR);
			c->wrshut = true;
		}
		break;
	case O_SLOW:
		if (c) {
			c->slow = !c->slow;
			if (c->slow)
				caseTags |= T(24), c->ever_slow = true;
		}
		break;
	case O_READSOME:
		if (c)
			read_client(c, 1 + o.b % 40);
		break;
	case O_USERVT: {
		int v = cs->cfg[0] & 16 ? far_vt(o.b % 4) : 1 + o.b % 4;
		if ((o.c & 3) == 0) { // to a VT with a session
			std::vector<int> ss;
			for (auto &p : cl)
				if (p->member)
					ss.push_back(p->session);
			if (!ss.empty())
				v = ss[o.d % ss.size()];
		}
		eng::count("VT switches by the user");
		if (eng::wants(12))
			eng::nontrivial(), eng::sig(v);
		if (vtb && v >= 1 && v <= NVT)
			K.user_switch(v);
		break;
	}
	case O_SIGNAL:
		if (!vtb) {
			deliver(o.b & 1 ? SIGUSR1 : SIGUSR2);
			if (eng::wants(12))
				eng::nontrivial(), eng::sig(o.b & 1);
		}
		break;
	case O_ARM:
		if (!in_arm) {
			static const int what[] = {O_USERVT, O_CLOSE, O_USERVT, O_VFS, O_SIGNAL, O_USERVT, O_ACKALL, O_JOIN};
			arm_op = o;
			arm_op.k = what[o.f % 8];
			arm_op.f = 0;
			arm_op.a = o.b;
			arm_op.b = o.c;
			arm_op.c = o.d;
			arm_after = o.a % 30;
		}
		break;
	case O_SENDFDS:
		if (c && !c->wrshut && c->frags.empty()) {
			int n = 1 + (o.b % 8 == 0 ? o.c % 240 : o.c % 6);
			int p[2];
			if (::pipe2(p, O_CLOEXEC) != 0)
				break;
			std::string b = (o.b & 16) ? msg(PING) : (o.b & 32) ? msg_open(GOOD[o.d % N_OF(GOOD)]) : raw_message(o.d);
			char ctl[CMSG_SPACE(250 * sizeof(int))];
			memset(ctl, 0, sizeof ctl);
			struct iovec v = {(void *)b.data(), b.size()};
			struct msghdr m = {};
			m.msg_iov = &v;
			m.msg_iovlen = 1;
			m.msg_control = ctl;
			m.msg_controllen = CMSG_SPACE(n * sizeof(int));
			struct cmsghdr *h = CMSG_FIRSTHDR(&m);
			h->cmsg_level = SOL_SOCKET;
			h->cmsg_type = SCM_RIGHTS;
			h->cmsg_len = CMSG_LEN(n * sizeof(int));
			for (int i = 0; i < n; i++)
				memcpy(CMSG_DATA(h) + i * sizeof(int), &p[0], sizeof(int));
			ssize_t r = ::sendmsg(c->fd, &m, MSG_DONTWAIT | MSG_NOSIGNAL);
			if (r > 0) {
				c->sent += r;
				if ((size_t)r < b.size())
					c->frags.push_front(b.substr(r));
				// more descriptors than fit may end the connection
				c->legit_drop = true;
				c->legit = "descriptors";
				if (eng::wants(9) || eng::wants(8))
					eng::nontrivial(), eng::sig(n);
			}
			::close(p[0]);
			::close(p[1]);
		}
		break;
	case O_BURST:
		if (c && K.ks->nofd < 2000) {
			int n = 1 + o.b % 140, from = o.c % 60;
			std::string s;
			for (int i = 0; i < n; i++)
				s += msg_open("/dev/input/event" + std::to_string(from + i));
			send_bytes(c, s, 0, 0);
		}
		break;
	case O_VFS: {
		vfs_changed = true;
		int w = o.b % 7, i = o.c % 4;
		std::string ev = "/dev/input/event" + std::to_string(i), card = "/dev/dri/card" + std::to_string(i % 3);
		switch (w) {
		case 0: K.remove(ev); break;
		case 1: K.add(ev, N_EVDEV, "", i); break;
		case 2: K.add(ev, N_LINK, "/etc/shadow"); break;
		case 3: K.add("/tmp/lnk-card", N_LINK, o.c & 8 ? "/dev/dri/card1" : "/dev/mem"); break;
		case 4:
			if (K.fs.count(card))
				K.fs[card].open_errno = (o.c & 8) ? 0 : (o.c & 16) ? EACCES : ENODEV;
			break;
		case 5:
			if (K.fs.count(ev))
				K.fs[ev].open_errno = (o.c & 8) ? 0 : (o.c & 16) ? EIO : ENXIO;
			break;
		case 6: K.add(card, (o.c & 8) ? N_LINK : N_CARD, (o.c & 8) ? "/dev/mem" : "", i % 3); break;
		}
		break;
	}
	case O_IO:
		p_short = (o.b & 3) == 1 ? 50 : (o.b & 3) == 2 ? 90 : 0;
		p_eintr = (o.b & 4) ? 25 : 0;
		p_eagain = (o.b & 8) ? 30 : 0;
		p_rshort = (o.b & 48) == 16 ? 50 : (o.b & 48) == 32 ? 90 : 0;
		break;
	case O_FOREIGN: {
		int n = o.b % 3;
		auto it = K.fs.find("/dev/dri/card" + std::to_string(n));
		if (it != K.fs.end() && it->second.kind == N_CARD) {
			if (K.ks->foreign_master[n])
				K.ks->foreign_master[n] = 0;
			else if (!K.held(it->second.idx))
				K.ks->foreign_master[n] = 1;
		}
		break;
	}
	case O_LIB:
		lib_op(o);
		break;
	case O_CHURN:
		churn = 1 + (o.b & 3 ? o.c % 30 : o.c % 300);
		break;
	case O_ROLL: // open and close in turn, so that the device ids grow
		if (c) {
			roll = (o.b & 1) ? 257 + o.c % 30 : o.c % 140;
			roll_cl = c->id;
			roll_same = (o.b & 6) == 2;
		}
		break;
	}
}

// ---------------------------------------------------------------- scheduler: the daemon waits for events
int Daemon::poll(struct pollfd *f, nfds_t n, int timeout) {
	(void)timeout;
	if (!serving && !finished) {
		serving = true;
		base_allocs = allocs;
		base_bytes = bytes;
		base_fd_other = 0;
		for (auto &p : owned)
			if (p.second.k == FdInfo::LISTEN || p.second.k == FdInfo::PIPE || p.second.k == FdInfo::OTHER)
				base_fd_other++;
	}
	finish_input();
	cur = -1;
	check_unmatched();
	for (nfds_t i = 0; i < n; i++)
		if (f[i].fd >= 0 && !owned.count(f[i].fd))
			eng::inv(tg(T(9) | T(8)), "poll-bad-fd", "the daemon polls descriptor %d, which it has closed", f[i].fd);
	if (++polls > 6000) {
		eng::inv(TALL, "spin", "the daemon spins: %ld poll rounds without any new event", polls);
		::_exit(0);
	}
	for (;;) {
		autoread(false);
		if (pump())
			continue;
		int r = ::poll(f, n, 0);
		if (r > 0)
			return r;
		if (r < 0) {
			eng::inv(tg(T(8)), "poll-error", "poll: %s", strerror(errno));
			return -1;
		}
		if (finished) {
			eng::inv(tg(T(22)), "no-exit", "the daemon goes on waiting for events after SIGTERM");
			::_exit(0);
		}
		quiesce_checks();
		lib_quiet();
		polls = 0;
		if (quiescent_step()) {
			errno = EINTR;
			return -1;
		}
	}
}
bool Daemon::quiescent_step() {
	got_signal = false;
	auto frags = [&]() {
		bool any = false;
		for (auto &p : cl)
			if (!p->frags.empty() && p->fd >= 0) {
				std::string s = p->frags.front();
				p->frags.pop_front();
				size_t q = p->frags.size();
				push_raw(p.get(), s);
				if (p->frags.size() <= q)
					any = true;
				else if (p->dropped || p->saw_eof)
					p->frags.clear();
			}
		return any;
	};
	const auto &ops = cs->ops;
	if (phase == 0 && !churners.empty()) {
		for (int i : churners)
			close_client(cl[i].get());
		churners.clear();
		return false;
	}
	if (phase == 0 && roll > 0) {
		Cl *c = cl[roll_cl].get();
		roll--;
		if (c->fd < 0 || c != m_active || c->slow)
			roll = 0;
		else {
			std::string s;
			size_t left = c->devs.size();
			if (roll_same) { // one device, again and again
				int k = roll < 9 ? roll : 9;
				roll -= k;
				for (int i = 0; i <= k; i++)
					s += msg_open("/dev/input/event1");
				if (roll == 0)
					for (auto &p : c->devs)
						s += msg_int(CLOSE_DEVICE, p.first) + msg_int(CLOSE_DEVICE, p.first);
				send_bytes(c, s, 0, 0);
				return got_signal;
			}
			for (auto it = c->devs.begin(); left > 1; ++it, left--)
				s += msg_int(CLOSE_DEVICE, it->first);
			s += msg_open("/dev/input/event" + std::to_string(roll % 4));
			send_bytes(c, s, 0, 0);
			eng::count("device openings in a row");
			return got_signal;
		}
	}
	if (phase == 0 && churn > 0) {
		churned = true;
		for (int i = 0; i < 5 && churn > 0; i++, churn--) {
			Cl *c = connect_client();
			if (!c) {
				churn = 0;
				break;
			}
			uint32_t q = io.next();
			std::string s = msg(OPEN_SEAT);
			if (q & 1)
				s += msg(PING);
			if (!(q & 6))
				s += msg_open(GOOD[(q >> 4) % N_OF(GOOD)]);
			if (q & 8)
				s += msg(CLOSE_SEAT);
			send_bytes(c, s, 0, 0);
			churners.push_back(c->id);
			eng::count("short-lived clients");
		}
		return got_signal;
	}
	if (phase == 0) {
		bool defer = opi < ops.size() && (ops[opi].f & 4);
		if (!defer && frags())
			return got_signal;
		while (opi < ops.size()) {
			const Op &o = ops[opi++];
			exec(o);
			if (!(o.f & 1))
				break;
		}
		if (opi >= ops.size())
			phase = 1;
		return got_signal && !(io.next() & 1);
	}
	if (phase == 1) { // drain
		fclass = 0;
		arm_after = -1;
		p_short = p_eintr = p_eagain = p_rshort = 0;
		for (auto &p : cl)
			p->slow = false;
		if (frags())
			return got_signal;
		phase = 2;
		return false;
	}
	if (phase == 2) {
		if (lib_end())
			return false;
		for (auto &p : cl)
			if (p->fd >= 0 && !p->is_lib && !p->peer_closed && p->accepted && !p->dropped && p->rx.size() != p->vis.size() && !p->limbo)
				eng::inv(tg(T(24) | T(7)), "output-lost", "c%d has read %zu of %zu bytes", p->id, p->rx.size(), p->vis.size());
		if (cs->cfg[11] & 1) {
			phase = 8;
		} else {
			for (auto &p : cl)
				if (!p->is_lib)
					close_client(p.get());
			phase = 3;
			return false;
		}
	}
	if (phase == 3) {
		idle_checks();
		for (int i = 0; i < 3; i++) {
			auto &n = K.add("/dev/dri/card" + std::to_string(i), N_CARD, "", i);
			n.open_errno = 0;
			K.ks->foreign_master[i] = 0;
		}
		Cl *c = connect_client();
		if (c) {
			sub = c->id;
			send_bytes(c, msg(OPEN_SEAT), 0, 0);
			phase = 4;
			return false;
		}
		phase = 8;
	}
	if (phase == 4) {
		Cl *c = cl[sub].get();
		if (!c->told_enabled)
			eng::inv(tg(T(8) | T(10) | T(11) | T(25) | T(24) | (vtb ? T(12) : 0)), "probe", "after all other clients have gone, a new client does not get the seat");
		send_bytes(c, msg_open("/dev/dri/card0") + msg(PING), 0, 0);
		phase = 5;
		return false;
	}
	if (phase == 5) {
		Cl *c = cl[sub].get();
		if (c->told_enabled && c->rxdevs != 1)
			eng::inv(tg(T(2) | T(6) | T(25) | T(8)), "probe", "after all other clients have gone, a new client cannot open a device");
		close_client(c);
		phase = 6;
		return false;
	}
	if (phase == 6) {
		idle_checks();
		phase = 8;
	}
	finished = true;
	eng::trace("SIGTERM");
	deliver(cs->cfg[11] & 2 ? SIGINT : SIGTERM);
	if (cs->cfg[11] & 4)
		deliver(cs->cfg[11] & 2 ? SIGTERM : SIGINT); // both in the same round
	return true;
}

// ---------------------------------------------------------------- one case
static const char *const ARGT[][2] = {{"-l", "debug"}, {"-l", "info"}, {"-l", "error"}, {"-l", "silent"}, {"-u", "alice"}, {"-u", "nosuch"}, {"-g", "video"}, {"-g", "nosuch"},
				      {"-z", NULL}, {"-n", "READY"}, {"-v", NULL}, {"-h", NULL}, {"-x", NULL}, {"-l", "loud"}, {"-n", "-5"}, {"-u", "root"}, {"-g", "root"}, {"-n", "-1"}, {"-n", "READY0"}, {"-l", NULL}};
enum { ARG_LAST = N_OF(ARGT) - 1 }; // an option whose argument is missing: only as the last one
static std::vector<int> startup_args(const Case &c) {
	std::vector<int> v;
	int n = c.cfg[10] % 4;
	for (int i = 0; i < n; i++) {
		int k = c.cfg[13 + i] % N_OF(ARGT);
		if (k == ARG_LAST && i != n - 1)
			k = 0;
		v.push_back(k);
	}
	return v;
}
void Daemon::init_case(const Case &c) {
	cs = &c;
	K.reset(c.cfg[8] & 1);
	K.raise = [this](int s) { deliver(s); };
	K.fault = [this](int cls) { return fault(cls); };
	K.on_reldisp = [this](int vt, bool rel) {
		eng::trace("   VT_RELDISP %s on VT %d (foreground %d)", rel ? "release" : "ack", vt, K.ks->fg);
		int fg = seen_fg();
		input(rel ? I_RELEASE : I_ACQUIRE, nullptr);
		win_acq_vt = fg;
		win_rel_ok = K.ks->vt[vt].mode == VT_PROCESS && K.ks->vt[vt].newvt >= 0;
		cur = -1;
		if (rel)
			on_release(vt);
	};
	opi = 0;
	cl.clear();
	backlog.clear();
	owned.clear();
	listen_fd = -1;
	allocs = bytes = base_allocs = base_bytes = 0;
	blocks.clear();
	serving = started = finished = ended = got_signal = false;
	acts.clear();
	polls = 0;
	phase = sub = 0;
	uint64_t h = 1469598103934665603ull;
	for (int i = 0; i < 16; i++)
		h = (h ^ c.cfg[i]) * 1099511628211ull;
	io = Rng(h);
	vtb = !(c.cfg[0] & 1);
	if (c.cfg[0] & 16)
		K.ks->fg = far_vt(c.cfg[0] >> 5);
	fclass = c.cfg[3] % F_NCLASS;
	tty_fault = false;
	fnth = 1 + c.cfg[4] % 40;
	fcount = fclass ? 1 + (c.cfg[6] % 8 == 0 ? c.cfg[6] / 8 % 4 : 0) : 0;
	fseen = 0;
	static const int errs[][4] = {{0, 0, 0, 0}, {ENOMEM, ENOMEM, ENOMEM, ENOMEM}, {ENODEV, EACCES, ENFILE, EMFILE}, {EMFILE, EMFILE, EMFILE, EMFILE}, {EACCES, EBUSY, EINVAL, EIO},
				      {EACCES, EINVAL, EIO, EPERM}, {ENODEV, EINVAL, ENOTTY, EIO}, {ENOMEM, EACCES, EIO, ELOOP}, {EMFILE, ECONNABORTED, ENFILE, ENOBUFS},
				      {EPIPE, ECONNRESET, ENOMEM, ENOBUFS}, {ECONNRESET, ENOMEM, EIO, ECONNRESET}, {EINVAL, EBADF, EINVAL, EINVAL}, {ENOPROTOOPT, EINVAL, EBADF, ENOBUFS}, {EMFILE, ENFILE, EACCES, ENXIO},
				      {EIO, ENOTTY, EPERM, EINVAL}};
	ferrno = errs[fclass][c.cfg[5] % 4];
	fired_window = fired_ever = false;
	p_short = (c.cfg[1] & 3) == 1 ? 40 : (c.cfg[1] & 3) == 2 ? 85 : 0;
	p_eintr = (c.cfg[1] & 4) ? 20 : 0;
	p_eagain = (c.cfg[1] & 8) ? 25 : 0;
	p_rshort = (c.cfg[1] & 48) == 16 ? 40 : (c.cfg[1] & 48) == 32 ? 85 : 0;
	pin = I_NONE;
	pcl = nullptr;
	cur = -1;
	vfs_changed = false;
	inputno = 0;
	model_on = true;
	m_active = m_next = nullptr;
	m_cur_vt = 0;
	m_sessions = m_order = 0;
	holder = nullptr;
	susp.clear();
	arm_after = -1;
	in_arm = false;
	exit_code = -1;
	env.clear();
	outlog.clear();
	dead_exempt.clear();
	attempts.clear();
	churn = 0;
	roll = 0;
	churned = false;
	churners.clear();
	caseTags = fclass ? 0 : 0;
	if (c.cfg[0] & 1)
		env["SEATD_VTBOUND"] = (c.cfg[0] & 2) ? "0" : (c.cfg[0] & 4) ? "" : "no";
	else if (c.cfg[0] & 2)
		env["SEATD_VTBOUND"] = "1";
	startup = eng::wants(22);
	ready_fd = -1;
	ready_zero = false;
	ready_data.clear();
	ready_closed = ready_before_listen = false;
	chowns.clear();
	chmods.clear();
	unlinks = 0;
	touches = 0;
	for (int i = 0; i < 3; i++)
		if ((c.cfg[7] >> i) & 1 && (c.cfg[7] & 8))
			K.ks->foreign_master[i] = 1;
}
extern int optind;
void Daemon::run(const Case &c) {
	init_case(c);
	std::vector<std::string> av = {"seatd"};
	::unlink(SOCKP);
	int rp[2] = {-1, -1};
	int pre = 0;
	bool z = false, bad = false, quit = false, ug = false, readyarg = false;
	long wantu = -1, wantg = -1;
	if (startup) {
		for (int k : startup_args(c)) {
			av.push_back(ARGT[k][0]);
			std::string a = ARGT[k][1] ? ARGT[k][1] : "";
			if (a == "READY" || a == "READY0") {
				if (!readyarg)
					ready_zero = a == "READY0"; // a caller may hand over its standard input
				if (::pipe2(rp, O_CLOEXEC) == 0 && !readyarg) {
					ready_fd = ::fcntl(rp[1], F_DUPFD_CLOEXEC, 3000);
					::close(rp[1]);
					::fcntl(rp[0], F_SETFL, O_NONBLOCK);
				}
				readyarg = true;
				av.push_back(ready_zero ? "0" : std::to_string(ready_fd));
			} else if (ARGT[k][1])
				av.push_back(a);
			switch (k) {
			case 4: wantu = 100070; ug = true; break;
			case 15: wantu = 0; ug = true; break;
			case 6: wantg = 70555; ug = true; break;
			case 16: wantg = 0; ug = true; break;
			case 5: case 7: case 12: case 13: case 14: case 17: case ARG_LAST: bad = true; break;
			case 8: z = true; break;
			case 10: case 11: quit = true; break;
			}
		}
		if (z && ug)
			bad = true;
		pre = c.cfg[9] % 9;
		struct sockaddr_un u = {};
		u.sun_family = AF_UNIX;
		int s;
		switch (pre) {
		case 1:
		case 2:
			s = ::socket(AF_UNIX, SOCK_STREAM, 0);
			strcpy(u.sun_path, SOCKP);
			if (::bind(s, (struct sockaddr *)&u, sizeof u) != 0)
				abort();
			::close(s);
			break;
		case 3:
			s = ::open(SOCKP, O_CREAT | O_RDWR, 0600);
			if (s < 0 || ::write(s, "data", 4) != 4)
				abort();
			::close(s);
			break;
		case 4:
			::unlink("other.sock");
			s = ::socket(AF_UNIX, SOCK_STREAM, 0);
			strcpy(u.sun_path, "other.sock");
			if (::bind(s, (struct sockaddr *)&u, sizeof u) != 0 || symlink("other.sock", SOCKP) != 0)
				abort();
			::close(s);
			break;
		case 5:
			if (mkdir(SOCKP, 0700) != 0)
				abort();
			break;
		case 6:
			if (mkfifo(SOCKP, 0600) != 0)
				abort();
			break;
		case 7:
			if (symlink("nowhere", SOCKP) != 0)
				abort();
			break;
		}
	} else if (c.cfg[13] & 1) {
		av.push_back("-l");
		av.push_back((c.cfg[13] & 2) ? "debug" : "silent");
	}
	std::vector<char *> argv;
	for (auto &s : av)
		argv.push_back((char *)s.c_str());
	argv.push_back(NULL);
	struct stat st0, st1;
	bool had = ::lstat(SOCKP, &st0) == 0;
	::optind = 0;
	sut_sys = this;
	exit_code = seatd_main((int)argv.size() - 1, argv.data());
	finish_input();
	if (startup) {
		bool refuse = pre >= 3 && pre <= 7;
		if ((pre == 1 || pre == 2) && z)
			refuse = true;
		bool chfail = ug && (c.cfg[12] & 0x30) != 0 && (c.cfg[12] & 0x30) != 0x30;
		eng::nontrivial();
		eng::sig(pre);
		for (auto &s : av)
			for (char ch : s)
				eng::sig(ch);
		if (bad || quit) {
			eng::count("starts with options that end at once");
			if (serving)
				eng::inv(T(22), "options", "the daemon starts although its options are invalid or only ask for information");
			if (bad && !quit && exit_code == 0)
				eng::inv(T(22), "options-status", "invalid or conflicting options, but the exit status is 0");
			if (quit && !bad && exit_code != 0)
				eng::inv(T(22), "options-status", "-h or -v ends with status %d", exit_code);
			if (touches || !chowns.empty() || !chmods.empty() || unlinks)
				eng::inv(T(22), "options-touch", "invalid or conflicting options, but the file system is touched");
		} else if (refuse) {
			eng::count("starts refused for what is at the socket path");
			if (serving || exit_code == 0)
				eng::inv(T(22), "refuse", "the daemon does not refuse to start although its socket path is taken (case %d%s)", pre, z ? ", -z" : "");
			if (::lstat(SOCKP, &st1) != 0 || st1.st_ino != st0.st_ino || st1.st_mode != st0.st_mode || st1.st_size != st0.st_size)
				eng::inv(T(22), "refuse-touched", "the file at the socket path was touched by a daemon that refused to start");
			if (!ready_data.empty())
				eng::inv(T(22), "ready-refused", "readiness is signalled by a daemon that refuses to start");
		} else if (chfail) {
			if (serving || exit_code == 0)
				eng::inv(T(22), "owner-failed", "the daemon serves although the ownership or mode requested for its socket could not be set");
			if (!ready_data.empty())
				eng::inv(T(22), "ready-refused", "readiness is signalled by a daemon that fails to start");
		} else {
			eng::count("starts");
			if (!serving)
				eng::inv(T(22), "no-start", "the daemon does not start (status %d): %s", exit_code, outlog.c_str());
			if (readyarg && (ready_data != "\n" || !ready_closed))
				eng::inv(T(22), "readiness", "readiness is signalled by %zu bytes%s", ready_data.size(), ready_closed ? "" : ", descriptor not closed");
			if (ready_before_listen)
				eng::inv(T(22), "readiness-early", "readiness is signalled before clients can connect");
			int mode = -1;
			for (auto &m : chmods)
				if (m.first == SOCKP)
					mode = m.second;
				else
					eng::inv(T(22), "chmod-other", "the daemon changes the mode of %s", m.first.c_str());
			long u = -1, g = -1;
			for (auto &w : chowns) {
				if (w.p != SOCKP)
					eng::inv(T(22), "chown-other", "the daemon changes the owner of %s", w.p.c_str());
				if (w.u != -1)
					u = w.u;
				if (w.g != -1)
					g = w.g;
			}
			if (u != wantu || g != wantg)
				eng::inv(T(22), "owner", "the socket ends up with owner %ld and group %ld, requested: %ld and %ld", u, g, wantu, wantg);
			if (ug && mode != 0770)
				eng::inv(T(22), "mode", "the socket's mode is %o instead of 0770", mode);
			(void)had;
		}
	}
	if (serving)
		after_exit();
	if (serving)
		lib_after();
	else if (!startup)
		eng::inv(TMODEL, "no-start", "the daemon does not start (status %d)", exit_code);
	// clean up
	for (auto &p : cl) {
		if (p->fd >= 0)
			::close(p->fd);
		for (int f : p->fds)
			::close(f);
	}
	if (rp[0] >= 0)
		::close(rp[0]);
	if (ready_fd >= 0)
		::close(ready_fd);
	for (auto &f : owned)
		::close(f.first);
	for (auto &b : blocks)
		::free(b.first);
	K.close_watch();
	sut_sys = this;
	struct stat st;
	if (::lstat(SOCKP, &st) == 0) {
		if (S_ISDIR(st.st_mode))
			::rmdir(SOCKP);
		else
			::unlink(SOCKP);
	}
}
void Daemon::after_exit() {
	struct stat st;
	if (!finished)
		eng::inv(TALL, "daemon-ended", "the daemon ends (status %d) while clients are being served: %s", exit_code, outlog.size() > 300 ? outlog.substr(outlog.size() - 300).c_str() : outlog.c_str());
	if (exit_code != 0)
		eng::inv(tg(T(22)), "exit-status", "after SIGTERM the daemon exits with status %d", exit_code);
	if (::lstat(SOCKP, &st) == 0)
		eng::inv(tg(T(22)), "socket-left", "the daemon has exited but its socket is still there");
	for (auto &f : owned)
		if (f.second.k != FdInfo::LISTEN && f.second.k != FdInfo::PIPE && f.second.k != FdInfo::OTHER)
			eng::inv(tg(T(22) | T(9)), "exit-fd", "the daemon has ended without closing descriptor %d (kind %d)", f.first, f.second.k);
	for (int i = 0; i < K.ks->nofd; i++) {
		Ofd &o = K.ks->ofd[i];
		if (o.granted && K.privileged(o) && !dead_exempt.count(o.ino))
			eng::inv(tg(T(22) | T(3)), "exit-privileged", "the daemon has ended and c%d's descriptor of %s still has its privileges", o.owner, K.byidx[o.node].c_str());
	}
	if (vtb && !tty_fault)
		for (int i = 1; i <= NVT; i++)
			if (K.ks->vt[i].gfx != KD_TEXT || K.ks->vt[i].kb != K_UNICODE)
				eng::inv(tg(T(22) | T(13)), "exit-vt", "the daemon has ended and VT %d is in %s mode, keyboard %s", i, K.ks->vt[i].gfx == KD_TEXT ? "text" : "graphics", K.ks->vt[i].kb == K_OFF ? "off" : "on");
}

// ---------------------------------------------------------------- harness
#ifndef DAEMON_NO_HARNESS
struct DaemonHarness : Harness {
	Daemon d;
	DaemonHarness() {
#ifdef NO_HIDRAW
		d.K.hidraw = false;
#endif
	}
	size_t max_ops() override { return eng::thorough() ? 240 : 110; }
	std::string rule(int p) override {
		static const char *r[] = {"", "a session is chosen to take over the seat or a switch between two sessions is processed", "a client that is not enabled asks for a device",
					  "a granted descriptor's privileges are taken away", "a session that kept a DRM device open is enabled again",
					  "an enabled client opens a path that is not a plain spelling of a device node", "a device is opened again, an id that is not open is closed, or the limit is reached",
					  "requests processed under short, interrupted or refused socket operations or a randomised scheduler", "a malformed message is read, or descriptors are sent, and the client is dropped",
					  "a client with open devices goes away or a client sends descriptors", "a switch or acknowledgement is processed, or a protocol violation is committed",
					  "a session is chosen to take over the seat", "the user switches VTs (or a VT signal arrives on a seat that is not VT-bound)", "a session of a VT-bound seat ends", "", "", "", "", "", "", "", "",
					  "every case (start-up options, what is at the socket path, history, shutdown)", "", "a send is refused because the client's socket is full", "the injected failure fires"};
		return r[p];
	}
	static Op mk(int k, Rng &r) {
		Op o;
		o.k = k;
		o.f = (r.chance(22) ? 1 : 0) | (r.chance(12) ? 4 : 0) | (r.chance(15) ? r.below(4) << 3 : 0);
		o.a = r.next();
		o.b = r.next();
		o.c = r.next();
		o.d = r.next();
		return o;
	}
	void gen(Rng &r, Case &c, int prop) override {
		c.ops.clear();
		for (auto &b : c.cfg)
			b = 0;
		int vt = prop == 12 ? 85 : prop == 13 ? 100 : prop == 24 ? 30 : 45;
		c.cfg[0] = r.chance(vt) ? (r.chance(50) ? 2 : 0) : 1 | (r.below(4) << 1);
		if (!(c.cfg[0] & 1) && r.chance(20))
			c.cfg[0] |= 16 | r.below(6) << 5;
		if (r.chance(prop == 7 || prop == 24 ? 70 : 25))
			c.cfg[1] = r.next() & 63;
		c.cfg[2] = r.chance(prop == 24 ? 100 : prop == 11 ? 50 : prop == 7 ? 40 : 15);
		if (prop == 25) {
			c.cfg[3] = 1 + r.below(r.chance(30) ? F_NCLASS - 1 : F_TTYOPEN - 1);
			c.cfg[4] = r.below(r.chance(60) ? 6 : 40);
			c.cfg[5] = r.next();
			c.cfg[6] = r.next();
		} else if ((prop == 3 || prop == 4 || prop == 9) && r.chance(prop == 3 ? 55 : 35)) {
			static const int cls[] = {F_DROPMASTER, F_REVOKE, F_SETMASTER};
			c.cfg[3] = cls[r.below(3)];
			c.cfg[4] = r.below(8);
			c.cfg[5] = r.next();
			c.cfg[6] = r.next();
		} else if (prop == 9 && r.chance(40)) {
			c.cfg[3] = 1 + r.below(F_TTYOPEN - 1);
			c.cfg[4] = r.below(20);
			c.cfg[5] = r.next();
		}
		if (r.chance(12))
			c.cfg[7] = r.next();
		c.cfg[8] = prop == 6 || prop == 9 ? r.chance(35) : r.chance(5);
		c.cfg[11] = (r.chance(30) ? 1 : 0) | (r.chance(30) ? 2 : 0) | (r.chance(15) ? 4 : 0);
		c.cfg[12] = r.chance(45) ? 1 : 0;
		c.cfg[13] = r.chance(20) ? r.next() : 0;
		if (prop == 22) {
			c.cfg[9] = r.chance(40) ? r.below(9) : 0;
			c.cfg[10] = r.below(4);
			for (int i = 13; i < 16; i++)
				c.cfg[i] = r.chance(70) ? r.below(10) : r.below(18);
			if (r.chance(15))
				c.cfg[12] |= r.below(4) << 4;
		}
		//                       con opS clS opD clD ack sw  png raw cls shw slo vt  arm fds bur vfs sig io  for pip aAl joi rds lib chu rol
		static const int base[] = {3, 6, 5, 20, 7, 8, 12, 4, 1, 5, 1, 1, 0, 2, 1, 0, 1, 2, 2, 1, 2, 8, 10, 1, 0, 0, 0};
		int w[O_COUNT];
		memcpy(w, base, sizeof w);
		bool isvt = !(c.cfg[0] & 1);
		if (isvt) {
			w[O_USERVT] = 16;
			w[O_ARM] = 5;
			w[O_JOIN] = 14;
			w[O_SIGNAL] = 0;
		}
		switch (prop) {
		case 2: w[O_OPENDEV] = 40; break;
		case 3: w[O_OPENDEV] = 35; w[O_CLOSE] = 8; break;
		case 4: w[O_OPENDEV] = 30; w[O_FOREIGN] = 4; w[O_ACKALL] = 14; w[O_CLOSE] = 2; break;
		case 5: w[O_OPENDEV] = 60; w[O_VFS] = 14; w[O_ARM] = 8; break;
		case 6: w[O_OPENDEV] = 45; w[O_CLOSEDEV] = 25; w[O_BURST] = c.cfg[8] ? 6 : 0; w[O_PIPE] = 5; break;
		case 7: w[O_PING] = 14; w[O_PIPE] = 8; w[O_IO] = 5; w[O_SLOW] = 8; w[O_READSOME] = 3; break;
		case 8: w[O_RAW] = 18; w[O_SENDFDS] = 6; w[O_SHUTWR] = 5; w[O_CLOSE] = 8; w[O_IO] = 5; break;
		case 9: w[O_SENDFDS] = 6; w[O_CLOSE] = 10; w[O_BURST] = c.cfg[8] ? 2 : 0; w[O_RAW] = 3; break;
		case 10: w[O_SWITCH] = 20; w[O_OPENSEAT] = 9; w[O_CLOSESEAT] = 7; w[O_ACK] = 12; break;
		case 11: w[O_CLOSE] = 9; w[O_SWITCH] = 16; w[O_SLOW] = 4; w[O_PIPE] = 5; break;
		case 12: w[O_USERVT] = isvt ? 26 : 0; w[O_ARM] = isvt ? 14 : 2; w[O_SIGNAL] = isvt ? 0 : 14; break;
		case 13: w[O_USERVT] = 20; w[O_CLOSE] = 9; w[O_CLOSESEAT] = 7; w[O_ARM] = 9; break;
		case 24: w[O_SLOW] = 9; w[O_PIPE] = 14; w[O_READSOME] = 7; w[O_IO] = 3; break;
		case 25: w[O_OPENDEV] = 26; break;
		}
		if (prop == 10 || prop == 9 || prop == 11 || prop == 8 || prop == 1)
			w[O_CHURN] = r.chance(6) ? 3 : 0;
		if (prop == 6 || prop == 2 || prop == 9)
			w[O_ROLL] = r.chance(prop == 6 ? 7 : 3) ? 3 : 0;
		int total = 0;
		for (int i = 0; i < O_COUNT; i++)
			total += w[i];
		int n = eng::thorough() ? 10 + r.below(150) : 6 + r.below(r.chance(25) ? 90 : 40);
		if (prop == 22)
			n = r.below(25);
		if (r.chance(70)) {
			int k = 1 + r.below(3);
			for (int i = 0; i < k; i++) {
				c.ops.push_back(mk(O_JOIN, r));
				if (r.chance(50)) {
					Op o = mk(O_OPENDEV, r);
					o.a = 4;
					c.ops.push_back(o);
				}
			}
		}
		while ((int)c.ops.size() < n) {
			int x = r.below(total), k = 0;
			while (x >= w[k])
				x -= w[k++];
			Op o = mk(k, r);
			switch (k) {
			case O_OPENDEV:
			case O_SWITCH:
			case O_CLOSEDEV:
			case O_PIPE:
			case O_BURST:
			case O_ROLL:
				if (r.chance(70))
					o.a = 4 | (o.a & ~7);
				if (k == O_OPENDEV && prop != 5 && r.chance(50))
					o.d = (o.d & ~0xffu) | r.below(110);
				break;
			case O_OPENSEAT:
				if (r.chance(80))
					o.a = 6 | (o.a & ~7);
				break;
			case O_ACK:
				if (r.chance(65))
					o.a = 7 | (o.a & ~7);
				break;
			case O_CLOSESEAT:
				if (r.chance(50))
					o.a = 4 | (o.a & ~7);
				break;
			}
			c.ops.push_back(o);
			if (k == O_SLOW && r.chance(70)) {
				int m = 1 + r.below(4);
				for (int i = 0; i < m; i++) {
					Op p = mk(O_PIPE, r);
					p.a = o.a;
					c.ops.push_back(p);
				}
			}
			if (k == O_ARM && r.chance(60)) { // something to happen during
				Op p = mk(r.chance(50) ? O_JOIN : r.chance(50) ? O_CLOSE : O_CLOSESEAT, r);
				c.ops.push_back(p);
			}
		}
	}
	void run(const Case &c) override { d.run(c); }
	std::string describe(const Case &c) override {
		char b[400];
		snprintf(b, sizeof b, "%s seat; io mode %d; small socket buffers %d; fault class %d nth %d errno# %d; foreign master %x; auto-ack %d; %s at the end\n", c.cfg[0] & 1 ? "non-VT" : "VT-bound", c.cfg[1] & 63,
			 c.cfg[2] & 1, c.cfg[3] % F_NCLASS, 1 + c.cfg[4] % 40, c.cfg[5] % 4, c.cfg[7] & 8 ? c.cfg[7] & 7 : 0, c.cfg[12] & 1, c.cfg[11] & 1 ? "shutdown with clients" : "clients leave");
		std::string s = b;
		if (eng::wants(22)) {
			s += "socket path case " + std::to_string(c.cfg[9] % 9) + "; options:";
			for (int k : startup_args(c))
				s += std::string(" ") + ARGT[k][0] + (ARGT[k][1] ? std::string(" ") + ARGT[k][1] : "");
			s += "\n";
		}
		for (auto &o : c.ops) {
			int k = o.k % O_COUNT;
			snprintf(b, sizeof b, "%s%s%s a=%u b=%u c=%u d=%u", ONAME[k], o.f & 1 ? "+" : "", o.f & 0x18 ? "/frag" : "", o.a, o.b, o.c, o.d);
			s += b;
			if (k == O_OPENDEV) {
				std::string p = d.path_for(o.d);
				s += " path=" + p.substr(0, 60);
			}
			s += "; ";
		}
		return s;
	}
};
Harness *make_harness() { return new DaemonHarness; }
#endif
