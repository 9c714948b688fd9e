// C15: the event loop driven by generated additions, updates, removals, readiness changes and signals (before, during and
// after the wait, and from inside callbacks), with the harness standing in for poll() and signal delivery.
#include "engine.hpp"
#include "sys.hpp"
#include <algorithm>
#include <cerrno>
#include <cstdlib>
#include <cstring>
#include <map>
#include <memory>
#include <set>
extern "C" {
#include "poller.h"
}
#define TG T(15)
enum { ADD, DEL, UPD, ADDSIG, DELSIG, WRITE, DRAIN, CLOSEPEER, SIG, SIGAT, ROUND, FINISH, FAULT, NK };
static const char *kn[] = {"add", "destroy", "update", "add-signal", "destroy-signal", "write", "drain", "close-peer", "signal", "signal-later", "round", "finish+init", "fault"};
static const int sigs[] = {SIGUSR1, SIGUSR2, SIGINT};
static const int NP = 10;

struct Pair {
	int fd = -1, peer = -1;
	int users = 0;
};
struct Src {
	int id;
	int pair, fd;
	uint32_t mask;
	bool live = true, in_round = false;
	uint32_t want = 0; // events that hold this round
	int calls = 0;
	struct event_source_fd *h = nullptr;
};
struct SigSrc {
	int id;
	int sig;
	bool live = true, pend = false, may = false; // may: a signal arrived while the source was being added
	bool mid = false; // one arrived between two memory accesses of the poller, perhaps on the way to the callback
	int calls = 0;
	struct event_source_signal *h = nullptr;
};
struct PollH;
static PollH *P;
static int on_fd(int fd, uint32_t mask, void *data);
static int on_sig(int sig, void *data);

struct PollH : Harness, Sys {
	struct poller pl;
	std::vector<Pair> pr;
	std::vector<std::unique_ptr<Src>> src;
	std::vector<std::unique_ptr<SigSrc>> ss;
	std::map<int, struct sigaction> acts;
	std::set<int> fds; // of the poller
	std::map<void *, size_t> blocks;
	const Case *cs;
	size_t opi;
	int in_poll_ops, in_cb_ops, per_cb;
	bool polling, in_round, polled;
	int sig_in = -1, sig_late = 0;
	int mid_sig = -1, mid_n = 0;
	bool in_mid = false;
	int fail_alloc = 0, fail_poll = 0;
	bool fault_fired = false;
	int depth = 0;
	Rng io{1};

	void *malloc(size_t n) override {
		if (fail_alloc && --fail_alloc == 0) {
			fault_fired = true;
			errno = ENOMEM;
			return NULL;
		}
		void *p = ::malloc(n);
		blocks[p] = n;
		return p;
	}
	void *calloc(size_t a, size_t b) override {
		void *p = malloc(a * b);
		if (p)
			memset(p, 0, a * b);
		return p;
	}
	void *realloc(void *o, size_t n) override {
		void *p = malloc(n);
		if (p && o) {
			memcpy(p, o, std::min(n, blocks[o]));
			free(o);
		}
		return p;
	}
	void free(void *p) override {
		if (p)
			blocks.erase(p);
		::free(p);
	}
	int pipe2(int p[2], int f) override {
		int r = ::pipe2(p, f | O_CLOEXEC);
		if (r == 0) {
			fds.insert(p[0]), fds.insert(p[1]);
			::fcntl(p[0], F_SETPIPE_SZ, 4096); // a burst of signals fills it
		}
		return r;
	}
	int socketpair(int, int, int, int[2]) override {
		errno = EMFILE;
		return -1;
	}
	int close(int fd) override {
		if (!fds.erase(fd)) {
			eng::inv(TG, "bad-close", "the poller closes descriptor %d, which is not its own", fd);
			errno = EBADF;
			return -1;
		}
		return ::close(fd);
	}
	void tick() {
		if (sig_in >= 0 && sig_late-- <= 0) {
			int s = sig_in;
			sig_in = -1;
			deliver(s);
		}
	}
	// called before every memory access of poller.c and linked_list.c
	void access() {
		if (mid_sig < 0 || in_mid || --mid_n > 0)
			return;
		int s = mid_sig, e = errno;
		mid_sig = -1;
		in_mid = true;
		eng::count("signals between two memory accesses");
		eng::trace("%*ssignal between two memory accesses", depth * 2, "");
		deliver(s);
		in_mid = false;
		errno = e;
	}
	ssize_t read(int fd, void *b, size_t n) override {
		tick();
		ssize_t r = ::read(fd, b, n);
		int e = errno;
		tick();
		errno = e;
		return r;
	}
	ssize_t write(int fd, const void *b, size_t n) override { return ::write(fd, b, n); }
	int sigaction(int s, const struct sigaction *n, struct sigaction *o) override {
		if (o)
			*o = acts.count(s) ? acts[s] : (struct sigaction){};
		if (n)
			acts[s] = *n;
		tick();
		return 0;
	}
	int kill(pid_t, int) override { return 0; }
	void deliver(int sig) {
		bool live = false;
		for (auto &x : ss)
			if (x->live && x->sig == sig && x->h)
				live = true;
		auto it = acts.find(sig);
		bool dfl = it == acts.end() || it->second.sa_handler == SIG_DFL || it->second.sa_handler == SIG_IGN;
		if (live && dfl)
			eng::inv(TG, "no-handler", "signal %d is not handled although a source is registered for it", sig);
		if (!live && !dfl && !adding)
			eng::inv(TG, "handler-left", "signal %d is still handled although no source is registered for it", sig);
		if (dfl)
			return;
		for (auto &x : ss)
			if (x->live && x->sig == sig && !x->h)
				x->may = true;
			else if (x->live && x->sig == sig) {
				x->pend = true;
				x->mid |= in_mid;
				if (in_cb_sig == x->id)
					eng::count("signals during their own callback"), eng::nontrivial();
			}
		eng::count("signals");
		eng::sig(20 + sig + depth * 3 + polling);
		errno = 4242;
		struct sigaction act = it->second;
		if (act.sa_flags & SA_RESETHAND)
			it->second.sa_handler = SIG_DFL;
		if (act.sa_flags & SA_SIGINFO) {
			siginfo_t si = {};
			act.sa_sigaction(sig, &si, NULL);
		} else
			act.sa_handler(sig);
		if (errno != 4242)
			eng::inv(TG, "handler-errno", "the signal handler changes errno");
		got_sig = true;
	}
	bool got_sig = false, adding = false, own_ready = false;
	int in_cb_sig = -1;
	// what poll() reports for the descriptor of a source
	static uint32_t ready(int fd, uint32_t mask) {
		struct pollfd p = {fd, (short)((mask & EVENT_READABLE ? POLLIN : 0) | (mask & EVENT_WRITABLE ? POLLOUT : 0)), 0};
		::poll(&p, 1, 0);
		return (p.revents & POLLIN ? EVENT_READABLE : 0) | (p.revents & POLLOUT ? EVENT_WRITABLE : 0) | (p.revents & POLLERR ? EVENT_ERROR : 0) |
		       (p.revents & POLLHUP ? EVENT_HANGUP : 0);
	}
	int poll(struct pollfd *f, nfds_t n, int timeout) override {
		if (!in_round) { // not from poller_poll
			return ::poll(f, n, 0);
		}
		tick();
		polling = true;
		got_sig = false;
		if (fail_poll) {
			fail_poll = 0;
			polling = false;
			fault_fired = true;
			errno = ENOMEM;
			return -1;
		}
		while (in_poll_ops > 0 && opi < cs->ops.size() && !got_sig) {
			in_poll_ops--;
			const Op &o = cs->ops[opi];
			int k = o.k % NK;
			if (k != WRITE && k != DRAIN && k != CLOSEPEER && k != SIG)
				break;
			opi++;
			exec(o);
		}
		polling = false;
		if (got_sig) { // a handler ran while waiting
			errno = EINTR;
			return -1;
		}
		int r = ::poll(f, n, 0);
		own_ready = false;
		for (nfds_t i = 0; i < n && r > 0; i++)
			own_ready |= f[i].revents && fds.count(f[i].fd);
		bool any = false;
		for (auto &s : src) {
			s->want = 0;
			if (!s->in_round)
				continue;
			s->want = ready(s->fd, s->mask);
			any |= s->want != 0;
		}
		for (auto &s : ss)
			if (s->live && s->pend && r == 0)
				eng::inv(TG, "signal-lost", "signal %d has arrived, but the loop waits without having called source %d", s->sig, s->id);
		if (r == 0) {
			if (any)
				for (auto &s : src)
					if (s->want)
						eng::inv(TG, "not-polled", "source %d (mask %#x) is ready for %#x, but the loop keeps waiting", s->id, s->mask, s->want);
			(void)timeout;
			for (auto &s : src)
				s->in_round = false;
			fault_fired = true;
			errno = ENOMEM; // nothing will ever happen: leave
			return -1;
		}
		polled = true;
		return r;
	}
	Src *pick(uint16_t a) {
		std::vector<Src *> v;
		for (auto &s : src)
			if (s->live)
				v.push_back(s.get());
		return v.empty() ? nullptr : v[a % v.size()];
	}
	void put_pair(Pair &p, int kind) {
		int v[2];
		if (kind % 3 == 0) {
			if (::socketpair(AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK | SOCK_CLOEXEC, 0, v) == 0)
				p.fd = v[0], p.peer = v[1];
		} else if (::pipe2(v, O_NONBLOCK | O_CLOEXEC) == 0) {
			p.fd = v[kind % 3 == 1 ? 0 : 1];
			p.peer = v[kind % 3 == 1 ? 1 : 0];
		}
	}
	void exec(const Op &o) {
		int k = o.k % NK;
		eng::trace("%*s%s a=%u b=%u", depth * 2, "", kn[k], o.a, o.b);
		switch (k) {
		case ADD: {
			if (src.size() >= 200)
				return;
			int pi = o.a % NP;
			if (pr[pi].fd < 0)
				put_pair(pr[pi], o.b / 8);
			if (pr[pi].fd < 0)
				return;
			static const uint32_t ms[] = {EVENT_READABLE, EVENT_WRITABLE, EVENT_READABLE | EVENT_WRITABLE, 0, EVENT_READABLE, EVENT_READABLE};
			src.emplace_back(new Src);
			Src *s = src.back().get();
			s->id = (int)src.size() - 1;
			s->pair = pi;
			s->fd = pr[pi].fd;
			s->mask = ms[o.b % 6];
			fault_fired = false;
			s->h = poller_add_fd(&pl, s->fd, s->mask, on_fd, s);
			if (!s->h) {
				s->live = false;
				if (!fault_fired)
					eng::inv(TG, "add", "adding a source fails");
				eng::count("failed additions");
			} else
				pr[pi].users++;
			eng::sig(k + depth * 31);
			break;
		}
		case DEL: {
			Src *s = pick(o.a);
			if (!s)
				return;
			del(s, o.c & 1);
			eng::sig(k + depth * 31);
			if (depth)
				eng::count("sources destroyed inside callbacks"), eng::nontrivial();
			break;
		}
		case UPD: {
			Src *s = pick(o.a);
			if (!s)
				return;
			static const uint32_t ms[] = {EVENT_READABLE, EVENT_WRITABLE, EVENT_READABLE | EVENT_WRITABLE, 0};
			newmask[s] = ms[o.b % 4];
			if (!in_round)
				s->mask = ms[o.b % 4];
			if (event_source_fd_update(s->h, ms[o.b % 4]) != 0)
				eng::inv(TG, "update", "changing the mask fails");
			eng::sig(k + depth * 31);
			break;
		}
		case ADDSIG: {
			if (ss.size() >= 60)
				return;
			ss.emplace_back(new SigSrc);
			SigSrc *s = ss.back().get();
			s->id = (int)ss.size() - 1;
			s->sig = sigs[o.a % 3];
			fault_fired = false;
			adding = true;
			s->h = poller_add_signal(&pl, s->sig, on_sig, s);
			adding = false;
			if (!s->h) {
				s->live = false;
				if (!fault_fired)
					eng::inv(TG, "add-signal", "adding a signal source fails");
			}
			eng::sig(k + depth * 31);
			break;
		}
		case DELSIG: {
			std::vector<SigSrc *> v;
			for (auto &s : ss)
				if (s->live)
					v.push_back(s.get());
			if (v.empty())
				return;
			SigSrc *s = v[o.a % v.size()];
			s->live = false;
			adding = true;
			event_source_signal_destroy(s->h);
			adding = false;
			bool left = false;
			for (auto &x : ss)
				left |= x->live && x->sig == s->sig;
			bool dfl = !acts.count(s->sig) || acts[s->sig].sa_handler == SIG_DFL;
			if (left == dfl)
				eng::inv(TG, "signal-default", "after destroying %s source of signal %d its handling is %s", left ? "a" : "the last", s->sig, dfl ? "the default" : "not the default");
			eng::sig(k + depth * 31 + left);
			if (depth)
				eng::count("signal sources destroyed inside callbacks"), eng::nontrivial();
			break;
		}
		case WRITE: {
			Pair &p = pr[o.a % NP];
			if (p.peer >= 0) {
				char b[4096] = {};
				if (::write(p.peer, b, o.b % 4 ? 1 + o.b % 60 : sizeof b) < 0) {
				}
			}
			break;
		}
		case DRAIN: {
			Pair &p = pr[o.a % NP];
			char b[65536];
			int f = o.b & 1 ? p.peer : p.fd;
			if (f >= 0 && ::read(f, b, o.b & 2 ? sizeof b : 10) < 0) {
			}
			if ((o.b & 12) == 12 && p.fd >= 0) // fill
				while (::write(p.fd, b, sizeof b) > 0) {
				}
			break;
		}
		case CLOSEPEER: {
			Pair &p = pr[o.a % NP];
			if (p.peer >= 0 && o.b % 3 == 0) {
				::close(p.peer);
				p.peer = -1;
			}
			break;
		}
		case SIG: {
			for (auto &x : ss)
				if (x->live && x->sig == sigs[o.a % 3]) {
					if (o.b % 128 == 127) { // more than the poller's pipe holds
						eng::trace("%*sburst", depth * 2, "");
						eng::count("bursts of signals");
						for (int i = 0; i < 4200; i++)
							deliver(sigs[o.a % 3]);
					}
					deliver(sigs[o.a % 3]);
					break;
				}
			break;
		}
		case SIGAT:
			for (auto &x : ss)
				if (x->live && x->sig == sigs[o.a % 3]) {
					if (o.c & 3) {
						mid_sig = sigs[o.a % 3];
						mid_n = o.c & 4 ? 1 + o.b % 40 : o.c & 8 ? o.b % 250 : o.b % 1200;
						break;
					}
					sig_in = sigs[o.a % 3];
					sig_late = o.b % 6;
				}
			break;
		case FAULT:
			if (o.a % 3 == 0)
				fail_poll = 1;
			else
				fail_alloc = 1 + o.b % 3;
			break;
		}
	}
	std::map<Src *, uint32_t> newmask;
	void del(Src *s, bool closefd) {
		s->live = false;
		if (event_source_fd_destroy(s->h) != 0)
			eng::inv(TG, "destroy", "destroying a source fails");
		Pair &p = pr[s->pair];
		if (p.fd == s->fd && --p.users == 0 && closefd) { // the usual pattern: the descriptor goes with its source
			::close(p.fd);
			if (p.peer >= 0)
				::close(p.peer);
			p = Pair();
		}
	}
	void callback_ops() {
		depth++;
		for (int i = 0; i < per_cb && in_cb_ops > 0 && opi < cs->ops.size(); i++, in_cb_ops--) {
			const Op &o = cs->ops[opi];
			int k = o.k % NK;
			if (k == ROUND || k == FINISH)
				break;
			opi++;
			exec(o);
		}
		tick();
		depth--;
	}
	int fd_cb(int fd, uint32_t mask, Src *s) {
		eng::trace("%*scallback of source %d fd %d mask %#x", depth * 2, "", s->id, fd, mask);
		if (!s->live)
			eng::inv(TG, "dead-called", "source %d is called although it has been destroyed", s->id);
		if (!in_round || !polled)
			eng::inv(TG, "called-outside", "source %d is called outside a round", s->id);
		if (!s->in_round)
			eng::inv(TG, "called-early", "source %d, registered after the round began, is called", s->id);
		if (fd != s->fd)
			eng::inv(TG, "wrong-fd", "source %d of descriptor %d is called with descriptor %d", s->id, s->fd, fd);
		if (++s->calls > 1)
			eng::inv(TG, "called-twice", "source %d is called twice in a round", s->id);
		if (s->want == 0)
			eng::inv(TG, "not-ready", "source %d is called with %#x although it was not ready", s->id, mask);
		if (mask != s->want)
			eng::inv(TG, "wrong-mask", "source %d is called with %#x, but %#x holds", s->id, mask, s->want);
		eng::count("callbacks");
		eng::sig(40 + mask + s->id * 3);
		if (mask & (EVENT_ERROR | EVENT_HANGUP))
			eng::count("error or hang-up events");
		callback_ops();
		return 0;
	}
	int sig_cb(int sig, SigSrc *s) {
		eng::trace("%*scallback of signal source %d sig %d", depth * 2, "", s->id, sig);
		if (!s->live)
			eng::inv(TG, "dead-signal-called", "signal source %d is called although it has been destroyed", s->id);
		if (sig != s->sig)
			eng::inv(TG, "wrong-signal", "source %d of signal %d is called for signal %d", s->id, s->sig, sig);
		if (!s->pend && !s->may)
			eng::inv(TG, "spurious-signal", "signal source %d is called although signal %d has not arrived since its last call", s->id, sig);
		s->pend = false;
		s->may = s->mid;
		s->mid = false;
		s->calls++;
		eng::count("signal callbacks");
		eng::nontrivial();
		int old = in_cb_sig;
		in_cb_sig = s->id;
		callback_ops();
		in_cb_sig = old;
		return 0;
	}
	void round(int pollops, int cbops, int per) {
		in_poll_ops = pollops;
		in_cb_ops = cbops;
		per_cb = per;
		newmask.clear();
		for (auto &s : src) {
			s->in_round = s->live;
			s->calls = 0;
			s->want = 0;
		}
		std::vector<SigSrc *> before;
		in_round = true;
		polled = fault_fired = false;
		int r = poller_poll(&pl);
		in_round = false;
		eng::count("rounds");
		if (r != 0 && !fault_fired)
			eng::inv(TG, "poll", "poller_poll fails (errno %d)", errno);
		if (r == 0 && !polled)
			eng::inv(TG, "no-wait", "poller_poll returns without having waited");
		if (r == 0 && polled)
			for (auto &s : src)
				if (s->in_round && s->live && s->want && s->calls != 1)
					eng::inv(TG, "missed", "source %d is ready for %#x and is called %d times", s->id, s->want, s->calls);
		for (auto &m : newmask)
			m.first->mask = m.second;
	}
	void teardown() {
		// sources still registered go with the poller
		poller_finish(&pl);
		for (auto &s : src)
			s->live = false;
		for (auto &s : ss)
			s->live = s->pend = false;
		for (auto &a : acts)
			if (a.second.sa_handler != SIG_DFL)
				eng::inv(TG, "finish-signal", "signal %d is still handled after the poller was torn down", a.first);
		if (!fds.empty())
			eng::inv(TG, "finish-fd", "%zu descriptors are left open after the poller was torn down", fds.size());
		if (!blocks.empty())
			eng::inv(TG, "finish-mem", "%zu allocations are left after the poller was torn down", blocks.size());
		for (auto &p : pr) {
			if (p.fd >= 0)
				::close(p.fd);
			if (p.peer >= 0)
				::close(p.peer);
			p = Pair();
		}
	}
	void run(const Case &c) override {
		P = this;
		::signal(SIGPIPE, SIG_IGN);
		sut_sys = this;
		cs = &c;
		opi = 0;
		src.clear();
		ss.clear();
		acts.clear();
		fds.clear();
		blocks.clear();
		newmask.clear();
		pr.assign(NP, Pair());
		polling = in_round = polled = false;
		sig_in = mid_sig = -1;
		fail_alloc = fail_poll = depth = 0;
		in_cb_sig = -1;
		memset((void *)&pl, 0xA5, sizeof pl);
		if (poller_init(&pl) != 0)
			eng::inv(TG, "init", "poller_init fails");
		while (opi < c.ops.size()) {
			const Op &o = c.ops[opi++];
			if (o.k % NK == ROUND) {
				eng::trace("round pollops=%u cbops=%u per=%u", o.a % 4, o.b % 12, 1 + o.c % 4);
				round(o.a % 4, o.b % 12, 1 + o.c % 4);
			} else if (o.k % NK == FINISH) {
				if (o.a % 8)
					continue;
				sig_in = mid_sig = -1;
				teardown();
				eng::count("tear-downs amid a case");
				src.clear();
				ss.clear();
				if (poller_init(&pl) != 0)
					eng::inv(TG, "init", "poller_init fails after an earlier poller was torn down");
			} else
				exec(o);
		}
		sig_in = mid_sig = -1;
		fail_alloc = fail_poll = 0;
		for (int i = 0; i < 5; i++) // pending signals are served
			round(0, 0, 0);
		for (int i = 0; i < 4300 && own_ready; i++)
			round(0, 0, 0);
		if (own_ready)
			eng::inv(TG, "spins", "the loop goes on waking up for a signal although all have been served");
		for (auto &s : ss)
			if (s->live && s->pend)
				eng::inv(TG, "signal-unserved", "signal %d arrived, but source %d is not called", s->sig, s->id);
		if (c.cfg[0] & 1) { // destroyed sources do not pile up
			for (auto &s : src)
				if (s->live)
					del(s.get(), false);
			Op o{};
			o.k = DELSIG;
			for (size_t i = 0; i < ss.size(); i++)
				exec(o);
			for (int i = 0; i < 3; i++)
				round(0, 0, 0);
			if (blocks.size() > 8)
				eng::inv(TG, "pile-up", "every source has been destroyed, but %zu allocations are still held", blocks.size());
		}
		teardown();
	}
	size_t max_ops() override { return 160; }
	void gen(Rng &r, Case &c, int) override {
		for (auto &b : c.cfg)
			b = r.next();
		int n = 10 + r.below(130);
		for (int i = 0; i < n; i++) {
			Op o{};
			int x = r.below(100);
			o.k = x < 15 ? ADD : x < 23 ? DEL : x < 29 ? UPD : x < 35 ? ADDSIG : x < 38 ? DELSIG : x < 50 ? WRITE : x < 55 ? DRAIN : x < 58 ? CLOSEPEER : x < 67 ? SIG : x < 72 ? SIGAT : x < 98 ? ROUND : x < 99 ? FINISH : FAULT;
			o.a = r.next();
			o.b = r.next();
			o.c = r.next();
			o.d = r.next();
			c.ops.push_back(o);
		}
	}
	std::string rule(int) override {
		return "a signal callback ran, or a source was destroyed from inside a callback; distinct by the sequence of operations, callbacks and signals";
	}
	std::string describe(const Case &c) override {
		std::string o;
		char b[80];
		for (auto &p : c.ops) {
			int k = p.k % NK;
			if (k == ROUND)
				snprintf(b, sizeof b, "round(in-poll %u, in-callbacks %u by %u) ", p.a % 4, p.b % 12, 1 + p.c % 4);
			else if (k == ADD)
				snprintf(b, sizeof b, "add(fd %u, mask %u) ", p.a % NP, p.b % 6);
			else if (k == ADDSIG || k == SIG)
				snprintf(b, sizeof b, "%s(%d) ", kn[k], sigs[p.a % 3]);
			else
				snprintf(b, sizeof b, "%s(%u,%u) ", kn[k], p.a, p.b);
			o += b;
		}
		return o;
	}
};
static int on_fd(int fd, uint32_t mask, void *data) { return P->fd_cb(fd, mask, (Src *)data); }
static int on_sig(int sig, void *data) { return P->sig_cb(sig, (SigSrc *)data); }
extern "C" {
#define AT(n) \
	void __sanitizer_cov_load##n(void *) { P->access(); } \
	void __sanitizer_cov_store##n(void *) { P->access(); }
AT(1) AT(2) AT(4) AT(8) AT(16)
}
Harness *make_harness() { return new PollH; }
