// The real seatd main() driven in-process by generated histories, against a lock-step reference model.
#pragma once
#include "engine.hpp"
#include "kern.hpp"
#include "sys.hpp"
#include <deque>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

enum { OPEN_SEAT = 1, CLOSE_SEAT, OPEN_DEVICE, CLOSE_DEVICE, DISABLE_SEAT, SWITCH_SESSION, PING };
enum {
	S_OPENED = 0x8001, S_CLOSED, S_DEVOPENED, S_DEVCLOSED, S_DISABLE, S_ENABLE, S_PONG, S_SWITCHED, S_DISABLED,
	S_ERROR = 0xffff
};
enum St { NONE, NEW, ACTIVE, PENDING, DISABLED, CLOSED };
const char *st_name(int s);
const char *op_name(int op);

struct Msg {
	int op;
	std::string body;
	uint64_t ino = 0; // descriptor attached to a device-opened reply
	bool has_ino = false;
};
struct Dev {
	std::string path;
	uint64_t ino = 0;
	int ref = 1;
	bool revoked = false, sure = true, retry = false;
	long att = 0, att_input = -9; // revocations attempted when its client was last enabled or disabled, and when that was
};
struct XRep { // expected reply
	int req;
	int op;          // S_*, S_ERROR
	int err = 0;     // exact errno, 0 = any
	bool any = false; // success or error
	int devid = 0;
	uint64_t ino = 0;
	std::string path;
};
struct Cl {
	int id = 0;
	int fd = -1, dfd = -1; // harness end, daemon end
	bool accepted = false, dropped = false, peer_closed = false, wrshut = false, eof_read = false;
	bool slow = false, ever_slow = false, is_lib = false;
	bool vt_unknown = false; // the VT could not be read while serving it
	size_t sent = 0, nread = 0;
	std::string inbuf;
	std::deque<std::string> msgs; // complete messages read by the daemon, not yet applied to the model
	bool malformed = false, limbo = false, must_drop = false;
	const char *drop_why = "";
	std::deque<std::string> frags;
	// output as seen at the daemon's sendmsg calls
	std::string vis;
	size_t accepted_bytes = 0, decoded = 0;
	size_t peak = 0; // largest backlog since it was last empty
	std::vector<uint64_t> visfds;
	size_t accepted_fds = 0, used_fds = 0;
	std::deque<Msg> vrep, vev, lrep;
	std::deque<std::string> lreq; // requests of a libseat client as the daemon read them
	std::deque<XRep> xrep;
	std::deque<int> xev;
	// receiving side
	std::string rx;
	size_t rxdec = 0, rxtotal = 0, rxfds = 0, rxdevs = 0;
	std::vector<int> fds;
	bool saw_eof = false;
	// model
	int st = NONE, session = -1, order = 0;
	bool member = false;
	std::map<int, Dev> devs;
	bool legit_drop = false, cut_drop = false;
	const char *legit = "";
	int lost_ev = 0;
	bool told_enabled = false; // by visible events: last event was enable and nothing ended it
	bool blocked() const { return vis.size() > accepted_bytes; }
};

struct FdInfo {
	enum K { LISTEN, PIPE, CLIENT, DEV, DUP, RECV, TTY, OTHER } k;
	int c;
	uint64_t ino;
};

struct Daemon : Sys {
	Kern K;
	const Case *cs = nullptr;
	size_t opi = 0;
	std::vector<std::unique_ptr<Cl>> cl;
	std::deque<int> backlog; // connected, not accepted
	std::map<int, FdInfo> owned;
	int listen_fd = -1;
	size_t base_allocs = 0, allocs = 0, base_bytes = 0, bytes = 0;
	std::map<void *, size_t> blocks;
	std::set<int> base_fds;
	size_t base_fd_other = 0;
	bool serving = false, started = false, finished = false, ended = false;
	std::map<int, struct sigaction> acts;
	bool got_signal = false;
	long polls = 0;
	int phase = 0, sub = 0;
	Rng io{1};
	bool vtb = true;
	// fault injection
	int fclass = 0, fnth = 0, fcount = 0, ferrno = 0, fseen = 0;
	bool fired_window = false, fired_ever = false;
	// io mode
	int p_short = 0, p_eintr = 0, p_eagain = 0, p_rshort = 0;
	// pending input
	enum In { I_NONE, I_READ, I_EOF, I_DROP, I_RELEASE, I_ACQUIRE } pin = I_NONE;
	Cl *pcl = nullptr;
	int cur = -1; // client being served
	int win_ofd = 0;
	bool vfs_changed = false;
	int win_acq_vt = 0;
	bool win_rel_ok = true, cut = false;
	long inputno = 0;
	// model
	bool model_on = true, tty_fault = false;
	Cl *m_active = nullptr, *m_next = nullptr;
	int m_cur_vt = 0, m_sessions = 0, m_order = 0;
	std::vector<int> m_act; // expected VT_ACTIVATE
	bool act_loose = false;
	// independent monitor
	Cl *holder = nullptr;
	struct Susp { Cl *old_, *new_; };
	std::vector<Susp> susp;
	// armed event
	int arm_after = -1;
	Op arm_op{};
	bool in_arm = false;
	int exit_code = -1;
	std::map<std::string, std::string> env;
	std::string outlog;
	std::set<uint64_t> dead_exempt;
	std::map<uint64_t, long> attempts; // revocations attempted, by description
	bool churned = false;
	std::vector<int> churners;
	int churn = 0;                     // short-lived clients still to come
	int roll = 0, roll_cl = 0;
	bool roll_same = false;
	Tags caseTags = 0;
	int nops_done = 0;
	// startup scenarios
	bool startup = false;
	int ready_fd = -1;
	bool ready_zero = false;
	std::string ready_data;
	bool ready_closed = false, ready_before_listen = false;
	struct ChownRec { std::string p; long u, g; };
	std::vector<ChownRec> chowns;
	std::vector<std::pair<std::string, int>> chmods;
	int unlinks = 0;
	long touches = 0; // file-system side effects

	Daemon();
	// Sys
	int open(const char *p, int fl, int mode) override;
	int close(int fd) override;
	int dup(int fd) override;
	int dup3(int fd, int nfd, int flags, bool two) override;
	int fcntl(int fd, int cmd, long arg) override;
	int ioctl(int fd, unsigned long req, void *arg) override;
	char *realpath(const char *p, char *out) override;
	int poll(struct pollfd *f, nfds_t n, int timeout) override;
	int accept(int fd, struct sockaddr *a, socklen_t *l, int flags) override;
	int socket(int d, int t, int p) override;
	int bind(int fd, const struct sockaddr *a, socklen_t l) override;
	int listen(int fd, int n) override;
	ssize_t sendmsg(int fd, const struct msghdr *m, int fl) override;
	ssize_t recvmsg(int fd, struct msghdr *m, int fl) override;
	ssize_t read(int fd, void *b, size_t n) override;
	ssize_t write(int fd, const void *b, size_t n) override;
	int shutdown(int fd, int how) override;
	int getsockopt(int fd, int l, int o, void *v, socklen_t *n) override;
	int pipe2(int p[2], int flags) override;
	void *malloc(size_t n) override;
	void *calloc(size_t a, size_t b) override;
	void *realloc(void *p, size_t n) override;
	void free(void *p) override;
	int stat(const char *p, struct stat *st, bool follow) override;
	ssize_t readlink(const char *p, char *b, size_t n) override;
	int access(const char *p, int m) override;
	int unlink(const char *p) override;
	int chmod(const char *p, mode_t m) override;
	int chown(const char *p, uid_t u, gid_t g, bool follow) override;
	int fchmod(int fd, mode_t m) override;
	int fchown(int fd, uid_t u, gid_t g) override;
	int kill(pid_t p, int sig) override;
	void exit(int c) override;
	void _exit(int c) override;
	int sigaction(int s, const struct sigaction *n, struct sigaction *o) override;
	int raise(int sig) override;
	struct passwd *getpwnam(const char *n) override;
	struct group *getgrnam(const char *n) override;
	int output(const char *s, size_t n, bool err) override;
	char *getenv(const char *n) override;

	// driver
	void run(const Case &c);
	void init_case(const Case &c);
	void exec(const Op &o);
	virtual bool pump() { return false; } // let library clients run; true if something happened
	virtual bool lib_op(const Op &) { return false; }
	virtual bool lib_end() { return false; } // true: not done yet
	virtual void lib_quiet() {}              // the daemon has nothing left to do
	virtual void lib_after() {}              // the daemon has ended
	Cl *connect_client();
	void send_bytes(Cl *c, const std::string &s, int frag, uint32_t seed);
	void close_client(Cl *c);
	void autoread(bool force);
	void read_client(Cl *c, size_t limit);
	bool quiescent_step(); // true: EINTR
	void quiesce_checks();
	void idle_checks();
	void after_exit();
	void deliver(int sig);
	int fault(int cls);
	void tick();
	void fire_arm();
	void drain();
	Cl *pick(uint16_t a);
	std::string path_for(uint32_t d);
	// model
	void input(In k, Cl *c);
	void finish_input();
	void feed(Cl *c);
	void apply(Cl *c, const std::string &m);
	void expect(Cl *c, int req, int op, int err = 0);
	void match(Cl *c);
	void ev(Cl *c, int op);
	void remove_from_seat(Cl *c);
	void activate();
	void set_active(Cl *c);
	void to_pending(Cl *c);
	void revoke_all(Cl *c);
	void do_drop(Cl *c);
	void decode_vis(Cl *c);
	void on_enable(Cl *c);
	void on_release(int vt);
	void check_unmatched();
	void dev_closed(Cl *c, Dev &d);
	Tags tg(Tags t);
	Cl *byd(int dfd);
	std::string who();
	int seen_fg() { return K.seen_vt != -2 ? K.seen_vt : K.ks->fg; }
};
void seatd_world_init(Daemon *d);
