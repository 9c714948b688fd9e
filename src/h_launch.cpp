// C23: seatd-launch with real processes, pipes, ids and files in a scratch directory. Its two children run stand-ins for
// seatd and for the command instead of being executed; kill() reaches only processes of the case.
#include "engine.hpp"
#include "sys.hpp"
#include <cerrno>
#include <cstdlib>
#include <cstring>
#include <getopt.h>
#include <grp.h>
#include <string>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/un.h>
#include <sys/wait.h>
#include <time.h>
extern "C" int launch_main(int, char **);
enum { MODE, IDS, LEVEL, ARGS, READY, CMD, FAULT, ENV, NK };
static const char *kn[] = {"mode", "ids", "level", "args", "seatd", "command", "fault", "env"};
enum { R_OK_, R_EXIT, R_CRASH, R_EXECFAIL, R_NOSOCK, R_CLOSE_EXIT, R_READY_DIES, R_TWO, R_FILE, R_N };
static const char *rn[] = {"becomes ready", "exits", "crashes", "cannot be executed", "is ready without socket", "closes the pipe and exits", "is ready, then dies", "is ready (two bytes)", "is ready late"};
enum { F_NONE, F_PIPE, F_FORK, F_POLL, F_READ, F_WAIT, F_CHOWN, F_CHMOD, F_SETGID, F_SETUID, F_N };
static const char *fn[] = {"none", "pipe", "fork", "poll", "read", "waitpid", "chown", "chmod", "setgid", "setuid"};
struct Shm {
	pid_t launcher, seatd, cmd;
	int forks;
	bool seatd_started, cmd_started, ready, term_seen, cmd_done, seatd_gone;
	bool cmd_before_ready, seatd_dead_at_cmd, socket_seen;
	unsigned ru, eu, su, rg, eg, sg;
	unsigned so_uid, so_gid, so_mode;
	char sock_env[64], env_other[64];
	bool env_marker;
	char seatd_args[256], cmd_args[512], seatd_env[256], cmd_file[128];
	int seatd_nenv;
	bool n_ok;
	pid_t kid[8];
	bool reaped[8], killed[8];
	int nkid, kills_other, kill_reaped;
	long kill_other_pid;
	bool kill_before_cmd_done;
	int fault_fired, fatal;
	bool late, started;
	bool out;
};
static Shm *S;

struct Launch : Harness, Sys {
	// what the case says
	unsigned ruid, rgid;
	bool setuid_root;
	std::vector<std::string> argv;
	std::string level, want_level;
	std::vector<std::string> cmd;
	int opts; // 0 none, 1 -h, 2 -v, 3 bad
	int ready, ready_ms, cmd_kind, cmd_arg, cmd_ms;
	int f_kind, f_n, f_errno;
	bool exec_cmd_fails, leave_socket;
	bool sock_env_preset, chld_ignored;
	int fds_closed;
	pid_t me = 0; // the process in which the launcher runs

	static void nap(int ms) {
		struct timespec t = {ms / 1000, (ms % 1000) * 1000000L};
		::nanosleep(&t, NULL);
	}
	bool fault(int k) {
		if (f_kind != k || getpid() != me || --f_n > 0)
			return false;
		f_kind = 0;
		S->fault_fired = 1;
		errno = f_errno;
		if (!((f_errno == EINTR && (k == F_POLL || k == F_READ || k == F_WAIT)) || (f_errno == EAGAIN && k == F_POLL)))
			S->fatal = 1, S->late = S->forks >= 2;
		return true;
	}
	int pipe2(int p[2], int fl) override { return fault(F_PIPE) ? -1 : ::pipe2(p, fl); }
	pid_t fork() override {
		if (fault(F_FORK))
			return -1;
		if (getpid() == me)
			S->forks++;
		pid_t p = ::fork();
		if (p > 0 && getpid() == me && S->nkid < 8)
			S->kid[S->nkid++] = p;
		return p;
	}
	static int kid_of(pid_t p) {
		for (int i = S->nkid; i-- > 0;)
			if (S->kid[i] == p)
				return i;
		return -1;
	}
	int poll(struct pollfd *f, nfds_t n, int t) override { return fault(F_POLL) ? -1 : ::poll(f, n, t); }
	ssize_t read(int fd, void *b, size_t n) override { return fault(F_READ) ? -1 : ::read(fd, b, n); }
	static bool st_final(int st) { return WIFEXITED(st) || WIFSIGNALED(st); }
	pid_t waitpid(pid_t p, int *st, int fl) override {
		if (fault(F_WAIT))
			return -1;
		pid_t r = ::waitpid(p, st, fl);
		int k = r > 0 ? kid_of(r) : -1;
		if (k >= 0 && st_final(st ? *st : 0))
			S->reaped[k] = true;
		return r;
	}
	int chown(const char *p, uid_t u, gid_t g, bool follow) override { return p[0] == '/' ? (errno = EPERM, -1) : fault(F_CHOWN) ? -1 : follow ? ::chown(p, u, g) : ::lchown(p, u, g); }
	int chmod(const char *p, mode_t m) override { return p[0] == '/' ? (errno = EPERM, -1) : fault(F_CHMOD) ? -1 : ::chmod(p, m); }
	int unlink(const char *p) override { return p[0] == '/' ? (errno = EPERM, -1) : ::unlink(p); }
	int setids(const char *f, unsigned r, unsigned e, unsigned s) override {
		if (fault(strstr(f, "gid") ? F_SETGID : F_SETUID))
			return -1;
		return Sys::setids(f, r, e, s);
	}
	int kill(pid_t p, int sig) override {
		int k = p > 0 ? kid_of(p) : -1;
		if (k >= 0 && !S->reaped[k]) {
			if (sig != 0)
				S->killed[k] = true;
			if (p == S->seatd && S->cmd_started && !S->cmd_done && sig != 0)
				S->kill_before_cmd_done = true;
			return ::kill(p, sig);
		}
		if (sig != 0) {
			S->kills_other++;
			S->kill_other_pid = p;
			if (k >= 0)
				S->kill_reaped++;
		}
		errno = ESRCH;
		return -1;
	}
	int output(const char *s, size_t n, bool err) override {
		if (eng::verbose())
			fprintf(stderr, "    %.*s%s", (int)n, s, err ? "" : "");
		if (!err)
			S->out = true;
		return (int)n;
	}
	static void join(char *to, size_t n, char *const v[]) {
		std::string s;
		for (int i = 0; v && v[i]; i++)
			s += std::string(v[i]) + "|";
		snprintf(to, n, "%s", s.c_str());
	}
	int exec(const char *p, char *const a[], char *const e[], bool search) override {
		if (getpid() == me) {
			errno = EACCES;
			return -1;
		}
		if (!strcmp(p, "seatd-stub"))
			return seatd(a, e);
		if (!search && !strchr(p, '/')) { // programs are where PATH says, not here
			errno = ENOENT;
			return -1;
		}
		return command(p, a, e);
	}
	int seatd(char *const a[], char *const e[]) {
		if (ready == R_EXECFAIL) {
			errno = ENOENT;
			return -1;
		}
		S->seatd = getpid();
		join(S->seatd_args, sizeof S->seatd_args, a);
		join(S->seatd_env, sizeof S->seatd_env, e);
		S->seatd_nenv = 0;
		for (int i = 0; e && e[i]; i++)
			S->seatd_nenv++;
		int nfd = -1;
		for (int i = 1; a[i] && a[i + 1]; i++)
			if (!strcmp(a[i], "-n"))
				nfd = atoi(a[i + 1]);
		S->n_ok = nfd >= 0 && ::fcntl(nfd, F_GETFD) >= 0;
		// the signal that ends it
		sigset_t m;
		sigemptyset(&m);
		sigaddset(&m, SIGTERM);
		::sigprocmask(SIG_BLOCK, &m, NULL);
		S->seatd_started = true;
		if (ready_ms)
			nap(ready_ms);
		if (ready != R_NOSOCK && (ready <= R_OK_ || ready >= R_READY_DIES || leave_socket)) {
			struct sockaddr_un ad = {};
			ad.sun_family = AF_UNIX;
			strcpy(ad.sun_path, "seatd.sock");
			int fd = ::socket(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0);
			if (::bind(fd, (struct sockaddr *)&ad, sizeof ad) || ::listen(fd, 5))
				::_exit(44);
		}
		if (ready == R_EXIT)
			::_exit(cmd_arg & 1);
		if (ready == R_CRASH) {
			struct rlimit rl = {0, 0};
			setrlimit(RLIMIT_CORE, &rl);
			::signal(SIGKILL, SIG_DFL);
			::kill(getpid(), SIGKILL);
		}
		if (ready == R_CLOSE_EXIT) {
			::close(nfd);
			nap(leave_socket ? 20 : 2);
			::_exit(0);
		}
		S->ready = true;
		if (::write(nfd, "\n\n", ready == R_TWO ? 2 : 1) < 0)
			::_exit(45);
		::close(nfd);
		if (ready == R_READY_DIES) {
			S->seatd_gone = true;
			::_exit(3);
		}
		struct timespec t = {20, 0};
		for (;;) {
			int s = sigtimedwait(&m, NULL, &t);
			if (s == SIGTERM) {
				S->term_seen = true;
				break;
			}
			if (s < 0 && errno == EAGAIN)
				break;
		}
		::_exit(0);
	}
	int command(const char *p, char *const a[], char *const e[]) {
		snprintf(S->cmd_file, sizeof S->cmd_file, "%s", p);
		if (exec_cmd_fails) {
			errno = ENOENT;
			return -1;
		}
		S->cmd = getpid();
		join(S->cmd_args, sizeof S->cmd_args, a);
		getresuid(&S->ru, &S->eu, &S->su);
		getresgid(&S->rg, &S->eg, &S->sg);
		S->sock_env[0] = 0;
		int n = 0;
		for (int i = 0; e && e[i]; i++) {
			if (!strncmp(e[i], "SEATD_SOCK=", 11)) {
				n++;
				snprintf(S->sock_env, sizeof S->sock_env, "%s", e[i] + 11);
			}
			if (!strcmp(e[i], "VF_MARKER=1"))
				S->env_marker = true;
		}
		if (n != 1)
			snprintf(S->sock_env, sizeof S->sock_env, "(%d times)", n);
		struct stat st;
		if (::lstat("seatd.sock", &st) == 0) {
			S->socket_seen = true;
			S->so_uid = st.st_uid;
			S->so_gid = st.st_gid;
			S->so_mode = st.st_mode & 07777;
		}
		S->cmd_before_ready = !S->ready;
		S->cmd_started = true;
		if (cmd_ms)
			nap(cmd_ms);
		struct rlimit rl = {0, 0};
		setrlimit(RLIMIT_CORE, &rl);
		if (cmd_kind == 2) { // is stopped and continued
			pid_t me2 = getpid();
			if (::fork() == 0) {
				for (int i = 0; i < 2000 && !*(volatile bool *)&S->cmd_done && ::kill(me2, SIGCONT) == 0; i++)
					nap(1);
				::_exit(0);
			}
			::kill(me2, SIGSTOP);
		}
		S->seatd_dead_at_cmd = S->term_seen;
		if (cmd_kind == 1) {
			sigset_t all;
			sigfillset(&all);
			::sigprocmask(SIG_UNBLOCK, &all, NULL);
			struct sigaction d = {};
			d.sa_handler = SIG_DFL;
			::sigaction(cmd_arg, &d, NULL);
			S->cmd_done = true;
			::kill(getpid(), cmd_arg);
			nap(1000);
		}
		S->cmd_done = true;
		::_exit(cmd_arg);
	}
	void set(const Op &o) {
		switch (o.k % NK) {
		case MODE: opts = o.a % 8 == 0 ? 1 + o.b % 4 : 0; break;
		case IDS: {
			static const unsigned us[] = {1000, 65534, 0, 1001, 4000000};
			ruid = us[o.a % 5];
			rgid = us[o.b % 5];
			setuid_root = o.c % 4 != 0;
			break;
		}
		case LEVEL: {
			static const char *ls[] = {"", "debug", "info", "error", "silent", "quux"};
			level = ls[o.a % 6];
			want_level = level;
			if (o.b % 2 && !level.empty()) {
				argv.push_back("-l" + level);
			} else if (!level.empty()) {
				argv.push_back("-l");
				argv.push_back(level);
			}
			break;
		}
		case ARGS: {
			static const char *as[] = {"prog", "-l", "--", "-h", "arg with space", "", "error", "-v", "a|b"};
			cmd.clear();
			cmd.push_back(o.d % 4 ? "prog" : "/bin/prog");
			for (unsigned i = 0; i < o.a % 6u; i++)
				cmd.push_back(as[(o.b >> 2 * i) % 9]);
			exec_cmd_fails = o.c % 16 == 0;
			break;
		}
		case READY:
			ready = o.a % 3 ? (o.a % 2 ? R_OK_ : R_FILE) : o.b % R_N;
			leave_socket = o.d & 1;
			ready_ms = ready == R_FILE ? 1 + o.c % 3 : o.c % 4 == 0;
			break;
		case CMD: {
			static const int sg[] = {SIGKILL, SIGTERM, SIGSEGV, SIGABRT, SIGPIPE, SIGHUP, SIGINT, SIGALRM, SIGUSR1, SIGBUS, SIGSYS, 34, 64, SIGCHLD};
			cmd_kind = o.a % 5 == 4 ? 2 : o.a % 5 == 3 || o.a % 5 == 1;
			static const int ex[] = {0, 1, 2, 3, 127, 128, 129, 137, 255, 254};
			cmd_arg = cmd_kind == 1 ? sg[o.b % 13] : o.c % 3 ? ex[o.b % 10] : o.b % 256;
			cmd_ms = o.d % 4 == 0;
			break;
		}
		case FAULT: {
			f_kind = o.a % F_N;
			f_n = 1 + (o.b % 3 == 0);
			static const int es[] = {EINTR, EAGAIN, EPERM, EIO, EMFILE, ENOMEM, EINTR};
			f_errno = es[o.c % 7];
			break;
		}
		case ENV:
			sock_env_preset = o.a & 1;
			chld_ignored = o.b % 3 == 0;
			fds_closed = o.c % 4 == 0 ? 1 + o.d % 2 : 0;
			break;
		}
	}
	void run(const Case &c) override {
		if (!S) {
			S = (Shm *)mmap(NULL, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
			prctl(PR_SET_CHILD_SUBREAPER, 1);
		}
		memset(S, 0, sizeof *S);
		sut_sys = this;
		ruid = rgid = 1000;
		setuid_root = true;
		argv.assign(1, "seatd-launch");
		level = want_level = "";
		cmd.assign(1, "prog");
		opts = 0;
		ready = R_OK_;
		ready_ms = 0;
		cmd_kind = cmd_arg = cmd_ms = 0;
		f_kind = 0;
		exec_cmd_fails = sock_env_preset = leave_socket = chld_ignored = false;
		fds_closed = 0;
		for (auto &o : c.ops)
			set(o);
		static const char *special[] = {"", "-h", "-v", "-x", "-l"};
		if (opts)
			argv.push_back(special[opts]);
		if (opts == 4)
			argv.push_back("--help"), cmd.clear(); // no command at all
		else if (!cmd.empty() && (cmd[0][0] == '-' || (c.cfg[0] & 1)))
			argv.push_back("--");
		for (auto &s : cmd)
			argv.push_back(s);
		if (opts == 4) {
			argv.pop_back();
			argv.push_back("error");
		}
		std::string show;
		for (auto &s : argv)
			show += s + "|";
		eng::trace("%s as %u:%u%s, seatd %s (%d ms), command %s %d%s, fault %s number %d errno %d%s%s", show.c_str(), ruid, rgid, setuid_root ? " set-uid root" : "", rn[ready], ready_ms,
			   cmd_kind == 1 ? "dies of signal" : cmd_kind == 2 ? "is stopped, continued and exits" : "exits", cmd_arg, exec_cmd_fails ? " (cannot be executed)" : "", fn[f_kind], f_n, f_errno,
			   chld_ignored ? ", SIGCHLD ignored" : "", fds_closed == 2 ? ", stdin and stdout closed" : fds_closed ? ", stdin closed" : "");
		::unlink("run/seatd.sock");
		::rmdir("run");
		if (::mkdir("run", 0755) != 0 || ::chown("run", setuid_root ? 0 : ruid, setuid_root ? 0 : rgid))
			abort();
		pid_t p = ::fork();
		if (p == 0) {
			me = S->launcher = getpid();
			if (::chdir("run") != 0)
				::_exit(250);
			clearenv();
			setenv("VF_MARKER", "1", 1);
			setenv("SEATD_LOGLEVEL", "error", 1);
			if (sock_env_preset)
				setenv("SEATD_SOCK", "/elsewhere", 1);
			if (setuid_root) {
				if (setgroups(0, NULL) || setresgid(rgid, 0, 0) || setresuid(ruid, 0, 0))
					::_exit(250);
			} else if (setgroups(0, NULL) || setresgid(rgid, rgid, rgid) || setresuid(ruid, ruid, ruid))
				::_exit(250);
			std::vector<char *> av;
			for (auto &s : argv)
				av.push_back((char *)s.c_str());
			av.push_back(NULL);
			optind = 0;
			opterr = 0;
			if (chld_ignored)
				::signal(SIGCHLD, SIG_IGN);
			for (int i = 0; i < fds_closed; i++)
				::close(i);
			S->started = true;
			int r = launch_main((int)argv.size(), av.data());
			::_exit(r & 255);
		}
		int st = 0;
		bool hung = true;
		for (int i = 0; i < 40000 && hung; i++) {
			pid_t r = ::waitpid(p, &st, WNOHANG);
			if (r == p)
				hung = false;
			else
				::usleep(i < 200 ? 50 : 500);
		}
		if (hung) {
			::kill(p, SIGKILL);
			::waitpid(p, &st, 0);
		}
		// did seatd get its signal?
		int sk = S->seatd ? kid_of(S->seatd) : -1;
		bool told = sk >= 0 && S->killed[sk], seatd_reaped = sk >= 0 && S->reaped[sk];
		bool seatd_left = false;
		if (S->seatd_started && !seatd_reaped) {
			int n = told ? 4000 : 20;
			while (n-- > 0 && is_child_alive(S->seatd) && !S->term_seen)
				::usleep(500);
			if (!S->term_seen && is_child_alive(S->seatd)) {
				seatd_left = true;
				::kill(S->seatd, SIGKILL);
			}
		}
		for (int t = 0;; t++) { // nothing of the case may live on
			pid_t k = ::waitpid(-1, NULL, WNOHANG);
			if (k < 0)
				break;
			if (k == 0) {
				::usleep(100);
				if (t > 300)
					for (int i = 0; i < S->nkid; i++)
						if (is_child_alive(S->kid[i]))
							::kill(S->kid[i], SIGKILL);
			}
		}
		if (!hung && !S->started) {
			eng::count("not set up");
			return;
		}
		eng::trace("  %s %d, command %s, seatd %s, seatd %s", hung ? "hangs" : WIFEXITED(st) ? "exits" : "dies", WIFEXITED(st) ? WEXITSTATUS(st) : WTERMSIG(st),
			   S->cmd_started ? "ran" : "not run", S->seatd_started ? "ran" : "not run", told ? "signalled" : "not signalled");
		if (hung) {
			eng::inv(T(23), "hang", "seatd-launch does not come to an end");
			return;
		}
		if (!WIFEXITED(st)) {
			eng::inv(T(23), "crash", "seatd-launch dies of signal %d", WTERMSIG(st));
			return;
		}
		int x = WEXITSTATUS(st);
		if (S->kills_other)
			eng::inv(T(23), "kills-stranger", "seatd-launch signals process %ld, %s", S->kill_other_pid,
				 S->kill_reaped ? "which was seatd until it was waited for and may be any process now" : "which it has not started");
		if (opts) {
			bool bad = opts >= 3;
			if (S->forks)
				eng::inv(T(23), "usage", "processes are started for %s", special[opts]);
			if ((x != 0) != bad && opts != 4)
				eng::inv(T(23), "usage", "%s: exit status %d", special[opts], x);
			if (opts == 4 && x == 0)
				eng::inv(T(23), "usage", "no command: exit status 0");
			eng::count("usage");
			return;
		}
		bool fails = S->fatal || ready == R_EXIT || ready == R_CRASH || ready == R_EXECFAIL || ready == R_NOSOCK || ready == R_CLOSE_EXIT;
		// without the privilege to become somebody else nothing changes, which is no failure
		if (fails) {
			if (S->cmd_started && !S->late)
				eng::inv(T(23), "ran-anyway", "the command is run although seatd %s%s", rn[ready], S->fatal ? " and a system call failed" : "");
			if (x == 0)
				eng::inv(T(23), "status", "exit status 0 although the command was not run");
			eng::count("failed launches");
			eng::nontrivial();
		} else if (ready == R_READY_DIES && !S->cmd_started) { // whether its end is noticed in time is a matter of luck
			if (x == 0)
				eng::inv(T(23), "status", "exit status 0 although the command was not run");
		} else if (exec_cmd_fails) {
			if (x == 0)
				eng::inv(T(23), "status", "exit status 0 although the command cannot be executed");
			eng::count("commands not executable");
		} else {
			if (!S->cmd_started)
				eng::inv(T(23), "not-run", "the command is not run (exit status %d)", x);
			int want = cmd_kind == 1 ? 128 + cmd_arg : cmd_arg;
			if (S->cmd_started && x != want)
				eng::inv(T(23), "status", "the command %s %d, seatd-launch exits with %d", cmd_kind == 1 ? "dies of signal" : "exits with", cmd_arg, x);
			eng::count(cmd_kind == 1 ? "commands killed" : "commands exiting");
			eng::nontrivial();
		}
		if (S->seatd_started) {
			if (!S->n_ok)
				eng::inv(T(23), "ready-fd", "seatd is not given an open descriptor (-n): %s", S->seatd_args);
			std::string a = S->seatd_args;
			if (!want_level.empty() && a.find("|-l|" + want_level + "|") == std::string::npos && a.find("|-l" + want_level + "|") == std::string::npos)
				eng::inv(T(23), "level", "seatd is started as %s, log level %s was asked for", a.c_str(), want_level.c_str());
			if (S->seatd_nenv)
				eng::inv(T(23), "seatd-env", "seatd gets the environment %s", S->seatd_env);
			if (seatd_left)
				eng::inv(T(23), "seatd-left", "seatd-launch has exited, seatd is still running");
		}
		if (S->cmd_started) {
			if (S->cmd_before_ready)
				eng::inv(T(23), "not-ready", "the command starts before seatd is ready");
			if (S->ru != ruid || S->eu != ruid || S->rg != rgid || S->eg != rgid) // executing makes the effective ids the saved ones
				eng::inv(T(23), "ids", "the command runs with uids %u %u %u, gids %u %u %u instead of %u:%u", S->ru, S->eu, S->su, S->rg, S->eg, S->sg, ruid, rgid);
			if (strcmp(S->sock_env, "seatd.sock"))
				eng::inv(T(23), "sock-env", "the command's SEATD_SOCK is \"%s\"", S->sock_env);
			if (!S->socket_seen || S->so_uid != ruid || S->so_gid != rgid || S->so_mode != 0700)
				eng::inv(T(23), "socket", "the socket is owned by %u:%u, mode %o", S->so_uid, S->so_gid, S->so_mode);
			std::string w;
			for (auto &s : cmd)
				w += s + "|";
			if (w != S->cmd_args || cmd[0] != S->cmd_file)
				eng::inv(T(23), "argv", "the command is %s of %s instead of %s", S->cmd_args, S->cmd_file, w.c_str());
			if ((S->kill_before_cmd_done || S->seatd_dead_at_cmd) && !S->fatal)
				eng::inv(T(23), "killed-early", "seatd is ended while the command runs");
		}
		eng::sig(x + 1000 * ready + 20000 * cmd_kind + 100000 * S->fatal);
		eng::sig(ruid * 7 + rgid + setuid_root);
		eng::sig(f_kind * 8 + chld_ignored * 4 + fds_closed);
	}
	static bool is_child_alive(pid_t p) {
		char b[200], path[40];
		snprintf(path, sizeof path, "/proc/%d/stat", p);
		int fd = ::open(path, O_RDONLY | O_CLOEXEC);
		if (fd < 0)
			return false;
		int n = ::read(fd, b, sizeof b - 1);
		::close(fd);
		b[n > 0 ? n : 0] = 0;
		const char *q = strrchr(b, ')');
		return q && q[1] == ' ' && q[2] != 'Z' && q[2] != 'X';
	}
	size_t max_ops() override { return 10; }
	void gen(Rng &r, Case &c, int) override {
		for (auto &b : c.cfg)
			b = r.next();
		static const int ks[] = {MODE, IDS, LEVEL, ARGS, READY, CMD, CMD, FAULT, ENV};
		for (int k : ks) {
			if (!r.chance(k == MODE ? 10 : k == FAULT ? 45 : 75))
				continue;
			Op o;
			o.k = k;
			o.f = 0;
			o.a = r.next();
			o.b = r.next();
			o.c = r.next();
			o.d = r.next();
			c.ops.push_back(o);
		}
	}
	std::string rule(int) override { return "seatd is started and either the command is run or the launch fails; distinct by ids, behaviour of seatd and the command, failing call and exit status"; }
	std::string describe(const Case &c) override {
		std::string s;
		char b[100];
		for (auto &o : c.ops) {
			snprintf(b, sizeof b, "%s(%u,%u,%u) ", kn[o.k % NK], o.a, o.b, o.c);
			s += b;
		}
		return s;
	}
};
Harness *make_harness() { return new Launch; }
