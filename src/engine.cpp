#include "engine.hpp"
#include <algorithm>
#include <cerrno>
#include <csignal>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <set>
#include <string>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

extern "C" const char *__asan_default_options() {
	return "detect_leaks=0:exitcode=99:abort_on_error=0:allocator_may_return_null=1:handle_segv=1:"
	       "detect_stack_use_after_return=0:symbolize=0:quarantine_size_mb=8:malloc_context_size=12";
}
extern "C" const char *__ubsan_default_options() { return "print_stacktrace=1:exitcode=99"; }

static const size_t MAXOPS = 400;
static const size_t NCOR = 1500, NSIGS = 1 << 19, NCNT = 200, NCOV = 1 << 14;

struct RawCase {
	uint8_t cfg[16];
	uint32_t n;
	Op ops[MAXOPS];
};
struct Counter {
	char name[56];
	long n;
};
struct Shm {
	volatile uint64_t progress;
	RawCase cur;
	volatile uint64_t cur_id;
	// result of a failing case
	volatile int failed; // 1 fail
	char key[96];
	char msg[3000];
	uint32_t tags;
	// statistics
	long evals, nontriv, other_dev;
	Counter cnt[NCNT];
	uint32_t nsig;
	uint64_t sigs[NSIGS];
	char sample[6000];
	int nsample;
	// coverage
	uint8_t virgin[NCOV];
	uint32_t ncor;
	RawCase corpus[NCOR];
	long other_n;
	char other_first[600];
};
struct Glob {
	volatile int stop;
};

static Shm *S;
static Glob *G;
static int g_prop = 1;
static uint64_t g_seed = 1;
static long g_cases = 1000;
static int g_jobs = 8, g_batch = 150;
static double g_maxsec = 100;
static bool g_verbose, g_thorough, g_shrinking, g_any; // g_any: a deviation from any property counts (used when testing the checks)
static std::string g_scratch_root;
static char g_scratch[200];
static Harness *H;

// per-case state
static bool c_desync, c_nontriv, c_running;
static uint64_t c_sig;

static struct {
	uint8_t *a, *b;
} covreg[256];
static int ncovreg;
extern "C" void __sanitizer_cov_8bit_counters_init(uint8_t *a, uint8_t *b) {
	for (int i = 0; i < ncovreg; i++)
		if (covreg[i].a == a)
			return;
	if (ncovreg < 256) {
		covreg[ncovreg].a = a;
		covreg[ncovreg++].b = b;
	}
}

static double now() {
	struct timespec t;
	clock_gettime(CLOCK_MONOTONIC, &t);
	return t.tv_sec + t.tv_nsec / 1e9;
}

namespace eng {
bool desynced() { return c_desync; }
void desync() { c_desync = true; }
int prop() { return g_prop; }
bool wants(int p) { return g_prop == p; }
bool verbose() { return g_verbose; }
bool thorough() { return g_thorough; }
const char *scratch() { return g_scratch; }
void nontrivial() { c_nontriv = true; }
void sig(uint64_t x) {
	c_sig ^= x + 0x9E3779B97F4A7C15ull + (c_sig << 6) + (c_sig >> 2);
	c_sig *= 0xff51afd7ed558ccdull;
	c_sig ^= c_sig >> 32;
}
void count(const char *cls, long n) {
	for (size_t i = 0; i < NCNT; i++) {
		if (!S->cnt[i].name[0])
			snprintf(S->cnt[i].name, sizeof S->cnt[i].name, "%s", cls);
		if (!strcmp(S->cnt[i].name, cls)) {
			S->cnt[i].n += n;
			return;
		}
	}
}
void trace(const char *fmt, ...) {
	if (!g_verbose)
		return;
	va_list ap;
	va_start(ap, fmt);
	vfprintf(stderr, fmt, ap);
	va_end(ap);
	fputc('\n', stderr);
}
static void report(Tags tags, const char *key, const char *fmt, va_list ap) {
	char buf[2600];
	vsnprintf(buf, sizeof buf, fmt, ap);
	if (g_verbose)
		fprintf(stderr, "!! %s [tags %x]: %s\n", key, tags, buf);
	if (!g_any && !(tags & T(g_prop))) {
		S->other_dev++;
		if (!S->other_first[0])
			snprintf(S->other_first, sizeof S->other_first, "%s: %.500s", key, buf);
		return;
	}
	S->failed = 1;
	S->tags = tags;
	snprintf(S->key, sizeof S->key, "%s", key);
	snprintf(S->msg, sizeof S->msg, "%s", buf);
	fflush(NULL);
	_exit(77);
}
void fail(Tags tags, const char *key, const char *fmt, ...) {
	if (c_desync)
		return;
	c_desync = true;
	va_list ap;
	va_start(ap, fmt);
	report(tags, key, fmt, ap);
	va_end(ap);
}
void inv(Tags tags, const char *key, const char *fmt, ...) {
	va_list ap;
	va_start(ap, fmt);
	report(tags, key, fmt, ap);
	va_end(ap);
}
}

static void to_raw(const Case &c, RawCase &r) {
	memcpy(r.cfg, c.cfg, 16);
	r.n = std::min(c.ops.size(), MAXOPS);
	if (r.n)
		memcpy(r.ops, c.ops.data(), r.n * sizeof(Op));
}
static void from_raw(const RawCase &r, Case &c) {
	memcpy(c.cfg, r.cfg, 16);
	c.ops.assign(r.ops, r.ops + r.n);
}

static void on_prof(int) {
	S->failed = 2;
	_exit(78);
}
static void set_cpu_timer(int sec) {
	struct itimerval it = {};
	it.it_value.tv_sec = sec;
	setitimer(ITIMER_PROF, &it, NULL);
}

static void run_case(const Case &c) {
	to_raw(c, S->cur);
	c_desync = c_nontriv = false;
	c_sig = 1469598103934665603ull;
	for (int i = 0; i < ncovreg; i++)
		memset(covreg[i].a, 0, covreg[i].b - covreg[i].a);
	set_cpu_timer(12);
	S->progress++;
	c_running = true;
	H->run(c);
	c_running = false;
	set_cpu_timer(0);
	S->evals++;
	if (c_nontriv) {
		S->nontriv++;
		if (S->nsig < NSIGS)
			S->sigs[S->nsig++] = c_sig;
	}
	bool fresh = false;
	size_t off = 0;
	for (int i = 0; i < ncovreg; i++)
		for (uint8_t *p = covreg[i].a; p < covreg[i].b && off < NCOV; p++, off++) {
			if (!*p)
				continue;
			uint8_t v = *p, b = v == 1 ? 1 : v == 2 ? 2 : v <= 4 ? 4 : v <= 8 ? 8 : v <= 16 ? 16 : v <= 32 ? 32 : v <= 128 ? 64 : 128;
			if (!(S->virgin[off] & b)) {
				S->virgin[off] |= b;
				fresh = true;
			}
		}
	if (fresh && S->ncor < NCOR && !c.ops.empty())
		to_raw(c, S->corpus[S->ncor++]);
	if (c_nontriv && S->nsample < 2 && !g_shrinking) {
		std::string d = H->describe(c);
		size_t l = strlen(S->sample);
		if (l + 2500 < sizeof S->sample) {
			snprintf(S->sample + l, 2400, "%.2300s\x1f", d.c_str());
			S->nsample++;
		}
	}
}

static void mutate(Rng &r, Case &c) {
	int n = 1 + r.below(5);
	size_t mx = std::min(H->max_ops(), MAXOPS);
	for (int i = 0; i < n; i++) {
		size_t sz = c.ops.size();
		switch (r.below(9)) {
		case 0:
			if (sz > 1)
				c.ops.erase(c.ops.begin() + r.below(sz));
			break;
		case 1: {
			Case t;
			H->gen(r, t, g_prop);
			if (!t.ops.empty() && sz < mx) {
				size_t from = r.below(t.ops.size()), cnt = 1 + r.below(6);
				cnt = std::min(cnt, t.ops.size() - from);
				cnt = std::min(cnt, mx - sz);
				c.ops.insert(c.ops.begin() + r.below(sz + 1), t.ops.begin() + from, t.ops.begin() + from + cnt);
			}
			break;
		}
		case 2:
			if (sz) {
				Op &o = c.ops[r.below(sz)];
				switch (r.below(6)) {
				case 0: o.a = r.below(2) ? r.below(8) : r.next(); break;
				case 1: o.b = r.below(2) ? r.below(8) : r.next(); break;
				case 2: o.c = r.below(2) ? r.below(8) : r.next(); break;
				case 3: o.d = r.next(); break;
				case 4: o.f ^= 1u << r.below(8); break;
				default: o.f = r.next(); break;
				}
			}
			break;
		case 3:
			if (sz > 1)
				std::swap(c.ops[r.below(sz)], c.ops[r.below(sz)]);
			break;
		case 4:
			if (sz && sz < mx) {
				Op o = c.ops[r.below(sz)];
				c.ops.insert(c.ops.begin() + r.below(sz + 1), o);
			}
			break;
		case 5:
			if (S->ncor) {
				Case t;
				from_raw(S->corpus[r.below(S->ncor)], t);
				size_t cut = r.below(sz + 1), from = r.below(t.ops.size());
				c.ops.resize(cut);
				c.ops.insert(c.ops.end(), t.ops.begin() + from, t.ops.end());
				if (c.ops.size() > mx)
					c.ops.resize(mx);
			}
			break;
		case 6:
			if (r.chance(20))
				c.cfg[r.below(16)] = r.next();
			break;
		default:
			if (sz)
				c.ops[r.below(sz)].f ^= 1;
			break;
		}
	}
	if (c.ops.empty())
		H->gen(r, c, g_prop);
}

static void make_case(uint64_t id, Case &c) {
	Rng r(g_seed * 0x100000001B3ull + id * 0x9E3779B97F4A7C15ull + g_prop * 7919);
	r.next();
	if (S->ncor > 4 && r.chance(35)) {
		from_raw(S->corpus[r.below(S->ncor)], c);
		mutate(r, c);
	} else {
		H->gen(r, c, g_prop);
		if (c.ops.size() > MAXOPS)
			c.ops.resize(MAXOPS);
	}
}

static void child_setup(const char *errfile) {
	snprintf(g_scratch, sizeof g_scratch, "%s/p%d", g_scratch_root.c_str(), (int)getpid());
	mkdir(g_scratch, 0700);
	if (chdir(g_scratch) != 0)
		_exit(70);
	if (errfile) {
		int fd = open(errfile, O_RDWR | O_CREAT | O_TRUNC, 0600);
		if (fd >= 0) {
			dup2(fd, 2);
			dup2(fd, 1);
			close(fd);
		}
	}
	struct sigaction sa = {};
	sa.sa_handler = on_prof;
	sigaction(SIGPROF, &sa, NULL);
}
static void rm_rf(const std::string &d) {
	// only ever called on a directory this program created under its scratch root
	if (d.compare(0, g_scratch_root.size(), g_scratch_root) != 0 || g_scratch_root.size() < 6)
		return;
	pid_t p = fork();
	if (p == 0) {
		execl("/bin/rm", "rm", "-rf", d.c_str(), (char *)NULL);
		_exit(1);
	}
	while (waitpid(p, NULL, 0) == -1 && errno == EINTR) {
	}
}
static std::string slurp(const std::string &f, size_t mx = 20000) {
	std::string s;
	FILE *fp = fopen(f.c_str(), "r");
	if (!fp)
		return s;
	char b[4096];
	size_t n;
	while ((n = fread(b, 1, sizeof b, fp)) > 0 && s.size() < mx)
		s.append(b, n);
	fclose(fp);
	return s;
}
// 0 = ended normally; otherwise a failure is recorded in S
static int wait_child(pid_t pid, const std::string &errfile) {
	uint64_t last = S->progress;
	double t0 = now();
	int st;
	int spins = 0;
	for (;;) {
		pid_t r = waitpid(pid, &st, WNOHANG);
		if (r == pid)
			break;
		if (S->progress != last) {
			last = S->progress;
			t0 = now();
		}
		if (now() - t0 > 90) {
			kill(pid, SIGKILL);
			waitpid(pid, &st, 0);
			S->failed = 1;
			S->tags = TALL;
			snprintf(S->key, sizeof S->key, "hang");
			snprintf(S->msg, sizeof S->msg, "the code under test did not return (no progress for 90 s)");
			return 1;
		}
		usleep(spins++ < 200 ? 200 : 3000);
	}
	std::string dir = g_scratch_root + "/p" + std::to_string(pid);
	rm_rf(dir);
	if (WIFEXITED(st) && WEXITSTATUS(st) == 0)
		return 0;
	if (WIFEXITED(st) && WEXITSTATUS(st) == 77 && S->failed == 1)
		return 1;
	S->tags = TALL;
	if (WIFEXITED(st) && WEXITSTATUS(st) == 78) {
		snprintf(S->key, sizeof S->key, "hang");
		snprintf(S->msg, sizeof S->msg, "the code under test did not return (12 s of CPU time used)");
	} else {
		std::string err = slurp(errfile);
		std::string k = "crash";
		size_t p;
		if ((p = err.find("Assertion `")) != std::string::npos)
			k += ":assert:" + err.substr(p + 11, 60);
		else if ((p = err.find("SUMMARY: ")) != std::string::npos)
			k += ":" + err.substr(p + 9, err.find(' ', p + 27) == std::string::npos ? 40 : err.find(' ', p + 27) - p - 9);
		else if ((p = err.find("runtime error: ")) != std::string::npos)
			k += ":ubsan:" + err.substr(p + 15, 40);
		for (auto &ch : k)
			if (ch == '\n' || ch == '"' || ch == '\\')
				ch = ' ';
		snprintf(S->key, sizeof S->key, "%s", k.c_str());
		size_t from = 0;
		if ((p = err.find("ERROR: ")) != std::string::npos)
			from = p;
		snprintf(S->msg, sizeof S->msg, "the code under test crashed (wait status 0x%x): %s", st, err.substr(from, 2400).c_str());
	}
	S->failed = 1;
	return 1;
}

// runs one case in a child; true if it fails for this property
static bool run_one(const Case &c, std::string &key, std::string &msg, bool show) {
	S->failed = 0;
	S->key[0] = S->msg[0] = 0;
	std::string ef = g_scratch_root + "/one.err";
	fflush(NULL);
	pid_t pid = fork();
	if (pid == 0) {
		child_setup(show ? NULL : ef.c_str());
		g_verbose = show;
		run_case(c);
		fflush(NULL);
		_exit(0);
	}
	int r = wait_child(pid, ef);
	key = S->key;
	msg = S->msg;
	return r != 0;
}

static int worker(int w) {
	std::string ef = g_scratch_root + "/w" + std::to_string(w) + ".err";
	uint64_t id = w;
	double t0 = now();
	while ((long)id < g_cases && !G->stop && now() - t0 < g_maxsec) {
		S->failed = 0;
		fflush(NULL);
		pid_t pid = fork();
		if (pid == 0) {
			child_setup(ef.c_str());
			for (int i = 0; i < g_batch && (long)id < g_cases; i++, id += g_jobs) {
				S->cur_id = id;
				Case c;
				make_case(id, c);
				run_case(c);
			}
			fflush(NULL);
			_exit(0);
		}
		if (wait_child(pid, ef)) {
			G->stop = 1;
			return 1;
		}
		id = S->cur_id + g_jobs;
	}
	return 0;
}

static std::string jstr(const std::string &s) {
	std::string o = "\"";
	for (unsigned char ch : s) {
		if (ch == '"' || ch == '\\') {
			o += '\\';
			o += ch;
		} else if (ch == '\n')
			o += "\\n";
		else if (ch < 32 || ch > 126) {
			char b[8];
			snprintf(b, sizeof b, "\\u%04x", ch);
			o += b;
		} else
			o += ch;
	}
	return o + "\"";
}

static void write_replay(const std::string &f, const Case &c, const std::string &key, const std::string &msg) {
	FILE *fp = fopen(f.c_str(), "w");
	if (!fp)
		return;
	fprintf(fp, "prop %d\ncfg ", g_prop);
	for (int i = 0; i < 16; i++)
		fprintf(fp, "%02x", c.cfg[i]);
	fprintf(fp, "\n");
	for (auto &o : c.ops)
		fprintf(fp, "op %u %u %u %u %u %u\n", o.k, o.f, o.a, o.b, o.c, o.d);
	fprintf(fp, "# failure %s\n", key.c_str());
	std::string m = "# " + msg + "\n";
	for (auto &ch : m)
		if (ch == '\r')
			ch = ' ';
	for (size_t i = 0; i < m.size(); i++) {
		fputc(m[i], fp);
		if (m[i] == '\n' && i + 1 < m.size())
			fputs("# ", fp);
	}
	std::string d = H->describe(c);
	fputs("# case:\n# ", fp);
	for (char ch : d) {
		fputc(ch, fp);
		if (ch == '\n')
			fputs("# ", fp);
	}
	fputc('\n', fp);
	fclose(fp);
}
static bool read_replay(const char *f, Case &c) {
	FILE *fp = fopen(f, "r");
	if (!fp)
		return false;
	char line[4096];
	while (fgets(line, sizeof line, fp)) {
		unsigned k, fl, a, b, cc, d;
		int p;
		if (sscanf(line, "prop %d", &p) == 1)
			g_prop = p;
		else if (!strncmp(line, "cfg ", 4)) {
			for (int i = 0; i < 16; i++) {
				unsigned v;
				if (sscanf(line + 4 + 2 * i, "%2x", &v) == 1)
					c.cfg[i] = v;
			}
		} else if (sscanf(line, "op %u %u %u %u %u %u", &k, &fl, &a, &b, &cc, &d) == 6)
			c.ops.push_back(Op{(uint8_t)k, (uint8_t)fl, (uint16_t)a, (uint16_t)b, (uint16_t)cc, d});
	}
	fclose(fp);
	return true;
}

static Case shrink(Case c, const std::string &key) {
	double t0 = now();
	int tries = 0;
	auto bad = [&](const Case &x) {
		tries++;
		std::string k, m;
		return run_one(x, k, m, false) && k == key;
	};
	bool hang = key == "hang";
	int lim = hang ? 25 : 1200;
	double tl = hang ? 60 : 45;
	size_t chunk = c.ops.size() / 2;
	while (chunk >= 1 && tries < lim && now() - t0 < tl) {
		bool any = false;
		for (size_t i = 0; i + 1 <= c.ops.size() && tries < lim && now() - t0 < tl;) {
			Case t = c;
			size_t e = std::min(i + chunk, t.ops.size());
			t.ops.erase(t.ops.begin() + i, t.ops.begin() + e);
			if (bad(t)) {
				c = t;
				any = true;
			} else
				i += chunk;
		}
		if (chunk == 1 && !any)
			break;
		if (chunk > 1)
			chunk /= 2;
	}
	for (size_t i = 0; i < c.ops.size() && tries < lim && now() - t0 < tl; i++)
		for (int fld = 0; fld < 5; fld++) {
			Case t = c;
			Op &o = t.ops[i];
			switch (fld) {
			case 0: if (!o.f) continue; o.f = 0; break;
			case 1: if (!o.a) continue; o.a = 0; break;
			case 2: if (!o.b) continue; o.b = 0; break;
			case 3: if (!o.c) continue; o.c = 0; break;
			default: if (!o.d) continue; o.d = 0; break;
			}
			if (tries < lim && bad(t))
				c = t;
		}
	for (int i = 0; i < 16 && tries < lim && now() - t0 < tl; i++)
		if (c.cfg[i]) {
			Case t = c;
			t.cfg[i] = 0;
			if (bad(t))
				c = t;
		}
	return c;
}

int main(int argc, char **argv) {
	std::string out, replays = ".", replay, name = "h", gencase;
	for (int i = 1; i < argc; i++) {
		std::string a = argv[i];
		auto nx = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
		if (a == "--prop") g_prop = atoi(nx().c_str());
		else if (a == "--seed") g_seed = strtoull(nx().c_str(), 0, 10);
		else if (a == "--cases") g_cases = atol(nx().c_str());
		else if (a == "--jobs") g_jobs = atoi(nx().c_str());
		else if (a == "--batch") g_batch = std::max(1, atoi(nx().c_str()));
		else if (a == "--max-seconds") g_maxsec = atof(nx().c_str());
		else if (a == "--out") out = nx();
		else if (a == "--replays") replays = nx();
		else if (a == "--name") name = nx();
		else if (a == "--thorough") g_thorough = true;
		else if (a == "--any") g_any = true;
		else if (a == "--replay") replay = nx();
		else if (a == "--gen") gencase = nx();
		else {
			fprintf(stderr, "bad argument %s\n", a.c_str());
			return 2;
		}
	}
	char tmpl[] = "/tmp/vfz.XXXXXX";
	if (!mkdtemp(tmpl)) {
		perror("mkdtemp");
		return 2;
	}
	g_scratch_root = tmpl;
	signal(SIGPIPE, SIG_DFL);
	struct rlimit rl = {8192, 8192};
	setrlimit(RLIMIT_NOFILE, &rl);
	rl.rlim_cur = rl.rlim_max = 0;
	setrlimit(RLIMIT_CORE, &rl);
	H = make_harness();
	G = (Glob *)mmap(NULL, sizeof(Glob), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	std::vector<Shm *> shm(g_jobs);
	for (auto &s : shm)
		s = (Shm *)mmap(NULL, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	S = shm[0];
	double t0 = now();
	if (!replay.empty()) {
		Case c;
		if (!read_replay(replay.c_str(), c))
			return 2;
		printf("%s\n", H->describe(c).c_str());
		fflush(stdout);
		std::string k, m;
		bool b = run_one(c, k, m, true);
		printf(b ? "FAILS %s: %s\n" : "passes %s%s\n", k.c_str(), m.c_str());
		rm_rf(g_scratch_root);
		return b ? 1 : 0;
	}
	if (!gencase.empty()) {
		Case c;
		make_case(strtoull(gencase.c_str(), 0, 10), c);
		printf("%s\n", H->describe(c).c_str());
		rm_rf(g_scratch_root);
		return 0;
	}
	std::vector<pid_t> pids;
	fflush(NULL);
	for (int w = 0; w < g_jobs; w++) {
		pid_t p = fork();
		if (p == 0) {
			S = shm[w];
			int r = worker(w);
			fflush(NULL);
			_exit(r);
		}
		pids.push_back(p);
	}
	std::vector<int> bad;
	for (int w = 0; w < g_jobs; w++) {
		int st;
		while (waitpid(pids[w], &st, 0) == -1 && errno == EINTR) {
		}
		if (!WIFEXITED(st) || WEXITSTATUS(st) > 1) {
			fprintf(stderr, "worker %d died: 0x%x\n", w, st);
			rm_rf(g_scratch_root);
			return 2;
		}
		if (WEXITSTATUS(st) == 1)
			bad.push_back(w);
	}
	// aggregate
	std::set<uint64_t> sigs;
	long evals = 0, nontriv = 0, other = 0, ncor = 0, edges = 0;
	std::vector<std::pair<std::string, long>> cnt;
	std::vector<std::string> samples;
	std::string firstother;
	std::vector<uint8_t> cov(NCOV, 0);
	for (auto *s : shm) {
		evals += s->evals;
		nontriv += s->nontriv;
		other += s->other_dev;
		ncor += s->ncor;
		for (size_t i = 0; i < NCOV; i++)
			cov[i] |= s->virgin[i];
		if (firstother.empty() && s->other_first[0])
			firstother = s->other_first;
		for (uint32_t i = 0; i < s->nsig; i++)
			sigs.insert(s->sigs[i]);
		for (auto &k : s->cnt)
			if (k.name[0]) {
				auto it = std::find_if(cnt.begin(), cnt.end(), [&](auto &x) { return x.first == k.name; });
				if (it == cnt.end())
					cnt.push_back({k.name, k.n});
				else
					it->second += k.n;
			}
		std::string sm = s->sample;
		size_t p;
		while ((p = sm.find('\x1f')) != std::string::npos) {
			if (samples.size() < 3)
				samples.push_back(sm.substr(0, p));
			sm = sm.substr(p + 1);
		}
	}
	for (auto v : cov)
		edges += v != 0;
	int violations = 0;
	std::string vjson = "null";
	int rc = 0;
	// smallest failing case first
	std::sort(bad.begin(), bad.end(), [&](int a, int b) { return shm[a]->cur.n < shm[b]->cur.n; });
	std::vector<std::string> flaky;
	for (int w : bad) {
		S = shm[w];
		Case c;
		from_raw(S->cur, c);
		std::string key = S->key, msg = S->msg, k2, m2;
		g_shrinking = true;
		if (!run_one(c, k2, m2, false)) {
			flaky.push_back(key + ": " + msg.substr(0, 300));
			continue;
		}
		key = k2;
		msg = m2;
		Case s = g_any ? c : shrink(c, key);
		int ok = 0;
		for (int i = 0; i < 3; i++)
			if (run_one(s, k2, m2, false)) {
				ok++;
				msg = m2;
				key = k2;
			}
		if (ok < 3) {
			s = c;
			ok = 0;
			for (int i = 0; i < 3; i++)
				ok += run_one(s, k2, m2, false);
		}
		if (ok < 3) {
			flaky.push_back(key + ": " + msg.substr(0, 300));
			continue;
		}
		char f[400];
		snprintf(f, sizeof f, "%s/C%02d-%s-%llu.replay", replays.c_str(), g_prop, name.c_str(), (unsigned long long)g_seed);
		write_replay(f, s, key, msg);
		if (g_any)
			printf("TAGS %x\n", (unsigned)S->tags);
		printf("FAIL %s\nREPLAY %s\n%s\n--\n%s\n", key.c_str(), f, msg.c_str(), H->describe(s).c_str());
		violations++;
		vjson = "{\"key\":" + jstr(key) + ",\"message\":" + jstr(msg.substr(0, 1200)) + ",\"replay\":" + jstr(f) + "}";
		rc = 1;
		break;
	}
	for (auto &s : flaky)
		fprintf(stderr, "not reproducible, not counted: %s\n", s.c_str());
	if (!bad.empty() && rc == 0)
		rc = 3; // a failure that did not replay
	if (rc == 3 && g_batch > 1) {
		// State left behind by earlier cases of the same process may have been needed: start over, one process per case.
		fprintf(stderr, "starting over with a process per case\n");
		rm_rf(g_scratch_root);
		std::vector<char *> av(argv, argv + argc);
		static char b1[] = "--batch", b2[] = "1";
		av.push_back(b1);
		av.push_back(b2);
		av.push_back(NULL);
		fflush(NULL);
		execv("/proc/self/exe", av.data());
		return 2;
	}
	if (!out.empty()) {
		FILE *fp = fopen(out.c_str(), "w");
		if (!fp)
			return 2;
		fprintf(fp, "{\"name\":%s,\"evaluations\":%ld,\"nontrivial\":%ld,\"distinct_nontrivial\":%zu,\"rule\":%s,\n", jstr(name).c_str(), evals, nontriv, sigs.size(), jstr(H->rule(g_prop)).c_str());
		fprintf(fp, "\"corpus\":%ld,\"edges\":%ld,\"other_property_deviations\":%ld,\"first_other\":%s,\"wall_s\":%.2f,\"violation\":%s,\n", ncor, edges, other, jstr(firstother).c_str(), now() - t0, vjson.c_str());
		fprintf(fp, "\"classes\":{");
		for (size_t i = 0; i < cnt.size(); i++)
			fprintf(fp, "%s%s:%ld", i ? "," : "", jstr(cnt[i].first).c_str(), cnt[i].second);
		fprintf(fp, "},\n\"flaky\":[");
		for (size_t i = 0; i < flaky.size(); i++)
			fprintf(fp, "%s%s", i ? "," : "", jstr(flaky[i]).c_str());
		fprintf(fp, "],\n\"samples\":[");
		for (size_t i = 0; i < samples.size(); i++)
			fprintf(fp, "%s%s", i ? "," : "", jstr(samples[i]).c_str());
		fprintf(fp, "]}\n");
		fclose(fp);
	}
	rm_rf(g_scratch_root);
	return rc;
}
