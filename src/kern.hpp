// Fake kernel: a virtual file system with device nodes, DRM master / input revocation per open file description,
// and virtual terminals with process-controlled switching. An open file description is the read end of a pipe,
// identified by inode; the harness keeps the write end, which tells when the last descriptor has been closed.
#pragma once
#include "engine.hpp"
#include <cstdint>
#include <functional>
#include <map>
#include <string>
#include <vector>

enum NodeKind { N_NONE, N_DIR, N_LINK, N_CARD, N_RENDER, N_EVDEV, N_HIDRAW, N_VTTY, N_REG, N_MISC };
const char *kind_name(int k);

struct Node {
	NodeKind kind = N_NONE;
	std::string target; // links
	int num = 0;        // tty number
	int idx = 0;        // index in Kern::byidx
	int open_errno = 0; // opening fails with this
	uint64_t rdev = 0;
	std::string path;
};

struct Ofd {
	uint64_t ino;
	int node;       // Node::idx
	int kind;
	int flags;
	int owner;      // harness client id it was opened for, -1 none
	int vt;         // tty: bound VT
	bool master, ever_master, lost_master, revoked;
	bool granted;   // passed to a client
	bool exempt;    // a revocation failed because of an injected fault
	bool set_failed; // last SET_MASTER attempt was made to fail
	bool dead;      // the daemon closed its descriptor
};

struct Vt {
	int mode, relsig, acqsig, kb, gfx, newvt;
	bool acq_unacked;
	bool touched;
};
static const int NVT = 63;
inline int far_vt(int i) { static const int v[] = {63, 1, 10, 12, 9, 33}; return v[i % 6]; } // VT numbers of one and two digits

struct KState { // shared with forked servers
	Ofd ofd[6000];
	int nofd;
	Vt vt[NVT + 1];
	int fg;
	int activate_calls, last_activate;
	long switches;
	uint64_t foreign_master[8]; // per card number: 1 if another process holds master
};

struct Kern {
	KState *ks;
	int ks_pid = 0;
	std::map<std::string, Node> fs;
	std::vector<std::string> byidx;
	std::function<void(int)> raise;            // deliver a signal to the server
	std::function<void(int, bool)> on_reldisp; // called before VT_RELDISP takes effect: (vt, release)
	std::function<int(int)> fault;             // ask for an injected errno for a class (0: none)
	bool hidraw = true;
	bool tty_forbidden = false, tty_used = false;
	int seen_vt = -2; // last answer to VT_GETSTATE
	std::vector<int> activations; // VT_ACTIVATE arguments
	std::vector<int> watch;       // write ends, by OFD index

	Kern();
	void reset(bool many);
	Node &add(const std::string &p, NodeKind k, const std::string &target = "", int num = 0);
	void remove(const std::string &p);
	// resolves; returns 0 or errno. follow_last: follow a final symlink
	int resolve(const std::string &p, std::string &out, bool follow_last);
	bool genuine(const std::string &canon);
	int do_open(const char *path, int flags, int owner, bool count_fault = true); // fd or -1/errno
	Ofd *find(int fd);
	Ofd *by_ino(uint64_t ino);
	int do_ioctl(int fd, Ofd *o, unsigned long req, void *arg);
	bool privileged(const Ofd &o);
	bool held(int node); // some live description of this node has DRM master
	void close_watch();
	// VT events caused by the user
	void user_switch(int vt);
	void change_console(int vt);
	void complete_change(int vt);
};
enum FaultClass {
	F_NONE, F_ALLOC, F_OPENDEV, F_DUP, F_SETMASTER, F_DROPMASTER, F_REVOKE, F_REALPATH, F_ACCEPT, F_SEND, F_RECV,
	F_FCNTL, F_GETSOCKOPT, F_TTYOPEN, F_TTYIOCTL, F_NCLASS
};
uint64_t ino_of(int fd);
