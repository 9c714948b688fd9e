#include "kern.hpp"
#include <cerrno>
#include <climits>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <linux/input.h>
#include <poll.h>
#include <linux/kd.h>
#include <linux/vt.h>
#include <linux/hidraw.h>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/sysmacros.h>
#include <unistd.h>
#ifndef HIDIOCREVOKE
#define HIDIOCREVOKE _IOW('H', 0x0D, int)
#endif

const char *kind_name(int k) {
	static const char *n[] = {"none", "dir", "link", "card", "render", "evdev", "hidraw", "tty", "file", "misc"};
	return n[k];
}
uint64_t ino_of(int fd) {
	struct stat st;
	return fstat(fd, &st) == 0 ? st.st_ino : 0;
}

Kern::Kern() {
	ks = (KState *)mmap(NULL, sizeof(KState), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	if (ks == MAP_FAILED)
		abort();
}
Node &Kern::add(const std::string &p, NodeKind k, const std::string &target, int num) {
	Node &n = fs[p];
	n = Node();
	n.kind = k;
	n.target = target;
	n.num = num;
	n.path = p;
	n.idx = (int)byidx.size();
	byidx.push_back(p);
	unsigned ma = k == N_CARD || k == N_RENDER ? 226 : k == N_EVDEV ? 13 : k == N_VTTY ? 4 : 250;
	n.rdev = makedev(ma, (unsigned)(k == N_EVDEV ? 64 + num : k == N_RENDER ? 128 + num : num));
	return n;
}
void Kern::remove(const std::string &p) { fs.erase(p); }

void Kern::reset(bool many) {
	if (ks_pid != getpid()) { // not shared between the engine's workers, only with children of a case
		ks_pid = getpid();
		ks = (KState *)mmap(NULL, sizeof(KState), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	}
	for (int i = 0; i < ks->nofd && i < 6000; i++)
		memset(&ks->ofd[i], 0, sizeof(Ofd));
	ks->nofd = 0;
	memset(ks->vt, 0, sizeof ks->vt);
	for (int i = 0; i <= NVT; i++) {
		ks->vt[i].mode = VT_AUTO;
		ks->vt[i].kb = K_UNICODE;
		ks->vt[i].gfx = KD_TEXT;
		ks->vt[i].newvt = -1;
	}
	ks->fg = 1;
	ks->activate_calls = 0;
	ks->switches = 0;
	memset(ks->foreign_master, 0, sizeof ks->foreign_master);
	close_watch();
	activations.clear();
	seen_vt = -2;
	tty_used = false;
	fs.clear();
	byidx.clear();
	for (const char *d : {"/", "/dev", "/dev/dri", "/dev/dri/by-path", "/dev/input", "/dev/input/by-id", "/dev/drifoo", "/dev/inputs", "/etc", "/tmp",
			      "/home", "/home/u", "/dev/shm", "/run"})
		add(d, N_DIR);
	for (int i = 0; i < 3; i++) {
		add("/dev/dri/card" + std::to_string(i), N_CARD, "", i);
		add("/dev/dri/renderD" + std::to_string(128 + i), N_RENDER, "", i);
	}
	int nev = many ? 200 : 8;
	for (int i = 0; i < nev; i++)
		add("/dev/input/event" + std::to_string(i), N_EVDEV, "", i);
	for (int i = 0; i < 4; i++)
		add("/dev/hidraw" + std::to_string(i), N_HIDRAW, "", i);
	for (int i = 0; i <= NVT; i++)
		add("/dev/tty" + std::to_string(i), N_VTTY, "", i);
	add("/dev/tty", N_MISC);
	add("/dev/mem", N_MISC);
	add("/dev/sda", N_MISC);
	add("/dev/uinput", N_MISC);
	add("/dev/input/mouse0", N_MISC);
	add("/dev/input/js0", N_MISC);
	add("/dev/input/mice", N_MISC);
	add("/dev/drifoo/card0", N_MISC);
	add("/dev/inputs/event0", N_MISC);
	add("/dev/dri_card0", N_MISC);
	add("/dev/fb0", N_MISC);
	add("/dev/hidra", N_MISC);
	add("/etc/shadow", N_REG);
	add("/etc/passwd", N_REG);
	add("/tmp/x", N_REG);
	add("/tmp/dev", N_DIR);
	add("/tmp/dev/dri", N_DIR);
	add("/tmp/dev/dri/card0", N_REG);
	add("/tmp/dev/input", N_DIR);
	add("/tmp/dev/input/event0", N_REG);
	add("/dev/dri/by-path/pci-0-card", N_LINK, "../card0");
	add("/dev/dri/by-path/pci-1-card", N_LINK, "../card1");
	add("/dev/dri/by-path/pci-0-render", N_LINK, "../renderD128");
	add("/dev/input/by-id/usb-kbd", N_LINK, "../event0");
	add("/dev/input/by-id/usb-mouse", N_LINK, "../event1");
	add("/tmp/lnk-card", N_LINK, "/dev/dri/card0");
	add("/tmp/lnk-ev", N_LINK, "/dev/input/event2");
	add("/tmp/lnk-hid", N_LINK, "/dev/hidraw1");
	add("/tmp/lnk-dri", N_LINK, "/dev/dri");
	add("/tmp/lnk-loop", N_LINK, "lnk-loop2");
	add("/tmp/lnk-loop2", N_LINK, "lnk-loop");
	add("/tmp/lnk-dang", N_LINK, "/nowhere");
	add("/tmp/lnk-shadow", N_LINK, "/etc/shadow");
	add("/dev/dri/evil", N_LINK, "/etc/shadow");
	add("/dev/dri/eviltty", N_LINK, "../tty1");
	add("/dev/input/event9x", N_LINK, "../../etc/shadow");
	add("/dev/input/eventlnk", N_LINK, "event3");
	add("/dev/hidrawx", N_LINK, "/dev/mem");
	add("/home/u/chain", N_LINK, "../../tmp/lnk-card");
}

int Kern::resolve(const std::string &p, std::string &out, bool follow_last) {
	if (p.empty())
		return ENOENT;
	if (p.size() >= PATH_MAX)
		return ENAMETOOLONG;
	std::string rest = p, cur = "/";
	int links = 0;
	// relative paths are relative to "/"
	while (true) {
		size_t i = rest.find_first_not_of('/');
		if (i == std::string::npos) {
			if (!rest.empty() && cur != "/") {
				auto it = fs.find(cur);
				if (it != fs.end() && it->second.kind != N_DIR)
					return ENOTDIR;
			}
			break;
		}
		rest = rest.substr(i);
		size_t e = rest.find('/');
		std::string comp = rest.substr(0, e);
		rest = e == std::string::npos ? "" : rest.substr(e);
		auto it = fs.find(cur);
		if (it == fs.end())
			return ENOENT;
		if (it->second.kind != N_DIR)
			return ENOTDIR;
		if (comp.size() > 255)
			return ENAMETOOLONG;
		if (comp == ".")
			continue;
		if (comp == "..") {
			size_t s = cur.rfind('/');
			cur = s == 0 ? "/" : cur.substr(0, s);
			continue;
		}
		std::string nx = cur == "/" ? "/" + comp : cur + "/" + comp;
		auto ni = fs.find(nx);
		if (ni == fs.end())
			return ENOENT;
		if (ni->second.kind == N_LINK) {
			bool last = rest.find_first_not_of('/') == std::string::npos;
			if (last && !follow_last && rest.empty()) {
				out = nx;
				return 0;
			}
			if (++links > 40)
				return ELOOP;
			const std::string &t = ni->second.target;
			if (t[0] == '/')
				cur = "/";
			rest = t + rest;
			continue;
		}
		cur = nx;
		if (rest.empty())
			break;
		if (ni->second.kind != N_DIR)
			return ENOTDIR;
	}
	out = cur;
	return 0;
}

bool Kern::genuine(const std::string &c) {
	auto it = fs.find(c);
	if (it == fs.end())
		return false;
	int k = it->second.kind;
	return k == N_CARD || k == N_RENDER || k == N_EVDEV || (k == N_HIDRAW && hidraw);
}

Ofd *Kern::by_ino(uint64_t ino) {
	for (int i = ks->nofd - 1; i >= 0; i--)
		if (ks->ofd[i].ino == ino)
			return &ks->ofd[i];
	return NULL;
}
Ofd *Kern::find(int fd) {
	uint64_t i = ino_of(fd);
	return i ? by_ino(i) : NULL;
}

int Kern::do_open(const char *path, int flags, int owner, bool cf) {
	std::string c;
	int e = resolve(path, c, !(flags & O_NOFOLLOW));
	if (e) {
		errno = e;
		return -1;
	}
	Node &n = fs[c];
	if (n.kind == N_LINK) {
		errno = ELOOP;
		return -1;
	}
	if (n.kind == N_DIR) {
		errno = EISDIR;
		return -1;
	}
	if (cf && fault) {
		e = fault(n.kind == N_VTTY ? F_TTYOPEN : F_OPENDEV);
		if (e) {
			errno = e;
			return -1;
		}
	}
	if (n.open_errno) {
		errno = n.open_errno;
		return -1;
	}
	if (n.kind == N_VTTY)
		tty_used = true;
	if (n.kind == N_VTTY && n.num > NVT) {
		errno = ENXIO;
		return -1;
	}
	int p[2];
	if (pipe2(p, O_CLOEXEC) != 0)
		return -1;
	int fd = p[0];
	if (!(flags & O_CLOEXEC))
		fcntl(fd, F_SETFD, 0);
	// status flags are visible through F_GETFL
	fcntl(fd, F_SETFL, flags & O_NONBLOCK);
	// keep low numbers for the server
	int w = fcntl(p[1], F_DUPFD_CLOEXEC, 4096);
	::close(p[1]);
	if (w < 0)
		abort();
	if (ks->nofd >= 6000)
		abort();
	watch.resize(6000, -1);
	watch[ks->nofd] = w;
	Ofd &o = ks->ofd[ks->nofd];
	memset(&o, 0, sizeof o);
	o.ino = ino_of(fd);
	o.node = n.idx;
	o.kind = n.kind;
	o.flags = flags;
	o.owner = owner;
	if (n.kind == N_VTTY)
		o.vt = n.num == 0 ? ks->fg : n.num;
	if (n.kind == N_CARD) {
		if (!ks->foreign_master[n.num & 7] && !held(n.idx))
			o.master = o.ever_master = true;
	}
	ks->nofd++;
	return fd;
}

bool Kern::held(int node) {
	for (int i = 0; i < ks->nofd; i++) {
		Ofd &o = ks->ofd[i];
		if (!o.master || o.node != node)
			continue;
		if (i < (int)watch.size() && watch[i] >= 0) {
			struct pollfd pf = {watch[i], 0, 0};
			if (poll(&pf, 1, 0) > 0 && (pf.revents & POLLERR)) {
				o.master = false; // the last descriptor is gone
				continue;
			}
		}
		return true;
	}
	return false;
}
void Kern::close_watch() {
	for (size_t i = 0; i < watch.size(); i++)
		if (watch[i] >= 0)
			::close(watch[i]), watch[i] = -1;
}

bool Kern::privileged(const Ofd &o) {
	switch (o.kind) {
	case N_CARD:
		return o.master;
	case N_EVDEV:
	case N_HIDRAW:
		return !o.revoked;
	default:
		return false;
	}
}

#define DRM_SET 0x641e
#define DRM_DROP 0x641f

int Kern::do_ioctl(int fd, Ofd *o, unsigned long req, void *arg) {
	(void)fd;
	auto err = [](int e) {
		errno = e;
		return -1;
	};
	int e;
	if (!o)
		return err(ENOTTY);
	if (o->kind == N_CARD || o->kind == N_RENDER) {
		Node &n = fs[byidx[o->node]];
		if (req == DRM_SET) {
			if (fault && (e = fault(F_SETMASTER))) {
				o->set_failed = true;
				return err(e);
			}
			if (o->kind == N_RENDER)
				return err(EACCES);
			if (o->master)
				return 0;
			if (ks->foreign_master[n.num & 7] || held(o->node)) {
				o->set_failed = true;
				return err(EBUSY);
			}
			o->master = o->ever_master = true;
			o->set_failed = false;
			return 0;
		}
		if (req == DRM_DROP) {
			if (fault && (e = fault(F_DROPMASTER))) {
				o->exempt = true;
				return err(e == EINVAL ? EIO : e); // EINVAL means that it is not master
			}
			o->exempt = false;
			if (o->kind == N_RENDER)
				return err(EACCES);
			// it is to be tried anew when the session returns
			o->lost_master = true;
			o->set_failed = false;
			if (!o->master)
				return err(EINVAL);
			o->master = false;
			return 0;
		}
		return err(ENOTTY);
	}
	if (o->kind == N_EVDEV || o->kind == N_HIDRAW) {
		if (req == (unsigned)(o->kind == N_EVDEV ? EVIOCREVOKE : HIDIOCREVOKE)) {
			if (o->kind == N_EVDEV && arg)
				return err(EINVAL);
			if (fault && (e = fault(F_REVOKE))) {
				o->exempt = true;
				return err(e);
			}
			o->exempt = false;
			if (o->revoked)
				return err(ENODEV);
			o->revoked = true;
			return 0;
		}
		return err(ENOTTY);
	}
	if (o->kind == N_VTTY) {
		Vt &v = ks->vt[o->vt];
		if (fault && (e = fault(F_TTYIOCTL)))
			return err(e);
		switch (req) {
		case VT_GETSTATE:
			seen_vt = ks->fg;
			((struct vt_stat *)arg)->v_active = ks->fg;
			((struct vt_stat *)arg)->v_signal = 0;
			((struct vt_stat *)arg)->v_state = 0;
			return 0;
		case VT_SETMODE: {
			struct vt_mode *m = (struct vt_mode *)arg;
			if (m->mode != VT_AUTO && m->mode != VT_PROCESS)
				return err(EINVAL);
			v.mode = m->mode;
			v.relsig = m->relsig;
			v.acqsig = m->acqsig;
			v.newvt = -1;
			v.touched = true;
			return 0;
		}
		case KDSKBMODE:
			v.kb = (int)(intptr_t)arg;
			v.touched = true;
			return 0;
		case KDSETMODE:
			v.gfx = (int)(intptr_t)arg;
			v.touched = true;
			return 0;
		case VT_ACTIVATE: {
			int n = (int)(intptr_t)arg;
			ks->activate_calls++;
			activations.push_back(n);
			ks->last_activate = n;
			if (n < 1 || n > NVT)
				return err(ENXIO);
			user_switch(n);
			return 0;
		}
		case VT_RELDISP: {
			int a = (int)(intptr_t)arg;
			if (a == VT_ACKACQ)
				v.acq_unacked = false;
			if (on_reldisp)
				on_reldisp(o->vt, a == 1);
			if (v.mode != VT_PROCESS)
				return err(EINVAL);
			if (v.newvt >= 0) {
				if (a == 0) {
					v.newvt = -1;
					return 0;
				}
				int nv = v.newvt;
				v.newvt = -1;
				complete_change(nv);
				return 0;
			}
			if (a != VT_ACKACQ)
				return err(EINVAL);
			return 0;
		}
		case KDGETMODE:
			*(int *)arg = v.gfx;
			return 0;
		case KDGKBMODE:
			*(int *)arg = v.kb;
			return 0;
		case VT_GETMODE: {
			struct vt_mode *m = (struct vt_mode *)arg;
			memset(m, 0, sizeof *m);
			m->mode = v.mode;
			m->relsig = v.relsig;
			m->acqsig = v.acqsig;
			return 0;
		}
		}
		return err(ENOTTY);
	}
	return err(ENOTTY);
}

void Kern::user_switch(int vt) {
	if (vt == ks->fg)
		return;
	change_console(vt);
}
void Kern::change_console(int vt) {
	Vt &v = ks->vt[ks->fg];
	if (v.mode == VT_PROCESS) {
		v.newvt = vt;
		if (v.relsig && raise)
			raise(v.relsig);
		return;
	}
	if (v.gfx == KD_GRAPHICS)
		return;
	complete_change(vt);
}
void Kern::complete_change(int vt) {
	ks->vt[ks->fg].acq_unacked = false;
	ks->fg = vt;
	ks->switches++;
	Vt &v = ks->vt[vt];
	if (v.mode == VT_PROCESS) {
		v.acq_unacked = true;
		if (v.acqsig && raise)
			raise(v.acqsig);
	}
}
