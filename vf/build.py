"""Builds the code under test from /repo's working tree, together with the harnesses, into /verif/build (ignored by git).

Objects are cached by the hash of everything that goes into them, so nothing stale is ever used."""
import concurrent.futures as cf
import glob
import hashlib
import os
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
OUT = os.environ.get("VERIF_OUT") or os.path.join(VERIF, "build")
SRC = os.path.join(VERIF, "src")
CC, CXX = "clang", "clang++"
REPO_DEFS = ["-D_XOPEN_SOURCE=700", "-D__BSD_VISIBLE", "-D_NETBSD_SOURCE", '-DSEATD_VERSION="0.9.1"',
             '-DSEATD_DEFAULTPATH="seatd.sock"', '-DREL_SRC_DIR=""', "-DDEBUG"]
LIB_DEFS = ["-DLIBSEAT=1", "-DSEATD_ENABLED=1", "-DLOGIND_ENABLED=1", "-DHAVE_LIBSYSTEMD=1", "-DBUILTIN_ENABLED=1"]
SAN = ["-fsanitize=address,undefined", "-fno-sanitize=alignment", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]
COV = ["-fsanitize-coverage=inline-8bit-counters"]


class BuildError(Exception):
    pass


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode:
        raise BuildError(" ".join(cmd) + "\n" + r.stdout)
    return r.stdout


def h(*parts):
    m = hashlib.sha256()
    for p in parts:
        m.update(p if isinstance(p, bytes) else str(p).encode())
        m.update(b"\0")
    return m.hexdigest()[:24]


def rd(p):
    with open(p, "rb") as f:
        return f.read()


_hdr = {}


def headers(root, pats):
    k = (root, tuple(pats))
    if k not in _hdr:
        fs = sorted(f for p in pats for f in glob.glob(os.path.join(root, p), recursive=True))
        _hdr[k] = h(*[x for f in fs for x in (os.path.relpath(f, root), rd(f))])
    return _hdr[k]


def cached(key, ext, make):
    d = os.path.join(OUT, "cache")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, key + ext)
    if not os.path.exists(p):
        t = p + ".%d.%d.tmp%s" % (os.getpid(), id(make) & 0xffff, ext)
        make(t)
        os.replace(t, p)
    else:
        os.utime(p)
    return p


def repo_obj(f, defs=(), lang_flags=(), san=True, cov=True, extra_hash="", cc=CC):
    """object of one file of the repository"""
    cmd = [cc, "-std=c11", "-O1", "-g", "-w", *REPO_DEFS, *defs, *lang_flags, "-I" + REPO + "/include", "-I" + REPO]
    if san:
        cmd += SAN
    if cov:
        cmd += COV
    path = os.path.join(REPO, f)
    key = h("r", cmd, rd(path), headers(REPO, ["include/**/*.h", "*/*.h", "*/*/*.h"]), f, extra_hash)
    return cached(key, ".o", lambda t: run([*cmd, "-c", path, "-o", t]))


def harness_obj(f, defs=(), incl_repo=False):
    cmd = [CXX, "-std=c++17", "-D_GNU_SOURCE", "-Wall", "-Wextra", "-O1", "-g", *SAN, *defs]
    if incl_repo:
        cmd += ["-I" + REPO + "/include"]
    path = os.path.join(SRC, f)
    key = h("h", cmd, rd(path), headers(SRC, ["*.hpp", "*.inc", "*.h"]), headers(SRC, ["*.cpp"]) if f.startswith("h_") else "",
            headers(REPO, ["include/**/*.h"]) if incl_repo else "")
    return cached(key, ".o", lambda t: run([*cmd, "-c", path, "-o", t]))


def nm(objs, *flags):
    return {l.split()[-1] for l in run(["nm", *flags, *objs]).splitlines() if l.strip() and not l.endswith(":")}


def wrapped_names(sysobj, pfx):
    return {n[len(pfx):] for n in nm([sysobj], "--defined-only") if n.startswith(pfx)}


def combine(objs, pfx, sysobj, keep=None, rename=()):
    """one relocatable object whose libc calls go to PFX_name"""
    names = wrapped_names(sysobj, pfx)
    args = ["c", pfx, keep, rename, sorted(names), *[rd(o) for o in objs]]
    key = h(*args)

    def make(t):
        tmp = t + ".in"
        run(["ld", "-r", "--force-group-allocation", "-o", tmp, *objs])
        und = nm([tmp], "-u")
        cmd = ["objcopy"]
        for n in sorted(und & names):
            cmd += ["--redefine-sym", "%s=%s%s" % (n, pfx, n)]
        for a, b in rename:
            cmd += ["--redefine-sym", "%s=%s" % (a, b)]
        if keep is not None:
            for k in keep:
                cmd += ["--keep-global-symbol", k]
        run([*cmd, tmp, t])
        os.unlink(tmp)
    return cached(key, ".o", make)


def link(name, objs, libs=()):
    cmd = [CXX, *SAN, "-g"]
    key = h("l", name, cmd, libs, *[rd(o) for o in objs])
    return cached(key, "-" + name, lambda t: run([*cmd, "-o", t, *objs, *libs]))


def clean():
    """keep the cache small"""
    d = os.path.join(OUT, "cache")
    fs = []
    try:
        for e in os.scandir(d):
            fs.append((e.stat().st_mtime, e.stat().st_size, e.path))
    except OSError:
        return
    tot = sum(f[1] for f in fs)
    fs.sort()
    for m, s, p in fs:
        if tot < 1500e6:
            break
        try:
            os.unlink(p)
        except OSError:
            pass
        tot -= s


def pmap(jobs):
    with cf.ThreadPoolExecutor(8) as ex:
        fs = [ex.submit(*j) for j in jobs]
        return [f.result() for f in fs]


def csrc(d):
    return sorted(os.path.relpath(f, REPO) for f in glob.glob(os.path.join(REPO, d, "*.c")))


HIDREVOKE = ["-include", os.path.join(SRC, "hidrevoke.h")]


def daemon_objs(defs=(), flags=()):
    fs = csrc("common") + csrc("seatd")
    return [(repo_obj, f, tuple(defs) + (("-Dmain=seatd_main",) if f == "seatd/seatd.c" else ()), tuple(flags)) for f in fs]


def base_objs(*more):
    return [(harness_obj, f) for f in ("engine.cpp", "sys.cpp", *more)]


def build_daemon(hid):
    hd = () if hid else ("-DNO_HIDRAW",)
    jobs = base_objs("kern.cpp") + [(harness_obj, "daemon.cpp", hd)]
    n = len(jobs)
    o = pmap(jobs + daemon_objs((), HIDREVOKE if hid else ()))
    sut = combine(o[n:], "sut_", o[1])
    return link("daemon" + ("-hid" if hid else ""), o[:n] + [sut])


LIB_FILES = ["libseat/libseat.c", "libseat/backend/seatd.c", "libseat/backend/noop.c"] + csrc("common")


def build_unit(name, files, incl=True, libs=(), defs=(), rename=(), flags=()):
    """one harness file linked with a few of the repository's files"""
    jobs = base_objs() + [(harness_obj, "h_%s.cpp" % name, (), incl)]
    n = len(jobs)
    o = pmap(jobs + [(repo_obj, f, tuple(defs), tuple(flags)) for f in files])
    return link(name, o[:n] + [combine(o[n:], "sut_", o[1], rename=rename)], libs)


LIBSEAT_API = ["libseat_" + n for n in ("open_seat", "disable_seat", "close_seat", "open_device", "close_device", "seat_name", "switch_session", "get_fd",
                                        "dispatch", "set_log_handler", "set_log_level")]


def build_e2e():
    jobs = base_objs("kern.cpp") + [(harness_obj, "h_e2e.cpp", ("-DNO_HIDRAW",), True)]
    n = len(jobs)
    dm = daemon_objs()
    o = pmap(jobs + dm + [(repo_obj, f, ("-DLIBSEAT=1", "-DSEATD_ENABLED=1")) for f in LIB_FILES])
    sut = combine(o[n:n + len(dm)], "sut_", o[1], keep=["seatd_main"])
    lib = combine(o[n + len(dm):], "lib_", o[1], keep=LIBSEAT_API)
    return link("e2e", o[:n] + [sut, lib])




def build_select():
    jobs = base_objs() + [(harness_obj, "h_select.cpp", ("-I" + REPO + "/libseat",), True)]
    n = len(jobs)
    names = ["-DSEATD_ENABLED=1", "-DLOGIND_ENABLED=1", "-DBUILTIN_ENABLED=1"]
    vs = [["-DLIBSEAT=1"] + [names[i] for i in range(3) if m >> i & 1] for m in range(1, 8)]
    cs = csrc("common")
    m = n + len(cs)
    o = pmap(jobs + [(repo_obj, f) for f in cs] + [(repo_obj, "libseat/libseat.c", tuple(v)) for v in vs])
    rest = [combine(o[n:m], "sut_", o[1])]
    for i in range(7):
        rest.append(combine([o[m + i]], "sut_", o[1], rename=[(a, "v%d_%s" % (i + 1, a)) for a in LIBSEAT_API if "set_log" not in a]))
    return link("select", o[:n] + rest)


def build_launch():
    jobs = base_objs("h_launch.cpp")
    n = len(jobs)
    o = pmap(jobs + [(repo_obj, f, ("-Dmain=launch_main", '-DSEATD_INSTALLPATH="seatd-stub"')) for f in csrc("seatd-launch")])
    return link("launch", o[:n] + [combine(o[n:], "sut_", o[1], keep=["launch_main"])])


def build_builtin():
    jobs = base_objs("kern.cpp") + [(harness_obj, "h_builtin.cpp", ("-DNO_HIDRAW",), True)]
    n = len(jobs)
    dm = daemon_objs()
    fs = LIB_FILES + [f for f in csrc("seatd") if f != "seatd/seatd.c"]
    o = pmap(jobs + dm + [(repo_obj, f, ("-DLIBSEAT=1", "-DSEATD_ENABLED=1", "-DBUILTIN_ENABLED=1")) for f in fs])
    sut = combine(o[n:n + len(dm)], "sut_", o[1], keep=["seatd_main"])
    lib = combine(o[n + len(dm):], "lib_", o[1], keep=LIBSEAT_API)
    return link("builtin", o[:n] + [sut, lib])


TARGETS = {
    "builtin": build_builtin,
    "launch": build_launch,
    "select": build_select,
    "noop": lambda: build_unit("noop", LIB_FILES, defs=["-DLIBSEAT=1", "-DSEATD_ENABLED=1"]),
    "e2e": build_e2e,
    "logind": lambda: build_unit("logind", ["libseat/libseat.c", "libseat/backend/logind.c", "libseat/backend/noop.c"] + csrc("common"),
                                 defs=["-DLIBSEAT=1", "-DLOGIND_ENABLED=1", "-DHAVE_LIBSYSTEMD=1"], libs=["-lsystemd"],
                                 rename=[("sd_bus_" + n, "hx_sd_bus_" + n) for n in ("call_method", "call", "get_property_trivial", "error_free", "message_read_basic", "message_read")]),
    "lib": lambda: build_unit("lib", LIB_FILES, defs=["-DLIBSEAT=1", "-DSEATD_ENABLED=1"]),
    "poller": lambda: build_unit("poller", ["seatd/poller.c"] + csrc("common"), flags=["-fsanitize-coverage=trace-loads,trace-stores"]),
    "conn": lambda: build_unit("conn", csrc("common")),
    "daemon": lambda: build_daemon(False),
    "daemon-hid": lambda: build_daemon(True),
}


def build(t):
    return TARGETS[t]()


if __name__ == "__main__":
    for t in sys.argv[1:] or TARGETS:
        print(t, build(t))
