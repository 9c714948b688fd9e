#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from the list in tools/seeds/*.py and checks each: the patch applies to /repo's HEAD, touches original
lines, builds, passes the stable tests, and its demonstration passes without and fails with it.   mkseed.py [id...]"""
import glob, json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LIB = V + "/tools/seedlib"
BASE = "1da18c3"
def sh(c, cwd=None, timeout=900):
    return subprocess.run(c, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
SEEDS = []
def seed(id, prop, edits, demo, needs, breaks, kind="daemon"):
    SEEDS.append(dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, kind=kind))
ns = {"seed": seed, "V": V}
for f in sorted(glob.glob(V + "/tools/seeds/*.py")):
    exec(compile(open(f).read(), f, "exec"), ns)
want = sys.argv[1:]
W = "/tmp/seedrepo"
for s in SEEDS:
    if want and not any(s["id"].startswith(w) for w in want):
        continue
    shutil.rmtree(W, ignore_errors=True)
    sh("cp -a /repo " + W)
    sh("git checkout -q -- .", W)
    d = V + "/seeded/" + s["id"]
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    bad = []
    for f, old, new in s["edits"]:
        p = W + "/" + f
        t = open(p).read()
        if t.count(old) != 1:
            bad.append("%s: old text occurs %d times: %r" % (f, t.count(old), old[:60]))
            continue
        open(p, "w").write(t.replace(old, new))
    diff = sh("git diff", W).stdout
    open(d + "/patch.diff", "w").write(diff)
    # the removed lines are the original's
    own = 0
    orig = 0
    for f in set(e[0] for e in s["edits"]):
        blame = {}
        for l in sh("git blame -s -l %s" % f, "/repo").stdout.splitlines():
            h, rest = l.split(" ", 1)
            no = int(rest.split(")", 1)[0].split()[-1])
            blame[no] = h.startswith("^") or sh("git merge-base --is-ancestor %s %s" % (h.lstrip("^"), BASE), "/repo").returncode == 0
        cur = None
        for l in sh("git diff -U0 -- " + f, W).stdout.splitlines():
            if l.startswith("@@"):
                a = l.split()[1][1:].split(",")
                st, n = int(a[0]), int(a[1]) if len(a) > 1 else 1
                for k in range(st, st + n):
                    if blame.get(k): orig += 1
                    else: own += 1
    if own: bad.append("changes %d lines of our own" % own)
    if not orig: bad.append("changes no original line")
    # the demonstration
    if s["kind"] == "daemon":
        open(d + "/demo.c", "w").write(s["demo"].lstrip("\n"))
        shutil.copy(LIB + "/mini.h", d)
        shutil.copy(LIB + "/daemon.sh", d + "/demo.sh")
    elif s["kind"] in ("lib", "logind", "conn", "builtin"):
        open(d + "/demo.c", "w").write(s["demo"].lstrip("\n"))
        shutil.copy(LIB + "/" + s["kind"] + ".sh", d + "/demo.sh")
        for h in {"lib": ["libs.h"], "builtin": ["builtin.h"], "logind": ["logind.h"]}.get(s["kind"], []):
            shutil.copy(LIB + "/" + h, d)
    else:
        open(d + "/demo.sh", "w").write(s["demo"].lstrip("\n"))
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    env = "cp -a %s /tmp/seeddemo && sh /tmp/seeddemo/demo.sh" % d
    shutil.rmtree("/tmp/seeddemo", ignore_errors=True)
    r0 = sh(env, "/repo", 300)
    if r0.returncode != 0: bad.append("demo fails on HEAD: " + r0.stdout[-600:])
    shutil.rmtree("/tmp/seeddemo", ignore_errors=True)
    if not bad:
        a = sh("git apply --check " + d + "/patch.diff", "/repo")
        if a.returncode: bad.append("patch does not apply")
        # the stable tests, in the patched copy, with copies of the scripts that build and test /repo
        os.makedirs("/tmp/seedvp", exist_ok=True)
        sh("for f in build test; do sed 's,/repo,%s,g; s,/opt/vp/build.sh,/tmp/seedvp/build.sh,' /opt/vp/$f.sh > /tmp/seedvp/$f.sh; done; rm -rf _build" % W, W)
        b = sh("bash /tmp/seedvp/build.sh", W)
        if b.returncode: bad.append("does not build: " + b.stdout[-800:])
        sh("bash /tmp/seedvp/test.sh /tmp/seed-o.json", W)
        try:
            res = json.load(open("/tmp/seed-o.json"))
        except Exception as e:
            res = {}
        missing = set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) - set(res.get("passed", []))
        if missing: bad.append("tests: " + str(missing)[:300])
        r1 = sh(env, W, 300)
        if r1.returncode == 0: bad.append("demo passes with the patch")
        why = (r1.stdout.strip().splitlines() or ["-"])
        why = [x for x in why if "FAIL" in x or "ERROR" in x or "Assert" in x][:1] or why[-1:]
        shutil.rmtree("/tmp/seeddemo", ignore_errors=True)
    shutil.rmtree(W, ignore_errors=True)
    print(s["id"], "OK  " + why[0][:150] if not bad else "BAD " + " | ".join(bad), flush=True)
