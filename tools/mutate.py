#!/usr/bin/env python3
"""Mutation testing of the checks: mutate.py LOG FILE... plants small syntactic changes into copies of /repo and reports which no check notices.

A development tool: no check uses it. Mutants that do not compile, or that fail the harness's build, are skipped."""
import concurrent.futures as cf
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/mutate"
DP = [11, 25, 5, 4]
LIB = [("lib", [17, 16, 18]), ("e2e", [18])]
MAP = {
    "seatd/client.c": [("daemon", DP), ("builtin", [26])],
    "seatd/seat.c": [("daemon", DP), ("daemon-hid", [5, 9])],
    "seatd/server.c": [("daemon", DP), ("builtin", [26])],
    "seatd/seatd.c": [("daemon", [22])],
    "seatd/poller.c": [("poller", [15])],
    "common/connection.c": [("conn", [14])],
    "common/drm.c": [("daemon", DP)],
    "common/evdev.c": [("daemon", DP)],
    "common/hidraw.c": [("daemon-hid", [5, 3, 9])],
    "common/terminal.c": [("daemon", DP)],
    "common/wscons.c": [("daemon", DP)],
    "common/linked_list.c": [("lib", [16]), ("daemon", DP[:4])],
    "common/log.c": [("select", [19])],
    "libseat/libseat.c": [("select", [19]), ("lib", [17])],
    "libseat/backend/seatd.c": LIB + [("builtin", [26])],
    "libseat/backend/noop.c": [("noop", [27])],
    "libseat/backend/logind.c": [("logind", [21, 20])],
    "seatd-launch/seatd-launch.c": [("launch", [23])],
}
SECS = {"daemon": 6, "daemon-hid": 6, "builtin": 40, "e2e": 15, "launch": 40, "lib": 10, "logind": 15, "noop": 15, "select": 10, "poller": 5, "conn": 6}


def match(s, i):
    d = 0
    q = None
    while i < len(s):
        c = s[i]
        if q:
            if c == "\\":
                i += 1
            elif c == q:
                q = None
        elif c in "\"'":
            q = c
        elif c in "([{":
            d += 1
        elif c in ")]}":
            d -= 1
            if d == 0:
                return i
        i += 1
    return -1


def mutants(src):
    """(start, end, replacement) of every mutant"""
    out = []
    code = re.sub(r'/\*.*?\*/|//[^\n]*|^\s*#[^\n]*(?:\\\n[^\n]*)*|"(?:\\.|[^"\\])*"', lambda m: re.sub(r"[^\n]", "\x01" if m.group()[0] == '"' else " ", m.group()), src, flags=re.S | re.M)
    # bodies of functions only
    spans = []
    for m in re.finditer(r"^[a-z][^;{}=]*\)\s*\{", code, re.M):
        e = match(code, m.end() - 1)
        if e > 0:
            spans.append((m.end(), e))

    def inside(i):
        return any(a <= i < b for a, b in spans)
    for m in re.finditer(r"\b(if|while)\s*\(", code):
        if not inside(m.start()):
            continue
        e = match(code, m.end() - 1)
        cond = src[m.end():e]
        out.append((m.end(), e, "!(" + cond + ")"))
        if m.group(1) == "if":
            out.append((m.end(), e, "(" + cond + ") && 0"))
            out.append((m.end(), e, "(" + cond + ") || 1"))
    for m in re.finditer(r"(?<=[\s\w)\]])(==|!=|<=|>=|<(?!<)|>(?!>)|&&|\|\|)(?=\s)", code):
        if not inside(m.start()) or code[m.start() - 1] in "<>-":
            continue
        o = m.group(1)
        for n in {"==": ["!="], "!=": ["=="], "<": ["<=", "!="], ">": [">=", "!="], "<=": ["<"], ">=": [">"], "&&": ["||"], "||": ["&&"]}[o]:
            out.append((m.start(), m.end(), n))
        if o in ("&&", "||"):
            # drop one side: replace by a constant
            out.append((m.start(), m.end(), o + (" 1 ||" if o == "&&" else " 0 &&")))
    for m in re.finditer(r"\s\|\s*([A-Z_0-9]+)\b", code):
        if inside(m.start()):
            out.append((m.start(), m.end(), ""))
    for m in re.finditer(r"\b(true|false)\b", code):
        if inside(m.start()):
            out.append((m.start(), m.end(), "false" if m.group() == "true" else "true"))
    for m in re.finditer(r"(?<![\w.-])(\d+)\b(?!\.)", code):
        if inside(m.start()) and code[m.start() - 1] != "\x01":
            n = int(m.group())
            out.append((m.start(), m.end(), str(n + 1)))
            if n:
                out.append((m.start(), m.end(), str(n - 1)))
    for m in re.finditer(r" ([+-]) ", code):
        if inside(m.start()):
            out.append((m.start(1), m.end(1), "-" if m.group(1) == "+" else "+"))
    for m in re.finditer(r"\b(continue|break);", code):
        if inside(m.start()):
            out.append((m.start(), m.end(), ";"))
            out.append((m.start(), m.end(), "break;" if m.group(1) == "continue" else "continue;"))
    for m in re.finditer(r"\breturn ([^;]+);", code):
        if inside(m.start()):
            x = src[m.start(1):m.end(1)].strip()
            for n in ("0", "-1"):
                if n != x:
                    out.append((m.start(1), m.end(1), n))
            out.append((m.start(), m.end(), ";"))
    for m in re.finditer(r"\breturn;", code):
        if inside(m.start()):
            out.append((m.start(), m.end(), ";"))
    for m in re.finditer(r"\bE[A-Z0-9]{2,}\b", code):
        if inside(m.start()) and not m.group().startswith("EVENT"):
            out.append((m.start(), m.end(), "EIDRM"))
    # statements
    for m in re.finditer(r"(?<=[;{}:])\s*\n(\s*)([a-z_*][^;{}\x00]*?);", code):
        st = src[m.start(2):m.end()]
        if not inside(m.start(2)):
            continue
        if re.match(r"(return|break|continue|goto|case|default|else|struct|static|const|int|char|short|unsigned|bool|ssize_t|size_t|uint\w+|pid_t|if|while|for|do|enum|assert|log_\w+)\b", st):
            continue
        out.append((m.start(2), m.end(), ";"))
    # swaps of neighbouring simple statements
    prev = None
    for m in re.finditer(r"(?<=[;{}])\s*\n\s*([a-z_*][^;{}\x00]*?;)", code):
        st = m.group(1)
        bad = re.match(r"(return|break|continue|goto|case|default|else|if|while|for|do|log_\w+|assert|int|struct|char|ssize_t|size_t|bool|uint\w+|const|static)\b", st)
        if prev and not bad and inside(m.start(1)) and code[prev[1]:m.start(1)].strip() == "":
            a, b = src[prev[0]:prev[1]], src[m.start(1):m.end(1)]
            out.append((prev[0], m.end(1), b + src[prev[1]:m.start(1)] + a))
        prev = None if bad else (m.start(1), m.end(1))
    seen, res = set(), []
    for a, b, r in out:
        if src[a:b] == r or (a, b, r) in seen or re.search(r"log_\w+\([^;]*$", src[max(0, a - 200):a]):
            continue
        if (src[a:b], r) == ("NULL", "0") or src[src.rfind("\n", 0, a):].strip().startswith("assert("):
            continue
        seen.add((a, b, r))
        res.append((a, b, r))
    return sorted(res)


def sh(cmd, env=None, timeout=300):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", env=env, timeout=timeout)


def one(wid, f, src, mu):
    a, b, r = mu
    d = "%s/w%d" % (W, wid)
    repo = d + "/repo"
    if not os.path.isdir(repo):
        os.makedirs(d, exist_ok=True)
        shutil.copytree("/repo", repo, symlinks=True, ignore=shutil.ignore_patterns(".git", "_build"))
        os.makedirs(d + "/out", exist_ok=True)
    new = src[:a] + r + src[b:]
    line = src.count("\n", 0, a) + 1
    old = src[a:b]
    desc = "%s:%d `%s` -> `%s`   in: %s" % (f, line, " ".join(old.split())[:110], " ".join(r.split())[:110], src.splitlines()[line - 1].strip()[:100])
    with open(os.path.join(repo, f), "w") as o:
        o.write(new)
    env = dict(os.environ, VERIF_REPO=repo, VERIF_OUT=d + "/out")
    try:
        caught = None
        for target, props in MAP[f]:
            q = sh([sys.executable, V + "/vf/build.py", target], env)
            if q.returncode:
                return desc, "nobuild", ""
            binp = q.stdout.split()[-1]
            for p in props:
                q = sh([binp, "--prop", str(p), "--seed", "1", "--jobs", "2", "--any", "--cases", "100000", "--max-seconds", str(SECS[target] * QUICK),
                        "--replays", d, "--name", "m", "--out", d + "/o.json"], env, 600)
                if q.returncode == 1:
                    t = re.search(r"TAGS (\w+)", q.stdout)
                    k = re.search(r"FAIL (.*)", q.stdout)
                    tags = int(t.group(1), 16) if t else 0
                    return desc, "killed", "%s/%d %s %s" % (target, p, ",".join("C%02d" % i for i in range(32) if tags >> i & 1), k.group(1)[:60] if k else "")
                if q.returncode:
                    return desc, "error", "%s/%d rc=%d %s" % (target, p, q.returncode, q.stdout[-200:].replace("\n", " "))
        return desc, "SURVIVED", ""
    except subprocess.TimeoutExpired:
        return desc, "timeout", ""
    finally:
        with open(os.path.join(repo, f), "w") as o:
            o.write(src)
        c = d + "/out/cache"
        if os.path.isdir(c) and sum(1 for _ in os.scandir(c)) > 300:
            ents = sorted(os.scandir(c), key=lambda e: e.stat().st_mtime)
            for e in ents[:150]:
                os.unlink(e.path)


def main():
    import queue
    log = open(sys.argv[1], "a", buffering=1)
    done = set()
    for l in open(sys.argv[1]):
        j = json.loads(l)
        done.add(j["id"])
    ids = queue.Queue()
    n = int(os.environ.get("MUT_JOBS", "6"))
    for i in range(n):
        ids.put(i)
    jobs = []
    for f in sys.argv[2:]:
        src = open("/repo/" + f).read()
        for mu in mutants(src):
            i = hashlib.sha1(("%s|%s|%s|%s" % (f, mu[0], mu[1], mu[2]) + src).encode()).hexdigest()[:12]
            if i not in done:
                jobs.append((i, f, src, mu))
    print(len(jobs), "mutants")

    def work(j):
        w = ids.get()
        try:
            d, s, k = one(w, *j[1:])
        except Exception as e:
            d, s, k = str(j[3]), "error", repr(e)
        ids.put(w)
        log.write(json.dumps({"id": j[0], "m": d, "s": s, "k": k}) + "\n")
    with cf.ThreadPoolExecutor(n) as ex:
        list(ex.map(work, jobs))


QUICK = float(os.environ.get("MUT_SCALE", "1"))
if __name__ == "__main__":
    main()
