#!/usr/bin/env python3
"""mutate.py FILE.mut [-j N] [name...]: run checks against a list of edits, each in scratch copies of /repo and /verif.

FILE.mut: blocks   == NAME | C01 C02 | bug|same | path   then  OLD  ---- NEW  [@@ path? OLD ---- NEW]
"""
import sys, os, re, subprocess, json, shutil, threading, queue
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def parse(fn):
    out = []
    for b in re.split(r"^== ", open(fn).read(), flags=re.M)[1:]:
        head, body = b.split("\n", 1)
        name, props, kind, path = [x.strip() for x in head.split("|")]
        eds = []
        for e in re.split(r"^@@", body, flags=re.M):
            l, rest = ("", e)
            if eds or e is not body:
                pass
            if len(eds):
                l, rest = e.split("\n", 1)
            o, n = rest.split("\n----\n") if "\n----\n" in rest else (rest.split("\n----")[0], "")
            eds.append((l.strip() or path, o.strip("\n"), n.strip("\n")))
        out.append((name, props.split(), kind, eds))
    return out

def worker(i, q, res):
    r, v = "/tmp/mr%d" % i, "/tmp/mv%d" % i
    for d in (r, v):
        subprocess.run(["rm", "-rf", d])
    subprocess.run(["rsync", "-a", "--exclude", "target", "/repo/", r + "/"], check=True)
    subprocess.run(["rsync", "-a", "--exclude", "work", "--exclude", "seeded", "--exclude", ".git", V + "/", v + "/"], check=True)
    for c in ("hcore", "hsvc"):
        p = "%s/harness/%s/Cargo.toml" % (v, c)
        s = open(p).read().replace('"/repo/', '"%s/' % r)
        open(p, "w").write(s)
    while True:
        try:
            name, props, kind, eds = q.get_nowait()
        except queue.Empty:
            break
        subprocess.run(["git", "-C", r, "checkout", "-q", "--", "."], check=True)
        bad = None
        for (p, o, n) in eds:
            f = os.path.join(r, p)
            s = open(f).read()
            if s.count(o) < 1:
                bad = "PATTERN x%d in %s: %s" % (s.count(o), p, o[:60])
                break
            s = s.replace(o, n, 1)
            open(f, "w").write(s)
        for pid in props:
            if bad:
                print("%-28s %s ?? %s" % (name, pid, bad), flush=True)
                continue
            e = dict(os.environ, VX_REPO=r)
            p = subprocess.run([v + "/check.py", pid], env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            o = p.stdout.decode("utf8", "replace")
            ls = [l for l in o.split("\n") if l.strip()]
            w = [l for l in ls if l.startswith("VIOLATION")]
            tag = "caught" if p.returncode == 1 and w else ("quiet" if p.returncode == 0 else "RC%d" % p.returncode)
            how = ("no-input" if w and "no-failing" in w[0] else "witness") if w else ""
            ob = [l for l in ls if l.startswith("failed obligation")]
            good = (tag == "caught") == (kind == "bug")
            print("%s %-28s %s %s %s ob=%d %s" % ("  " if good else "!!", name, pid, tag, how, len(ob), (ls[-1][-160:] if tag != "caught" else (ob[0] if ob else "")[:150])), flush=True)
            res.append((name, pid, kind, tag, how, len(ob)))
    for d in (r, v):
        subprocess.run(["rm", "-rf", d])

if __name__ == "__main__":
    a = sys.argv[1:]
    j = 3
    if "-j" in a:
        k = a.index("-j"); j = int(a[k + 1]); del a[k:k + 2]
    ms = [m for m in parse(a[0]) if not a[1:] or any(re.search(x, m[0]) for x in a[1:])]
    q = queue.Queue()
    for m in ms:
        q.put(m)
    res = []
    ts = [threading.Thread(target=worker, args=(i, q, res)) for i in range(min(j, len(ms)))]
    [t.start() for t in ts]; [t.join() for t in ts]
    print("bugs caught %d/%d; same quiet %d/%d" % (sum(1 for r in res if r[2] == "bug" and r[3] == "caught"), sum(1 for r in res if r[2] == "bug"), sum(1 for r in res if r[2] == "same" and r[3] == "quiet"), sum(1 for r in res if r[2] == "same")))
