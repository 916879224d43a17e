#!/usr/bin/env python3
"""mutate.py [ids...] [--prop=C01,C02]: changes that break a property; the checks named have to report them (no demonstrations, see seed.py for those)."""
import glob, os, re, subprocess, sys, concurrent.futures as cf
here = os.path.dirname(os.path.abspath(__file__)); root = os.path.dirname(here)
B = []
def mut(id, props, *edits): B.append((id, props, edits))
for f in sorted(glob.glob(here + "/mutants_%s.py" % next((a[7:] for a in sys.argv if a.startswith("--file=")), "*"))):
    exec(compile(open(f).read(), f, "exec"))
def sh(cmd, cwd=None, env=None):
    e = dict(os.environ); e.update(env or {})
    p = subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, env=e)
    return p.returncode, p.stdout + p.stderr
args = [a for a in sys.argv[1:] if not a.startswith("-")]
def one(k):
    id, want, edits = B[k]
    d = "/tmp/mu%d_%d" % (os.getpid(), k)
    sh("rm -rf %s; cp -a /repo %s" % (d, d))
    try:
        for f, old, new in edits:
            s = open(d + "/" + f).read()
            if s.count(old) != 1: return "%-30s INVALID: %d matches of %r" % (id, s.count(old), old[:60])
            open(d + "/" + f, "w").write(s.replace(old, new))
        rc, o = sh(". /opt/vp/env.sh; gofmt -l . | head; go build ./... ", d)
        if rc: return "%-30s INVALID: %s" % (id, o)
        tmp = d + ".out"; sh("mkdir -p %s; cp %s/known_findings.txt %s/properties.jsonl %s/" % (tmp, root, root, tmp))
        res = []
        for w in want.split(","):
            rc, o = sh(". /opt/vp/env.sh; %s/checker/bin/karbocheck %s" % (root, w), d, {"KARBO_REPO": d, "KARBO_VERIF": tmp})
            bad = [l for l in o.splitlines() if ": rule " in l]
            viol = sorted(set(re.findall(r"property=(\w+) replay", o)))
            res.append(w + " MISSED" if rc != 1 or not bad else (w if " " not in w else ",".join(viol)) + " caught " + bad[0].strip()[:170])
        return "%-30s %s" % (id, " | ".join(res))
    finally:
        sh("rm -rf %s %s.out" % (d, d))
with cf.ThreadPoolExecutor(4) as ex:
    ks = [k for k in range(len(B)) if not args or B[k][0] in args]
    for r in ex.map(one, ks): print(r, flush=True)
