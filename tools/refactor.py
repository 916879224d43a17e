#!/usr/bin/env python3
"""refactor.py [ids...] [--prop=C01,C02]: behaviour-preserving edits; every check has to stay quiet."""
import glob, os, subprocess, sys, concurrent.futures as cf
here = os.path.dirname(os.path.abspath(__file__)); root = os.path.dirname(here)
B = []
def ref(id, *edits): B.append((id, edits))
for f in sorted(glob.glob(here + "/refactors_%s.py" % next((a[7:] for a in sys.argv if a.startswith("--file=")), "*"))):
    exec(compile(open(f).read(), f, "exec"))
def sh(cmd, cwd=None, env=None):
    e = dict(os.environ); e.update(env or {})
    p = subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, env=e)
    return p.returncode, p.stdout + p.stderr
args = [a for a in sys.argv[1:] if not a.startswith("-")]
props = next((a[7:].replace(",", " ") for a in sys.argv if a.startswith("--prop=")), "all")
def one(k):
    id, edits = B[k]
    d = "/tmp/rf%d_%d" % (os.getpid(), k)
    sh("rm -rf %s; cp -a /repo %s" % (d, d))
    try:
        for f, old, new in edits:
            s = open(d + "/" + f).read()
            if s.count(old) != 1: return "%-30s INVALID: %d matches of %r" % (id, s.count(old), old[:60])
            open(d + "/" + f, "w").write(s.replace(old, new))
        rc, o = sh(". /opt/vp/env.sh; gofmt -l . | head; go build ./... ", d)
        if rc: return "%-30s INVALID: %s" % (id, o)
        tmp = d + ".out"; sh("mkdir -p %s; cp %s/known_findings.txt %s/properties.jsonl %s/" % (tmp, root, root, tmp))
        rc, o = sh(". /opt/vp/env.sh; %s/checker/bin/karbocheck %s" % (root, props), d, {"KARBO_REPO": d, "KARBO_VERIF": tmp})
        bad = [l for l in o.splitlines() if ": rule " in l]
        return "%-30s %s" % (id, "quiet" if rc == 0 else "ALARM rc=%d\n      " % rc + "\n      ".join(x.strip()[:260] for x in bad))
    finally:
        sh("rm -rf %s %s.out" % (d, d))
with cf.ThreadPoolExecutor(4) as ex:
    ks = [k for k in range(len(B)) if not args or B[k][0] in args]
    for r in ex.map(one, ks): print(r, flush=True)
