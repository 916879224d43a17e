"""apply_ref.py <file> <id> <dir>: a copy of /repo with one edit of refactors_<file>.py applied."""
import os, sys, subprocess
here = os.path.dirname(os.path.abspath(__file__)); B = {}
def ref(id, *e): B[id] = e
def mut(id, p, *e): B[id] = e
f, id, d = sys.argv[1:4]
for k in ("refactors", "mutants"):
    p = "%s/%s_%s.py" % (here, k, f)
    if os.path.exists(p): exec(compile(open(p).read(), p, "exec"))
subprocess.run(["rm", "-rf", d]); subprocess.run(["cp", "-a", "/repo", d])
for g, old, new in B[id]:
    s = open(d + "/" + g).read(); assert s.count(old) == 1, old
    open(d + "/" + g, "w").write(s.replace(old, new))
