#!/usr/bin/env python3
"""seed.py [ids...]: make (or re-make) the planted bugs described in bugs_*.py, confirm them in a scratch
copy and report which checks catch them. Scratch copy: /tmp/rc."""
import glob, json, os, shutil, subprocess, sys
here = os.path.dirname(os.path.abspath(__file__)); root = os.path.dirname(here)
sys.path.insert(0, here)
B = []
def bug(id, prop, file, edits, demo, needs, breaks, pkg="cryptonote", harness="chain"):
    B.append(dict(id=id, prop=prop, file=file, edits=edits, demo=demo, needs=needs, breaks=breaks, pkg=pkg, harness=harness))
for f in sorted(glob.glob(here + "/bugs_*.py")):
    exec(compile(open(f).read(), f, "exec"))
def sh(cmd, cwd=None, env=None):
    e = dict(os.environ); e.update(env or {})
    p = subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, env=e)
    return p.returncode, p.stdout + p.stderr
RC = "/tmp/rc"
base = set(x.strip() for x in subprocess.run("git -C /repo rev-list --max-parents=0 HEAD", shell=True, capture_output=True, text=True).stdout.split())
def fresh():
    sh("rm -rf /tmp/rc; cp -a /repo /tmp/rc")
def main():
    args = [a for a in sys.argv[1:] if not a.startswith("-")]
    recheck = "--check" in sys.argv
    fresh()
    res = []
    stable = None
    for b in B:
        if args and b["id"] not in args and b["prop"] not in args: continue
        sh("git checkout -q -- .", RC)
        ok = True; why = ""
        d = root + "/seeded/" + b["id"]
        if recheck:
            rc, o = sh("git apply %s/patch.diff" % d, RC)
            if rc: ok = False; why = o
        else:
            for e in b["edits"]:
                f, old, new = e if len(e) == 3 else (b["file"],) + tuple(e)
                s = open(RC + "/" + f).read()
                if s.count(old) != 1: ok = False; why = "edit matches %d times: %s" % (s.count(old), old[:60]); break
                open(RC + "/" + f, "w").write(s.replace(old, new))
            if ok:
                diff = subprocess.run("git diff", shell=True, cwd=RC, capture_output=True, text=True).stdout
                # originality of removed lines
                rcn, bl = 0, 0
                orig = False
                for f in set((e[0] if len(e) == 3 else b["file"]) for e in b["edits"]):
                    blame = subprocess.run("git blame -l -s HEAD -- %s" % f, shell=True, cwd="/repo", capture_output=True, text=True).stdout.splitlines()
                    import re
                    hunk = subprocess.run("git diff -U0 -- %s" % f, shell=True, cwd=RC, capture_output=True, text=True).stdout
                    for m in re.finditer(r"^@@ -(\d+)(?:,(\d+))? ", hunk, re.M):
                        a = int(m.group(1)); n = int(m.group(2) or 1)
                        for k in range(a, a + n):
                            if blame[k-1].lstrip("^")[:39] == list(base)[0][:39]: orig = True
                if not orig: ok = False; why = "no original line changed"
            if ok:
                os.makedirs(d, exist_ok=True)
                open(d + "/patch.diff", "w").write(diff)
                h = {"chain": ["chain_harness"], "none": []}.get(b["harness"], [b["harness"]])
                for f in glob.glob(d + "/*.go.txt"): os.remove(f)
                for x in h: shutil.copy(here + "/demo/%s.go.txt" % x, d + "/%s.go.txt" % x)
                open(d + "/demo.go.txt", "w").write(b["demo"].lstrip())
                shutil.copy(here + "/demo/demo.sh.txt", d + "/demo.sh"); os.chmod(d + "/demo.sh", 0o755)
                open(d + "/pkg", "w").write(b["pkg"] + "\n")
                json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
                open(d + "/meta.json", "a").write("\n")
                rc, o = sh(". /opt/vp/env.sh; go build ./... && go vet ./... >/dev/null 2>&1; go test ./... 2>&1", RC)
                fails = [l for l in o.splitlines() if l.startswith("--- FAIL") or l.startswith("FAIL") and "\t" in l]
                if stable is None:
                    r0, o0 = sh(". /opt/vp/env.sh; go test ./... 2>&1", "/repo")
                    stable = set(l.split(" (")[0] for l in o0.splitlines() if l.strip().startswith("--- FAIL"))
                newf = [l for l in o.splitlines() if l.strip().startswith("--- FAIL") and l.split(" (")[0] not in stable]
                if newf or "build failed" in o: ok = False; why = "tests: " + ";".join(newf) + o[-300:]
            if ok:
                r1, o1 = sh("bash %s/demo.sh" % d, "/repo")
                r2, o2 = sh("bash %s/demo.sh" % d, RC)
                if r1 != 0: ok = False; why = "demo fails on the unchanged tree: " + o1[-600:]
                elif r2 == 0: ok = False; why = "demo passes with the patch"
                elif "FAIL: TestVerifDemo" not in o2 and "panic" not in o2: ok = False; why = "demo broken: " + o2[-400:]
        if not ok:
            print("%-34s INVALID %s" % (b["id"], why)); res.append((b["id"], "invalid")); continue
        tmp = "/tmp/kcout"; os.makedirs(tmp, exist_ok=True)
        sh("cp %s/known_findings.txt %s/ 2>/dev/null; cp %s/properties.jsonl %s/" % (root, tmp, root, tmp))
        rc, o = sh(". /opt/vp/env.sh; %s/checker/bin/karbocheck %s" % (root, b["prop"]), RC, {"KARBO_REPO": RC, "KARBO_VERIF": tmp})
        v = "CAUGHT" if rc == 1 and "VIOLATION property=" + b["prop"] in o else "missed rc=%d" % rc
        first = [l for l in o.splitlines() if ": rule " in l]
        print("%-34s %s %s" % (b["id"], v, (first[0].strip()[:150] if first else "")))
    sh("git checkout -q -- .", RC)
main()
