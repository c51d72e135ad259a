#!/usr/bin/env python3
"""Working with planted bugs. Everything happens in copies under /tmp/seedwork.

  seed.py new ID           copy /repo, create seeded/ID with the demo template
  seed.py save ID          write seeded/ID/patch.diff from the copy
  seed.py verify ID...     apply the patch to a fresh copy: builds, stable tests pass, demo passes without and fails with it
  seed.py detect ID...     run the property's quick check against the patched copy
  seed.py drop ID          remove the copy
"""
import json, os, re, shutil, subprocess, sys
V = os.environ.get("VERIF_DIR", "/verif")
S = V + "/seeded"
W = "/tmp/seedwork"

def sh(cmd, cwd=None, env=None, timeout=1200):
    p = subprocess.run(cmd, shell=True, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout)
    return p.returncode, p.stdout

def copy(name):
    d = os.path.join(W, name)
    if os.path.isdir(d):
        shutil.rmtree(d)
    os.makedirs(W, exist_ok=True)
    sh("cp -a /repo " + d)
    return d

def main():
    cmd, ids = sys.argv[1], sys.argv[2:]
    for i in ids:
        sd = os.path.join(S, i)
        d = os.path.join(W, i)
        if cmd == "new":
            copy(i)
            os.makedirs(sd, exist_ok=True)
            for f in ("demo.sh", "lib_test.go"):
                shutil.copy(os.path.join(V, "tools/seedlib", f), sd)
            print(d)
        elif cmd == "save":
            rc, out = sh("git diff HEAD", cwd=d)
            open(os.path.join(sd, "patch.diff"), "w").write(out)
            print(out)
        elif cmd == "drop":
            shutil.rmtree(d, ignore_errors=True)
        elif cmd in ("verify", "detect", "all"):
            prop = json.load(open(os.path.join(sd, "meta.json")))["property"]
            d = copy(i + ".v")
            ok = True
            if cmd != "detect":
                rc, out = sh("timeout 300 bash %s/demo.sh" % sd, cwd=d)
                print(i, "demo without the bug:", "ok" if rc == 0 else "FAILS\n" + out)
                if rc:
                    continue
            rc, out = sh("git apply %s/patch.diff" % sd, cwd=d)
            if rc:
                print(i, "DOES NOT APPLY", out)
                continue
            # only lines of the original repository may be changed
            first = sh("git rev-list --max-parents=0 HEAD", cwd="/repo")[1].split()[0]
            cur, ours = None, []
            for f in re.findall(r"^--- a/(.*)$", open(sd + "/patch.diff").read(), re.M):
                blame = sh("git blame -s -l --root HEAD -- %s" % f, cwd="/repo")[1].splitlines()
                rcs, df = sh("git diff -U0 -- %s" % f, cwd=d)
                for m in re.finditer(r"^@@ -(\d+)(?:,(\d+))? ", df, re.M):
                    a, n = int(m[1]), int(m[2] if m[2] is not None else 1)
                    for k in range(a, a + n):
                        if not blame[k - 1].lstrip("^").startswith(first[:20]):
                            ours.append("%s:%d" % (f, k))
                    if n == 0:
                        ours.append("%s:%d only adds" % (f, a))
            if ours:
                print(i, "lines that are not original:", ours)
            if cmd != "detect":
                env = dict(os.environ)
                rc, out = sh(". /opt/vp/env.sh; go build ./... && go vet ./core/... ./lib/... ./router/... ./3rd/... >/dev/null 2>&1; go build ./...", cwd=d)
                if rc:
                    print(i, "DOES NOT BUILD", out); continue
                rc, out = sh("timeout 300 bash %s/demo.sh" % sd, cwd=d)
                print(i, "demo with the bug:", "fails" if rc else "PASSES")
                print("    " + "\n    ".join(out.splitlines()[:8]))
                ok &= rc != 0
                t = open("/opt/vp/test.sh").read().replace("cd /repo", "cd " + d).replace("/opt/vp/work", "/tmp/seedwork/%s.w" % i)
                open("/tmp/seedwork/%s.test.sh" % i, "w").write(t)
                sh("bash /tmp/seedwork/%s.test.sh /tmp/seedwork/%s.json" % (i, i), cwd=d)
                r = open("/tmp/seedwork/%s.json" % i).read()
                res = json.loads(r)
                passed = set(res.get("passed", []))
                miss = [s for s in json.load(open("/opt/vp/BASELINE.json"))["stable"] if s not in passed]
                print(i, "stable tests:", "pass" if not miss else "FAIL %s" % miss)
                ok &= not miss
                shutil.rmtree("/tmp/seedwork/%s.w" % i, ignore_errors=True)
                print(i, "==> counts" if ok else "==> DOES NOT COUNT")
            if cmd != "verify":
                env = dict(os.environ, VERIF_REPO=d, VERIF_EVIDENCE="/tmp/seedwork/ev", VERIF_SEED=os.environ.get("VERIF_SEED", "1"), VERIF_TIER="quick")
                rc, out = sh("python3 check.py %s --tier quick" % prop, cwd=V, env=env)
                v = [l for l in out.splitlines() if l.startswith("VIOLATION")]
                print(i, prop, "==> CAUGHT" if rc == 1 and v else "==> MISSED rc=%d" % rc)
                print("    " + "\n    ".join([l[:300] for l in out.splitlines()][:6]))
            shutil.rmtree(d, ignore_errors=True)

main()
