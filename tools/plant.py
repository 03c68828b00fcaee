#!/usr/bin/env python3
"""Confirms a planted bug in a scratch copy of /repo and tells which check sees it.
  plant.py <id> [property...]      (default: the property of its meta.json)"""
import json, os, shutil, subprocess, sys
V = os.path.abspath(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
S = "/tmp/plant/repo"
def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def main():
    i = sys.argv[1]
    d = os.path.join(V, "seeded", i)
    meta = json.load(open(os.path.join(d, "meta.json")))
    if not os.path.isdir(S):
        os.makedirs("/tmp/plant", exist_ok=True)
        sh("cp -a /repo " + S)
    sh("git -C %s checkout -q -- . && git -C %s pull -q /repo HEAD" % (S, S))
    sh("git -C %s fetch -q /repo HEAD && git -C %s reset -q --hard FETCH_HEAD" % (S, S))
    assert sh("git -C %s rev-parse HEAD" % S).stdout == sh("git -C /repo rev-parse HEAD").stdout
    b = open("/opt/vp/build.sh").read().replace("cd /repo", "cd " + S)
    open("/tmp/plant/build.sh", "w").write(b)
    if not os.path.exists("/tmp/plant/fresh"):
        sh("rm -rf %s/_build" % S); open("/tmp/plant/fresh", "w").close()
    def demo():
        shutil.rmtree("/tmp/plant/demo", ignore_errors=True)
        shutil.copytree(d, "/tmp/plant/demo")
        for f in ("patch.diff", "meta.json"): os.remove("/tmp/plant/demo/" + f)
        return sh("bash /tmp/plant/demo/demo.sh", cwd=S, timeout=300)
    r = demo()
    print("demo clean:", r.returncode, r.stdout[-300:] if r.returncode else "")
    ok = r.returncode == 0
    r = sh("git -C %s apply %s/patch.diff" % (S, d))
    if r.returncode: print("patch does not apply", r.stdout); return 1
    try:
        r = sh("bash /tmp/plant/build.sh")
        if r.returncode: print("BUILD FAILS", r.stdout[-1500:]); return 1
        r = sh("./_build/simu-test 2>&1 | tail -3", cwd=S)
        print("tests:", r.stdout.strip().splitlines()[-1])
        r = demo()
        print("demo patched:", r.returncode, r.stdout[-300:])
        ok = ok and r.returncode != 0
        for p in sys.argv[2:] or [meta["property"]]:
            e = dict(os.environ, VERIF_REPO=S)
            r = sh("python3 run.py " + p, cwd=V, env=e, timeout=900)
            print("check %s: %s" % (p, "CAUGHT" if r.returncode == 1 else "MISSED" if r.returncode == 0 else "??"), "\n".join(r.stdout.splitlines()[:3])[:500])
    finally:
        sh("git -C %s checkout -q -- ." % S)
    print(i, "VALID" if ok else "INVALID DEMO")
main()
