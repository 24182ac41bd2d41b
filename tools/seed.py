#!/usr/bin/env python3
"""seed.py mk ID FILE <<< 'OLD\n=====\nNEW' (CRLF aware) writes seeded/ID/patch.diff (several edits: -----)
   seed.py try ID [CHECK...]   applies it, builds, tests, runs the demo and the checks, undoes it."""
import json, os, subprocess, sys
R, S = os.environ.get("SEED_REPO", "/repo"), "/verif/seeded"
def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)
def undo():
    sh("git -C %s checkout -- ." % R)
def mk(i, f):
    p = os.path.join(R, f)
    s = open(p, newline="").read()
    crlf = "\r\n" in s
    for e in sys.stdin.read().split("\n-----\n"):
        old, new = e.split("\n=====\n") if "\n=====\n" in e else (e.split("\n=====")[0], "")
        old, new = old.strip("\n"), new.strip("\n")
        if crlf:
            old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
        if s.count(old) != 1:
            undo(); sys.exit("old text found %d times:\n%s" % (s.count(old), old))
        s = s.replace(old, new)
    open(p, "w", newline="").write(s)
    os.makedirs(os.path.join(S, i), exist_ok=True)
    d = subprocess.run("git -C %s diff" % R, shell=True, stdout=subprocess.PIPE).stdout
    undo()
    open(os.path.join(S, i, "patch.diff"), "wb").write(d)
    print(d.decode().replace("\r", ""))
def trial(i, checks):
    assert not sh("git -C %s status --porcelain" % R).stdout.strip()
    d = os.path.join(S, i)
    meta = json.load(open(d + "/meta.json"))
    def demo():
        tmp = sh("mktemp -d").stdout.strip()
        sh("cp -a %s/. %s/ && rm -f %s/*.diff %s/meta.json" % (d, tmp, tmp, tmp))
        r = sh("timeout 300 bash %s/demo.sh" % tmp, cwd=R)
        sh("/bin/rm -rf " + tmp)
        return r
    ok = True
    b = sh("bash /opt/vp/build.sh")
    r0 = demo()
    print("demo without: rc", r0.returncode)
    if r0.returncode: print(r0.stdout[-1500:]); ok = False
    a = sh("git -C %s apply %s/patch.diff" % (R, d))
    if a.returncode: sys.exit(a.stdout)
    try:
        b = sh("bash /opt/vp/build.sh")
        t = sh("bash /opt/vp/test.sh /tmp/seedtest.json")
        res = json.load(open("/tmp/seedtest.json"))
        print("build rc", b.returncode, "passed", len(res["passed"]))
        ok &= b.returncode == 0 and len(res["passed"]) == 5
        r1 = demo()
        print("demo with: rc", r1.returncode, r1.stdout[-400:].strip())
        ok &= r1.returncode != 0
        for c in checks or [meta["property"]]:
            r = sh("python3 check.py " + c, cwd="/verif")
            lines = r.stdout.strip().splitlines()
            print("CHECK", c, "rc", r.returncode, "CAUGHT" if r.returncode == 1 and "VIOLATION property=%s " % c in r.stdout else "not caught")
            print("   " + "\n   ".join(lines[-6:]))
    finally:
        undo()
        sh("bash /opt/vp/build.sh")
    print("SEED", i, "VALID" if ok else "INVALID")
if sys.argv[1] == "mk": mk(sys.argv[2], sys.argv[3])
else: trial(sys.argv[2], sys.argv[3:])
