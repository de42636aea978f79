#!/usr/bin/env python3
"""seed.py verify <id>...   : in a scratch copy of /repo check that seeded/<id> applies, builds, passes the stable tests,
                             and that its demo passes without / fails with the patch.
   (the stable tests themselves are run by vcheck)
   seed.py detect <id>...   : apply each to /repo, run its property's check (and undo)
   seed.py new <id>         : take the working-tree diff of /repo as seeded/<id>/patch.diff and undo it"""
import json, os, subprocess, sys, shutil, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(cmd, **k): return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
cmd, ids = sys.argv[1], sys.argv[2:]
if cmd == "new":
    d = f"{V}/seeded/{ids[0]}"; os.makedirs(d, exist_ok=True)
    r = sh("git -C /repo diff"); assert r.stdout.strip(), "no diff"
    open(d + "/patch.diff", "w").write(r.stdout); sh("git -C /repo checkout -- .")
    print(d)
if cmd == "detect":
    for i in ids or sorted(os.listdir(V + "/seeded")):
        d = f"{V}/seeded/{i}"; prop = json.load(open(d + "/meta.json"))["property"]
        r = sh(f"git -C /repo apply {d}/patch.diff")
        assert r.returncode == 0, r.stdout
        try:
            r = sh(f"{V}/bin/check {prop} quick", timeout=900)
        finally:
            sh("git -C /repo checkout -- .")
        n = r.stdout.count("VIOLATION property=" + prop)
        print(f"{i}: {prop} exit={r.returncode} violations={n}  {'CAUGHT' if r.returncode == 1 and n else 'MISSED'}")
        dj = V + "/doc/detection.json"
        det = json.load(open(dj)) if os.path.exists(dj) else {}
        det[i] = "caught" if r.returncode == 1 and n else "missed"
        json.dump(det, open(dj, "w"), indent=1, sort_keys=True)
        m = re.search(r"VIOLATION.*\n.*\n.*\n.*", r.stdout)
        if m: print("   ", m.group(0)[:600].replace("\n", "\n    "))
        else: print(r.stdout[-600:])
if cmd == "verify":
    # one scratch copy, with incremental builds; the demo is given a library through GC_LIB
    w = "/tmp/seedwork"
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs(w)
    sh(f"mkdir {w}/repo && cd /repo && tar cf - --exclude=./_build . | tar xf - -C {w}/repo")
    ok = True
    for i in ids:
        d = f"{V}/seeded/{i}"
        sh(f"git -C {w}/repo checkout -- .")
        def build():
            return sh(f"python3 {V}/bin/seedbuild.py {w}/repo")
        b = build()
        if b.returncode: print(i, "BASE BUILD FAILED", b.stdout[-2000:]); ok = False; continue
        r0 = sh(f"bash {d}/demo.sh", cwd=f"{w}/repo", timeout=300)
        a = sh(f"git -C {w}/repo apply {d}/patch.diff")
        if a.returncode: print(i, "DOES NOT APPLY", a.stdout); ok = False; continue
        b = build()
        if b.returncode: print(i, "PATCHED BUILD FAILED", b.stdout[-2000:]); ok = False; continue
        r1 = sh(f"bash {d}/demo.sh", cwd=f"{w}/repo", timeout=300)
        t = sh(f"{w}/repo/_build/gctest --gtest_filter=-*ReadWrite*", cwd=w, timeout=120)
        if t.returncode or "[  PASSED  ] 21 tests" not in t.stdout: print(i, "STABLE TESTS FAIL:", t.stdout[-700:])
        good = r0.returncode == 0 and r1.returncode != 0 and t.returncode == 0
        ok = ok and good
        print(f"{i}: demo clean={r0.returncode} patched={r1.returncode} {'OK' if good else 'BAD'}")
        if r0.returncode: print(r0.stdout[-1500:])
        elif not r1.returncode: print(r1.stdout[-1500:])
    sh(f"rm -rf {w}")
    sys.exit(0 if ok else 1)
