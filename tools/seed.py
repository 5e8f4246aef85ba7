#!/usr/bin/env python3
"""seed.py make <id> <property> <needs> <what> : record /repo's current diff as seeded/<id>/patch.diff (then undo it).
seed.py test <id>... : apply, build, run the stable tests, demo, the property's check; undo; report."""
import json, os, subprocess, sys, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def demo(i):
    sh("bash /opt/vp/build.sh")
    r = sh(f"bash {V}/seeded/{i}/demo.sh", cwd="/repo")
    return r.returncode, (r.stdout + r.stderr)[-600:]
if sys.argv[1] == "make":
    i, prop, needs, what = sys.argv[2:6]
    d = f"{V}/seeded/{i}"; os.makedirs(d, exist_ok=True)
    open(f"{d}/patch.diff", "w").write(sh("git -C /repo diff").stdout)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": what}, open(f"{d}/meta.json", "w"), indent=1)
    sh("git -C /repo checkout -- .")
else:
    ids = sys.argv[2:] or [os.path.basename(x) for x in sorted(glob.glob(f"{V}/seeded/*"))]
    nocheck = os.environ.get("NOCHECK")
    for i in ids:
        assert sh("git -C /repo status --porcelain").stdout == "", "dirty"
        m = json.load(open(f"{V}/seeded/{i}/meta.json"))
        d0, o0 = demo(i)
        r = sh(f"git -C /repo apply {V}/seeded/{i}/patch.diff")
        if r.returncode: print(i, "PATCH DOES NOT APPLY", r.stderr); continue
        try:
            b = sh("bash /opt/vp/build.sh"); t = sh("bash /opt/vp/test.sh /tmp/seed-out.json")
            base = json.load(open("/opt/vp/BASELINE.json"))
            d1, o1 = demo(i)
            c = None
            if not nocheck:
                c = sh(f"python3 {V}/tools/check.py {m['property']}", cwd=V)
        finally:
            sh("git -C /repo checkout -- .")
        out = open("/tmp/seed-out.json").read() if os.path.exists("/tmp/seed-out.json") else ""
        ok = d0 == 0 and d1 != 0 and b.returncode == 0
        caught = c and c.returncode == 1 and f"VIOLATION property={m['property']}" in c.stdout
        print(i, m["property"], "demo-ok" if ok else f"DEMO-BAD clean={d0} patched={d1} build={b.returncode}\n{o0 if d0 else ''}\n{o1 if not d1 else ''}", f"test-rc={t.returncode}",
              "CAUGHT" if caught else ("(unchecked)" if nocheck else f"MISSED rc={c.returncode} {c.stdout[-500:]}"), flush=True)
        if caught: print("   ", next((l for l in c.stdout.splitlines() if l.startswith("  [")), "")[:200], flush=True)
    sh("bash /opt/vp/build.sh")
