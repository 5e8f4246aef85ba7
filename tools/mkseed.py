#!/usr/bin/env python3
"""mkseed.py spec.py : spec defines SEEDS = [dict(id, prop, needs, what, file, old, new, demo, lib=None|harness name)].
Writes seeded/<id>/ (the change is made in a scratch worktree, never in /repo)."""
import json, os, subprocess, sys, importlib.util, shutil, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/tools")
import vb
from registry import CHECKS
sp = importlib.util.spec_from_file_location("spec", sys.argv[1]); m = importlib.util.module_from_spec(sp); sp.loader.exec_module(m)
HDR = '''#!/bin/bash
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
'''
PLAIN = HDR + '''g++ -std=c++20 -w -O1 -DBOOST_ASIO_DISABLE_CONCEPTS=1 -I"$d" -Isrc -I_build "$d/demo.cpp" -o "$t/demo" -pthread || exit 0
cd "$t" && timeout 60 ./demo
'''
LIB = HDR + '''tar xzf "$d/shims.tgz" -C "$t"
F="-std=c++20 -w -O0 -fPIC -pthread -DRAPIDJSON_HAS_STDSTRING=1 -DTINYSPLINE_DOUBLE_PRECISION -DBOOST_MATH_DISABLE_FLOAT128=1 -DBOOST_ASIO_DISABLE_CONCEPTS=1 -DFMT_HEADER_ONLY=1 -DFFTW_DOUBLE_ONLY=1 -include $t/shims/prelude.hpp -I$t/shims/config -Isrc -Isrc/ossia-c -Isrc/ossia-cpp -I$t/shims -I3rdparty/timertt -I/usr/include/concurrentqueue/moodycamel"
(echo "$d/demo.cpp"; sed 's|^|src/|' "$d/srcs.txt") | xargs -P 8 -I{} sh -c 'case {} in *.c) gcc -w -fPIC -DTINYSPLINE_DOUBLE_PRECISION -c {} -o '"$t"'/$(echo {} | tr / _).o;; *) g++ '"$F"' -c {} -o '"$t"'/$(echo {} | tr / _).o;; esac' || exit 0
g++ -pthread "$t"/*.o -o "$t/demo" -Wl,--as-needed -lsamplerate || exit 0
cd "$t" && timeout 60 ./demo
'''
for s in m.SEEDS:
    d = f"{V}/seeded/{s['id']}"; shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    edits = s["edits"] if "edits" in s else [(s["file"], s["old"], s["new"])]
    p = ""
    for f, old, new in edits:
        a = open(f"/repo/{f}").read()
        assert a.count(old) == 1, (s["id"], f, a.count(old))
        with tempfile.NamedTemporaryFile("w", delete=False) as t: t.write(a.replace(old, new))
        r = subprocess.run(["diff", "-u", "--label", f"a/{f}", "--label", f"b/{f}", f"/repo/{f}", t.name], capture_output=True, text=True).stdout
        os.unlink(t.name); p += f"diff --git a/{f} b/{f}\n" + r
    open(d + "/patch.diff", "w").write(p)
    json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["what"]}, open(d + "/meta.json", "w"), indent=1)
    open(d + "/demo.cpp", "w").write(s["demo"])
    if s.get("lib"):
        h = os.path.join(V, "harness", s["lib"] + ".cpp")
        o, _ = vb.compile_all([(h, "asan", ())])
        objs, _ = vb.needed([o[h]], vb.lib_sources(vb.ALL), "asan", ())
        names = {vb.known_object(x, "asan", ()): x for x in vb.lib_sources(vb.ALL)}
        open(d + "/srcs.txt", "w").write("".join(os.path.relpath(names[x], "/repo/src") + "\n" for x in objs))
        subprocess.run(["tar", "czf", d + "/shims.tgz", "-C", V, "shims"], check=True)
        open(d + "/demo.sh", "w").write(LIB)
    else:
        open(d + "/demo.sh", "w").write(PLAIN)
    os.chmod(d + "/demo.sh", 0o755)
    print(s["id"])
