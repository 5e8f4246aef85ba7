#!/usr/bin/env python3
"""Development aid: mutate.py WORKER PROPS FILE[:first-last]... [--max N] [--log L]
Applies small textual mutations, one at a time, in a scratch copy of /repo (/tmp/mw/WORKER/repo) and runs the
checks PROPS (comma separated, stopping at the first that catches it) from a scratch copy of /verif. Survivors are logged."""
import os, re, subprocess, sys, random, shutil, time, argparse
ap = argparse.ArgumentParser()
ap.add_argument("worker"); ap.add_argument("props"); ap.add_argument("files", nargs="+")
ap.add_argument("--max", type=int, default=40); ap.add_argument("--log", default=None); ap.add_argument("--seed", type=int, default=1)
a = ap.parse_args()
W = f"/tmp/mw/{a.worker}"; R = W + "/repo"; V = W + "/verif"
os.makedirs(W, exist_ok=True)
if not os.path.exists(R):
    subprocess.run(f"mkdir -p {R} && cd /repo && cp -a src 3rdparty {R}/", shell=True, check=True)
subprocess.run(f"rsync -a --delete /repo/src/ {R}/src/ 2>/dev/null || cp -a /repo/src {R}/", shell=True)
os.makedirs(V, exist_ok=True)
subprocess.run(f"cp -a /verif/tools /verif/shims /verif/harness /verif/known_findings.json /verif/properties.jsonl /verif/MANIFEST.json {V}/", shell=True)
env = dict(os.environ, VERIF_REPO=R, VERIF_TIER="quick", VERIF_SEED="1"); env.setdefault("VERIF_JOBS", "3")
log = open(a.log or f"/tmp/mw/{a.worker}.log", "a")
def run(p):
    try:
        r = subprocess.run(["timeout", "-k", "5", "1200", "python3", V + "/tools/check.py", p], cwd=V, env=env, capture_output=True, text=True)
    except Exception as e:
        return 99, str(e)
    return r.returncode, r.stdout + r.stderr
OPS = [(r"(?<![<>=!+\-*/&|])<=(?!>)", ["<"]), (r"(?<![<>=\-])>=", [">"]), (r"==", ["!="]), (r"!=", ["=="]), (r"&&", ["||"]), (r"\|\|", ["&&"]),
       (r" < ", [" <= "]), (r" > ", [" >= "]), (r" \+ 1\b", [""]), (r" - 1\b", [""]), (r" \+ (?!1\b)", [" - "]), (r" - (?!1\b)", [" + "]), (r" \* ", [" / "]), (r" / ", [" * "]),
       (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]), (r"\+=", ["-="]), (r"-=", ["+="]), (r"\+\+", ["--"]), (r"\bmin\b", ["max"]), (r"\bmax\b", ["min"]),
       (r"\b0\b(?!\.)", ["1"]), (r"\b1\b(?!\.)", ["0", "2"]), (r"\b1\.0?\b", ["0."]), (r"\bif ?\((?!constexpr)", ["if(!"]), (r"\bbreak;", [";"]), (r"\bcontinue;", [";"]), (r"\breturn true", ["return false"]),
       (r"(?<=[(\s])!(?=[\w(])", [""]), (r"\bbegin\b", ["end"]), (r"push_back", ["push_front"][:0]), (r"\bfront\(\)", ["back()"]), (r"\bback\(\)", ["front()"]), (r"first\b", ["second"][:0])]
def mutants(path, lo, hi):
    L = open(path).read().split("\n"); out = []
    for i, l in enumerate(L):
        if not (lo <= i + 1 <= hi): continue
        s = l.strip()
        if not s or s.startswith(("//", "*", "/*", "#", "template", "using", "namespace", "typedef", "friend", "static_assert", "extern", "class ", "struct ", "enum ")): continue
        if "logger()" in s or "std::cerr" in s or "assert" in s: continue
        code = s.split("//")[0]
        for pat, reps in OPS:
            for m in re.finditer(pat, l):
                if "//" in l and m.start() > l.index("//"): continue
                if l[:m.start()].count('"') % 2: continue
                for rp in reps:
                    if pat.startswith(r"\bif"):
                        # negate the whole condition
                        j = m.end(); d = 1
                        while j < len(l) and d:
                            d += (l[j] == "(") - (l[j] == ")"); j += 1
                        if d: continue
                        nl = l[:m.start()] + "if(!(" + l[m.end():j - 1] + "))" + l[j:]
                    else: nl = l[:m.start()] + rp + l[m.end():]
                    out.append((i, nl))
        if s.endswith(";") and (s.count("(") == s.count(")")) and not re.match(r"(return|const |auto |throw|case|default|break|}|public|[\w:<>, ]+ [\w]+( = .*|\{.*\})?;$)", s) and ("(" in s or "=" in s):
            out.append((i, l[:len(l) - len(l.lstrip())] + ";"))
    return L, out
rnd = random.Random(a.seed)
todo = []
for f in a.files:
    m = re.match(r"(.*):(\d+)-(\d+)$", f); lo, hi = (int(m[2]), int(m[3])) if m else (1, 10**9)
    f = m[1] if m else f
    for p in sorted(__import__("glob").glob(f"/repo/{f}")):
        rel = os.path.relpath(p, "/repo"); L, ms = mutants(p, lo, hi)
        rnd.shuffle(ms); todo += [(rel, L, x) for x in ms[:a.max]]
print(len(todo), "mutants", file=log, flush=True)
st = {"killed": 0, "build": 0, "survived": 0}
for rel, L, (i, nl) in todo:
    p = f"{R}/{rel}"; M = list(L); M[i] = nl
    open(p, "w").write("\n".join(M))
    res = "survived"; t = time.time()
    for pr in a.props.split(","):
        rc, o = run(pr)
        if "BuildError" in o or "compiling" in o or "linking" in o or "failed:\n" in o: res = "build"; break
        if rc == 1: res = "killed"; break
        if rc != 0: res = f"rc{rc}"; break
    st[res] = st.get(res, 0) + 1
    if res not in ("killed", "build"):
        print(f"{res.upper()} {rel}:{i+1}\n   - {L[i].strip()}\n   + {nl.strip()}", file=log, flush=True)
    shutil.copy2("/repo/" + rel, p); os.utime(p)
print("DONE", a.files, st, file=log, flush=True)
