#!/usr/bin/env python3
"""check.py <property-id>: build the property's harness(es) from /repo's current working tree, explore,
write evidence/<id>.json, print VIOLATION / KNOWN-FINDING lines. Exit 0 / 1; anything else is an error."""
import array, json, os, subprocess, sys, time, re, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "tools"))
import vb
from registry import CHECKS

def load_known(pid):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p))["findings"] if k["property"] == pid and k.get("status") == "open"]

def run_harness(exe, env, timeout, tmp):
    out = os.path.join(tmp, "out.json")
    crumb = os.path.join(tmp, "crumb")
    for f in (out, crumb):
        if os.path.exists(f):
            os.unlink(f)
    e = dict(os.environ)
    e.update(env)
    e["MC_OUT"] = out
    e["MC_CRUMB"] = crumb
    e["MC_TMP"] = tmp
    e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=66:allocator_may_return_null=1:hard_rss_limit_mb=12000:detect_stack_use_after_return=0"
    err = os.path.join(tmp, "err.txt")
    with open(err, "w") as ef:
        try:
            r = subprocess.run([exe], env=e, stdout=ef, stderr=ef, timeout=timeout, cwd=tmp)
            rc = r.returncode
        except subprocess.TimeoutExpired:
            rc = "timeout"
    rep = None
    if os.path.exists(out):
        try:
            rep = json.load(open(out))
        except ValueError:
            rep = None
    case = ""
    if os.path.exists(crumb):
        case = open(crumb, "rb").read().split(b"\0", 1)[0].decode("latin1")
    tail = open(err, errors="replace").read()
    return rc, rep, case, tail

def run_sharded(exe, env, timeout, tmp, n):
    if n <= 1:
        return [run_harness(exe, env, timeout, tmp)]
    dirs = [os.path.join(tmp, f"s{i}") for i in range(n)]
    for d in dirs:
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
    with ThreadPoolExecutor(n) as ex:
        res = list(ex.map(lambda i: run_harness(exe, {**env, "MC_SHARD": f"{i}/{n}"}, timeout, dirs[i]), range(n)))
    # the same state may be met by several shards: count it once
    reps = [r[1] for r in res if r[1] and r[1].get("done")]
    if len(reps) == n:
        for part in {k for r in reps for k in r["parts"]}:
            first = next(r["parts"][part] for r in reps if part in r["parts"])
            for ext, field in (("seen", "states"), ("outcomes", "outcomes")):
                u = set()
                for d in dirs:
                    f = os.path.join(d, f"out.json.{part}.{ext}")
                    if os.path.exists(f):
                        a = array.array("Q")
                        a.frombytes(open(f, "rb").read())
                        u.update(a)
                for r in reps:
                    if part in r["parts"]:
                        r["parts"][part][field] = 0
                first[field] = len(u)
    for d in dirs:
        shutil.rmtree(d, ignore_errors=True)
    return res

def merge(a, b):
    if a is None:
        return dict(b)
    for k in ("states", "transitions", "traces", "outcomes"):
        a[k] += b[k]
    a["complete"] = a["complete"] and b["complete"]
    a["samples"] = (a["samples"] + b["samples"])[:3]
    return a

def main():
    pid = sys.argv[1]
    cfg = CHECKS[pid]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    os.environ["VERIF_TIER"] = tier
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix=f"verif-{pid}-")
    try:
        return check(pid, cfg, tier, seed, t0, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

def check(pid, cfg, tier, seed, t0, tmp):
    known = load_known(pid)
    seen_known, violations = {}, []
    parts, nfail = {}, 0
    builds = []
    for h in cfg["harnesses"]:
        try:
            exe, n = vb.build(h["name"], h["src"], h.get("lib", ()), h.get("variant", "asan"), h.get("libs", ()), h.get("extra", ()))
        except vb.BuildError as e:
            print(f"BUILD-ERROR property={pid}: {e}")
            return 3
        builds.append((h, exe, n))
    tb = time.time() - t0
    budget = cfg.get("timeout", 420 if tier == "quick" else 7200)
    kf = os.path.join(tmp, "known.txt")
    with open(kf, "w") as f:
        f.write("".join(k["key"] + "\n" for k in known))
    for h, exe, n in builds:
        env = {**h.get("env", {}), "MC_KNOWN": kf}
        for si, (rc, rep, case, tail) in enumerate(run_sharded(exe, env, budget, tmp, h.get("shards", 1))):
            fails = []
            if rep and rep.get("done") and rc == 0:
                fails = rep["failures"]
                nfail += rep["nfail"]
                for k, v in rep["parts"].items():
                    pk = h["name"] + "/" + k if len(builds) > 1 else k
                    parts[pk] = merge(parts.get(pk), v)
            else:
                if rc == "timeout" and not (rep or {}).get("failures"):
                    # which case was it on? retry that one alone
                    rc2, rep2, case2, tail2 = run_harness(exe, {**env, "MC_ONLY": case}, 120, tmp)
                    if rep2 and rep2.get("done") and rc2 == 0 and not rep2["failures"]:
                        print(f"ERROR property={pid}: exploration exceeded {budget}s (case {case} alone terminates)")
                        return 4
                prior = [f for f in (rep or {}).get("failures", []) if f["key"] not in [k["key"] for k in known]]
                m = re.search(r"(AddressSanitizer: [^\n]*|SUMMARY: [^\n]*|MC-HANG[^\n]*|Assertion[^\n]*|terminate called[^\n]*\n[^\n]*)", tail)
                what = m.group(1) if m else f"exit status {rc}"
                kind = "hang" if (rc in ("timeout", 77)) else "crash"
                # failures recorded before the crash or time-out come first
                fails = prior + [{"key": f"{kind}:{case}", "case": case, "detail": what + "\n" + tail[-3000:]}]
            for f in fails:
                k = next((k for k in known if k["key"] == f["key"]), None)
                if k:
                    seen_known[k["key"]] = k
                    continue
                # replay before report: the same case, alone, must fail again
                rc2, rep2, case2, tail2 = run_harness(exe, {**env, "MC_ONLY": f["case"]}, 180, tmp)
                again = (rc2 != 0) or not rep2 or any(x["key"] == f["key"] for x in rep2["failures"])
                where = f"MC_ONLY='{f['case']}'"
                if not again and not any(v[2] for v in violations):
                    # it needs what ran before: the whole run must then fail the same way again
                    sh = f"{si}/{h.get('shards', 1)}"
                    rc3, rep3, case3, tail3 = run_harness(exe, {**env, "MC_SHARD": sh}, max(60, min(budget, 850 - (time.time() - t0))), tmp)
                    again = any(x["key"] == f["key"] for x in (rep3 or {}).get("failures", [])) or (rc3 != 0 and f["key"].endswith(":" + case3))
                    where = f"MC_SHARD={sh}"
                violations.append((h, f, again, where))
                if len(violations) >= 4:
                    break
            if len(violations) >= 4:
                break
    confirmed = [v for v in violations if v[2]]
    flaky = [v for v in violations if not v[2]]
    cov = {"states": sum(p["states"] for p in parts.values()), "transitions": sum(p["transitions"] for p in parts.values()),
           "traces_validated_against_impl": sum(p["traces"] for p in parts.values()),
           "distinct_outcomes": sum(p["outcomes"] for p in parts.values()),
           "samples": [f"{k}: {s}" for k, p in parts.items() for s in p["samples"]][:12] or ["(none)"],
           "exhaustive": all(p["complete"] for p in parts.values()) and bool(parts),
           "parts": {k: {x: p[x] for x in ("states", "transitions", "traces", "outcomes", "complete", "bounds")} for k, p in parts.items()},
           "objects_recompiled": sum(b[2] for b in builds), "build_s": round(tb, 1), "known_findings_seen": sorted(seen_known)}
    ev = {"property": pid, "tier": tier, "seed": seed, "level": cfg.get("level", "model_checking"), "coverage": cov,
          "assumptions": cfg.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": len(confirmed)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", f"{pid}.json"), "w"), indent=1)
    for k in seen_known.values():
        print(f"KNOWN-FINDING: property={pid} {k['what']}")
    if confirmed:
        rd = os.path.join(VERIF, "replays")
        os.makedirs(rd, exist_ok=True)
        for i, (h, f, _, where) in enumerate(confirmed):
            rp = os.path.join(rd, f"{pid}-{i}.json")
            json.dump({"property": pid, "harness": h["name"], "case": f["case"], "key": f["key"], "detail": f["detail"],
                       "replay": f"{where} MC_VERBOSE=1 {VERIF}/_build/bin/{h['name']}.{h.get('variant', 'asan')}"}, open(rp, "w"), indent=1)
            print(f"  [{f['key']}] case={f['case'][:300]}\n    {f['detail'][:1200]}")
            print(f"VIOLATION property={pid} replay={rp}")
        return 1
    if flaky:
        for h, f, *_ in flaky:
            print(f"ERROR property={pid}: failure did not reproduce on replay: {f['key']} case={f['case'][:300]}\n{f['detail'][:2000]}")
        return 5
    print(f"OK property={pid} tier={tier} states={cov['states']} transitions={cov['transitions']} traces={cov['traces_validated_against_impl']} "
          f"exhaustive={cov['exhaustive']} wall={ev['wall_s']}s (build {cov['build_s']}s)")
    return 0

sys.exit(main())
