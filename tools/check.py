#!/usr/bin/env python3
"""check.py PROPERTY: decides one property by symbolic execution of the real
code (see DESIGN.md).  Exit 0: held; 1: VIOLATION printed; 2: no answer."""
import concurrent.futures, fcntl, hashlib, json, os, re, resource, subprocess, sys, threading, time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
from jobs import JOBS

ROOT = build.ROOT
T0 = time.time()


def name(j):
    v = "" if j["variant"] == "std" else j["variant"] + ":"
    return f"{v}{j['entry']}({','.join(map(str, j['args']))})"


def limits():
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))


RUNNING = set()


def kill(p):
    try:
        os.killpg(p.pid, 9)
    except OSError:
        pass


def kill_all():
    for p in list(RUNNING):
        kill(p)


def symx(engine, ir, j, secs, total, seed, extra):
    cmd = [engine, "--ir", ir, "--entry", j["entry"], "--args", ",".join(map(str, j["args"])),
           "--secs", str(secs), "--total", str(total), "--qsecs", str(min(secs, 100)), "--seed", str(seed),
           "--traces", "3"] + extra
    t = time.time()
    try:
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, preexec_fn=limits, start_new_session=True)
        RUNNING.add(p)
        out, err = p.communicate(timeout=total + 60)
        r = json.loads(out)
    except subprocess.TimeoutExpired:
        kill(p)
        p.communicate()
        r = {"status": "inconclusive", "why": "time limit"}
    except ValueError:
        r = {"status": "inconclusive", "why": f"engine failed ({p.returncode}): {err[-300:]}"}
    RUNNING.discard(p)
    r["wall"] = time.time() - t
    return r


def native(exe, j, vals, limit=60):
    """('viol'|'end'|'stop'|'bad', what, outs)"""
    cmd = [exe, j["entry"], ",".join(map(str, j["args"])), ",".join(map(str, vals))]
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=limit)
    except subprocess.TimeoutExpired:
        return "viol", "does not end", None
    o = p.stdout.decode(errors="replace")
    m = re.search(r"^OUT (.*)$", o, re.M)
    outs = [int(x) for x in m.group(1).split(",") if x] if m else None
    v = re.findall(r"^VIOL (.*)$", o, re.M)
    if v:
        return "viol", "; ".join(v), outs
    if p.returncode < 0:
        return "viol", f"killed by signal {-p.returncode}", outs
    if re.search(r"^END$", o, re.M):
        return "end", "", outs
    if re.search(r"^STOP$", o, re.M):
        return "stop", "", outs
    return "bad", o[-300:], outs


def ranges(v):
    out, v = [], sorted(set(v))
    while v:
        k = 1
        while k < len(v) and v[k] == v[0] + k:
            k += 1
        out.append(str(v[0]) if k == 1 else f"{v[0]}, {v[1]}" if k == 2 else f"{v[0]}..{v[k - 1]}")
        v = v[k:]
    return ", ".join(out)


def bounds(jobs):
    """the jobs, those that differ in one argument put together"""
    left = [(j["variant"], j["entry"], tuple(j["args"])) for j in jobs]
    out = []
    while left:
        v, e, a = left[0]
        best = [left[0]]
        at = 0
        for i in range(len(a)):
            g = [x for x in left if x[:2] == (v, e) and len(x[2]) == len(a) and all(x[2][k] == a[k] for k in range(len(a)) if k != i)]
            if len(g) > len(best):
                best, at = g, i
        if len(best) == 1:
            s = ",".join(map(str, a))
        else:
            s = ",".join("{" + ranges([x[2][at] for x in best]) + "}" if k == at else str(a[k]) for k in range(len(a)))
        out.append(("" if v == "std" else v + ":") + f"{e}({s})")
        left = [x for x in left if x not in best]
    return out


def known():
    out = {}
    for l in open(f"{ROOT}/known-findings.txt"):
        m = re.match(r"known: property=(\S+) job=(\S+) check=(\d+) (.*)", l)
        if m:
            out[(m.group(1), m.group(2), f"check {m.group(3)}")] = m.group(4).strip()
    return out


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    thorough = tier == "thorough"
    budget = float(os.environ.get("VERIF_BUDGET", 780 if thorough else 400))
    jobs = [j for j in JOBS[prop] if thorough or j["tier"] == 0]
    os.makedirs(f"{ROOT}/evidence/replay", exist_ok=True)
    os.makedirs(build.BUILD, exist_ok=True)
    lock = open(f"{build.BUILD}/.lock", "w")
    fcntl.flock(lock, fcntl.LOCK_EX)

    variant = jobs[0]["variant"]
    viol = []      # (what, replay)
    notes = []
    try:
        with concurrent.futures.ThreadPoolExecutor(4) as ex:
            fe = ex.submit(build.engine)
            fi = ex.submit(build.ir, variant)

            def both():
                return {p: build.native(variant, p) for p in ("dev", "fast")}
            fn = ex.submit(both)
            engine, ir, nat = fe.result(), fi.result(), fn.result()
    except (build.BuildError, subprocess.TimeoutExpired) as e:
        if variant == "nostd" and nostd_broken(prop, tier, seed, str(e)):
            sys.exit(1)
        print(f"ERROR: {e}")
        sys.exit(2)
    tb = time.time() - T0
    print(f"{prop} ({tier}): {len(jobs)} jobs, built in {tb:.0f} s")

    # ---- symbolic execution
    kn = known()
    results = [None] * len(jobs)
    stop = threading.Event()

    def work(i):
        j = jobs[i]
        left = T0 + budget - time.time()
        if left < 5 or stop.is_set():
            return i, {"status": "inconclusive", "why": "not started within the time budget", "wall": 0.0}
        secs = min(j["secs"] or (240 if thorough else 120), left)
        return i, symx(engine, ir, j, secs, min(secs * 1.5, left + 20), seed, [])

    order = sorted(range(len(jobs)), key=lambda i: (jobs[i]["tier"], -(jobs[i].get("w") or 0), i))
    unreproduced = 0
    nval = 0
    mismatch = []

    def replay_file(j, vals, what, by):
        body = {"property": prop, "variant": j["variant"], "entry": j["entry"], "args": j["args"], "inputs": vals,
                "violated": what, "native": by,
                "how": "python3 tools/replay.py THIS_FILE runs the harness natively against /repo on these inputs"}
        h = hashlib.sha256(json.dumps([j["entry"], j["args"], what.split(":")[0]]).encode()).hexdigest()[:10]
        p = f"{ROOT}/evidence/replay/{prop}-{h}.json"
        json.dump(body, open(p, "w"), indent=1)
        return p

    def judge(i, r):
        nonlocal unreproduced, nval
        j = jobs[i]
        fin = []
        for v in r.get("violations") or []:
            done = None
            for prof in ("dev", "fast"):
                k, w, _ = native(nat[prof], j, v["model"])
                if k == "viol":
                    done = (prof, w)
                    break
            if not done:
                unreproduced += 1
                r["status"] = "inconclusive"
                r["why"] = f"counterexample not reproduced natively: {v['what']} {v['model'][:40]}"
                continue
            key = (prop, name(j), v["what"].split(":")[0])
            if key in kn and re.match(re.escape(key[2]) + r"(?!\d)", done[1]) and ";" not in done[1]:
                fin.append(("known", f"{key[1]} {kn[key]}", None))
                continue
            fin.append(("viol", f"{name(j)}: {v['what']} [{done[0]}: {done[1]}]", replay_file(j, v["model"], v["what"], done[1])))
        # the engine's runs must be the native ones
        for t in r.get("traces") or []:
            for prof in ("dev", "fast"):
                k, w, o = native(nat[prof], j, t["in"])
                if k == "viol" and not any(f[0] == "known" for f in fin) and not any(f[0] == "viol" for f in fin):
                    fin.append(("viol", f"{name(j)}: native run disagrees [{prof}: {w}]", replay_file(j, t["in"], w, w)))
                elif k == "bad" or (k != "viol" and o != t["out"]):
                    mismatch.append((name(j), t["in"][:20]))
                    r["status"] = "inconclusive"
                    r["why"] = "engine and native run disagree"
                else:
                    nval += 1
        if r["status"] == "ok" and (r.get("reach") or {}).get("1") is None:
            r["status"] = "inconclusive"
            r["why"] = "vacuous: the end of the harness was not shown reachable"
        return fin

    knownhits = []
    with concurrent.futures.ThreadPoolExecutor(int(os.environ.get("VERIF_JOBS", os.cpu_count() or 4))) as ex:
        for fut in concurrent.futures.as_completed([ex.submit(work, i) for i in order]):
            i, r = fut.result()
            results[i] = r
            for kind, what, rep in judge(i, r):
                if kind == "known":
                    knownhits.append(what)
                else:
                    viol.append((what, rep))
                    if len(viol) == 1:
                        print(f"VIOLATION property={prop} replay={rep}", flush=True)
                    if len(viol) <= 6:
                        print(f"  {what[:400]}", flush=True)
                    if len(viol) == 1:
                        # one is enough: what is running gets a moment more
                        stop.set()
                        tm = threading.Timer(20, kill_all)
                        tm.daemon = True
                        tm.start()
            if os.environ.get("VERIF_V"):
                print(f"  {name(jobs[i]):50} {r['status']:12} {r['wall']:.1f} s {r.get('why','')[:100]}", flush=True)

    und = [(name(j), r.get("why", "")) for j, r in zip(jobs, results) if not r["status"].startswith(("ok", "violation")) or "inconclusive" in r["status"]]
    if not viol:
        for n, w in und[:20]:
            print(f"UNDECIDED {n}: {w[:200]}")
    for k in sorted(set(knownhits)):
        print(f"KNOWN-FINDING: property={prop} {k}")

    # ---- evidence
    def tot(k):
        return sum(r.get(k) or 0 for r in results)
    funs = {}
    for r in results:
        for f, n, l in r.get("functions") or []:
            if "/repo/" in f or f.startswith(build.REPO):
                k = re.sub(r"^.*?/repo/", "", f) + ": " + re.sub(r"<.*", "", n)
                funs[k] = max(funs.get(k, 0), l)
    ok = [i for i, r in enumerate(results) if r["status"] == "ok"]
    samples = []
    for i in ok[:: max(1, len(ok) // 5)][:5]:
        r = results[i]
        s = {"job": name(jobs[i]), "status": r["status"], "steps": r["steps"], "checks": r["checks"], "seconds": round(r["wall"], 2)}
        if r.get("traces"):
            s["trace"] = {"in": r["traces"][0]["in"][:24], "out": r["traces"][0]["out"][:48]}
        samples.append(s)
    by = {}
    for r in results:
        for k, n in (r.get("by") or {}).items():
            by[k] = by.get(k, 0) + n
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": tot("forks") + len([r for r in results if r.get("steps")]),
            "transitions": tot("steps"),
            "traces_validated_against_impl": nval,
            "samples": samples or [{"job": name(jobs[0]), "status": results[0]["status"]}],
            "jobs": len(jobs), "jobs_decided": len(ok) + len([r for r in results if r["status"] == "violation"]),
            "undecided": [f"{n}: {w[:160]}" for n, w in und],
            "functions_encoded": sorted(funs),
            "bounds": bounds(jobs),
            "assertions_checked": tot("checks"),
            "assertions_without_symbolic_part": tot("checks_const"),
            "assertions_closed_by_canonical_form": tot("checks_canonical") - tot("checks_const"),
            "assertions_sent_to_solver": tot("obligations"),
            "distinct_goals_sent_to_solver": tot("goals"),
            "branch_feasibility_queries": tot("branch_queries"),
            "solver_queries": tot("queries"), "sat": tot("sat"), "unsat": tot("unsat"), "unknown": tot("unknown"),
            "solver_seconds": round(tot("solver_ms") / 1000, 2), "solvers": by,
            "symbolic_inputs": tot("vars"), "expression_nodes": tot("nodes"),
            "counterexamples_not_reproduced": unreproduced,
            "engine_native_mismatches": len(mismatch),
            "known_findings": sorted(set(knownhits)),
            "build_seconds": round(tb, 1),
        },
        "assumptions": [
            "bounds: the lengths, patterns and ranges listed as harness arguments; nothing is claimed outside them",
            "LLVM IR of rustc's release profile with overflow checks; engine semantics checked against native runs on sampled paths",
            "the heap never runs out of memory",
        ],
        "wall_s": round(time.time() - T0, 2),
        "violations": len(viol),
    }
    json.dump(ev, open(f"{ROOT}/evidence/{prop}.json", "w"), indent=1)
    print(f"{prop}: {len(ok)} of {len(jobs)} jobs ok, {len(und)} undecided, {len(viol)} violations, {tot('checks')} assertions, {tot('queries')} queries ({tot('solver_ms')/1000:.1f} s), {nval} native runs agree, {time.time()-T0:.0f} s")
    if viol:
        sys.exit(1)
    if len(und) * 2 > len(jobs):
        sys.exit(2)


def nostd_broken(prop, tier, seed, msg):
    """the crate builds with std but not without"""
    try:
        build.native("std", "dev")
    except build.BuildError:
        return False
    p = f"{ROOT}/evidence/replay/{prop}-build.json"
    json.dump({"property": prop, "variant": "nostd", "build_error": msg[-4000:],
               "how": "cargo build --no-default-features --features ascii,json,svg in /repo"}, open(p, "w"), indent=1)
    json.dump({"property": prop, "tier": tier, "seed": seed, "level": "model_checking",
               "coverage": {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": [msg[-500:]]},
               "wall_s": time.time() - T0, "violations": 1}, open(f"{ROOT}/evidence/{prop}.json", "w"), indent=1)
    print(f"VIOLATION property={prop} replay={p}")
    print("  the crate does not build without std: " + msg[-600:])
    return True


if __name__ == "__main__":
    try:
        main()
    except Exception:
        import traceback
        traceback.print_exc(file=sys.stdout)
        os._exit(2)
