#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: decides one property on /repo's current working tree.

exit 0: held on everything explored; 1: VIOLATION line printed; 2: the check itself failed."""
import glob, json, os, re, shutil, signal, subprocess, sys, tempfile, time, hashlib
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, props
from concurrent.futures import ThreadPoolExecutor

V = build.VERIF
T0 = time.time()

def log(*a):
    print("[%6.1fs]" % (time.time() - T0), *a, flush=True)

def merge(prefix):
    t = dict(paths=0, forks=0, instrs=0, assume_killed=0, branches=0, ite_loads=0, queries=0, sat=0, unsat=0,
             unknown=0, cache_hits=0, model_hits=0, solver_s=0.0)
    cov, inc, vio, smp, fns = set(), {}, [], [], {}
    for f in glob.glob(prefix + ".*"):
        if not f.rsplit(".", 1)[1].isdigit():
            continue
        j = json.load(open(f))
        for k in t:
            t[k] += j.get(k, 0)
        cov |= set(j["covers"])
        for k, v in j["incomplete"].items():
            inc[k] = inc.get(k, 0) + v
        vio += j["violations"]
        smp += j["samples"]
        for x in j.get("functions", []):
            fns[x] = 1
        for x in j.get("cfunctions", []):
            fns.setdefault(x, 0)
    return t, cov, inc, vio, smp, fns

def native(exe, inputs, work, timeout=60, valgrind=False):
    """-> (status, detail); status: ok violation assume mismatch crash hang"""
    fd, i = tempfile.mkstemp(dir=work); os.close(fd)
    open(i, "w").write(inputs)
    o = i + ".obs"
    env = dict(os.environ, SYMX_INPUTS=i, SYMX_OBS=o)
    cmd = [exe]
    if valgrind:
        cmd = ["valgrind", "-q", "--error-exitcode=45", "--max-stackframe=16000000", exe]
    try:
        r = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, cwd=work)
    except subprocess.TimeoutExpired:
        return "hang", "no result after %d s" % timeout, ""
    out = r.stdout.decode("utf-8", "replace")[-3000:]
    obs = open(o).read().split("\n")[0].strip() if os.path.exists(o) else ""
    for x in (i, o):
        if os.path.exists(x):
            os.unlink(x)
    st = {0: "ok", 42: "violation", 43: "assume", 44: "mismatch"}.get(r.returncode, "crash")
    return st, "exit status %d\n%s" % (r.returncode, out), obs

def harness_covers(name, defines):
    """labels the harness can reach; all of them must be reached, except those starting with 'opt:'"""
    src = open(os.path.join(V, "harness", name + ".cpp")).read()
    m = re.search(r"//\s*COVERS:(.*)", src)
    if m:
        return set(m.group(1).split())
    names = {d.split("=")[0] for d in defines}
    out, st = set(), []
    for line in src.splitlines():
        w = line.split()
        if w and w[0] in ("#ifdef", "#ifndef"):
            st.append((w[1] in names) == (w[0] == "#ifdef"))
        elif w and w[0] == "#if":
            st.append(True)
        elif w and w[0] == "#else":
            st[-1] = not st[-1]
        elif w and w[0] == "#endif":
            st.pop()
        elif all(st):
            out |= {x for x in re.findall(r'symx_cover\((?:[^()"]*\? *)?"([^"]*)"\)', line) if not x.startswith("opt:")}
            out |= {x for m in re.findall(r'symx_cover\(([^()]*\?[^()]*)\)', line) for x in re.findall(r'"([^"]*)"', m) if not x.startswith("opt:")}
    return out

def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    P = props.PROPS[pid]
    known = [k for k in json.load(open(os.path.join(V, "known-findings.json")))["findings"] if k["property"] == pid]
    evf = os.path.join(V, "evidence", pid + ".json")
    repd = os.path.join(V, "evidence", "replay-" + pid)
    os.makedirs(os.path.dirname(evf), exist_ok=True)
    shutil.rmtree(repd, ignore_errors=True)
    try:
        os.unlink(evf)
    except OSError:
        pass
    work = tempfile.mkdtemp(prefix="symx-" + pid + "-")
    ncpu = int(os.environ.get("SYMX_PROCS", "8"))
    errors, notes, violations, kn_seen = [], [], [], set()
    runs_ev, samples_ev = [], []
    tot = dict(paths=0, forks=0, instrs=0, assume_killed=0, branches=0, queries=0, sat=0, unsat=0, unknown=0,
               cache_hits=0, model_hits=0, solver_s=0.0)
    validated = 0
    fns = {}
    exhaustive = True
    try:
        runs = [r for r in P["runs"] if tier == "thorough" or not r.get("thorough_only")]
        built = {}
        for r in runs:
            defs = list(r.get("def", [])) + (list(r.get("tdef", [])) if tier == "thorough" else [])
            built[id(r)] = build.harness(r["h"], defs) + (defs,)
        log("built", len(runs), "harness program(s) from", build.REPO)
        for r in runs:
            d, eng, defs = built[id(r)]
            if violations and tier == "quick":
                notes.append("run %s skipped after a violation" % r["h"])
                continue
            tb = r.get("ttime", 6 * r.get("time", 100)) if tier == "thorough" else r.get("time", 100)
            left = (3600 * 3 if tier == "thorough" else 780) - (time.time() - T0)
            tb = max(20, min(tb, left - 30))
            pre = os.path.join(work, r["h"] + hashlib.sha256(" ".join(defs).encode()).hexdigest()[:6])
            cmd = [eng + "/symx", d + "/sym.bc", "--out", pre, "--time", str(tb), "--procs", str(ncpu), "--seed", str(seed),
                   "--max-icount", str(r.get("icount", 80000000)), "--solver-ms", str(r.get("solver_ms", 20000)),
                   "--samples", str(r.get("samples", 4)), "--mem-mb", str(r.get("mem_mb", 3000)), "--enum", str(r.get("enum", 300))]
            t1 = time.time()
            p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            try:
                out, late = p.communicate(timeout=tb + 60)[0].decode("utf-8", "replace"), False
            except subprocess.TimeoutExpired:
                late = True
                for g in (os.killpg, os.kill):
                    try:
                        g(p.pid, signal.SIGKILL)
                    except OSError:
                        pass
                out = p.communicate()[0].decode("utf-8", "replace")
            if not late and p.returncode not in (0, 71):
                errors.append("engine failed on %s (%d): %s" % (r["h"], p.returncode, out[-1500:]))
                continue
            t, cov, inc, vio, smp, fn = merge(pre)
            if late or p.returncode == 71:
                inc["a worker process did not finish in time"] = 1
            elif len([f for f in glob.glob(pre + ".*") if f.rsplit(".", 1)[1].isdigit()]) != int(out.split()[-1]):
                errors.append("engine lost a process on %s" % r["h"])
            for k in tot:
                tot[k] += t[k]
            for k, v in fn.items():
                fns[k] = max(v, fns.get(k, 0))
            log(r["h"], " ".join(defs), "paths %(paths)d branches %(branches)d queries %(queries)d (sat %(sat)d unsat %(unsat)d unknown %(unknown)d) solver %(solver_s).1fs" % t,
                "wall %.1fs" % (time.time() - t1), "violations", len(vio), "incomplete", inc or "-")
            # counterexamples: only those the native program confirms are reported
            seen = set()
            hard = None
            for v in sorted(vio, key=lambda v: (v["kind"] == "hang", len(v["inputs"]))):
                sig = (v["kind"], v["msg"], (v["stack"] or ["?"])[0])
                if sig in seen:
                    continue
                st, det, obs = native(d + "/native", v["inputs"], work, timeout=40 if v["kind"] == "hang" else 60)
                conf = st in ("violation", "crash", "hang")
                if not conf and v["kind"] == "memory":
                    st, det, obs = native(d + "/native", v["inputs"], work, timeout=120, valgrind=True)
                    conf = st in ("violation", "crash", "hang")
                if not conf:
                    if v["kind"] == "hang":
                        inc["instruction limit"] = inc.get("instruction limit", 0) + 1
                        seen.add(sig)
                    else:
                        hard = hard or (v, st, det)
                    continue
                seen.add(sig)
                rec = dict(property=pid, harness=r["h"], defines=defs, kind=v["kind"], message=v["msg"], stack=v["stack"],
                           inputs=v["inputs"], native_status=st, native_output=det)
                m = next((k for k in known if k["harness"] == r["h"] and k["message"] == v["msg"] and k.get("kind", v["kind"]) == v["kind"]), None)
                if m:
                    if m["id"] not in kn_seen:
                        print("KNOWN-FINDING: property=%s %s" % (pid, m["what"]), flush=True)
                    kn_seen.add(m["id"])
                    continue
                os.makedirs(repd, exist_ok=True)
                rp = os.path.join(repd, "%d.json" % len(violations))
                rec["how_to_replay"] = "python3 /verif/lib/replay.py " + rp
                json.dump(rec, open(rp, "w"), indent=1)
                violations.append(rec)
                log("violation:", v["kind"], v["msg"], "| native:", st, "| inputs:", v["inputs"].replace("\n", "; ")[:300])
                print("VIOLATION property=%s replay=%s" % (pid, rp), flush=True)
                if len(violations) >= 5:
                    break
            if hard and not violations:
                v, st, det = hard
                errors.append("a counterexample of %s does not reproduce natively (%s): %s %s %s\n%s" % (r["h"], st, v["kind"], v["msg"], v["stack"][:4], v["inputs"]))
            # path samples against the real code
            import random
            rng = random.Random(seed)
            rng.shuffle(smp)
            pick = smp[: (60 if tier == "thorough" else 16)]
            with ThreadPoolExecutor(8) as ex:
                res = list(ex.map(lambda s: native(d + "/native", s["inputs"], work), pick))
            for s, (st, det, obs) in zip(pick, res):
                if violations:
                    break
                if st != "ok" or obs.split() != s["obs"].split():
                    errors.append("path of %s disagrees with the native run (%s): expected '%s' got '%s'\n%s\n%s" % (r["h"], st, s["obs"][:300], obs[:300], s["inputs"], det))
                else:
                    validated += 1
            for s in pick[:3]:
                samples_ev.append(dict(harness=r["h"], inputs=s["inputs"].strip().split("\n"), observed=s["obs"][:400]))
            missing = harness_covers(r["h"], defs) - cov if "covers" not in r else set(r["covers"]) - cov
            if missing and not violations and not inc:
                errors.append("harness %s never reached: %s" % (r["h"], ", ".join(sorted(missing))))
            if inc:
                exhaustive = False
                notes.append("%s: not exhausted: %s" % (r["h"], json.dumps(inc)[:1500]))
                print("INCOMPLETE property=%s harness=%s %s" % (pid, r["h"], json.dumps(inc)[:600]), flush=True)
                if not cov and not violations:
                    errors.append("harness %s never reached: %s" % (r["h"], ", ".join(sorted(missing))))
            runs_ev.append(dict(harness=r["h"], defines=defs, bounds=r.get("bounds", ""), wall_s=round(time.time() - t1, 1),
                                covered=sorted(cov), incomplete=inc, **{k: (round(v, 2) if isinstance(v, float) else v) for k, v in t.items()}))
    except build.BuildError as e:
        errors.append(str(e))
    finally:
        shutil.rmtree(work, ignore_errors=True)
    symf = sorted(k for k, v in fns.items() if v)
    allf = len(fns)
    ev = dict(property=pid, tier=tier, seed=seed, level="model_checking",
              coverage=dict(states=tot["paths"], transitions=tot["branches"], traces_validated_against_impl=validated,
                            samples=samples_ev[:8], exhaustive=exhaustive,
                            explanation="states: feasible path classes explored to the end, each standing for all inputs that satisfy its path condition; "
                                        "transitions: symbolic branch decisions; every feasibility and assertion decision is an SMT query over all values in the bounds",
                            queries=tot["queries"], queries_sat=tot["sat"], queries_unsat=tot["unsat"], queries_unknown=tot["unknown"],
                            queries_from_cache=tot["cache_hits"] + tot["model_hits"], solver_seconds=round(tot["solver_s"], 2),
                            instructions_executed=tot["instrs"], paths_dropped_by_assumptions=tot["assume_killed"],
                            functions_encoded=allf, functions_handling_symbolic_data=len(symf),
                            functions_sample=[f for f in symf if f.startswith("tiro")][:120], runs=runs_ev, notes=notes),
              assumptions=P.get("assumptions", []) + props.COMMON_ASSUMPTIONS, wall_s=round(time.time() - T0, 1), violations=len(violations))
    json.dump(ev, open(evf, "w"), indent=1)
    for e in errors:
        log("CHECK ERROR:", e)
    if violations:
        return 1
    if errors:
        return 2
    log("property", pid, "held on everything explored;", tot["paths"], "paths,", tot["queries"], "queries,", validated, "native replays,",
        "exhaustive within the stated bounds" if exhaustive else "NOT exhaustive (see INCOMPLETE)")
    return 0

sys.exit(main())
