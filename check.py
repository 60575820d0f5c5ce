#!/usr/bin/env python3
"""Decides one property: python3 check.py PROPERTY [--tier quick|thorough]

Compiles /repo's crate and the harnesses to LLVM IR, executes the harnesses of the property symbolically
(engine/), replays what the solver found and a sample of the explored paths natively (replay/), and
writes evidence/PROPERTY.json.  Exit 0: held on everything explored; 1: VIOLATION; 2: no answer."""
import concurrent.futures as cf, hashlib, json, os, random, re, shutil, subprocess, sys, time
from plan import PLAN, GENERIC, ALL_KINDS

V = os.path.dirname(os.path.abspath(__file__))
ENGINE = os.path.join(V, "engine/target/release/symx")
CORES = max(1, min(16, os.cpu_count() or 1))
# What a native run cannot show: reading memory that was never written, and so on.
UNOBSERVABLE = {"uninit", "ub", "unreachable"}


def fail(msg):
    print("ERROR: " + msg, flush=True)
    sys.exit(2)


def sh(cmd, timeout=600, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, **kw)


class Build:
    """The IR and the native build of one profile, made from the current sources, in a scratch folder."""
    def __init__(self, scratch):
        self.scratch, self.done = scratch, {}

    def get(self, what, profile):
        k = (what, profile)
        if k in self.done:
            return self.done[k]
        d = os.path.join(self.scratch, what + "-" + profile)
        script = {"ir": "build_ir.sh", "fmt": "build_ir_fmt.sh", "replay": "build_replay.sh"}[what]
        r = sh(["bash", os.path.join(V, script), d, "on" if profile == "debug" else "off"])
        if r.returncode != 0:
            fail("the harnesses do not build against /repo (%s):\n%s" % (script, r.stderr[-3000:]))
        if what != "replay":
            deps = os.path.join(d, "debug/deps" if what == "ir" else "x86_64-unknown-linux-gnu/debug/deps")
            out = sorted(os.path.join(deps, f) for f in os.listdir(deps) if f.endswith(".ll") and not f.startswith("compiler_builtins-"))
            if len(out) != (2 if what == "ir" else 4):
                fail("unexpected compiler output: %s" % out)
        else:
            out = os.path.join(d, "x86_64-unknown-linux-gnu/debug/replay")
        self.done[k] = out
        return out


def replay(binary, entry, params, inputs, sched, timeout=20):
    """(outcome, failures, log): passed, failed, assume, cannot, diverged, hang."""
    a = [binary, entry, ",".join(map(str, params)) or "-", ",".join(map(str, inputs)) or "-", ",".join("%d:%d" % tuple(x) for x in sched) or "-"]
    try:
        r = subprocess.run(a, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        return "hang", [], None
    out = r.stdout
    fails = [l[5:] for l in out.split("\n") if l.startswith("FAIL ")]
    lg = [l for l in out.split("\n") if l.startswith("LOG")]
    lg = [int(x) for x in lg[0].split()[1:]] if lg else None
    o = {0: "passed", 10: "failed", 20: "assume", 21: "cannot", 22: "diverged"}.get(r.returncode, "crash %d" % r.returncode)
    if "DIVERGED" in out and o == "passed":
        o = "diverged"
    return o, fails, lg


def same_log(want, got):
    return got is not None and len(want) == len(got) and all(w is None or w == g for w, g in zip(want, got))


def cross_check(text, sat):
    """A second solver's opinion on one query: True agrees, False disagrees, None none."""
    for solver in (["cvc5", "--lang", "smt2", "--tlimit=8000"], ["z3-new", "-in", "-T:8"]):
        try:
            r = subprocess.run(solver, input="(set-logic QF_BV)\n" + text + "\n(check-sat)\n", capture_output=True, text=True, timeout=12)
        except (subprocess.TimeoutExpired, FileNotFoundError):
            continue
        a = r.stdout.strip().split("\n")[0] if r.stdout else ""
        if a in ("sat", "unsat"):
            return (a == "sat") == bool(sat)
    return None


def known_findings():
    p = os.path.join(V, "known_findings.json")
    return json.load(open(p))["findings"] if os.path.exists(p) else []


def matches(f, prop, run, v):
    if f.get("status") != "known" or f["property"] != prop:
        return False
    m = f["match"]
    if not re.fullmatch(m["entry"], run["entry"]) or v["kind"] not in m["kinds"]:
        return False
    if "msg" in m and not re.fullmatch(m["msg"], v["msg"]):
        return False
    return all(run["params"][int(k)] == x for k, x in m.get("params", {}).items())


def main():
    t0 = time.time()
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    rng = random.Random(seed)
    spec = PLAN[prop]
    runs = spec["quick"] if tier == "quick" else spec.get("thorough", spec["quick"])
    budget = 700 if tier == "quick" else 6 * 3600
    os.environ["TMPDIR"] = "/tmp"
    if not os.path.exists(ENGINE):
        r = sh(["bash", os.path.join(V, "setup.sh")], timeout=1500)
        if r.returncode != 0:
            fail("the engine does not build:\n" + r.stderr[-2000:])
    scratch = os.path.join(V, "build", "%s-%d" % (prop, os.getpid()))
    os.makedirs(scratch, exist_ok=True)
    try:
        rc = decide(prop, spec, runs, tier, seed, rng, scratch, t0, budget)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(rc)


def decide(prop, spec, runs, tier, seed, rng, scratch, t0, budget):
    b = Build(scratch)
    found, known_hits, notes, unsettled = [], {}, [], []
    tot = dict.fromkeys(["paths", "infeasible", "steps", "forks", "scheds", "pruned", "stales", "merged", "asserts", "atomics", "queries", "solver_calls", "sat", "unsat", "unknown", "solver_us"], 0)
    funcs, incomplete, fatal, per_run, samples = set(), {}, {}, [], []
    xc = {"agree": 0, "disagree": 0, "no answer": 0}
    val = {"match": 0, "out of reach": 0, "mismatch": 0}
    kfs = known_findings()
    for run in runs:
        for profile in run["profiles"]:
            left = budget - (time.time() - t0)
            if left < 10:
                notes.append("not run for lack of time: %s (%s)" % (run["name"], profile))
                continue
            ir = b.get(run["ir"], profile)
            out = os.path.join(scratch, "out.json")
            cmd = [ENGINE, "run", "--entry", run["entry"], "--out", out, "--jobs", str(CORES), "--time", str(int(min(left, run["time"]))), "--preempt", str(run["preempt"]),
                   "--samples", str(run["samples"]), "--seed", str(seed), "--smt-every", str(run["smt_every"]), "--maxviol", "8"] + run["options"]
            for p in run["params"]:
                cmd += ["--param", str(p)]
            try:
                r = sh(cmd + ir, timeout=left + 60)
            except subprocess.TimeoutExpired:
                fail("%s: the symbolic executor does not finish" % run["name"])
            if r.returncode not in (0, 4) or not os.path.exists(out):
                fail("%s: the symbolic executor failed (%d):\n%s" % (run["name"], r.returncode, r.stderr[-2000:]))
            d = json.load(open(out))
            os.remove(out)
            if r.returncode == 4:
                incomplete["a worker ended early (%s)" % run["name"]] = incomplete.get("a worker ended early (%s)" % run["name"], 0) + 1
            covers, here = {}, dict.fromkeys(tot, 0)
            stopped = 0
            viols, smps, smt = [], [], []
            for p in d["parts"]:
                for k in tot:
                    tot[k] += p[k]
                    here[k] += p[k]
                for k, n in p["covers"].items():
                    covers[int(k)] = covers.get(int(k), 0) + n
                for m, n in p["incomplete"].items():
                    incomplete[m] = incomplete.get(m, 0) + n
                    stopped += n
                for m, n in p["fatal"].items():
                    fatal[m] = fatal.get(m, 0) + n
                    stopped += n
                funcs.update(p["functions"])
                viols += p["violations"]
                smps += p["samples"]
                smt += p["smt2"]
            # The verdicts of the first solver, checked by another.
            rng.shuffle(smt)
            with cf.ThreadPoolExecutor(CORES) as ex:
                for a in ex.map(lambda q: cross_check(*q), smt[:run["xcheck"]]):
                    xc["agree" if a else "no answer" if a is None else "disagree"] += 1
            # Sampled paths, executed natively against the real code.
            rng.shuffle(smps)
            smps = smps[:run["native"]]
            rb = b.get("replay", profile) if smps or viols else None
            with cf.ThreadPoolExecutor(CORES) as ex:
                res = list(ex.map(lambda s: replay(rb, run["entry"], run["params"], s["inputs"], s["sched"]), smps))
            nv = {"match": 0, "out of reach": 0, "mismatch": 0}
            for s, (o, f, lg) in zip(smps, res):
                if o == "cannot":
                    nv["out of reach"] += 1
                elif o == "passed" and same_log(s["log"], lg) or o == "failed" and viols:
                    nv["match"] += 1
                    if len(samples) < 12 and rng.random() < 0.3 or not samples:
                        samples.append({"run": run["name"], "profile": profile, "inputs": s["inputs"], "schedule": s["sched"], "observed": lg, "native": o})
                else:
                    nv["mismatch"] += 1
                    notes.append("native replay of a path differs: %s inputs %s schedule %s: %s %s, log %s instead of %s" % (run["name"], s["inputs"], s["sched"], o, f, lg, s["log"]))
            for k in nv:
                val[k] += nv[k]
            # Counterexamples: each must show on the real code.
            todo, per = [], {}
            for v in viols:
                k = (v["kind"], v["msg"])
                if v["kind"] not in spec.get("kinds", ALL_KINDS):
                    continue
                hit = next((f for f in kfs if matches(f, prop, run, v)), None)
                if hit:
                    per.setdefault(("known", hit["id"]), 0)
                    if hit["id"] in known_hits and known_hits[hit["id"]]["replayed"] or per[("known", hit["id"])] >= 4:
                        continue
                    per[("known", hit["id"])] += 1
                    todo.append((v, hit))
                elif per.get(k, 0) < 6:
                    per[k] = per.get(k, 0) + 1
                    todo.append((v, None))
            with cf.ThreadPoolExecutor(CORES) as ex:
                res = list(ex.map(lambda x: replay(rb, run["entry"], run["params"], x[0]["inputs"], x[0]["sched"]), todo))
            seen = set()
            for (v, hit), (o, f, lg) in zip(todo, res):
                kinds = {x.split(":")[0] for x in f}
                shown = o.startswith("crash") or o == "hang" and v["kind"] in ("deadlock", "hang") or o == "failed" and bool(kinds)
                if v["kind"] == "hang" and o == "failed":
                    shown = True
                if hit:
                    h = known_hits.setdefault(hit["id"], {"finding": hit, "replayed": False})
                    h["replayed"] = h["replayed"] or shown
                    continue
                k = (v["kind"], v["msg"])
                if k in seen:
                    continue
                if shown or v["kind"] in UNOBSERVABLE:
                    seen.add(k)
                    found.append({"property": prop, "run": run["name"], "entry": run["entry"], "profile": profile, "params": run["params"], "inputs": v["inputs"], "schedule": v["sched"],
                                  "kind": v["kind"], "message": v["msg"], "stack": v["stack"], "log": v["log"],
                                  "native": {"outcome": o, "failures": f} if shown else {"outcome": o, "failures": f, "note": "not observable natively"}})
                elif o == "cannot":
                    seen.add(k)
                    found.append({"property": prop, "run": run["name"], "entry": run["entry"], "profile": profile, "params": run["params"], "inputs": v["inputs"], "schedule": v["sched"],
                                  "kind": v["kind"], "message": v["msg"], "stack": v["stack"], "log": v["log"], "native": {"outcome": o, "note": "too large to execute"}})
                else:
                    unsettled.append("%s: %s: %s is not reproduced natively (%s %s; inputs %s schedule %s)" % (run["name"], v["kind"], v["msg"], o, f, v["inputs"], v["sched"]))
            missing = [c for c in run["covers"] if not covers.get(c)]
            per_run.append({"run": run["name"], "profile": profile, "entry": run["entry"], "params": run["params"], "bounds": run["bounds"], "wall_s": d["wall_s"], "paths": here["paths"], "steps": here["steps"],
                            "schedule_choices": here["scheds"], "assertions": here["asserts"], "queries": here["queries"], "solver_calls": here["solver_calls"], "solver_s": round(here["solver_us"] / 1e6, 3),
                            "complete": not stopped and r.returncode == 0, "reached": {str(k): n for k, n in sorted(covers.items()) if k < 1000000}, "validated": nv})
            late = stopped and not any(p["fatal"] for p in d["parts"]) and all(m == "time limit" for p in d["parts"] for m in p["incomplete"])
            if missing and late:
                notes.append("%s (%s): out of time before reaching %s" % (run["name"], profile, missing))
            elif missing and not any(x["run"] == run["name"] for x in found):
                unsettled.append("%s (%s): never reached %s%s" % (run["name"], profile, missing, "; " + str(list(incomplete)[:3] + list(fatal)[:3]) if stopped else ""))
            if found and tier == "quick":
                break
        if found and tier == "quick":
            break
    if xc["disagree"]:
        unsettled.append("%d queries are decided differently by a second solver" % xc["disagree"])
    if val["mismatch"] and not found:
        unsettled.append("%d explored paths behave differently natively" % val["mismatch"])
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": tot["paths"], "transitions": tot["steps"], "traces_validated_against_impl": val["match"], "samples": samples or [{"run": r["run"], "params": r["params"]} for r in per_run[:1]],
            "explanation": "states are symbolic paths, each decided for every value of its inputs; transitions are executed IR instructions; validated traces are sampled paths re-run natively with the same observations.",
            "branches_both_ways": tot["forks"], "schedule_choices": tot["scheds"], "equivalent_schedules_left_out": tot["pruned"], "equal_states_merged": tot["merged"], "stale_reads": tot["stales"], "atomic_operations": tot["atomics"], "assertions_decided": tot["asserts"], "infeasible": tot["infeasible"],
            "queries": tot["queries"], "solver_calls": tot["solver_calls"], "sat": tot["sat"], "unsat": tot["unsat"], "unknown": tot["unknown"], "solver_s": round(tot["solver_us"] / 1e6, 3),
            "cross_checked_queries": xc, "native_validation": val, "runs": per_run, "incomplete": incomplete, "unsupported": fatal,
            "functions_encoded": sorted(x for x in (demangle(f) for f in funcs) if "rc_slice" in x), "functions_total": len(funcs), "exhaustive": not incomplete and not fatal and not notes,
        },
        "assumptions": spec["assumptions"], "wall_s": round(time.time() - t0, 3), "violations": len(found), "notes": notes + unsettled,
        "known_findings": [h["finding"]["id"] for h in known_hits.values()],
    }
    with open(os.path.join(V, "evidence", prop + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1)
    for h in known_hits.values():
        if not h["replayed"]:
            unsettled.append("known finding %s is not reproduced natively" % h["finding"]["id"])
        print("KNOWN-FINDING: property=%s %s" % (prop, h["finding"]["what"]), flush=True)
    for m, n in list(incomplete.items()) + list(fatal.items()):
        print("NOTE: not explored: %s (%d)" % (m, n), flush=True)
    for m in notes[:5]:
        print("NOTE: " + m, flush=True)
    if found:
        os.makedirs(os.path.join(V, "replays"), exist_ok=True)
        for f in found:
            h = hashlib.sha1(json.dumps([f[k] for k in ("run", "profile", "inputs", "schedule", "kind", "message")]).encode()).hexdigest()[:10]
            path = os.path.join(V, "replays", "%s-%s.json" % (prop, h))
            f["how"] = "bash %s/replay.sh %s" % (V, path)
            with open(path, "w") as fh:
                json.dump(f, fh, indent=1)
            print("%s: %s in %s, inputs %s%s; on the real code: %s %s" % (f["kind"], f["message"], f["run"], f["inputs"], ", schedule %s" % f["schedule"] if f["schedule"] else "", f["native"]["outcome"], "; ".join(f["native"].get("failures", []))), flush=True)
            print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)
        return 1
    if unsettled:
        for m in unsettled[:10]:
            print("ERROR: " + m, flush=True)
        return 2
    print("%s held: %d paths, %d queries (%d solver calls, %.1f s), %d paths validated natively, %.1f s" % (prop, tot["paths"], tot["queries"], tot["solver_calls"], tot["solver_us"] / 1e6, val["match"], time.time() - t0))
    return 0


def demangle(n):
    """Readable enough: the identifiers of a v0-mangled name."""
    if not n.startswith("_R"):
        return n
    out, i = [], 2
    while i < len(n):
        if n[i].isdigit() and n[i] != "0":
            j = i
            while j < len(n) and n[j].isdigit():
                j += 1
            k = int(n[i:j])
            if j < len(n) and n[j] == "_":
                j += 1
            if j + k <= len(n) and re.fullmatch(r"[A-Za-z_][A-Za-z0-9_]*", n[j:j + k] or "-"):
                out.append(n[j:j + k])
                i = j + k
                continue
        i += 1
    return "::".join(out)


if __name__ == "__main__":
    main()
