#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]   decide one property (see DESIGN.md)
   check.py --replay FILE                       run a recorded counterexample against the real code"""
import json, os, re, subprocess, sys, threading, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "vp"))
import build, spec

JOBS = int(os.environ.get("VP_JOBS", "8"))


def replay(binary, root, inputs):
    """-> (kind, text): what the real code does on these inputs"""
    p = subprocess.run([binary, root] + ["%s=%s" % kv for kv in sorted(inputs.items())], stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True, timeout=120, errors="replace")
    kind = {0: "done", 42: "check failed", 77: "assume false", 101: "panic"}.get(p.returncode, "died (%d)" % p.returncode)
    return kind, p.stdout.strip()[-2000:]


def main():
    if sys.argv[1] == "--replay":
        r = json.load(open(sys.argv[2]))
        build.mirror()
        b = build.build_replay(build.modules_of([r["harness"]]))
        k, t = replay(b, r["harness"], r["inputs"])
        print(t)
        print("->", k)
        if "unreached" in r:
            return 0 if "REACHED " + r["unreached"] in t else 1
        return 1 if k in ("check failed", "panic") else 0
    prop = sys.argv[1]
    tier = sys.argv[sys.argv.index("--tier") + 1] if "--tier" in sys.argv else os.environ.get("VERIF_TIER", "quick")
    P = spec.PROPS[prop]
    t0 = time.time()
    roots = list(P["roots"]) + (list(P.get("deep", [])) if tier == "thorough" else [])
    roots = [(r, {}) if isinstance(r, str) else r for r in roots]
    findings = [f for f in json.load(open(os.path.join(HERE, "known_findings.json")))["findings"]
                if f["property"] == prop and f["status"] == "open"]
    names = [r for r, _ in roots] + [f["demo"] for f in findings if f["demo"] not in [r for r, _ in roots]]
    with build.Lock():
        build.mirror()
        mods = build.modules_of(names)
        nat = {}

        def native():
            try:
                nat["bin"] = build.build_replay(mods)
            except Exception as e:
                nat["err"] = str(e)
        th = threading.Thread(target=native)
        th.start()
        data = os.path.join(build.B, "mir-%s.json" % prop)
        build.export(names, data, modules=mods)
    t_build = time.time() - t0
    res = run_roots(prop, roots, data, tier, t0)
    th.join()
    t_solve = time.time() - t0 - t_build
    if "err" in nat:
        print("ERROR native build failed: " + nat["err"])
        return 2
    rc = 0
    known = json.load(open(os.path.join(HERE, "witness.json")))
    violations = 0
    samples, validated = [], 0
    undecided = []
    for r in res:
        for lab, w in sorted(r.get("witness", {}).items())[:4]:
            if P.get("native", True):
                k, txt = replay(nat["bin"], r["root"], w)
                if ("REACHED " + lab) not in txt:
                    print("NOTE the real code does not follow the engine's path to '%s' of %s: %s %s" % (lab, r["root"], k, txt[-300:]))
                    undecided.append({"harness": r["root"], "why": "a model of '%s' does not replay on the compiled code" % lab})
                else:
                    validated += 1
            if len(samples) < 6:
                samples.append({"harness": r["root"], "reaches": lab, "inputs": w})
    for r in res:
        st = r["status"]
        if st == "violation":
            path = os.path.join(HERE, "evidence", "replay-%s-%s.json" % (prop, r["root"]))
            k, txt = replay(nat["bin"], r["root"], r["inputs"])
            json.dump({"property": prop, "harness": r["root"], "assertion": r["label"], "at": r["where"], "inputs": r["inputs"],
                       "real code": {"outcome": k, "output": txt}, "run": "python3 check.py --replay <this file>"}, open(path, "w"), indent=1)
            if k in ("check failed", "panic") or k.startswith("died"):
                print("counterexample of %s: %s  %s" % (r["root"], r["label"], json.dumps(r["inputs"])))
                print("  real code: %s: %s" % (k, txt.splitlines()[-1] if txt else ""))
                print("VIOLATION property=%s replay=%s" % (prop, path))
                violations += 1
                rc = 1
            else:
                print("UNDECIDED %s: a counterexample to '%s' does not replay on the real code (%s): %s" % (r["root"], r["label"], k, json.dumps(r["inputs"])))
                undecided.append({"harness": r["root"], "why": "spurious counterexample: " + r["label"]})
        elif st == "ok":
            # A point no input was found to reach: the recorded input that reaches it on the committed tree is run on the
            # real code.  If it gets there, nothing is vacuous.  If not, what the property is about cannot happen any more.
            for lab, w in sorted(known.get(r["root"], {}).items()):
                if lab in r.get("reached", []):
                    continue
                k, txt = replay(nat["bin"], r["root"], w)
                if "REACHED " + lab in txt or lab in r.get("unreached", []):
                    print("NOTE no model of '%s' of %s found; the recorded input %s it" % (lab, r["root"], "reaches" if "REACHED " + lab in txt else "no longer reaches"))
                    continue
                path = os.path.join(HERE, "evidence", "replay-%s-%s.json" % (prop, r["root"]))
                json.dump({"property": prop, "harness": r["root"], "assertion": "some input reaches: " + lab, "inputs": w, "unreached": lab,
                           "real code": {"outcome": k, "output": txt}, "run": "python3 check.py --replay <this file>"}, open(path, "w"), indent=1)
                print("counterexample of %s: no input reaches '%s'; the real code on one that should: %s %s" % (r["root"], lab, k, json.dumps(w)))
                print("VIOLATION property=%s replay=%s" % (prop, path))
                violations += 1
                rc = 1
        else:
            print("UNDECIDED %s: %s: %s" % (r["root"], st, r.get("why", "")))
            undecided.append({"harness": r["root"], "why": st + ": " + r.get("why", "")[:400]})
    # What could not be decided is reported above and in the evidence (exhaustive: false). It is no violation; it is
    # an error of the check when nothing at all was decided, or when VP_STRICT asks for every obligation.
    if undecided and rc == 0 and (os.environ.get("VP_STRICT") or len({u["harness"] for u in undecided}) == len(res)):
        rc = 2
    for f in findings:
        k, txt = replay(nat["bin"], f["demo"], f.get("inputs", {}))
        if k in ("check failed", "panic"):
            print("KNOWN-FINDING: property=%s %s" % (prop, f["what"]))
    ob = {"n": 0, "triv": 0, "lin": 0, "nl": 0}
    for r in res:
        for c in r.get("checks", {}).values():
            for key, v in zip(("n", "triv", "lin", "nl"), c):
                ob[key] += v
    fns = sorted({f for r in res for f in r.get("functions", [])})
    fns = [f for f in fns if f.lstrip("<").split("::")[0].split(" ")[0] not in ("vk", "core", "alloc", "kit", "maps") and not re.match(r"<?[mskt]\w?_\w+::", f)]
    ev = {
        "property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": spec.LEVEL,
        "coverage": {
            "states": sum(r.get("paths", 0) for r in res),
            "transitions": sum(r.get("steps", 0) for r in res),
            "traces_validated_against_impl": validated,
            "samples": samples,
            "what": "states: symbolic paths explored to their end; transitions: MIR steps executed symbolically; "
                    "traces_validated_against_impl: solver models of reached points replayed on the compiled code",
            "obligations": ob["n"], "discharged": ob["triv"] + ob["lin"] + ob["nl"],
            "discharged_by": {"path facts and intervals": ob["triv"], "linear integer arithmetic (z3)": ob["lin"],
                              "nonlinear integer arithmetic (z3/cvc5)": ob["nl"]},
            "queries": sum(int(r.get("stats", {}).get("feas", 0) + r.get("stats", {}).get("goals", 0) + r.get("stats", {}).get("nlq", 0)) for r in res),
            "solver_s": round(sum(r.get("stats", {}).get("feas_t", 0) + r.get("stats", {}).get("goal_t", 0) for r in res), 2),
            "functions_encoded": fns,
            "bounds": P["bounds"],
            "harnesses": [{k: r.get(k) for k in ("root", "status", "paths", "wall_s", "reached", "checks")} for r in res],
            "undecided": undecided,
            "build_s": round(t_build, 1), "explore_s": round(t_solve, 1),
            "exhaustive": not undecided and violations == 0,
        },
        "assumptions": spec.ASSUME + P.get("assume", []),
        "wall_s": round(time.time() - t0, 1), "violations": violations,
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1)
    c = ev["coverage"]
    print("%s %s%s: %d harnesses, %d paths, %d obligations (%d discharged), %d functions, %d models replayed, %.1f s (build %.1f)" % (
        prop, {0: "holds", 1: "VIOLATED", 2: "ERROR"}[rc], " on what was decided (%d undecided)" % len(undecided) if undecided else "", len(res), c["states"], c["obligations"], c["discharged"], len(fns), validated, ev["wall_s"], t_build))
    if os.path.exists(data):
        os.unlink(data)
    return rc


def run_roots(prop, roots, data, tier, t0):
    pend = list(enumerate(roots))
    live, out = [], [None] * len(roots)
    stop = False
    end = t0 + (760 if tier == "quick" else 6 * 3600)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(build.B, "out"), exist_ok=True)
    while pend or live:
        while pend and len(live) < JOBS:
            i, (r, o) = pend.pop(0)
            o = dict({"time": 600 if tier == "quick" else 5 * 3600, "nl_s": 60 if tier == "quick" else 600}, **o)
            o["time"] = max(5, min(o["time"], end - time.time()))
            f = os.path.join(build.B, "out", "%s-%s.json" % (prop, r))
            if os.path.exists(f):
                os.unlink(f)
            p = subprocess.Popen(["python3-vt", os.path.join(HERE, "vp", "worker.py"), data, r, json.dumps(o), f],
                                 stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            live.append((i, r, p, f, time.time()))
        time.sleep(0.1)
        for x in list(live):
            i, r, p, f, t = x
            if p.poll() is None:
                if time.time() > end + 40:
                    p.kill()
                continue
            live.remove(x)
            txt = p.stdout.read()
            if os.path.exists(f):
                out[i] = json.load(open(f))
                os.unlink(f)
            else:
                out[i] = {"root": r, "status": "error", "why": "worker ended (%s): %s" % (p.returncode, txt[-800:])}
    return out


if __name__ == "__main__":
    try:
        sys.exit(main())
    except Exception:
        traceback.print_exc()
        print("ERROR the check could not run")
        sys.exit(2)
