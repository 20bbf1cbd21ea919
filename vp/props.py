"""The properties, in one place: writes properties.jsonl and MANIFEST.json (python3 vp/props.py)."""
import json, os, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import spec

SVC, STO, CL = "src/invariant_service.rs", "src/invariant_storage.rs", "calc/math/clamm.rs"
ALL = []


def p(id, title, statement, over, qtext, why, files, mech, observe=(), state=(), hook=None):
    assert len(title) <= 80, title
    ALL.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                    anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                                 state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                                 observe_at=list(observe), hook_needed=hook)))


HOOK = "cfg(verif) re-export of the service and storage modules (src/lib.rs)"
exec(open(os.path.join(HERE, "props_text.py")).read())


def main():
    v = os.path.dirname(HERE)
    with open(os.path.join(v, "properties.jsonl"), "w") as f:
        for x in ALL:
            f.write(json.dumps(x) + "\n")
    checks, na = [], []
    for x in ALL:
        i = x["id"]
        if i in spec.PROPS:
            P = spec.PROPS[i]
            checks.append(dict(property=i, quick_cmd="python3 check.py %s --tier quick" % i, thorough_cmd="python3 check.py %s --tier thorough" % i,
                               evidence_file="evidence/%s.json" % i,
                               technique="symbolic execution of the compiler's MIR of the real code; z3/cvc5 decide every assertion",
                               level=spec.LEVEL,
                               level_note="Bounds: %s. Trusts the MIR engine and its library models (vp/), the solvers' unsat answers, and the assumptions listed in the evidence; counterexamples are replayed on the compiled code." % P["bounds"]))
        else:
            na.append(dict(property=i, reason=NA.get(i, "no check yet: the harness for it is still to be written")))
    log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], stdout=subprocess.PIPE, text=True).stdout
    hooks = [l.split()[0] for l in log.splitlines() if "hook:" in l]
    json.dump(dict(version=1, setup_cmd="bash setup.sh", hooks=dict(guard="verif", enable='RUSTFLAGS="--cfg verif"', source_commits=hooks),
                   checks=checks, not_applicable=na,
                   notes="Solver-based checking: vp/engine.py executes rustc MIR of /repo symbolically; see DESIGN.md."),
              open(os.path.join(v, "MANIFEST.json"), "w"), indent=1)
    print(len(checks), "checks,", len(na), "not applicable")


main()
