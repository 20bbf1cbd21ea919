"""Run one harness function symbolically; write what happened as JSON."""
import json, os, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(100000)
import drive


def main():
    data, root, opts, out = sys.argv[1], sys.argv[2], json.loads(sys.argv[3]), sys.argv[4]
    d = json.load(open(data))
    r = {"root": root, "status": "ok"}
    t0 = time.time()
    e = None
    try:
        if root not in d["roots"]:
            raise drive.Unsup("harness function not exported: " + root)
        e = drive.Drive(d, opts)
        e.run(root)
        r["unreached"] = e.finish_reach()
    except drive.Violation as v:
        r.update(status="violation", label=v.label, inputs=e.inputs(v.asg), where=v.where)
    except drive.Inconclusive as x:
        r.update(status="undecided", why=str(x))
    except drive.Unsup as x:
        r.update(status="unsupported", why=str(x))
    except Exception:
        r.update(status="error", why=traceback.format_exc()[-1500:])
    r["wall_s"] = round(time.time() - t0, 2)
    if e is not None:
        s = e.ctx.stats
        r.update(paths=e.paths, stats={k: v for k, v in s.items() if isinstance(v, (int, float))}, reached=[k for k, v in e.reached.items() if v and k != "<end>"],
                 checks=e.checks, witness=e.witness, steps=e.total_steps, cut=e.cut,
                 functions=sorted({e.fns[i]["def"] for i in e.called}))
    json.dump(r, open(out, "w"))


main()
