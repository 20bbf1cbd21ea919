import sys, json, time
sys.path.insert(0, "/verif/vp")
import drive
def main():
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("root"); ap.add_argument("-j", default="/verif/.build/probe.json")
    ap.add_argument("-c", nargs="*"); ap.add_argument("-f", action="store_true"); ap.add_argument("-t", type=int, default=1)
    ap.add_argument("-o", nargs="*", default=[])
    a = ap.parse_args()
    d = json.load(open(a.j))
    o = {"forks": a.f, "trace": a.t}
    for x in a.o:
        k, v = x.split("=", 1); o[k] = float(v) if v.replace(".", "").isdigit() else v
    e = drive.Drive(d, o)
    if a.c is not None:
        e.concrete = dict(x.split("=") for x in a.c)
    t = time.time()
    try:
        e.run(a.root)
    except drive.Violation as v:
        print("VIOLATION", v.label, e.inputs(v.asg), v.where)
    except (drive.Inconclusive, drive.Unsup) as x:
        print(type(x).__name__, x)
    print("paths", e.paths, "time %.1f" % (time.time() - t), e.ctx.stats, "reach", e.reached)
    for k, c in e.checks.items(): print("  ", k, c)
main()
