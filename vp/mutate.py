#!/usr/bin/env python3
"""mutate.py gen FILE... > list.jsonl      small changes of the repository's non-test code, one per line
   mutate.py base OUT                      which functions each harness runs (on the unchanged tree)
   mutate.py run LIST BASE OUT [K N]       try them (part K of N) against the harnesses that run the changed function
Development tool: measures what the checks notice; no check uses it."""
import json, os, random, re, subprocess, sys, time, glob, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/vp")
SWAP = [(" < ", " <= "), (" <= ", " < "), (" > ", " >= "), (" >= ", " > "), (" == ", " != "), (" != ", " == "), (" && ", " || "), (" || ", " && "),
        (" + ", " - "), (" - ", " + "), ("+= ", "-= "), ("-= ", "+= "), ("true", "false"), ("false", "true"), ("if !", "if "), ("_up(", "("),
        ("checked_add", "checked_sub"), ("checked_sub", "checked_add"), ("unchecked_sub", "unchecked_add"), ("unchecked_add", "unchecked_sub"),
        ("big_mul(", "big_mul_up("), ("big_div(", "big_div_up("), ("_x", "_y"), ("_y", "_x"), ("lower", "upper"), ("upper", "lower"),
        (".is_some()", ".is_none()"), (".is_none()", ".is_some()"), (".is_ok()", ".is_err()"), ("amount_in", "amount_out"), ("amount_out", "amount_in"),
        (".min(", ".max("), (".max(", ".min("), ("MIN_", "MAX_"), ("MAX_", "MIN_"), ("liquidity_gross", "liquidity_change"), ("liquidity_change", "liquidity_gross"),
        ("1", "2"), ("0)", "1)"), ("..=", ".."), ("Deposit", "Withdrawal"), ("x_to_y", "!x_to_y"), (" ^ ", " & "), ("<< ", ">> "), ("* ", "/ "), ("wrapping_sub", "wrapping_add"),
        (".0 ==", ".1 =="), ("token_x", "token_y"), ("from,", "to,"), ("as i32", "as i32 + 1"), ("if ", "if !")]


def lines(f):
    t = open("/repo/" + f).read().split("\n")
    out, fn = [], None
    for i, l in enumerate(t):
        if re.match(r"\s*#\[cfg\(test\)\]", l) and i + 1 < len(t) and re.match(r"\s*mod ", t[i + 1]):
            break
        m = re.search(r"\bfn (\w+)", l)
        if m:
            fn = m.group(1)
            sig = True
        if fn and not re.match(r"\s*(//|#\[|use |pub use |fn |pub fn |async fn |pub async fn)", l):
            out.append((i, l, fn))
    return t, out


def gen(files):
    for f in files:
        t, ls = lines(f)
        seen = set()
        for i, l, fn in ls:
            def put(n, why):
                if n != l and (i, n) not in seen:
                    seen.add((i, n))
                    print(json.dumps(dict(file=f, line=i, fn=fn, old=l, new=n, op=why)))
            if "err!" in l or "debug!" in l or l.strip() in ("", "{", "}", "}:", "})", "});"):
                continue
            for a, b in SWAP:
                for m in re.finditer(re.escape(a), l):
                    if a == "1" and not re.match(r"(?<![\w.])1(?![\w.])", l[m.start():]) or a == "1" and m.start() and re.match(r"[\w.]", l[m.start() - 1]):
                        continue
                    if a in ("_x", "_y") and re.match(r"\w", l[m.end():m.end() + 1]):
                        continue
                    if a in ("true", "false", "x_to_y") and m.start() and re.match(r"\w", l[m.start() - 1]):
                        continue
                    if a == "x_to_y" and re.match(r"\s*[:,]|\s*=>", l[m.end():]) and "(" not in l[:m.start()]:
                        pass
                    put(l[:m.start()] + b + l[m.end():], "%s -> %s" % (a.strip(), b.strip()))
            if re.match(r"\s*[\w.*\[\]]+(\([^)]*\))?(\.\w+\(.*\))*\??;$", l) or re.match(r"\s*[\w.*]+ [-+]?= .*;$", l) or re.match(r"\s*(self|invariant)\.[\w.]+\(.*;$", l):
                put(re.match(r"\s*", l).group() + "{}", "drop statement")


def prep(d):
    os.makedirs(d, exist_ok=True)
    subprocess.run(["rsync", "-a", "--delete", "--exclude", "target", "--exclude", ".git", "--exclude", "node_modules", "/repo/", d + "/repo/"], check=True)


def export(d):
    out = d + "/mir.json"
    p = subprocess.run([sys.executable, "-c", "import sys; sys.path.insert(0,'%s/vp')\nimport build\nbuild.mirror(); build.export(['*'],'%s')" % (V, out)],
                       env=dict(os.environ, VP_REPO=d + "/repo", VP_BUILD=d + "/b"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode == 0, out, p.stdout


def all_roots():
    import spec
    r = []
    for p, P in spec.PROPS.items():
        for x in P["roots"]:
            if x not in r:
                r.append(x)
    return r


def run_some(d, mir, roots, T, jobs, first=True):
    """yield results; stop the rest once one is not ok when first"""
    pend, live, res = list(roots), [], []
    while pend or live:
        while pend and len(live) < jobs:
            r = pend.pop(0)
            f = "%s/out-%s.json" % (d, r)
            if os.path.exists(f):
                os.unlink(f)
            live.append((r, f, subprocess.Popen(["python3-vt", V + "/vp/worker.py", mir, r, json.dumps({"time": T, "nl_s": 30}), f], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)))
        time.sleep(.05)
        for x in list(live):
            if x[2].poll() is None:
                continue
            live.remove(x)
            try:
                y = json.load(open(x[1]))
            except Exception:
                y = {"root": x[0], "status": "error", "why": "died"}
            res.append(y)
            if first and (y["status"] == "violation"):
                for z in live:
                    z[2].kill()
                    z[2].wait()
                return res
    return res


def main():
    if sys.argv[1] == "gen":
        return gen(sys.argv[2:])
    if sys.argv[1] == "base":
        d = "/tmp/mut/base"
        prep(d)
        ok, mir, tx = export(d)
        assert ok, tx
        rx = sys.argv[3] if len(sys.argv) > 3 else ".*"
        res = run_some(d, mir, [r for r in all_roots() if re.fullmatch(rx, r)], 400, int(os.environ.get("J", "8")), first=False)
        w = {r["root"]: r.get("witness", {}) for r in res if r.get("witness")}
        if rx != ".*":
            w = {**json.load(open(V + "/witness.json")), **w}
        json.dump(dict(sorted(w.items())), open(V + "/witness.json", "w"), indent=0)
        json.dump({r["root"]: dict(t=r.get("wall_s", 999), fns=r.get("functions", []), status=r["status"], reached=r.get("reached", [])) for r in res}, open(sys.argv[2], "w"))
        return
    lst, base, out = sys.argv[2:5]
    k, n = (int(sys.argv[5]), int(sys.argv[6])) if len(sys.argv) > 6 else (0, 1)
    jobs = int(os.environ.get("J", "3"))
    base = json.load(open(base))
    d = "/tmp/mut/w%d" % k
    prep(d)
    done = {(x["file"], x["line"], x["new"]) for x in map(json.loads, open(out))} if os.path.exists(out) else set()
    for i, m in enumerate(map(json.loads, open(lst))):
        if i % n != k or (m["file"], m["line"], m["new"]) in done:
            continue
        p = d + "/repo/" + m["file"]
        src = open("/repo/" + m["file"]).read()
        t = src.split("\n")
        assert t[m["line"]] == m["old"]
        t[m["line"]] = m["new"]
        open(p, "w").write("\n".join(t))
        t0 = time.time()
        ok, mir, tx = export(d)
        crate = {"sdk": "invariant_sdk"}
        if not ok:
            m["result"] = "no build"
        else:
            sdk = m["file"].startswith("sdk/")
            rx = re.compile(r"(^|::|>::)%s(::|$)" % re.escape(m["fn"]))
            roots = sorted((r for r, b in base.items() if any(rx.search(f) and (("sdk" in f or "wasm" in f or not sdk) if sdk else True) for f in b["fns"])), key=lambda r: base[r]["t"])
            m["roots"] = len(roots)
            res = run_some(d, mir, roots, max(60, 0) if os.environ.get("FAST") else 200, jobs)
            bad = [r for r in res if r["status"] == "violation"]
            und = [r for r in res if r["status"] not in ("ok", "violation")]
            unr = [r for r in res if r["status"] == "ok" and set(base[r["root"]]["reached"]) - set(r.get("reached", []))]
            m["result"] = "killed" if bad else "unreached" if unr else "undecided" if und else "survived" if roots else "not run"
            m["by"] = [(r["root"], r.get("label") or str(r.get("why"))[:150] or str(set(base[r["root"]]["reached"]) - set(r.get("reached", [])))) for r in (bad or unr or und)][:3]
        m["s"] = round(time.time() - t0, 1)
        open(p, "w").write(src)
        with open(out, "a") as g:
            g.write(json.dumps(m) + "\n")


main()
