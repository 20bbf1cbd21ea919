#!/usr/bin/env python3
"""Self-test of the library models: splits vp/zoo.src into one harness per line of the stateless groups and writes
harness/src/zoo.rs (not committed).  Then: vp/probe.sh 'h_zoo_.*' (symbolically), vp/zoo.py native (on the real code)."""
import re, sys, subprocess, json
sys.path.insert(0, "/verif/vp")
OUT = "/verif/harness/src/zoo.rs"
src = open("/verif/vp/zoo.src").read()
out, names = [], []
for part in re.split(r"(?m)^(?=pub fn )", src):
    m = re.match(r"pub fn (h_zoo_\w+)\(\) \{\n", part)
    if not m:
        out.append(part)
        continue
    g = m.group(1)
    body = part[m.end():].rstrip().rstrip("}").rstrip().split("\n")
    if g in ("h_zoo_vec", "h_zoo_map", "h_zoo_smut"):
        # stateful: cumulative, so that the first line not supported shows; keep whole
        out.append(part)
        names.append(g)
        continue
    pre, i = [], 0
    cur = []
    for l in body:
        cur.append(l)
        if re.match(r"    t\(.*\);$", l) and len(cur) == 1:
            n = "%s_%d" % (g, i)
            out.append("#[allow(unused)]\npub fn %s() {\n%s\n%s\n}\n" % (n, "\n".join(pre), l))
            names.append(n)
            i += 1
            cur = []
        elif re.match(r"    t\(.*\);$", l) or l in ("    }",) and i:
            n = "%s_%d" % (g, i)
            out.append("#[allow(unused)]\npub fn %s() {\n%s\n%s\n}\n" % (n, "\n".join(pre), "\n".join(cur)))
            names.append(n)
            i += 1
            cur = []
        elif i == 0 or l.startswith("    let "):
            pre += cur
            cur = []
open(OUT, "w").write("".join(out))
print(len(names), "harnesses")
if sys.argv[1:] == ["native"]:
    import build
    build.mirror()
    b = build.build_replay(["zoo"])
    for n in names:
        p = subprocess.run([b, n] + ["%s#0=%s" % kv for kv in (("a", 17), ("b", 5), ("c", 900))], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            print(n, p.returncode, p.stdout[-300:])
