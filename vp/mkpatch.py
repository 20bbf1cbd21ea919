"""mkpatch.py ID FILE OLD NEW [OLD NEW ...]: write seeded/ID/patch.diff replacing OLD (once) by NEW in /repo's FILE."""
import os, subprocess, sys, tempfile, shutil
i, f, *r = sys.argv[1:]
d = "/verif/seeded/" + i
os.makedirs(d, exist_ok=True)
out = ""
files = {}
cur = f
k = 0
args = r
while args:
    if args[0].startswith("@"):
        cur = args[0][1:]
        args = args[1:]
        continue
    old, new, *args = args
    t = files.setdefault(cur, open("/repo/" + cur).read())
    assert t.count(old) == 1, (t.count(old), old)
    files[cur] = t.replace(old, new)
for f, t in files.items():
    n = tempfile.NamedTemporaryFile("w", delete=False)
    n.write(t)
    n.close()
    p = subprocess.run(["diff", "-u", "--label", "a/" + f, "--label", "b/" + f, "/repo/" + f, n.name], stdout=subprocess.PIPE, text=True)
    out += "diff --git a/%s b/%s\n" % (f, f) + p.stdout
    os.unlink(n.name)
open(d + "/patch.diff", "w").write(out)
