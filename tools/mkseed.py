#!/usr/bin/env python3
"""mkseed.py DEF.py: writes seeded/<id>/ from a definition (id, prop, edits, parts, demo, needs, breaks), in a scratch worktree
checks that the demonstration fails with the change and passes without, and runs the property's check against the change."""
import json, os, shutil, subprocess, sys, time
V = "/verif"
BW, BB = "/tmp/bw", "/tmp/bb"
def sh(c, **k): return subprocess.run(c, capture_output=True, text=True, **k)
d = {}
exec(open(sys.argv[1]).read(), d)
if not os.path.exists(BW):
    sh(["git", "-C", "/repo", "worktree", "prune"]); print(sh(["git", "-C", "/repo", "worktree", "add", "--detach", BW, "HEAD"]).stderr[-300:])
head = sh(["git", "-C", "/repo", "rev-parse", "HEAD"]).stdout.strip()
sh(["git", "-C", BW, "checkout", "-f", "--detach", head]); sh(["git", "-C", BW, "checkout", "--", "."])
out = "%s/seeded/%s" % (V, d["id"])
os.makedirs(out, exist_ok=True)
for f, old, new in d["edits"]:
    p = BW + "/" + f
    s = open(p).read()
    assert s.count(old) == 1, (f, s.count(old), old)
    open(p, "w").write(s.replace(old, new))
open(out + "/patch.diff", "w").write(sh(["git", "-C", BW, "diff"]).stdout)
if "demo" in d:
    shutil.copytree(V + "/tools/seedkit/shim", out + "/shim", dirs_exist_ok=True)
    shutil.copy(V + "/tools/seedkit/kit.py", out); shutil.copy(V + "/tools/seedkit/demo.sh", out)
    open(out + "/demo.cpp", "w").write(d["demo"]); open(out + "/parts.txt", "w").write(d["parts"] + "\n")
json.dump({"property": d["prop"], "needs": d["needs"], "what_it_breaks": d["breaks"]}, open(out + "/meta.json", "w"), indent=1)
# Fortran archives of the unchanged tree for the demonstrations (they do not change here)
if not os.path.exists(BW + "/_build"): os.symlink("/repo/_build", BW + "/_build")
a = sh(["bash", out + "/demo.sh"], cwd="/repo"); print("unchanged:", a.returncode, a.stdout[-300:], a.stderr[-500:])
b = sh(["bash", out + "/demo.sh"], cwd=BW); print("changed:", b.returncode, b.stdout[-300:], b.stderr[-500:])
if "--nocheck" not in sys.argv:
    t = time.time()
    e = dict(os.environ, VERIF_REPO=BW, VERIF_BUILD=BB)
    for pid in [d["prop"]] + d.get("also", []):
        c = sh([sys.executable, V + "/check.py", pid], env=e); print("check %s: %d (%.0f s)" % (pid, c.returncode, time.time() - t)); print(c.stdout[-1500:])
sh(["git", "-C", BW, "checkout", "--", "."])
