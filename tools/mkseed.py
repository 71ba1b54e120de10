#!/usr/bin/env python3
"""tools/mkseed.py FILE.py...: FILE defines ID, PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO; writes seeded/ID/."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for f in sys.argv[1:]:
    g = {}
    exec(open(f).read(), g)
    d = f"{V}/seeded/{g['ID']}"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    t = tempfile.mkdtemp()
    subprocess.check_call(["git", "-C", "/repo", "worktree", "add", "-q", "--detach", f"{t}/w"])
    try:
        for name, old, new in g["EDITS"]:
            s = open(f"{t}/w/{name}").read()
            assert s.count(old) == 1, (f, name, s.count(old))
            open(f"{t}/w/{name}", "w").write(s.replace(old, new))
        open(f"{d}/patch.diff", "w").write(subprocess.check_output(["git", "-C", f"{t}/w", "diff"], text=True))
    finally:
        subprocess.call(["git", "-C", "/repo", "worktree", "remove", "--force", f"{t}/w"])
        shutil.rmtree(t)
    open(f"{d}/demo.rs", "w").write(g["DEMO"].lstrip())
    for n in ("demo.sh", "Cargo.lock.demo"):
        shutil.copy(f"{V}/tools/seedlib/{n}", f"{d}/{n}")
    os.chmod(f"{d}/demo.sh", 0o755)
    shutil.copytree(f"{V}/tools/seedlib/integeriser", f"{d}/integeriser")
    if g.get("PUBLISH"):
        open(f"{d}/publish.sed", "w").write(g["PUBLISH"])
    json.dump({"property": g["PROPERTY"], "needs": g["NEEDS"], "what_it_breaks": g["BREAKS"]}, open(f"{d}/meta.json", "w"), indent=1)
