#!/usr/bin/env python3
"""Development aid: trial.py [bug...] runs the check of the property each planted bug is about on a
copy of the repository with the bug."""
import json, os, shutil, subprocess, sys, tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

for bug in sys.argv[1:] or sorted(os.listdir(os.path.join(HERE, "seeded"))):
    d = os.path.join(HERE, "seeded", bug)
    prop = json.load(open(os.path.join(d, "meta.json")))["property"]
    scratch = tempfile.mkdtemp(prefix="verif-trial-")
    tree = os.path.join(scratch, "repo")
    shutil.copytree("/repo", tree, symlinks=True)
    subprocess.run(["git", "-C", tree, "apply", os.path.join(d, "patch.diff")], check=True)
    r = subprocess.run([sys.executable, os.path.join(HERE, "check.py"), prop], capture_output=True, text=True,
                       env=dict(os.environ, VERIF_REPO=tree))
    print("%-32s %s exit %d %s" % (bug, prop, r.returncode, r.stdout.strip().split("\n")[-1][:110]), flush=True)
    shutil.rmtree(scratch)
