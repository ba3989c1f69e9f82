"""Which checks notice the planted bugs?   python3 tools/seeded.py [--all] [id ...]
Runs, for every seeded bug, its property's quick check (--all: every check) against a scratch copy with the patch."""
import glob
import json
import os
import shutil
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [a for a in sys.argv[1:] if not a.startswith("--")]
everything = "--all" in sys.argv
base = tempfile.mkdtemp(prefix="seeded")
shutil.copytree(V, base + "/verif", ignore=shutil.ignore_patterns(".git", "out", "seeded", "evidence"))
try:
    for d in sorted(glob.glob(os.environ.get("SEEDS", V + "/seeded") + "/*/")):
        sid = os.path.basename(d[:-1])
        if ids and sid not in ids:
            continue
        prop = json.load(open(d + "meta.json"))["property"]
        shutil.rmtree(base + "/repo", ignore_errors=True)
        shutil.copytree("/repo", base + "/repo", ignore=shutil.ignore_patterns(".git"))
        r = subprocess.run(["git", "apply", d + "patch.diff"], cwd=base + "/repo", capture_output=True, text=True)
        if r.returncode:
            print(sid, "PATCH DOES NOT APPLY", r.stderr[:200])
            continue
        env = dict(os.environ, VERIF_REPO=base + "/repo", VERIF_FAILFAST="1", VERIF_SEED="1")
        hit = []
        for c in [c["property"] for c in json.load(open(V + "/MANIFEST.json"))["checks"]] if everything else [prop]:
            o = subprocess.run([base + "/verif/check.sh", c, "quick"], env=env, capture_output=True, text=True)
            if o.returncode:
                hit.append("%s:%d" % (c, o.returncode))
        print("%-28s %s %-8s %s" % (sid, prop, "caught" if prop + ":1" in hit else "MISSED", " ".join(hit)), flush=True)
finally:
    shutil.rmtree(base, ignore_errors=True)
