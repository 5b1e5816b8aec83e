"""Helper to confirm a planted bug in a scratch copy of /repo and to store it under /verif/seeded.

usage: plant.py SPEC.py [ID...]   where SPEC.py defines BUGS = [dict(id, property, file, subs, demo, needs, breaks)]
Nothing that checks run imports this.
"""
import json, os, runpy, shutil, subprocess, sys, pathlib

ROOT = pathlib.Path(__file__).resolve().parent.parent
PY = "/opt/venv/bin/python"
DEMO = '#!/bin/bash\n# run with cwd = the repository\nset -e\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'


def sh(*a, **k):
    return subprocess.run(a, capture_output=True, text=True, **k)


def main():
    spec = runpy.run_path(sys.argv[1])
    only = set(sys.argv[2:])
    base = json.load(open("/opt/vp/BASELINE.json"))
    for b in spec["BUGS"]:
        if only and b["id"] not in only:
            continue
        scratch = f"/tmp/plant_{b['id']}"
        shutil.rmtree(scratch, ignore_errors=True)
        shutil.copytree("/repo", scratch, symlinks=True)
        try:
            files = b["file"] if isinstance(b["file"], list) else [b["file"]] * len(b["subs"])
            for f, (old, new) in zip(files, b["subs"]):
                p = pathlib.Path(scratch) / "pyirf" / f
                s = p.read_text()
                assert s.count(old) == 1, (b["id"], s.count(old), old)
                p.write_text(s.replace(old, new))
            diff = sh("git", "-C", scratch, "diff").stdout
            out = ROOT / "seeded" / b["id"]
            tmp = pathlib.Path(f"/tmp/plantdemo_{b['id']}")
            shutil.rmtree(tmp, ignore_errors=True)
            tmp.mkdir()
            (tmp / "demo.sh").write_text(DEMO)
            (tmp / "demo.py").write_text(b["demo"].lstrip("\n"))
            good = sh("bash", str(tmp / "demo.sh"), cwd="/repo")
            bad = sh("bash", str(tmp / "demo.sh"), cwd=scratch)
            t = sh(PY, "-m", "pytest", "-q", "-x", "--deselect", "pyirf/tests/test_nothing", "-p", "no:cacheprovider",
                   "-n", "0", "pyirf", cwd=scratch, env={**os.environ, "PYTHONPATH": scratch}) if False else None
            t = sh(PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "pyirf", cwd=scratch,
                   env={**os.environ, "PYTHONPATH": scratch, "PYTHONDONTWRITEBYTECODE": "1"})
            failed = [l for l in t.stdout.splitlines() if l.startswith("FAILED")]
            last = t.stdout.strip().splitlines()[-1] if t.stdout.strip() else t.stderr[-300:]
            ok = good.returncode == 0 and bad.returncode != 0 and not failed and "passed" in last
            print(b["id"], "OK" if ok else "BAD", "good", good.returncode, "bad", bad.returncode, last, failed[:3])
            if good.returncode:
                print(good.stderr[-600:])
            if bad.returncode:
                print("   ", bad.stderr.strip().splitlines()[-1][:160] if bad.stderr.strip() else "")
            if ok:
                shutil.rmtree(out, ignore_errors=True)
                shutil.copytree(tmp, out)
                (out / "patch.diff").write_text(diff)
                (out / "meta.json").write_text(json.dumps(
                    {"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, indent=1) + "\n")
            shutil.rmtree(tmp)
        finally:
            shutil.rmtree(scratch)


main()
