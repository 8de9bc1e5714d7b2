#!/opt/venv/bin/python -B
"""quiet.py [ID...] [--props=C01,C02]: the checks must stay quiet on edits that keep the behaviour.

Each /verif/quiet/<id>.diff is such an edit.  It is applied in a scratch copy of /repo, the stable tests
are run, and then every check (VERIF_REPO=copy), each of which must exit 0.
"""
import json, os, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
argv = sys.argv[1:]
NUMERIC = ["C18", "C19", "C20", "C21", "C22", "C23"]


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def main():
    ids = [a for a in argv if not a.startswith("--")] or sorted(f[:-5] for f in os.listdir(ROOT + "/quiet"))
    props = None
    for a in argv:
        if a.startswith("--props="):
            props = a[8:].split(",")
    man = [c["property"] for c in json.load(open(ROOT + "/MANIFEST.json"))["checks"]]
    rc = 0
    for i in ids:
        top = tempfile.mkdtemp(prefix="quiet-")
        copy = top + "/repo"
        try:
            subprocess.check_call(["cp", "-a", "/repo", copy])
            r = sh("git apply --whitespace=nowarn %s/quiet/%s.diff" % (ROOT, i), copy)
            if r.returncode:
                print(i, "DOES NOT APPLY", r.stdout, flush=True); rc = 1; continue
            env = dict(os.environ, PATH="/opt/venv/bin:/usr/bin:/bin", PYTHONPATH=copy, PYTHONDONTWRITEBYTECODE="1")
            t = sh("python -m pytest -q -p no:cacheprovider tests 2>&1 | tail -1", copy, env=env).stdout.strip()
            print(i, "tests:", t, flush=True)
            text = open("%s/quiet/%s.diff" % (ROOT, i)).read()
            numeric = "DeadReckoning.py" in text or "RangeCoordinates.py" in text
            for p in props or [p for p in man if (p in NUMERIC) == numeric]:
                e2 = dict(os.environ, VERIF_REPO=copy, VERIF_EVIDENCE=top + "/ev")
                c = sh("%s/check.py %s" % (ROOT, p), ROOT, env=e2)
                if c.returncode:
                    rc = 1
                    print("  ALARM", i, p, c.returncode, c.stdout[-700:], flush=True)
                    d = "/tmp/quiet-alarm-%s-%s" % (i, p)
                    open(d, "w").write(c.stdout)
            print(i, "done", flush=True)
        finally:
            shutil.rmtree(top, ignore_errors=True)
    return rc


sys.exit(main())
