#!/opt/venv/bin/python -B
"""plant.py [ID...]: confirm the planted bugs in /verif/seeded in a scratch copy of /repo, and optionally run checks.

For each: the patch applies to HEAD and changes original lines only, the stable tests pass with it, demo.sh
passes without it and fails with it.  --check also runs its property's check (VERIF_REPO=copy) and prints
whether it is caught; --all runs every check.
"""
import json, os, re, shutil, subprocess, sys, tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = "4bb5abf"
FILES = ("opendis/",)


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def stable(copy):
    """The stable tests, against the copy."""
    env = dict(os.environ, PATH="/opt/venv/bin:/usr/bin:/bin", PYTHONPATH=copy, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
    want = [t for t in json.load(open("/opt/vp/BASELINE.json"))["stable"]]
    r = sh("python -m pytest -q -p no:cacheprovider --timeout=200 -rA tests 2>&1 | grep -E '^(PASSED|FAILED|ERROR)'", copy, env=env)
    passed = set()
    for l in r.stdout.split("\n"):
        m = re.match(r"PASSED (\S+)", l)
        if m:
            passed.add(m.group(1).replace(".py", "").replace("/", ".").replace("::", ".") )
    return [t for t in want if t.replace("::", ".") not in passed]


def ours(copy):
    """Lines (file, number at HEAD) that commits after BASE wrote."""
    out = set()
    for f in sh("git ls-files opendis", copy).stdout.split():
        for i, l in enumerate(sh("git blame -s HEAD -- %s" % f, copy).stdout.split("\n")):
            if l and not l.lstrip("^").startswith(BASE):
                out.add((f, i + 1))
    return out


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    ids = args or sorted(os.listdir(os.path.join(ROOT, "seeded")))
    rc = 0
    for i in ids:
        d = os.path.join(ROOT, "seeded", i)
        meta = json.load(open(os.path.join(d, "meta.json")))
        top = tempfile.mkdtemp(prefix="plant-")
        copy = os.path.join(top, "repo")
        try:
            subprocess.check_call(["cp", "-a", "/repo", copy])
            demo = os.path.join(top, "demo")
            shutil.copytree(d, demo, ignore=shutil.ignore_patterns("*.diff", "*.patch", "meta.json"))
            env = dict(os.environ, PYTHONPATH=copy, PYTHONDONTWRITEBYTECODE="1", PATH="/opt/venv/bin:/usr/bin:/bin")
            if "--fast" not in sys.argv:
                r0 = sh("bash %s/demo.sh" % demo, copy, env=env, timeout=300)
            mine = ours(copy) if "--fast" not in sys.argv else set()
            r = sh("git apply --whitespace=nowarn %s/patch.diff" % d, copy)
            if r.returncode:
                print(i, "DOES NOT APPLY", r.stdout); rc = 1; continue
            problems = []
            if "--fast" not in sys.argv:
                if r0.returncode:
                    problems.append("demo fails on the unchanged tree: " + r0.stdout[-500:])
                r1 = sh("bash %s/demo.sh" % demo, copy, env=env, timeout=300)
                if not r1.returncode:
                    problems.append("demo passes with the patch")
                bad = stable(copy)
                if bad:
                    problems.append("tests fail: %s" % bad)
                f = None
                touched = 0
                for l in sh("git diff -U0", copy).stdout.split("\n"):
                    m = re.match(r"\+\+\+ b/(.*)", l)
                    if m:
                        f = m.group(1)
                    m = re.match(r"@@ -(\d+)(?:,(\d+))? ", l)
                    if m:
                        n = int(m.group(2) or 1)
                        lines = range(int(m.group(1)), int(m.group(1)) + n)
                        touched += sum((f, x) not in mine for x in lines)
                        if any((f, x) in mine for x in lines):
                            problems.append("changes lines of our own commits (%s %s)" % (f, list(lines)))
                if not touched:
                    problems.append("changes no original line")
            line = "%s %s %s" % (i, meta["property"], "; ".join(problems) or "ok")
            if problems:
                rc = 1
            if "--check" in sys.argv or "--all" in sys.argv:
                man = [c["property"] for c in json.load(open(os.path.join(ROOT, "MANIFEST.json")))["checks"]]
                props = man if "--all" in sys.argv else [meta["property"]]
                for p in props:
                    if p not in man:
                        line += " | %s no check" % p
                        continue
                    e2 = dict(os.environ, VERIF_REPO=copy, VERIF_EVIDENCE=os.path.join(top, "ev"))
                    c = sh("%s/check.py %s" % (ROOT, p), ROOT, env=e2)
                    hit = "VIOLATION property=%s" % p in c.stdout
                    line += " | %s %s" % (p, "caught" if hit and c.returncode == 1 else "MISSED rc=%d" % c.returncode)
                    if c.returncode == 2:
                        line += c.stdout[-800:]
            print(line, flush=True)
        finally:
            shutil.rmtree(top, ignore_errors=True)
    return rc


sys.exit(main())
