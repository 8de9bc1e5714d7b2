#!/usr/bin/env python3
"""mkbug.py FILE...: make planted bugs in /verif/seeded from descriptions.

A description is a Python file defining BUGS, a list of dicts: id, property, needs, breaks,
edits [(path, old, new)] and demo (Python text, run with cwd = the tree).
"""
import json, os, runpy, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for f in sys.argv[1:]:
    for bug in runpy.run_path(f)["BUGS"]:
        d = os.path.join(ROOT, "seeded", bug["id"])
        top = tempfile.mkdtemp(prefix="mkbug-")
        try:
            subprocess.check_call(["git", "clone", "-q", "/repo", top + "/r"])
            for path, old, new in bug["edits"]:
                p = os.path.join(top, "r", path)
                s = open(p, newline="").read()
                crlf = "\r\n" in s
                s = s.replace("\r\n", "\n") if crlf else s
                assert s.count(old) == 1, (bug["id"], path, s.count(old), old)
                s = s.replace(old, new)
                open(p, "w", newline="").write(s.replace("\n", "\r\n") if crlf else s)
            diff = subprocess.check_output(["git", "diff"], cwd=top + "/r")
            os.makedirs(d, exist_ok=True)
            open(d + "/patch.diff", "wb").write(diff)
            open(d + "/demo.py", "w").write(bug["demo"].lstrip("\n"))
            open(d + "/demo.sh", "w").write('#!/bin/bash\n# Exits 0 when the property holds in the tree of the current directory.\n'
                                            'PYTHONPATH="$PWD" exec /opt/venv/bin/python -B "$(dirname "$0")/demo.py"\n')
            json.dump({"property": bug["property"], "needs": bug["needs"], "what_it_breaks": bug["breaks"]},
                      open(d + "/meta.json", "w"), indent=1)
        finally:
            shutil.rmtree(top)
        print(bug["id"], len(diff))
