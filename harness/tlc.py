"""Runs TLC on the specifications in /verif/spec and collects what it prints."""
import json, os, re, shutil, subprocess, tempfile

SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec")
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class TLCError(Exception):
    """The specification itself failed, or TLC did: an error of the check, not a finding."""


class Result:
    def __init__(self):
        self.records, self.states, self.transitions, self.runs = [], 0, 0, 0

    def add(self, other):
        self.records += other.records
        self.states += other.states
        self.transitions += other.transitions
        self.runs += other.runs
        return self


def _clean(x):
    """ToJson writes an empty function as {}: every empty value is the empty tuple here."""
    if isinstance(x, dict):
        return [] if not x else {k: _clean(v) for k, v in x.items()}
    if isinstance(x, list):
        return [_clean(v) for v in x]
    return x


def run(module, cfg, env=None, workers=8, args=(), timeout=800, heap="8g"):
    """Check spec/<module>.tla under the configuration text cfg.

    Returns every JSON object the specification printed, and the numbers of
    distinct states and of transitions TLC reports.
    """
    work = tempfile.mkdtemp(prefix="tlc-")
    try:
        with open(os.path.join(work, "m.cfg"), "w") as f:
            f.write(cfg)
        e = dict(os.environ)
        e.update(env or {})
        cmd = ["java", "-XX:+UseParallelGC", *(["-XX:ParallelGCThreads=1", "-XX:CICompilerCount=2"] if workers == 1 else []), "-Xmx" + heap, "-Xss256m", "-Djava.io.tmpdir=" + work, "-cp", JAR, "tlc2.TLC",
               "-workers", str(workers), "-noGenerateSpecTE", "-metadir", os.path.join(work, "md"),
               "-config", os.path.join(work, "m.cfg"), *args, os.path.join(SPEC, module + ".tla")]
        p = subprocess.run(cmd, env=e, cwd=work, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=timeout, text=True, errors="replace")
        r = Result()
        rest = []
        for line in p.stdout.split("\n"):
            if line.startswith('"{') or line.startswith('"['):
                r.records.append(_clean(json.loads(json.loads(line))))
            else:
                rest.append(line)
        text = "\n".join(rest)
        m = re.search(r"^([\d,]+) states generated, ([\d,]+) distinct states found", text, re.M)
        if m:
            r.transitions, r.states = (int(x.replace(",", "")) for x in m.groups())
        else:
            m = re.search(r"The number of states generated: ([\d,]+)", text)
            if m:
                r.states = r.transitions = int(m.group(1).replace(",", ""))
        r.runs = 1
        if p.returncode != 0 or "Error:" in text:
            raise TLCError("TLC failed on %s (exit %d):\n%s" % (module, p.returncode, "\n".join(
                l for l in rest if not re.match(r"(Semantic proc|Linting|Parsing file|Computed)", l))[-4000:]))
        return r
    finally:
        shutil.rmtree(work, ignore_errors=True)


def simulate(module, cfg, num, depth, seed, env=None, procs=8, timeout=800, heap="2g"):
    """About num random behaviours; several TLC processes, as the workers of one draw the same numbers."""
    from concurrent.futures import ThreadPoolExecutor
    total = Result()
    with ThreadPoolExecutor(procs) as pool:
        for r in pool.map(lambda k: run(module, cfg, env, workers=1, timeout=timeout, heap=heap, args=(
                "-simulate", "num=%d" % -(-num // procs), "-depth", str(depth), "-seed", str(seed * 1000 + k))), range(procs)):
            total.add(r)
    return total


def unique(recs):
    """The records, once each, in a fixed order."""
    per = {json.dumps(r, sort_keys=True): r for r in recs}
    return [per[k] for k in sorted(per)]
