"""The check driver: runs specifications and cases, records what was covered, reports."""
import json, multiprocessing, os, random, signal, sys, time, traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVIDENCE = os.environ.get("VERIF_EVIDENCE", os.path.join(ROOT, "evidence"))
CASE_TIMEOUT = 120


PARTS = set()       # names of lists on the context that cases take slices of


def part(ctx, args):
    """The slice of an emitted list that a case is about."""
    return args["part"] if "part" in args else getattr(ctx, args["of"])[args["from"]:args["to"]]


def slices(ctx, name, items, suite, size, **more):
    """Cases over slices of a list."""
    PARTS.add(name)
    setattr(ctx, name, items)
    return [(suite, dict(more, of=name, **{"from": i, "to": i + size})) for i in range(0, len(items), size)]


class CaseTimeout(Exception):
    pass


def _alarm(signum, frame):
    raise CaseTimeout("no result within %d s" % CASE_TIMEOUT)


SUITES = {}     # name -> function(ctx, args) -> (number of executions compared, [(where, detail)])


def suite(f):
    assert f.__name__ not in SUITES, f.__name__
    SUITES[f.__name__] = f
    return f


_CTX = None


def _run_case(case):
    name, args = case
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(CASE_TIMEOUT)
    try:
        n, bad = SUITES[name](_CTX, args)
        return name, args, n, bad[:20], None
    except CaseTimeout as e:
        return name, args, 1, [("timeout", str(e))], None
    except (OSError, MemoryError):
        return name, args, 0, [], traceback.format_exc()
    except Exception as e:
        # The cases are deterministic: what raises here comes from the code under test behaving unexpectedly.
        return name, args, 1, [("%s:%s" % (name, type(e).__name__), traceback.format_exc()[-1500:])], None
    finally:
        signal.alarm(0)


class Context:
    """One run of the check of one property."""

    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.states = self.transitions = self.validated = self.judged = 0
        self.samples, self.violations, self.assumptions = [], [], []
        self.counts = {}
        self.vec = []
        self.b = None
        self.dump = None

    @property
    def thorough(self):
        return self.tier == "thorough"

    def rng(self, *salt):
        return random.Random(repr((self.seed,) + salt))

    def tlc(self, result):
        self.states += result.states
        self.transitions += result.transitions
        return result.records

    def sample(self, x):
        if len(self.samples) < 6:
            self.samples.append(x)

    def violation(self, suite, args, where, detail):
        self.violations.append({"suite": suite, "args": args, "where": where, "detail": detail})

    def run(self, cases, procs=8, chunk=None):
        """Execute cases, a list of (suite name, args), in parallel."""
        global _CTX
        _CTX = self
        cases = list(cases)
        if not cases:
            raise RuntimeError("no cases")
        errors = []
        size = chunk or max(1, min(16, len(cases) // (procs * 8)))
        with multiprocessing.get_context("fork").Pool(procs) as pool:
            for name, args, n, bad, err in pool.imap_unordered(_run_case, cases, size):
                self.validated += n
                self.counts[name] = self.counts.get(name, 0) + n
                if err:
                    errors.append((name, args, err))
                for where, detail in bad:
                    self.violation(name, args, where, detail)
        if errors and not self.violations:
            raise RuntimeError("%d cases failed in the harness, the first: %s %s\n%s"
                               % (len(errors), errors[0][0], str(errors[0][1])[:300], errors[0][2]))


def known_findings(prop):
    """Lines 'finding: property=<id> where=<where> <what fails>' of KNOWN_FINDINGS."""
    out = {}
    with open(os.path.join(ROOT, "KNOWN_FINDINGS")) as f:
        for line in f:
            w = line.split(None, 3)
            if line.startswith("finding:") and w[1] == "property=" + prop:
                out[w[2][len("where="):]] = w[3].strip()
    return out


def finish(ctx, level="model_checking"):
    """Write the evidence, print the verdict, return the exit code."""
    known = known_findings(ctx.prop)
    new = [v for v in ctx.violations if v["where"] not in known]
    seen = {v["where"] for v in ctx.violations if v["where"] in known}
    for w in sorted(known):
        if w in seen:
            print("KNOWN-FINDING: property=%s %s" % (ctx.prop, known[w]))
        else:
            print("note: known finding not observed in this run: property=%s %s" % (ctx.prop, w))
    ev = {"property": ctx.prop, "tier": ctx.tier, "seed": ctx.seed, "level": level,
          "coverage": {"states": ctx.states, "transitions": ctx.transitions,
                       "traces_validated_against_impl": ctx.validated + ctx.judged,
                       "samples": ctx.samples or ["(none)"],
                       "judged_by_tlc": ctx.judged,
                       "replayed_per_suite": ctx.counts},
          "assumptions": ctx.assumptions,
          "violations": len(new),
          "wall_s": round(time.time() - ctx.t0, 2)}
    os.makedirs(EVIDENCE, exist_ok=True)
    with open(os.path.join(EVIDENCE, ctx.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s: %d states, %d transitions, %d executions compared (%d judged by TLC), %.1f s"
          % (ctx.prop, ctx.states, ctx.transitions, ctx.validated + ctx.judged, ctx.judged, ev["wall_s"]))
    if not new:
        print("%s holds on everything explored" % ctx.prop)
        return 0
    d = os.path.join(EVIDENCE, "replay")
    os.makedirs(d, exist_ok=True)
    wheres = []
    for v in new:
        if v["where"] in wheres:
            continue
        wheres.append(v["where"])
        if len(wheres) > 10:
            break
        args = dict(v["args"])
        if "vec" in args:
            args["vector"] = ctx.vec[args["vec"]]
        if "vec2" in args:
            args["vector2"] = ctx.vec[args["vec2"]]
        if v["suite"] in ("session", "session_group"):
            args["kinds"] = {x: [ctx.vec[j] for j in args[x][1]] for x in ("A", "B")}
            if v["suite"] == "session_group":
                args["brief"] = ctx.brief[args["hists"][0]:args["hists"][1]]
        if v["suite"] == "crowd":
            args["vectors"] = {x: [ctx.vec[j] for j in args[x][1]] for x in ("A", "B")}
            args["history"] = ctx.crowds[args["at"]]
        for key in PARTS:           # a slice of what a specification emitted: keep it with the case
            if key == args.get("of"):
                args["part"] = getattr(ctx, key)[args["from"]:args["to"]]
        path = os.path.join(d, "%s-%d.json" % (ctx.prop, len(wheres)))
        with open(path, "w") as f:
            json.dump({"property": ctx.prop, "suite": v["suite"], "where": v["where"], "detail": v["detail"],
                       "seed": ctx.seed, "args": args}, f, indent=1, default=repr)
        print("  %s: %s" % (v["where"], v["detail"][:600]))
        print("VIOLATION property=%s replay=%s" % (ctx.prop, path))
    print("%d violating executions" % len(new))
    return 1
