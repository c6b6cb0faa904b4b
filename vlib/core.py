"""Runner shared by all checks: generates cases with Hypothesis in parallel
shards, collects coverage, shrinks failures, writes evidence and replay files.

A check is a list of layers.  A layer has a Hypothesis strategy producing plain
JSON cases and a function ``run(case) -> Outcome``.  The outcome carries the
violations found, each tagged with the ids of the properties it breaks."""

import contextlib
import hashlib
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")

# Hypothesis is not installed in the interpreter daisy runs in; it is pure
# python and comes from the tooling environment (appended, so that daisy's own
# dependencies always win).
TOOLING = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"


@contextlib.contextmanager
def replaced(original, value, only=None):
    """Replaces an object wherever modules of daisy refer to it."""
    saved = []
    for name, mod in sorted(sys.modules.items()):
        if mod is None or not (name == "daisy" or name.startswith("daisy.")):
            continue
        if only is not None and mod is not only:
            continue
        for attr, x in list(vars(mod).items()):
            if x is original:
                saved.append((mod, attr))
                setattr(mod, attr, value)
    try:
        yield len(saved)
    finally:
        for mod, attr in saved:
            setattr(mod, attr, original)


def setup_paths():
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    if TOOLING not in sys.path:
        sys.path.append(TOOLING)
    import logging

    logging.disable(logging.CRITICAL)


class DidNotReturn(BaseException):
    """The code under test used up its CPU budget."""


class HarnessError(Exception):
    pass


class Violation:
    def __init__(self, props, kind, message):
        self.props = (props,) if isinstance(props, str) else tuple(props)
        self.kind = kind
        self.message = message

    def __repr__(self):
        return f"[{','.join(self.props)}] {self.kind}: {self.message}"

    def to_json(self):
        return dict(props=list(self.props), kind=self.kind, message=self.message)


ANY = "*"  # a violation of whatever property is being checked


class Outcome:
    def __init__(self):
        self.violations = []
        self.nontrivial = False
        self.stats = {}
        self.note = None

    def violate(self, props, kind, message):
        self.violations.append(Violation(props, kind, message))

    def count(self, name, n=1):
        self.stats[name] = self.stats.get(name, 0) + n

    @contextlib.contextmanager
    def guard(self, what, props=ANY):
        """Exceptions of the code under test on valid input are violations."""
        try:
            yield
        except (HarnessError, StopCase):
            raise
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            where = " <- ".join(
                f"{os.path.basename(f.filename)}:{f.name}" for f in reversed(tb[-3:])
            )
            self.violate(
                props, "exception", f"{what} raised {type(e).__name__}: {e} ({where})"
            )
            raise StopCase()
        except DidNotReturn:
            self.violate(props, "hang", f"{what} did not return")
            raise StopCase()


class StopCase(Exception):
    """The case can not be continued (its violation was recorded)."""


class Layer:
    def __init__(
        self,
        name,
        strategy,
        run,
        quick=(1000, 15),
        thorough=None,
        procs=8,
        rule="",
        deterministic=True,
        cpu_limit=30,
    ):
        self.name = name
        self.strategy = strategy  # tier -> hypothesis strategy
        self.run = run  # case -> Outcome
        self.quick = quick  # (cases over all shards, seconds)
        self.thorough = thorough or (quick[0] * 30, quick[1] * 25)
        self.procs = procs
        self.rule = rule
        self.deterministic = deterministic
        self.cpu_limit = cpu_limit

    def budget(self, tier):
        return self.quick if tier == "quick" else self.thorough


def digest(case):
    return hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()[:16]


def derive_seed(*parts):
    h = hashlib.sha256("/".join(str(p) for p in parts).encode()).digest()
    return int.from_bytes(h[:6], "big")


def execute(layer, case, prop):
    """Run one case; returns (outcome, violations relevant for prop)."""

    def on_alarm(signum, frame):
        raise DidNotReturn()

    old = None
    if layer.cpu_limit:
        old = signal.signal(signal.SIGPROF, on_alarm)
        signal.setitimer(signal.ITIMER_PROF, layer.cpu_limit)
    try:
        outcome = layer.run(case)
    finally:
        if layer.cpu_limit:
            signal.setitimer(signal.ITIMER_PROF, 0)
            signal.signal(signal.SIGPROF, old)
    relevant = [
        v for v in outcome.violations if prop in v.props or ANY in v.props
    ]
    return outcome, relevant


def run_shard(check, layer, shard, tier, seed, outdir):
    """One shard of a layer, in its own process. Writes its result to outdir."""

    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    import hypothesis.internal.conjecture.engine as engine

    from . import isolate

    if hasattr(engine, "MAX_SHRINKING_SECONDS"):
        engine.MAX_SHRINKING_SECONDS = 25 if tier == "quick" else 90

    prop = check.ID
    n, secs = layer.budget(tier)
    n_shard = max(1, -(-n // layer.procs))
    start = time.monotonic()
    stop_file = os.path.join(outdir, "found")

    stats = {}
    seen = set()
    samples = []
    failures = []
    kinds_other = {}
    state = dict(evaluations=0, nontrivial=0, first_fail=None)

    class Found(Exception):
        pass

    def write_result(error=None):
        best = None
        if failures:
            best = min(failures, key=lambda f: len(json.dumps(f["case"])))
        result = dict(
            layer=layer.name,
            shard=shard,
            evaluations=state["evaluations"],
            nontrivial=list(seen),
            samples=samples,
            stats=stats,
            failure=best,
            other=kinds_other,
            error=error,
            seconds=time.monotonic() - start,
        )
        path = os.path.join(outdir, f"{layer.name}-{shard}.json")
        with open(path + ".tmp", "w") as f:
            json.dump(result, f)
        os.rename(path + ".tmp", path)

    def body(case):
        if state["first_fail"] is None:
            if time.monotonic() - start > secs or os.path.exists(stop_file):
                return
        elif time.monotonic() - state["first_fail"] > 60:
            return
        outcome, relevant = execute(layer, case, prop)
        if state["first_fail"] is None:
            state["evaluations"] += 1
            for k, v in outcome.stats.items():
                stats[k] = stats.get(k, 0) + v
            if outcome.nontrivial:
                d = digest(case)
                if d not in seen:
                    seen.add(d)
                    state["nontrivial"] += 1
                    if len(samples) < 2 or (
                        len(samples) < 3 and state["nontrivial"] % 97 == 0
                    ):
                        samples.append(dict(case=case, note=outcome.note))
            for v in outcome.violations:
                if v not in relevant:
                    key = f"{'/'.join(v.props)}:{v.kind}"
                    kinds_other[key] = kinds_other.get(key, 0) + 1
        if relevant:
            if state["first_fail"] is None:
                state["first_fail"] = time.monotonic()
                isolate.shrinking = True
            failures.append(
                dict(case=case, violations=[v.to_json() for v in relevant[:5]])
            )
            write_result()  # in case shrinking does not end in time
            raise Found()

    test = given(layer.strategy(tier))(body)
    test = hypothesis.seed(derive_seed(seed, prop, layer.name, shard))(test)
    test = settings(
        max_examples=n_shard,
        database=None,
        deadline=None,
        suppress_health_check=list(HealthCheck),
        phases=[Phase.generate, Phase.shrink],
        report_multiple_bugs=False,
        print_blob=False,
    )(test)

    error = None
    try:
        with contextlib.redirect_stdout(open(os.devnull, "w")):
            test()
    except Found:
        pass
    except BaseException as e:
        if not failures:
            error = "".join(traceback.format_exception(e))
    if failures:
        with open(stop_file, "w"):
            pass

    write_result(error)


def _spawn(check_id, layer, shard, tier, seed, outdir, scratch):
    env = dict(os.environ)
    env.update(VERIF_SCRATCH=scratch)
    log = open(os.path.join(outdir, f"{layer}-{shard}.log"), "w")
    return subprocess.Popen(
        [
            sys.executable,
            os.path.join(VERIF, "run.py"),
            check_id,
            "--shard",
            f"{layer}:{shard}",
            "--tier",
            tier,
            "--seed",
            str(seed),
            "--outdir",
            outdir,
        ],
        stdout=log,
        stderr=log,
        stdin=subprocess.DEVNULL,
        cwd=scratch,
        env=env,
        start_new_session=True,
    )


def killpg(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except (ProcessLookupError, PermissionError):
        pass


def run_check(check, tier, seed):
    prop = check.ID
    start = time.monotonic()
    outdir = tempfile.mkdtemp(prefix=f"verif-{prop}-")
    problems = []
    results = []
    try:
        jobs = []
        for layer in check.LAYERS:
            for shard in range(layer.procs):
                jobs.append((layer, shard))
        running = {}
        max_parallel = max(8, os.cpu_count() or 8)
        while jobs or running:
            while jobs and len(running) < max_parallel:
                layer, shard = jobs.pop(0)
                if os.path.exists(os.path.join(outdir, "found")):
                    continue
                scratch = os.path.join(outdir, f"scratch-{layer.name}-{shard}")
                os.makedirs(scratch)
                p = _spawn(prop, layer.name, shard, tier, seed, outdir, scratch)
                limit = layer.budget(tier)[1] + (260 if tier == "quick" else 900)
                running[p] = (layer, shard, time.monotonic() + limit)
            time.sleep(0.02)
            for p in list(running):
                layer, shard, deadline = running[p]
                if p.poll() is None and time.monotonic() < deadline:
                    continue
                timed_out = p.poll() is None
                killpg(p)
                p.wait()
                del running[p]
                path = os.path.join(outdir, f"{layer.name}-{shard}.json")
                if os.path.exists(path):
                    with open(path) as f:
                        results.append(json.load(f))
                else:
                    with open(os.path.join(outdir, f"{layer.name}-{shard}.log")) as f:
                        tail = f.read()[-3000:]
                    problems.append(
                        f"shard {layer.name}:{shard} "
                        + ("timed out" if timed_out else f"ended with {p.returncode}")
                        + f"\n{tail}"
                    )
    finally:
        shutil.rmtree(outdir, ignore_errors=True)

    for r in results:
        if r["error"]:
            problems.append(f"{r['layer']}:{r['shard']}\n{r['error'][-3000:]}")

    findings = run_known_findings(check)

    failures = [r for r in results if r["failure"]]
    # failure of a known-finding scenario with a signature that is not listed
    violations = []
    if failures:
        r = min(failures, key=lambda r: len(json.dumps(r["failure"]["case"])))
        replay = write_replay(check, r["layer"], r["failure"], seed)
        violations.append((replay, r["layer"], r["failure"]["violations"]))
    violations.extend(findings["violations"])

    write_evidence(check, tier, seed, results, findings, violations, start)

    for line in findings["lines"]:
        print(line)
    total = sum(r["evaluations"] for r in results)
    print(
        f"{prop}: {total} cases in {time.monotonic() - start:.1f}s, "
        f"{len(violations)} violation(s)"
    )
    if violations:
        for replay, layer, vs in violations:
            for v in vs[:3]:
                print(f"  {layer}: {v['kind']}: {v['message']}")
        for replay, _, _ in violations:
            print(f"VIOLATION property={prop} replay={replay}")
        return 1
    if problems:
        for p in problems:
            print(f"HARNESS ERROR: {p}", file=sys.stderr)
        return 2
    return 0


def run_known_findings(check):
    """Replay the committed known findings of this property. Prints a line for
    those that (still) fail as listed; anything else is a violation."""

    lines, violations, coverage = [], [], []
    path = os.path.join(VERIF, "known_findings.json")
    with open(path) as f:
        listed = json.load(f)["findings"]
    for finding in listed:
        if finding["property"] != check.ID:
            continue
        scenario = check.FINDINGS[finding["scenario"]]
        result = scenario(finding)  # "fails-as-listed" | "holds" | violation dict
        coverage.append(dict(scenario=finding["scenario"], result=str(result)[:300]))
        if result == "fails-as-listed":
            lines.append(f"KNOWN-FINDING: property={check.ID} {finding['what']}")
        elif result == "holds":
            lines.append(
                f"note: known finding '{finding['scenario']}' of {check.ID} no "
                "longer fails"
            )
        else:
            replay = write_replay(
                check,
                "finding:" + finding["scenario"],
                dict(case=finding, violations=[result]),
                0,
            )
            violations.append((replay, "finding:" + finding["scenario"], [result]))
    return dict(lines=lines, violations=violations, coverage=coverage)


def write_replay(check, layer, failure, seed):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(
        d, f"{check.ID}-{layer.replace(':', '-')}-{digest(failure['case'])}.json"
    )
    with open(path, "w") as f:
        json.dump(
            dict(
                property=check.ID,
                layer=layer,
                seed=seed,
                case=failure["case"],
                violations=failure["violations"],
                how=f"/opt/venv/bin/python /verif/run.py {check.ID} --replay {path}",
            ),
            f,
            indent=1,
        )
    return path


def write_evidence(check, tier, seed, results, findings, violations, start):
    layers = {}
    for layer in check.LAYERS:
        rs = [r for r in results if r["layer"] == layer.name]
        nontrivial = set()
        stats = {}
        for r in rs:
            nontrivial.update(r["nontrivial"])
            for k, v in r["stats"].items():
                stats[k] = stats.get(k, 0) + v
        layers[layer.name] = dict(
            evaluations=sum(r["evaluations"] for r in rs),
            distinct_nontrivial=len(nontrivial),
            rule=layer.rule,
            counters=stats,
            samples=[s for r in rs for s in r["samples"]][:3],
            shards=len(rs),
        )
    evidence = dict(
        property=check.ID,
        tier=tier,
        seed=seed,
        level=getattr(check, "LEVEL", "exploration"),
        coverage=dict(
            evaluations=sum(x["evaluations"] for x in layers.values()),
            distinct_nontrivial=sum(
                x["distinct_nontrivial"] for x in layers.values()
            ),
            nontrivial_rule="; ".join(
                f"{k}: {v['rule']}" for k, v in layers.items()
            ),
            samples=[s for x in layers.values() for s in x["samples"]][:8],
            layers={
                k: {a: b for a, b in v.items() if a != "samples"}
                for k, v in layers.items()
            },
            known_findings=findings["coverage"],
            technique="property-based testing (Hypothesis) with shrinking",
        ),
        wall_s=round(time.monotonic() - start, 2),
        violations=len(violations),
    )
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{check.ID}.json")
    with open(path + ".tmp", "w") as f:
        json.dump(evidence, f, indent=1)
    os.rename(path + ".tmp", path)


def replay(check, path):
    with open(path) as f:
        data = json.load(f)
    if data["layer"].startswith("finding:"):
        result = check.FINDINGS[data["layer"][8:]](data["case"])
        print(result)
        return 0 if isinstance(result, str) else 1
    layer = {layer.name: layer for layer in check.LAYERS}[data["layer"]]
    outcome, relevant = execute(layer, data["case"], check.ID)
    for v in outcome.violations:
        print(v)
    if relevant:
        print(f"VIOLATION property={check.ID} replay={path}")
        return 1
    print("no violation")
    return 0
