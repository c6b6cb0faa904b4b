"""The command line monitor: what it prints is compared with what happened.

``Watch`` is attached to simulated (and sequential) runs; ``run_monitor_case``
drives the monitor with generated histories of notifications."""

import contextlib
import io
import logging
import re

from hypothesis import strategies as st

from .core import HarnessError, Outcome, StopCase

ints = st.integers
COUNTS = dict(total="num blocks", failed="failed", orphaned="orphaned")
SYMBOLS = {"⧗": "pending", "▶": "processing", "✔": "completed", "✗": "failed", "∅": "orphaned"}
BAR = re.compile(r"^(?P<desc>.*?): +\d+%\|.*?\| (?P<n>\d+)/(?P<total>\d+) \[(?P<rest>.*)\]\s*$")
ESCAPE = re.compile(r"\x1b\[\d*[A-Za-z]")


def number(text, label):
    m = re.search(r"^\s*" + re.escape(label) + r"\b[^:\n]*:\s*(\d+)", text, re.M)
    return int(m.group(1)) if m else None


def parse_summary(text, names):
    """task name -> what the summary says about it, in order."""
    at = text.rfind("Execution Summary")
    if at < 0:
        return None
    lines = text[at:].split("\n")
    heads = {f"Task {n}:": n for n in names}
    sections, current = {}, None
    repeated = []
    for line in lines:
        if line.strip() in heads and line.startswith("  T"):
            current = heads[line.strip()]
            if current in sections:
                repeated.append(current)
            sections[current] = []
        elif current is not None:
            sections[current].append(line)
    result = {}
    for n, body in sections.items():
        t = "\n".join(body)
        d = {k: number(t, label) for k, label in COUNTS.items()}
        m = re.search(r"^\s*completed\b[^:\n]*:\s*(\d+)\s*\(skipped\s+(\d+)\)", t, re.M)
        d["completed"], d["skipped"] = (int(m.group(1)), int(m.group(2))) if m else (None, None)
        d["failures"] = [
            (int(x.group(1)), x.group(2), x.group(3))
            for x in re.finditer(r"^\s+block (\d+) in worker (.+?) with exception (.*)$", t, re.M)
        ]
        m = re.search(r"^\s*\(and (\d+) more\)", t, re.M)
        d["more"] = int(m.group(1)) if m else 0
        d["success"] = "all blocks processed successfully" in t
        d["logs"] = re.findall(r"^\s+(\S.*)\.err / \.out$", t, re.M)
        result[n] = d
    return result, repeated


def parse_bars(text):
    """description -> list of (n, total, postfix counts or None), in order."""
    bars = []
    for line in re.split(r"[\r\n]", text):
        m = BAR.match(ESCAPE.sub("", line))
        if not m:
            continue
        counts = {}
        for sym, name in SYMBOLS.items():
            x = re.search(re.escape(sym) + r"=(-?\d+)", m.group("rest"))
            if x:
                counts[name] = int(x.group(1))
        bars.append((m.group("desc"), int(m.group("n")), int(m.group("total")), counts))
    return bars


def check_text(out, text, bars, want, failures, shown, done, must, log_of=None):
    """``want``: name -> final counts; ``failures``: name -> [(block number,
    worker, exception text or None)]; ``shown``: name -> counts at the last
    hand-out or return; ``done``: names announced as done; ``must``: names that
    have to be in the summary."""

    parsed = parse_summary(text, want)
    if parsed is None:
        out.violate("C21", "summary", "no execution summary was printed")
        return
    summary, repeated = parsed
    for n in repeated:
        out.violate("C21", "summary", f"{n} is listed more than once")
    for n in must:
        if n not in summary:
            out.violate("C21", "missing", f"{n} is missing in the execution summary")
    for n, s in summary.items():
        for k in ("total", "completed", "skipped", "failed", "orphaned"):
            if s[k] != want[n][k]:
                out.violate("C21", "counts", f"summary of {n}: {k} {s[k]}, true {want[n][k]}")
        complete = want[n]["completed"] == want[n]["total"]
        if s["success"] != complete:
            out.violate("C21", "success", f"{n}: {want[n]}, reported as {'' if s['success'] else 'not '}successful")
        fs = failures.get(n, [])
        if len(s["failures"]) != min(len(fs), 100) or s["more"] != max(0, len(fs) - 100):
            out.violate("C21", "failures", f"{n}: {len(fs)} failures, {len(s['failures'])} listed and {s['more']} more")
        for got, f in zip(s["failures"], fs):
            if got[0] != f[0] or got[1] != str(f[1]) or (f[2] is not None and got[2] != f[2]):
                out.violate("C21", "failures", f"{n}: failure {f} listed as {got}")
                break
        if log_of is not None:
            logs = [log_of(n, f[1]) for f in fs[:10]]
            if s["logs"] != logs:
                out.violate("C21", "logs", f"{n}: log files {s['logs'][:3]}, expected {logs[:3]}")
        out.count("summaries")
        if fs:
            out.count("summaries with failures")
        if len(fs) > 100:
            out.count("summaries with more than 100 failures")
    last = {}
    for desc, n, total, counts in bars:
        name = desc[:-2]
        last[name] = (desc[-1:], n, total, counts)
    for n, s in shown.items():
        if n not in last:
            out.violate("C21", "progress", f"no progress was shown for {n}")
            continue
        symbol, k, total, counts = last[n]
        if k != s["completed"] or total != s["total"]:
            out.violate("C21", "progress", f"{n}: progress {k}/{total}, true {s['completed']}/{s['total']}")
        for c, v in counts.items():
            if v != s[c]:
                out.violate("C21", "progress", f"{n}: {c} shown as {v}, true {s[c]}")
        if n in done:
            f = want[n]
            true = "✗" if f["failed"] else "∅" if f["orphaned"] else "✔"
            if symbol != true:
                out.violate("C21", "symbol", f"{n}: {f} shown as {symbol}")
        out.count("progress bars")


def check_run_text(out, text, want, must, failures, done, what):
    """What ``run_blockwise`` printed. ``failures``: name -> number of reported
    ones; ``done``: tasks with processed blocks that came to their end."""
    if text.count("Execution Summary") != 1:
        out.violate("C21", "summary", f"{what}: {text.count('Execution Summary')} execution summaries were printed")
        return
    summary, repeated = parse_summary(text, want)
    for n in repeated:
        out.violate("C21", "summary", f"{what}: {n} is listed more than once")
    for n in must:
        if n not in summary:
            out.violate("C21", "missing", f"{what}: {n} is missing in the execution summary")
    for n, s in summary.items():
        for k in ("total", "completed", "skipped", "failed", "orphaned"):
            if s[k] != want[n][k]:
                out.violate("C21", "counts", f"{what}: summary of {n}: {k} {s[k]}, true {want[n][k]}")
        if s["success"] != (want[n]["completed"] == want[n]["total"]):
            out.violate("C21", "success", f"{what}: {n}: {want[n]}, reported as {'' if s['success'] else 'not '}successful")
        if failures is not None and len(s["failures"]) != failures.get(n, 0):
            out.violate("C21", "failures", f"{what}: {n}: {failures.get(n, 0)} failures, {len(s['failures'])} listed")
        out.count("summaries of runs")
    last = {}
    for desc, n, total, counts in parse_bars(text):
        last[desc[:-2]] = (desc[-1:], n, total)
    for n in done:
        f = want[n]
        symbol = "✗" if f["failed"] else "∅" if f["orphaned"] else "✔"
        got = last.get(n)
        # blocks skipped after the last hand-out or return need not be shown
        if got is None or got[0] != symbol or got[2] != f["total"] or not f["completed"] - f["skipped"] <= got[1] <= f["completed"]:
            out.violate("C21", "progress", f"{what}: last progress of {n} {got}, true {symbol} {f}")
        out.count("progress bars of runs")


def full_counts(state):
    return dict(
        total=state.total_block_count,
        processing=state.processing_count,
        completed=state.completed_count,
        skipped=state.skipped_count,
        failed=state.failed_count,
        orphaned=state.orphaned_count,
        pending=state.pending_count,
    )


class Watch:
    """Attaches the command line monitor to a server and captures its output.
    The true counts come from ``counts(name)``, a model of the run."""

    def __init__(self, counts):
        self.counts = counts
        self.stdout, self.stderr = io.StringIO(), io.StringIO()
        self.shown, self.done, self.started = {}, set(), set()

    def attach(self, server):
        from daisy.cl_monitor import CLMonitor
        from daisy.server_observer import ServerObserver

        watch = self
        CLMonitor(server)

        class Recorder(ServerObserver):
            def on_task_start(self, task_id, task_state):
                watch.started.add(task_id)

            def on_acquire_block(self, task_id, task_state):
                watch.shown[task_id] = watch.counts(task_id)

            on_release_block = on_acquire_block

            def on_task_done(self, task_id, task_state):
                watch.done.add(task_id)

        Recorder(server)

    @contextlib.contextmanager
    def captured(self):
        with contextlib.redirect_stdout(self.stdout), contextlib.redirect_stderr(self.stderr):
            yield

    def check(self, out, names, failures, must):
        check_text(
            out,
            self.stdout.getvalue(),
            parse_bars(self.stderr.getvalue()),
            {n: self.counts(n) for n in names},
            failures,
            self.shown,
            self.done,
            must,
        )


# --- generated histories of notifications

names = st.one_of(
    st.sampled_from(["t", "task", "my task", "täsk", "100%", "t1", "t2"]),
    st.text(st.sampled_from("ab1_-. é"), min_size=1, max_size=8).filter(lambda s: s == s.strip()),
)
task = st.fixed_dictionaries(
    dict(
        total=st.one_of(ints(0, 12), ints(90, 130)),
        skipped=ints(0, 3),
        orphans=ints(0, 4),
        fail=ints(0, 10),
        retries=st.sampled_from([0, 0, 1, 3, 30]),
    )
)
cases = st.fixed_dictionaries(
    dict(
        names=st.lists(names, min_size=1, max_size=3, unique=True),
        tasks=st.lists(task, min_size=3, max_size=3),
        order=st.lists(ints(0, 2**16), min_size=1, max_size=60),
        stop=st.sampled_from([None, None, None, 10, 40]),
        logdir=st.sampled_from(["./daisy_logs", "logs", "/tmp/x/y"]),
        runs=ints(1, 2),
        log=st.lists(st.sampled_from(["debug", "info", "warning", "error", "a %s", "100%"]), max_size=4),
    )
)

ERRORS = [
    lambda: ValueError("bad value"),
    lambda: KeyError(3),
    lambda: RuntimeError("two words", 7),
    lambda: OSError(2, "no such file"),
]


def run_monitor_case(case):
    out = Outcome()
    try:
        for run in range(case["runs"]):
            _run(case, out, run)
        _logging(case, out)
    except StopCase:
        pass
    return out


def _run(case, out, run):
    import daisy.logging as dl
    from daisy import Block, Context, Roi
    from daisy.cl_monitor import CLMonitor
    from daisy.server_observer import ServerObservee
    from daisy.task_state import TaskState

    dl.set_log_basedir(case["logdir"])
    server = ServerObservee()
    stdout, stderr = io.StringIO(), io.StringIO()
    tasks = {}
    for n, t in zip(case["names"], case["tasks"]):
        s = TaskState()
        s.total_block_count = t["total"]
        skipped = min(t["skipped"], t["total"])
        s.skipped_count = skipped
        s.completed_count = skipped
        s.ready_count = t["total"] - skipped
        tasks[n] = dict(state=s, spec=t, flight=[], attempts={}, next=skipped, queue=list(range(skipped, t["total"])), done=False, started=False)
    failures, shown, done, touched = {}, {}, set(), set()
    step = 0
    region = Roi((0,), (1,))

    def finish(n):
        t = tasks[n]
        if t["state"].is_done() and not t["done"] and not t["flight"]:
            t["done"] = True
            done.add(n)
            touched.add(n)
            server.notify_task_done(n, t["state"])

    with out.guard("monitor", ("C21",)), contextlib.redirect_stdout(stdout), contextlib.redirect_stderr(stderr):
        CLMonitor(server)
        while True:
            if case["stop"] is not None and step >= case["stop"]:
                break
            for n in tasks:
                finish(n)
            open_ = [n for n, t in tasks.items() if not t["done"]]
            if not open_:
                break
            v = case["order"][step % len(case["order"])] + step
            step += 1
            n = open_[v % len(open_)]
            t = tasks[n]
            s = t["state"]
            v //= 4
            if t["queue"] and (not t["flight"] or v % 3 == 0):
                if not t["started"]:
                    t["started"] = True
                    touched.add(n)
                    server.notify_task_start(n, s)
                b = t["queue"].pop(0)
                t["flight"].append(b)
                s.ready_count -= 1
                s.processing_count += 1
                server.notify_acquire_block(n, s)
                shown[n] = full_counts(s)
            elif t["flight"]:
                b = t["flight"].pop((v // 3) % len(t["flight"]))
                s.processing_count -= 1
                if (b * 7 + v) % 11 < t["spec"]["fail"]:
                    if v % 5:
                        e = ERRORS[v % len(ERRORS)]()
                        w = v % 17
                        block = Block(region, region, region, block_id=b, task_id=n)
                        context = Context(task_id=n, worker_id=w, hostname="h", port=1)
                        failures.setdefault(n, []).append((b, w, repr(e)))
                        server.notify_block_failure(block, e, context)
                    t["attempts"][b] = t["attempts"].get(b, 0) + 1
                    if t["attempts"][b] > t["spec"]["retries"]:
                        s.failed_count += 1
                        k = min(t["spec"]["orphans"], len(t["queue"]))
                        for _ in range(k):
                            q = t["queue"].pop()
                            s.ready_count -= 1
                            s.orphaned_count += 1
                    else:
                        t["queue"].append(b)
                        s.ready_count += 1
                else:
                    s.completed_count += 1
                server.notify_release_block(n, s)
                shown[n] = full_counts(s)
        server.notify_server_exit()
    if step > 100000:
        raise HarnessError("endless history")
    check_text(
        out,
        stdout.getvalue(),
        parse_bars(stderr.getvalue()),
        {n: full_counts(t["state"]) for n, t in tasks.items()},
        failures,
        shown,
        done,
        touched,
        log_of=lambda n, w: str(dl.get_log_basedir() / n / f"worker_{w}"),
    )
    out.count("notifications", step)
    out.nontrivial = len(shown) > 0 and step >= 4
    out.note = f"{len(tasks)} tasks, {step} steps, {sum(len(f) for f in failures.values())} failures"


class Terminal(io.StringIO):
    def isatty(self):
        return True


def _logging(case, out):
    """Log records still reach the terminal once while a monitor is there."""
    from daisy.cl_monitor import CLMonitor
    from daisy.server_observer import ServerObservee

    root = logging.root
    old = list(root.handlers), root.level, root.manager.disable
    term, plain = Terminal(), io.StringIO()
    hs = [logging.StreamHandler(term), logging.StreamHandler(plain)]
    hs[0].setLevel(logging.INFO)
    for h in hs:
        h.setFormatter(logging.Formatter("%(levelname)s <%(message)s>"))
    want = {0: "", 1: ""}
    try:
        root.handlers[:] = hs
        root.setLevel(logging.DEBUG)
        logging.disable(logging.NOTSET)
        log = logging.getLogger("verif.user")
        with out.guard("logging with a monitor", ("C21",)):
            for _ in range(case["runs"]):
                CLMonitor(ServerObservee())
                for m in case["log"]:
                    level = m if m in ("debug", "info", "warning", "error") else "info"
                    getattr(log, level)("%s", m)
                    line = f"{level.upper()} <{m}>\n"
                    want[1] += line
                    if level != "debug":
                        want[0] += line
    finally:
        root.handlers[:] = old[0]
        root.setLevel(old[1])
        logging.disable(old[2])
    for i, s in enumerate((term, plain)):
        got = s.getvalue()
        if [x for x in got.splitlines() if x] != want[i].splitlines():
            out.violate("C21", "logging", f"log records shown as {got[:200]!r} instead of {want[i][:200]!r}")
    out.count("log records", len(case["log"]) * case["runs"])
