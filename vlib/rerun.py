"""Several runs in one process, of the same task objects and of other tasks
with the same names: each run has to behave as if it were the only one."""

import collections
import contextlib
import json
import os
import signal
import sys

from hypothesis import strategies as st

from . import geom, isolate
from .core import HarnessError, Outcome, StopCase
from .sched import Choices, Model, key_of, state_counts, upstream_map
from .serial import choose_skips, make_plan

ints = st.integers


def surroundings():
    """What a run must leave alone."""
    import daisy.logging

    what = {f"environment variable {k}": v for k, v in os.environ.items()}
    what["working directory"] = os.getcwd()
    what["log directory"] = str(daisy.logging.get_log_basedir())
    what["standard output"] = id(sys.stdout)
    what["standard error"] = id(sys.stderr)
    what["arguments"] = list(sys.argv)
    what["import path"] = list(sys.path)
    for s in (signal.SIGINT, signal.SIGTERM, signal.SIGCHLD, signal.SIGPIPE):
        what[f"handler of {s.name}"] = repr(signal.getsignal(s))
    return what


def difference(before, after):
    for k in sorted(set(before) | set(after)):
        if before.get(k) != after.get(k):
            return f"{k} was {before.get(k)!r} and is {after.get(k)!r} after the run"


class Planned(Exception):
    pass


def run_spec(hows, outcomes):
    return st.fixed_dictionaries(
        dict(
            g=ints(0, 1),
            how=st.sampled_from(hows),
            select=st.sampled_from(["all", "leaves", "reversed"]),
            outcomes=st.lists(st.sampled_from(outcomes), max_size=8),
            check=st.sampled_from([None, None, "some", "all"]),
            skip=st.lists(ints(0, 10**6), max_size=6),
            # leave the run after so many blocks
            stop=st.sampled_from([None, None, None, 1, 2, 4]),
        )
    )


def cases(real=False):
    if real:
        hows = ["parallel", "parallel", "server", "serial"]
        outcomes = [0, 0, 0, 1, 3]
        size = 8
    else:
        hows = ["serial", "serial-server", "scheduler"]
        outcomes = [0, 0, 1]
        size = 16
    graph = geom.task_graph(max_tasks=3, max_blocks=size, max_workers=2)
    return st.fixed_dictionaries(
        dict(
            graphs=st.lists(graph, min_size=1, max_size=2),
            runs=st.lists(run_spec(hows, outcomes), min_size=2, max_size=3 if real else 4),
            tail=ints(0, 2**20),
        )
    )


class Watcher:
    """Counts what the observers of each run are told."""

    def __init__(self):
        self.counts = []

    def attach(self, server):
        from daisy.server_observer import ServerObserver

        counts = collections.Counter()
        self.counts.append(counts)

        class Observer(ServerObserver):
            def on_task_start(self, task_id, task_state):
                counts["start"] += 1

            def on_acquire_block(self, task_id, task_state):
                counts["acquire"] += 1

            def on_release_block(self, task_id, task_state):
                counts["release"] += 1

            def on_task_done(self, task_id, task_state):
                counts["done"] += 1

            def on_server_exit(self):
                counts["exit"] += 1

        Observer(server)
        return server

    def snapshot(self):
        return [dict(c) for c in self.counts]


def compare_watch(before, after, attempts, observed, finished):
    """What is wrong with the notifications of a run, if anything."""
    for i, c in enumerate(before):
        if c != after[i]:
            return f"the observer of an earlier run was told {after[i]}, after {c} in its own"
    if observed and finished:
        c = after[len(before)]
        if c.get("release", 0) != attempts or c.get("exit", 0) != 1:
            return f"{attempts} attempts, the observer was told {c}"


class Graph:
    """One set of task objects, used by several runs."""

    def __init__(self, specs, current):
        from daisy import DependencyGraph

        self.specs = specs
        self.names = geom.names_of(specs)
        self.index = {n: i for i, n in enumerate(self.names)}
        graph = DependencyGraph(geom.make_tasks(specs))
        self.ups = upstream_map(graph, self.names, None)
        self.keys = sorted(b.key for t, s in enumerate(specs) for b in geom.model_blocks(t, s))
        self.complete = set(self.keys) == set(self.ups)

        def process(block):
            current["process"](block)

        def check(block):
            return current["check"](block)

        self.tasks = geom.make_tasks(specs, process=[process] * len(specs), check_function=[check] * len(specs))
        self.before = [self.snapshot(t) for t in self.tasks]

    @staticmethod
    def snapshot(task):
        return {k: (list(v) if isinstance(v, list) else v) for k, v in vars(task).items()}

    def changed(self):
        for t, before in zip(self.tasks, self.before):
            now = self.snapshot(t)
            for k in set(before) | set(now):
                a, b = before.get(k), now.get(k)
                if k not in before or k not in now or (a is not b and a != b):
                    return f"{t.task_id}.{k}: {a!r} before, {b!r} after"

    def selected(self, how):
        used = {u for s in self.specs for u in s["up"]}
        if how == "leaves":
            return [t for i, t in enumerate(self.tasks) if i not in used]
        return self.tasks[::-1] if how == "reversed" else list(self.tasks)

    def model(self):
        return Model(self.specs, lambda k: self.ups.get(k, set()))


def plan_of(g, r):
    skippable, raising = choose_skips(r, g.keys)
    plan = make_plan(r["outcomes"])
    return plan, skippable, raising


def expected(g, r):
    """The state all schedules of a (complete) run end with."""
    model = g.model()
    plan, skippable, raising = plan_of(g, r)
    progress = True
    while progress:
        progress = False
        for t in range(len(g.specs)):
            for k in sorted(model.ready(t)):
                progress = True
                if k in skippable and k not in raising:
                    model.skip(k)
                    continue
                model.hand_out(k)
                if plan(k, model.attempts[k], g.keys) in (1, 3):
                    model.fail(k)
                else:
                    model.succeed(k)
    return model


def compare(out, g, r, model, attempts, states, where):
    for k in g.keys:
        if attempts.get(k, 0) != model.attempts[k]:
            out.violate(
                "C23", "attempts", f"{where}: {model.blocks[k]} processed {attempts.get(k, 0)} times, expected {model.attempts[k]}"
            )
            break
    if states is not None:
        for t, n in enumerate(g.names):
            if states.get(n) != model.counts(t):
                out.violate("C23", "states", f"{where}: {n} ended with {states.get(n)}, expected {model.counts(t)}")


def run_rerun_case(case):
    out = Outcome()
    try:
        _run(case, out)
    except StopCase:
        pass
    return out


def _run(case, out):
    import daisy
    from daisy import BlockStatus, Scheduler, SerialServer

    current = {}
    with out.guard("creating tasks", ("C23",)):
        graphs = [Graph(specs, current) for specs in case["graphs"]]
    if not all(g.complete for g in graphs):
        return  # not the subject of this check
    choices = Choices([], case["tail"])
    watcher = Watcher()
    for i, r in enumerate(case["runs"]):
        told = watcher.snapshot()
        g = graphs[r["g"] % len(graphs)]
        plan, skippable, raising = plan_of(g, r)
        attempts = collections.Counter()
        calls = [0]
        where = f"run {i + 1} ({r['how']})"

        def process(block):
            calls[0] += 1
            if r["stop"] is not None and calls[0] > r["stop"]:
                raise Planned()
            if calls[0] > 50 + 20 * len(g.keys):
                raise StopCase()
            k = key_of(g.index, block)
            attempts[k] += 1
            if plan(k, attempts[k], g.keys) == 1:
                block.status = BlockStatus.FAILED

        def check(block):
            k = key_of(g.index, block)
            if k in raising:
                raise ValueError("planned")
            return k in skippable

        current.update(process=process, check=check)
        selected = g.selected(r["select"])
        given = list(selected)
        states = None
        stopped = False
        before = surroundings()
        try:
            with out.guard(where, ("C23",)), open(os.devnull, "w") as null, contextlib.redirect_stderr(
                null
            ), contextlib.redirect_stdout(null):
                try:
                    if r["how"] == "serial":
                        states = daisy.run_blockwise(selected, multiprocessing=False)
                    elif r["how"] == "serial-server":
                        states = watcher.attach(SerialServer()).run_blockwise(selected)
                    else:
                        scheduler = Scheduler(selected)
                        flight = []
                        while True:
                            c = choices.next()
                            ready = [t.task_id for t in scheduler.get_ready_tasks()]
                            if ready and (not flight or c % 2):
                                b = scheduler.acquire_block(ready[c // 2 % len(ready)])
                                if b is not None:
                                    b.status = BlockStatus.SUCCESS
                                    process(b)
                                    flight.append(b)
                            elif flight:
                                scheduler.release_block(flight.pop(c // 2 % len(flight)))
                            else:
                                break
                        states = scheduler.task_states
                except Planned:
                    stopped = True
                except StopCase:
                    out.violate("C23", "endless", f"{where}: blocks are processed forever")
                    return
        except StopCase:
            return
        out.count("runs")
        out.count("runs left early", int(stopped))
        if len(selected) != len(given) or any(a is not b for a, b in zip(selected, given)):
            out.violate("C23", "list", f"{where}: the list of tasks was changed")
        change = g.changed()
        if change:
            out.violate("C23", "task", f"{where}: {change}")
        change = difference(before, surroundings())
        if change:
            out.violate("C23", "surroundings", f"{where}: {change}")
        wrong = compare_watch(told, watcher.snapshot(), sum(attempts.values()), r["how"] == "serial-server", not stopped)
        if wrong:
            out.violate("C23", "observers", f"{where}: {wrong}")
        if stopped:
            continue
        model = expected(g, r)
        out.count("blocks processed", len(attempts))
        compare(out, g, r, model, attempts, {n: state_counts(states[n]) for n in g.names}, where)
        if out.violations:
            return
    out.nontrivial = sum(len(g.keys) for g in graphs) >= 2 and out.stats.get("blocks processed", 0) >= 2
    out.note = f"{len(graphs)} graphs, {[r['how'] for r in case['runs']]}"


# --- real runs ---------------------------------------------------------------


def child(case, workdir):
    import daisy
    from daisy import BlockStatus, Context, Server

    current = {}
    graphs = [Graph(specs, current) for specs in case["graphs"]]
    watcher = Watcher()
    results = []
    for i, r in enumerate(case["runs"]):
        g = graphs[r["g"] % len(graphs)]
        plan, skippable, raising = plan_of(g, r)
        base = os.path.join(workdir, f"run-{i}")
        os.mkdir(base)
        real = r["how"] != "serial"

        def process(block, g=g, base=base, plan=plan, real=real):
            k = key_of(g.index, block)
            idx = g.keys.index(k)
            fd = os.open(os.path.join(base, f"{idx}"), os.O_WRONLY | os.O_APPEND | os.O_CREAT)
            os.write(fd, b"x")
            n = os.fstat(fd).st_size
            os.close(fd)
            if real:
                fd = os.open(os.path.join(workdir, "workers"), os.O_WRONLY | os.O_APPEND | os.O_CREAT)
                os.write(fd, (json.dumps([i, Context.from_env()["worker_id"], os.getpid(), block.task_id]) + "\n").encode())
                os.close(fd)
            o = plan(k, n, g.keys)
            if o == 3 and real:
                os.kill(os.getpid(), signal.SIGKILL)
            if o in (1, 3):
                block.status = BlockStatus.FAILED

        def check(block, g=g, skippable=skippable, raising=raising):
            k = key_of(g.index, block)
            if k in raising:
                raise ValueError("planned")
            return k in skippable

        current.update(process=process, check=check)
        selected = g.selected(r["select"])
        given = list(selected)
        res = dict(error=None, returned=None, states=None)
        told = watcher.snapshot()
        before = surroundings()
        try:
            if r["how"] == "parallel":
                res["returned"] = daisy.run_blockwise(selected)
            elif r["how"] == "server":
                states = watcher.attach(Server()).run_blockwise(selected)
                res["states"] = {n: state_counts(s) for n, s in states.items()}
            else:
                states = daisy.run_blockwise(selected, multiprocessing=False)
                res["states"] = {n: state_counts(s) for n, s in states.items()}
        except Exception as e:
            res["error"] = f"{type(e).__name__}: {e}"
        res["list"] = len(given) == len(selected) and all(a is b for a, b in zip(given, selected))
        res["task"] = g.changed() or difference(before, surroundings())
        res["attempts"] = {f: os.stat(os.path.join(base, f)).st_size for f in os.listdir(base)}
        res["observers"] = compare_watch(told, watcher.snapshot(), sum(res["attempts"].values()), r["how"] == "server", not res["error"])
        results.append(res)
    workers = []
    if os.path.exists(os.path.join(workdir, "workers")):
        with open(os.path.join(workdir, "workers")) as f:
            workers = [json.loads(line) for line in f]
    return dict(results=results, workers=workers)


def run_real_case(case):
    out = Outcome()
    with out.guard("creating tasks", ("C23",)):
        graphs = [Graph(specs, {}) for specs in case["graphs"]]
    if not all(g.complete for g in graphs):
        return out
    r = isolate.run(child, case)
    if r.hung:
        out.violate(("C23", "C12"), "hang", f"one of {len(case['runs'])} runs did not end within {isolate.LIMITS[-1]} s")
        return out
    if r.died:
        out.violate(("C23", "C12"), "died", f"the calling process was ended ({r.died})")
        return out
    if r.error:
        raise HarnessError(r.error)
    for i, (run, res) in enumerate(zip(case["runs"], r.value["results"])):
        g = graphs[run["g"] % len(graphs)]
        where = f"run {i + 1} ({run['how']})"
        if res["error"]:
            out.violate("C23", "exception", f"{where} raised {res['error']}")
            continue
        if res["observers"]:
            out.violate("C23", "observers", f"{where}: {res['observers']}")
        if not res["list"]:
            out.violate("C23", "list", f"{where}: the list of tasks was changed")
        if res["task"]:
            out.violate("C23", "task", f"{where}: {res['task']}")
        model = expected(g, run)
        attempts = {g.keys[int(f)]: n for f, n in res["attempts"].items()}
        compare(out, g, run, model, attempts, res["states"], where)
        if run["how"] == "parallel" and res["returned"] is not (len(model.completed) == len(g.keys)):
            out.violate("C23", "returned", f"{where} returned {res['returned']}")
        out.count("blocks processed", len(attempts))
        out.count("runs " + run["how"])
    # a worker id belongs to one process, task and run
    owners = {}
    for i, worker, pid, task in r.value["workers"]:
        if owners.setdefault(worker, (i, pid, task)) != (i, pid, task):
            out.violate("C23", "worker-id", f"worker id {worker} used for {owners[worker]} and {(i, pid, task)} (run, process, task)")
    out.count("worker ids", len(owners))
    out.nontrivial = sum(1 for x in case["runs"] if x["how"] != "serial") >= 1 and out.stats.get("blocks processed", 0) >= 2
    out.note = f"{len(graphs)} graphs, {[x['how'] for x in case['runs']]}, {len(owners)} workers, {r.seconds:.1f} s"
    return out


# --- many runs ---------------------------------------------------------------

SPARE_FDS = 60


def many_cases():
    graph = geom.task_graph(max_tasks=2, max_blocks=3, max_workers=2)
    return st.fixed_dictionaries(
        dict(
            graph=graph,
            n=ints(22, 34),
            hows=st.lists(st.sampled_from(["parallel", "parallel", "server"]), min_size=1, max_size=3),
            # which block fails in which run, how
            faults=st.lists(st.tuples(ints(0, 40), ints(0, 10), st.sampled_from([1, 3])).map(list), max_size=4),
        )
    )


def many_child(case, workdir):
    import gc
    import resource
    import threading
    import daisy
    from daisy import BlockStatus, Server

    current = {}
    g = Graph(case["graph"], current)
    results = []
    threads = None
    for i in range(case["n"]):
        how = case["hows"][i % len(case["hows"])]
        fails = {g.keys[b % len(g.keys)]: kind for r, b, kind in case["faults"] if r == i and g.keys}
        base = os.path.join(workdir, f"run-{i}")
        os.mkdir(base)

        def process(block, fails=fails, base=base):
            k = key_of(g.index, block)
            fd = os.open(os.path.join(base, f"{g.keys.index(k)}"), os.O_WRONLY | os.O_APPEND | os.O_CREAT)
            os.write(fd, b"x")
            os.close(fd)
            if fails.get(k) == 3:
                os.kill(os.getpid(), signal.SIGKILL)
            elif fails.get(k):
                block.status = BlockStatus.FAILED

        current.update(process=process, check=lambda block: False)
        res = dict(error=None, completed=None)
        try:
            if how == "parallel":
                res["completed"] = daisy.run_blockwise(list(g.tasks))
            else:
                states = Server().run_blockwise(list(g.tasks))
                res["completed"] = all(s.completed_count == s.total_block_count for s in states.values())
        except Exception as e:
            res["error"] = f"{type(e).__name__}: {e}"
        res["attempts"] = {f: os.stat(os.path.join(base, f)).st_size for f in os.listdir(base)}
        results.append(res)
        if res["error"]:
            break
        gc.collect()
        if i == 1:
            threads = threading.active_count()
            used = {int(f) for f in os.listdir("/proc/self/fd")}
            limit = [f for f in range(len(used) + SPARE_FDS + 1) if f not in used][SPARE_FDS]
            hard = resource.getrlimit(resource.RLIMIT_NOFILE)[1]
            resource.setrlimit(resource.RLIMIT_NOFILE, (limit, hard))
    return dict(results=results, threads=[threads, threading.active_count()])


def run_many_case(case):
    out = Outcome()
    with out.guard("creating tasks", ("C23",)):
        g = Graph(case["graph"], {})
    if not g.complete or not g.keys:
        return out
    r = isolate.run(many_child, case)
    if r.hung:
        out.violate(("C23", "C12"), "hang", f"one of {case['n']} runs did not end within {isolate.LIMITS[-1]} s")
        return out
    if r.died:
        out.violate(("C23", "C12"), "died", f"the calling process was ended ({r.died})")
        return out
    if r.error:
        raise HarnessError(r.error)
    for i, res in enumerate(r.value["results"]):
        where = f"run {i + 1} of {case['n']}"
        if res["error"]:
            out.violate("C23", "exception", f"{where} raised {res['error']}")
            return out
        fails = {g.keys[b % len(g.keys)] for n, b, kind in case["faults"] if n == i}
        model = g.model()
        while any(model.ready(t) for t in range(len(g.specs))):
            for t in range(len(g.specs)):
                for k in sorted(model.ready(t)):
                    model.hand_out(k)
                    (model.fail if k in fails else model.succeed)(k)
        attempts = {g.keys[int(f)]: n for f, n in res["attempts"].items()}
        if res["completed"] is not (not model.failed):
            out.violate("C23", "returned", f"{where} ended with {res['completed']}, {len(model.failed)} blocks fail")
        for k in g.keys:
            if attempts.get(k, 0) != model.attempts[k]:
                out.violate("C23", "attempts", f"{where}: {model.blocks[k]} processed {attempts.get(k, 0)} times, expected {model.attempts[k]}")
                break
        out.count("runs")
        out.count("runs with failures", int(bool(model.failed)))
    before, after = r.value["threads"]
    if after > before + case["n"] // 3:
        out.violate("C23", "threads", f"{before} threads after two runs, {after} after {case['n']}")
    out.nontrivial = len(g.keys) >= 2
    out.note = f"{case['n']} runs of {len(g.keys)} blocks, {r.seconds:.1f} s"
    return out


# --- very many runs ----------------------------------------------------------


def thousand_cases():
    graph = geom.task_graph(max_tasks=2, max_blocks=2, max_workers=1)
    return st.fixed_dictionaries(
        dict(
            graph=graph,
            n=ints(1010, 1200),
            hows=st.sampled_from([["serial"], ["serial"], ["serial"], ["serial-server"], ["serial", "serial-server"]]),
            # every so many runs, a log record is written, the terminal is
            # the (only) place where it goes
            record=ints(1, 400),
            terminal=st.sampled_from([True, True, False]),
        )
    )


class Terminal:
    def __init__(self):
        self.text = []

    def isatty(self):
        return True

    def write(self, text):
        self.text.append(text)

    def flush(self):
        pass


def thousand_child(case, workdir):
    import logging
    import daisy

    current = {}
    g = Graph(case["graph"], current)
    terminal = Terminal()
    sys.setrecursionlimit(1000)  # the default, which hypothesis raises
    logging.disable(logging.NOTSET)
    logging.root.setLevel(logging.WARNING)
    if case["terminal"]:
        handler = logging.StreamHandler(terminal)
        handler.setFormatter(logging.Formatter("<%(message)s>"))
        logging.root.addHandler(handler)
    processed = [0]

    def process(block):
        processed[0] += 1

    current.update(process=process, check=lambda block: False)
    records = 0
    with open(os.devnull, "w") as null, contextlib.redirect_stderr(null), contextlib.redirect_stdout(null):
        for i in range(case["n"]):
            processed[0] = 0
            try:
                if case["hows"][i % len(case["hows"])] == "serial":
                    states = daisy.run_blockwise(list(g.tasks), multiprocessing=False)
                else:
                    states = daisy.SerialServer().run_blockwise(list(g.tasks))
                done = sum(s.completed_count for s in states.values())
                if i % case["record"] == 0:
                    records += 1
                    logging.warning("record %d", i)
            except Exception as e:
                return dict(error=f"run {i + 1} raised {type(e).__name__}: {str(e)[:200]}")
            if done != len(g.keys) or processed[0] != len(g.keys):
                return dict(error=f"run {i + 1} processed {processed[0]} of {len(g.keys)} blocks, {done} completed")
    seen = "".join(terminal.text).count("<record ")
    if case["terminal"] and seen != records:
        return dict(error=f"{records} log records were written, {seen} shown")
    return dict(error=None)


def run_thousand_case(case):
    out = Outcome()
    with out.guard("creating tasks", ("C23",)):
        g = Graph(case["graph"], {})
    if not g.complete or not g.keys:
        return out
    r = isolate.run(thousand_child, case)
    if r.hung:
        out.violate("C23", "hang", f"one of {case['n']} runs did not end within {isolate.LIMITS[-1]} s")
    elif r.died:
        out.violate("C23", "died", f"the calling process was ended ({r.died})")
    elif r.error:
        raise HarnessError(r.error)
    elif r.value["error"]:
        out.violate("C23", "many", r.value["error"])
    out.count("runs", case["n"])
    out.nontrivial = True
    out.note = f"{case['n']} runs of {len(g.keys)} blocks, {r.seconds:.1f} s"
    return out
