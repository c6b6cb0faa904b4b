"""Runs that overlap in time: sequential runs whose steps are interleaved (each
in a thread of its own, one of which runs at a time, as a generated schedule
says), and real runs that are started by a block of another run or at the same
time. Each of them has to behave as if it were the only one."""

import collections
import contextlib
import json
import os
import signal
import threading

from hypothesis import strategies as st

from . import geom, isolate
from .core import HarnessError, Outcome, StopCase
from .rerun import Graph, Planned, compare, difference, expected, plan_of, run_spec, surroundings
from .sched import Choices, key_of, state_counts

ints = st.integers


# --- interleaved sequential runs ---------------------------------------------


def interleaved_cases():
    graph = geom.task_graph(max_tasks=3, max_blocks=14, max_workers=2)
    return st.fixed_dictionaries(
        dict(
            graphs=st.lists(graph, min_size=1, max_size=2),
            runs=st.lists(run_spec(["serial", "serial-server", "scheduler"], [0, 0, 1]), min_size=2, max_size=3),
            schedule=st.lists(ints(0, 11), max_size=40),
            tail=ints(0, 2**20),
        )
    )


class Baton:
    """Lets one of several threads run at a time."""

    def __init__(self, n, choices):
        self.condition = threading.Condition()
        self.alive = set(range(n))
        self.turn = 0
        self.choices = choices
        self.switches = 0

    def wait(self, i):
        while self.turn != i:
            if not self.condition.wait(120):
                raise HarnessError("lost the baton")

    def start(self, i):
        with self.condition:
            self.wait(i)

    def switch(self, i):
        with self.condition:
            turn = sorted(self.alive)[self.choices.next() % len(self.alive)]
            if turn != i:
                self.switches += 1
                self.turn = turn
                self.condition.notify_all()
                self.wait(i)

    def leave(self, i):
        with self.condition:
            self.alive.discard(i)
            if self.alive:
                self.turn = sorted(self.alive)[0]
            self.condition.notify_all()


class Run:
    def __init__(self, i, r, g, baton, choices):
        self.i, self.r, self.g, self.baton, self.choices = i, r, g, baton, choices
        self.plan, self.skippable, self.raising = plan_of(g, r)
        self.attempts = collections.Counter()
        self.calls = 0
        self.states = self.error = None
        self.stopped = self.endless = False
        self.where = f"run {i + 1} ({r['how']}, among {len(baton.alive)} at the same time)"
        self.told = collections.Counter()

    def process(self, block):
        from daisy import BlockStatus

        self.baton.switch(self.i)
        self.calls += 1
        if self.r["stop"] is not None and self.calls > self.r["stop"]:
            raise Planned()
        if self.calls > 50 + 20 * len(self.g.keys):
            raise StopCase()
        k = key_of(self.g.index, block)
        self.attempts[k] += 1
        if self.plan(k, self.attempts[k], self.g.keys) == 1:
            block.status = BlockStatus.FAILED

    def check(self, block):
        self.baton.switch(self.i)
        k = key_of(self.g.index, block)
        if k in self.raising:
            raise ValueError("planned")
        return k in self.skippable

    def observed(self, server):
        from daisy.server_observer import ServerObserver

        told = self.told

        class Observer(ServerObserver):
            def on_release_block(self, task_id, task_state):
                told["release"] += 1

            def on_server_exit(self):
                told["exit"] += 1

        Observer(server)
        return server

    def go(self):
        import daisy
        from daisy import BlockStatus, Scheduler, SerialServer

        self.baton.start(self.i)
        try:
            selected = self.g.selected(self.r["select"])
            if self.r["how"] == "serial":
                self.states = daisy.run_blockwise(selected, multiprocessing=False)
            elif self.r["how"] == "serial-server":
                self.states = self.observed(SerialServer()).run_blockwise(selected)
            else:
                scheduler = Scheduler(selected)
                flight = []
                while True:
                    c = self.choices.next()
                    ready = [t.task_id for t in scheduler.get_ready_tasks()]
                    if ready and (not flight or c % 2):
                        b = scheduler.acquire_block(ready[c // 2 % len(ready)])
                        if b is not None:
                            b.status = BlockStatus.SUCCESS
                            self.process(b)
                            flight.append(b)
                    elif flight:
                        scheduler.release_block(flight.pop(c // 2 % len(flight)))
                    else:
                        break
                self.states = scheduler.task_states
        except Planned:
            self.stopped = True
        except StopCase:
            self.endless = True
        except Exception as e:
            self.error = e
        finally:
            self.baton.leave(self.i)


def run_interleaved_case(case):
    out = Outcome()
    current = {}

    class Mine(dict):
        # tasks look up the functions of the run of their thread
        def __getitem__(self, k):
            return getattr(current[threading.get_ident()], k)

    with out.guard("creating tasks", ("C23",)):
        graphs = [Graph(specs, Mine()) for specs in case["graphs"]]
    if not all(g.complete for g in graphs):
        return out
    baton = Baton(len(case["runs"]), Choices(case["schedule"], case["tail"]))
    runs = [
        Run(i, r, graphs[r["g"] % len(graphs)], baton, Choices([], case["tail"] + i))
        for i, r in enumerate(case["runs"])
    ]

    def target(run):
        current[threading.get_ident()] = run
        run.go()

    before = surroundings()
    with open(os.devnull, "w") as null, contextlib.redirect_stderr(null), contextlib.redirect_stdout(null):
        threads = [threading.Thread(target=target, args=(run,), daemon=True) for run in runs]
        for t in threads:
            t.start()
        for t in threads:
            while t.is_alive():
                t.join(0.5)
    for run in runs:
        if isinstance(run.error, HarnessError):
            raise run.error
        if run.error is not None:
            out.violate("C23", "exception", f"{run.where} raised {type(run.error).__name__}: {run.error}")
        elif run.endless:
            out.violate("C23", "endless", f"{run.where}: blocks are processed forever")
        elif not run.stopped:
            compare(
                out,
                run.g,
                run.r,
                expected(run.g, run.r),
                run.attempts,
                {n: state_counts(run.states[n]) for n in run.g.names},
                run.where,
            )
            if run.r["how"] == "serial-server" and (
                run.told["exit"] != 1 or run.told["release"] != sum(run.attempts.values())
            ):
                out.violate(
                    "C23", "observers", f"{run.where}: {sum(run.attempts.values())} attempts, the observer was told {dict(run.told)}"
                )
        if out.violations:
            return out
    for g in graphs:
        change = g.changed()
        if change:
            out.violate("C23", "task", change)
    change = difference(before, surroundings())
    if change:
        out.violate("C23", "surroundings", change)
    out.count("runs", len(runs))
    out.count("switches between runs", baton.switches)
    out.nontrivial = baton.switches >= 2 and sum(len(r.attempts) > 0 for r in runs) >= 2
    out.note = f"{[r['how'] for r in case['runs']]}, {baton.switches} switches"
    return out


# --- real runs at the same time -----------------------------------


def nested_cases():
    graph = geom.task_graph(max_tasks=2, max_blocks=4, max_workers=2)
    return st.fixed_dictionaries(
        dict(
            graphs=st.lists(graph, min_size=2, max_size=3),
            # the run (an earlier one) and the block by which a run is started,
            # or that it is started together with the first run (-1)
            hosts=st.lists(st.tuples(ints(-1, 1), ints(0, 20)).map(list), min_size=2, max_size=2),
            hows=st.lists(st.sampled_from(["parallel", "parallel", "server", "serial"]), min_size=3, max_size=3),
            # run, block, attempts that fail, how (1: failed, 3: killed)
            faults=st.lists(
                st.tuples(ints(0, 2), ints(0, 20), ints(1, 4), st.sampled_from([1, 1, 3])).map(list), max_size=3
            ),
        )
    )


def host_of(case, graphs, i):
    """The run and the block by which run `i` is started, if any."""
    run, block = case["hosts"][i - 1]
    if run < 0:
        return None, None
    run %= i
    return run, graphs[run].keys[block % len(graphs[run].keys)]


def faults_of(case, g, i):
    faults = {}
    for run, block, n, kind in case["faults"]:
        if run == i:
            # the process that does not use workers must survive
            faults[g.keys[block % len(g.keys)]] = (n, 1 if case["hows"][i] == "serial" else kind)
    return faults


def nested_child(case, workdir):
    import daisy
    from daisy import BlockStatus, Context, Server

    graphs = []

    def new_folder(i):
        n = 0
        while True:
            try:
                path = os.path.join(workdir, f"run-{i}-{n}")
                os.mkdir(path)
                return path
            except FileExistsError:
                n += 1

    def start(i):
        g, how = graphs[i], case["hows"][i]
        base = new_folder(i)
        faults = faults_of(case, g, i)
        hosted = [j for j in range(i + 1, len(graphs)) if host_of(case, graphs, j)[0] == i]

        def process(block):
            k = key_of(g.index, block)
            path = os.path.join(base, f"block-{g.keys.index(k)}")
            fd = os.open(path, os.O_WRONLY | os.O_APPEND | os.O_CREAT)
            os.write(fd, b"x")
            os.close(fd)
            attempt = os.stat(path).st_size
            if how != "serial":
                me = f"worker-{Context.from_env()['worker_id']}-{os.getpid()}"
                os.close(os.open(os.path.join(workdir, me), os.O_WRONLY | os.O_CREAT))
            for j in hosted:
                if host_of(case, graphs, j)[1] == k:
                    start(j)
            n, kind = faults.get(k, (0, 0))
            if attempt <= n:
                if kind == 3:
                    os.kill(os.getpid(), signal.SIGKILL)
                block.status = BlockStatus.FAILED

        currents[i].update(process=process, check=lambda block: False)
        res = dict(error=None, completed=None, change=None)
        before = surroundings()
        try:
            if how == "parallel":
                res["completed"] = daisy.run_blockwise(list(g.tasks))
            else:
                if how == "server":
                    states = Server().run_blockwise(list(g.tasks))
                else:
                    states = daisy.run_blockwise(list(g.tasks), multiprocessing=False)
                res["completed"] = all(s.completed_count == s.total_block_count for s in states.values())
        except Exception as e:
            res["error"] = f"{type(e).__name__}: {e}"
        res["change"] = difference(before, surroundings())
        with open(os.path.join(base, "result.tmp"), "w") as f:
            json.dump(res, f)
        os.rename(os.path.join(base, "result.tmp"), os.path.join(base, "result"))

    currents = [{} for _ in case["graphs"]]
    graphs += [Graph(specs, c) for specs, c in zip(case["graphs"], currents)]
    beside = [i for i in range(1, len(graphs)) if host_of(case, graphs, i)[0] is None]
    threads = [threading.Thread(target=start, args=(i,)) for i in beside]
    for t in threads:
        t.start()
    start(0)
    for t in threads:
        t.join()
    runs = {}
    for d in sorted(os.listdir(workdir)):
        if d.startswith("worker-"):
            runs.setdefault("workers", []).append(d.split("-")[1])
        if not d.startswith("run-"):
            continue
        path = os.path.join(workdir, d)
        run = dict(result=None, attempts={})
        for f in os.listdir(path):
            if f == "result":
                with open(os.path.join(path, f)) as h:
                    run["result"] = json.load(h)
            elif f.startswith("block-"):
                run["attempts"][f[6:]] = os.stat(os.path.join(path, f)).st_size
        runs[d] = run
    return runs


def run_nested_case(case):
    """What goes wrong between threads is only believed if it happens again."""
    out = nested_once(case)
    if out.violations and any(run < 0 for run, _ in case["hosts"]):
        for _ in range(8):
            again = nested_once(case)
            if again.violations:
                return again
        out.violations.clear()
        out.count("violations not seen again")
    return out


def nested_once(case):
    out = Outcome()
    with out.guard("creating tasks", ("C23",)):
        graphs = [Graph(specs, {}) for specs in case["graphs"]]
    if not all(g.complete and g.keys for g in graphs):
        return out
    r = isolate.run(nested_child, case)
    if r.hung:
        out.violate(("C23", "C12"), "hang", f"one of several runs at the same time did not end within {isolate.LIMITS[-1]} s")
        return out
    if r.died:
        out.violate(("C23", "C12"), "died", f"the calling process was ended ({r.died})")
        return out
    if r.error:
        raise HarnessError(r.error)
    workers = r.value.pop("workers", [])
    if len(workers) != len(set(workers)):
        out.violate("C23", "worker-ids", f"workers of runs at the same time have the same identifiers: {sorted(workers, key=int)}")
    out.count("workers", len(workers))
    times = [1]  # how often each run has to be started
    for i, g in enumerate(graphs):
        if i > 0:
            run, block = host_of(case, graphs, i)
            times.append(1 if run is None else times[run] * models[run].attempts[block])
        else:
            models = []
        faults = faults_of(case, g, i)
        model = g.model()
        while any(model.ready(t) for t in range(len(g.specs))):
            for t in range(len(g.specs)):
                for k in sorted(model.ready(t)):
                    model.hand_out(k)
                    (model.fail if model.attempts[k] <= faults.get(k, (0, 0))[0] else model.succeed)(k)
        models.append(model)
        mine = [(d, x) for d, x in r.value.items() if d.startswith(f"run-{i}-")]
        host = host_of(case, graphs, i)[0] if i > 0 else None
        how = f"run {i + 1}" if host is None else f"run {i + 1} inside run {host + 1}"
        where = f"{how} ({case['hows'][i]})"
        if len(mine) != times[i]:
            out.violate("C23", "starts", f"{where} was started {len(mine)} times, expected {times[i]}")
            return out
        for d, x in mine:
            res = x["result"]
            if res is None:
                out.violate("C23", "not-ended", f"{where} did not end")
                return out
            if res["error"]:
                out.violate("C23", "exception", f"{where} raised {res['error']}")
                return out
            if res["change"]:
                out.violate("C23", "surroundings", f"{where}: {res['change']}")
            if res["completed"] is not (not model.failed):
                out.violate("C23", "returned", f"{where} ended with {res['completed']}, {len(model.failed)} blocks fail")
            for n, k in enumerate(g.keys):
                got = x["attempts"].get(str(n), 0)
                if got != model.attempts[k]:
                    out.violate("C23", "attempts", f"{where}: {model.blocks[k]} processed {got} times, expected {model.attempts[k]}")
                    return out
            out.count("runs")
    out.nontrivial = sum(times[1:]) >= 1
    out.note = f"{case['hows'][:len(graphs)]}, {sum(times)} runs, {r.seconds:.1f} s"
    return out
