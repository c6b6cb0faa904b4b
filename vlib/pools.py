"""Worker pools: histories of resizes, deaths, health checks, failures against
a model of the pool. The operating system's processes are replaced by
simulated ones (at the level of ``multiprocessing.process.BaseProcess``), all
of daisy's pool and worker code is real."""

import contextlib
import threading
import multiprocessing.process as mpp

from hypothesis import strategies as st

from .core import Outcome, StopCase

BLOCK_LIMIT = 3


class SimProcesses:
    """Replaces starting, stopping and observing processes."""

    def __init__(self):
        self.started = []  # in order
        self.joined = set()
        self.race = None  # [number of events to wait for, event to set, event to wait for]
        self.peak = 0

    def event(self):
        """Somebody starts or stops a process: a point where other threads may
        get ahead."""
        self.peak = max(self.peak, len(self.alive()))
        race = self.race
        if race is not None and threading.current_thread() is race["first"]:
            race["after"] -= 1
            if race["after"] < 0:
                self.race = None
                race["go"].set()
                race["over"].wait(0.01)

    def worker_of(self, process):
        target = getattr(process, "_target", None)
        return getattr(target, "__self__", None)

    @contextlib.contextmanager
    def installed(self):
        sim = self
        B = mpp.BaseProcess
        names = ["start", "is_alive", "exitcode", "terminate", "kill", "join", "pid", "close", "ident", "sentinel"]
        saved = {n: B.__dict__[n] for n in names}

        def start(p):
            assert not hasattr(p, "_sim_code"), "process started twice"
            p._sim_code = None
            p._sim_n = len(sim.started)
            sim.started.append(p)
            sim.event()

        def is_alive(p):
            return hasattr(p, "_sim_code") and p._sim_code is None

        def terminate(p):
            if p._sim_code is None:
                p._sim_code = -15
                sim.event()

        def kill(p):
            if p._sim_code is None:
                p._sim_code = -9

        def join(p, timeout=None):
            sim.joined.add(p._sim_n)
            if p._sim_code is None and timeout is None:
                raise RuntimeError("waiting forever for a running process")

        try:
            B.start, B.is_alive, B.terminate, B.kill, B.join = start, is_alive, terminate, kill, join
            B.exitcode = property(lambda p: getattr(p, "_sim_code", None))
            B.pid = property(lambda p: 500000 + p._sim_n if hasattr(p, "_sim_n") else None)
            B.ident = B.pid
            B.close = lambda p: None
            yield self
        finally:
            for n, v in saved.items():
                setattr(B, n, v)

    def alive(self):
        return [p for p in self.started if p._sim_code is None]


EXITS = [0, 0, 1, -9, -11, -15, 255, 3]

pool_ops = st.one_of(
    st.tuples(st.just("resize"), st.integers(0, 2), st.integers(0, 6)),
    st.tuples(st.just("resize"), st.integers(0, 2), st.integers(0, 6)),
    st.tuples(st.just("recruit"), st.integers(0, 7), st.just(0)),
    st.tuples(st.just("die"), st.integers(0, 40), st.integers(0, len(EXITS) - 1)),
    st.tuples(st.just("die"), st.integers(0, 40), st.integers(0, len(EXITS) - 1)),
    st.tuples(st.just("health"), st.just(0), st.just(0)),
    st.tuples(st.just("health"), st.just(0), st.just(0)),
    st.tuples(st.just("failure"), st.integers(0, 40), st.integers(1, 5)),
    st.tuples(st.just("failure"), st.integers(0, 3), st.integers(3, 5)),
    st.tuples(st.just("grow"), st.integers(0, 2), st.integers(0, 3)),
    st.tuples(st.just("stop-one"), st.integers(0, 40), st.just(0)),
    st.tuples(st.just("reap"), st.integers(0, 2), st.just(0)),
    st.tuples(st.just("stop-all"), st.just(0), st.just(0)),
    st.tuples(st.just("race"), st.integers(0, 2), st.integers(0, 7 * 7 * 4 - 1)),
)

cases = st.fixed_dictionaries(
    dict(
        nw=st.lists(st.integers(0, 4), min_size=1, max_size=3),
        start=st.booleans(),
        # operations the server itself uses, or all of the interface
        server_only=st.booleans(),
        max_failures=st.sampled_from([None, None, None, 0, 1, 5]),
        ops=st.sampled_from([8, 20, 45]).flatmap(
            lambda n: st.lists(pool_ops.map(list), min_size=n // 2, max_size=n)
        ),
    )
)


class PoolModel:
    """Members in the order they were started; a member is alive, exited
    normally, or died (not noticed yet)."""

    def __init__(self):
        self.members = []  # [id]
        self.state = {}  # id -> "alive" | "exited" | "died"


def run_pool_case(case):
    out = Outcome()
    sim = SimProcesses()
    try:
        with sim.installed():
            _run(case, out, sim)
    except StopCase:
        pass
    return out


def _run(case, out, sim):
    from daisy.server_observer import ServerObservee
    from daisy.task_worker_pools import TaskWorkerPools

    class Task:
        def __init__(self, i, n):
            self.task_id, self.num_workers = f"t{i}", n

        def spawn_worker_function(self):
            pass

    class FakeServer(ServerObservee):
        hostname, port = "localhost", 4711

    tasks = [Task(i, n) for i, n in enumerate(case["nw"])]
    server = FakeServer()
    with out.guard("creating pools"):
        kw = {} if case["max_failures"] is None else dict(max_block_failures=case["max_failures"])
        pools = TaskWorkerPools(tasks, server, **kw)
    limit = 3 if case["max_failures"] is None else case["max_failures"]
    if sim.started:
        out.violate("C13", "early", "workers were started before any task was ready")

    models = [PoolModel() for _ in tasks]
    owner = {}  # worker id -> (task, process, worker)
    failures = {}
    seen = [0]

    def members(t):
        return models[t].members

    def sync(op, expect):
        """expect: task -> number of workers that have to be started by op.
        The model was already updated for stops."""
        new = sim.started[seen[0] :]
        seen[0] = len(sim.started)
        got = {}
        for p in new:
            w = sim.worker_of(p)
            ctx = w.context
            t = int(ctx["task_id"][1:])
            wid = int(ctx["worker_id"])
            if wid in owner:
                out.violate("C13", "worker-id", f"{op}: worker id {wid} used twice")
            if (ctx["hostname"], str(ctx["port"])) != ("localhost", "4711"):
                out.violate("C13", "context", f"{op}: worker got {ctx}")
            if int(w.worker_id) != wid:
                out.violate("C13", "context", f"{op}: worker {w.worker_id} got {ctx}")
            owner[wid] = (t, p, w)
            models[t].members.append(wid)
            models[t].state[wid] = "alive"
            got[t] = got.get(t, 0) + 1
        for t in range(len(tasks)):
            if got.get(t, 0) != expect.get(t, 0):
                out.violate("C13", "started", f"{op}: {got.get(t, 0)} workers of t{t} started, expected {expect.get(t, 0)}")
        for wid, (t, p, w) in owner.items():
            should = models[t].state.get(wid) == "alive" and wid in models[t].members
            if should and p._sim_code is not None:
                out.violate("C13", "killed", f"{op}: worker {wid} of t{t} was stopped")
            if not should and p._sim_code is None:
                out.violate("C13", "left-running", f"{op}: worker {wid} of t{t} is still running")
            if p._sim_code == -15 and stopped_by_us.get(wid) and p._sim_n not in sim.joined:
                out.violate("C13", "not-joined", f"{op}: worker {wid} was not waited for")
        if out.violations:
            raise StopCase()

    stopped_by_us = {}

    def resize(t, n):
        m = models[t]
        diff = n - len(m.members)
        if diff < 0:
            for wid in m.members[diff:]:
                if m.state[wid] == "alive":
                    stopped_by_us[wid] = True
            del m.members[diff:]
        return max(diff, 0)

    def reap(t):
        m = models[t]
        dead = [w for w in m.members if m.state[w] == "died"]
        m.members = [w for w in m.members if m.state[w] != "died"]
        return len(dead)

    def recruit(which):
        d = {tasks[t].task_id: tasks[t] for t in which}
        expect = {t: resize(t, tasks[t].num_workers) for t in which}
        with out.guard("recruit_workers"):
            pools.recruit_workers(d)
        sync(f"recruit {sorted(d)}", expect)

    def race(op, t, pool, n0, n1, after):
        """Resize from two threads; the second one starts while the first one
        is starting or stopping workers."""
        m = models[t]
        before = len(m.members)
        go, over = threading.Event(), threading.Event()
        errors = []

        def second():
            go.wait(20)
            try:
                pool.set_num_workers(n1)
            except BaseException as e:
                errors.append(e)
            over.set()

        thread = threading.Thread(target=second, daemon=True)
        others = len(sim.alive()) - before
        sim.peak = 0
        sim.race = dict(first=threading.current_thread(), after=after, go=go, over=over)
        thread.start()
        try:
            with out.guard(op):
                pool.set_num_workers(n0)
        finally:
            sim.race = None
            go.set()
            thread.join(20)
        if thread.is_alive():
            out.violate("C13", "race", f"{op}: a concurrent resize does not return")
            raise StopCase()
        if errors:
            out.violate("C13", "race", f"{op}: a concurrent resize raised {errors[0]!r}")
            raise StopCase()
        mine = [p for p in sim.alive() if int(sim.worker_of(p).context["task_id"][1:]) == t]
        if len(mine) not in (n0, n1):
            out.violate("C13", "race", f"{op}: {before} workers, resized to {n0} and {n1} at the same time: {len(mine)} alive")
            raise StopCase()
        if sim.peak - others > max(before, n0, n1):
            out.violate(
                "C13", "race", f"{op}: {before} workers, resized to {n0} and {n1} at the same time: {sim.peak - others} alive meanwhile"
            )
        # go on with what is there
        alive = {int(sim.worker_of(p).context["worker_id"]) for p in mine}
        for w in m.members:
            if w not in alive:
                stopped_by_us[w] = True
        m.members = [w for w in m.members if w in alive]
        fresh = {}
        for p in sim.started[seen[0] :]:
            wid = int(sim.worker_of(p).context["worker_id"])
            if wid in alive:
                fresh[wid] = p
            else:
                owner[wid] = (t, p, sim.worker_of(p))
                m.state[wid] = "exited"
                stopped_by_us[wid] = True
        keep = [p for p in sim.started[seen[0] :] if p in fresh.values()]
        sim.started[seen[0] :] = keep
        sync(op, {t: len(keep)})

    if case["start"]:
        recruit(range(len(tasks)))

    peak = 0
    kinds = set()
    for i, (kind, a, b) in enumerate(case["ops"]):
        op = f"operation {i} {kind} {a} {b}"
        if case["server_only"] and kind not in ("recruit", "die", "health", "failure", "stop-all"):
            continue
        t = a % len(tasks)
        pool = pools.worker_pools[tasks[t].task_id]
        if kind == "recruit":
            recruit([t for t in range(len(tasks)) if (a >> t) & 1])
        elif kind == "resize":
            expect = {t: resize(t, b)}
            with out.guard(op):
                pool.set_num_workers(b)
            sync(op, expect)
            out.count("resized down" if not expect[t] else "resized up")
        elif kind == "race":
            m = models[t]
            if any(m.state[w] != "alive" for w in m.members):
                continue
            n0, n1, after = b % 7, b // 7 % 7, b // 49
            race(op, t, pool, n0, n1, after)
            out.count("concurrent resizes")
        elif kind == "grow":
            with out.guard(op):
                pool.inc_num_workers(b)
            sync(op, {t: b})
        elif kind == "die":
            alive = sim.alive()
            if not alive:
                continue
            p = alive[a % len(alive)]
            wid = int(sim.worker_of(p).context["worker_id"])
            p._sim_code = EXITS[b]
            models[owner[wid][0]].state[wid] = "exited" if EXITS[b] == 0 else "died"
            out.count("normal exits" if EXITS[b] == 0 else "abnormal deaths")
        elif kind == "health":
            expect = {t: reap(t) for t in range(len(tasks))}
            with out.guard(op):
                pools.check_worker_health()
            sync(op, expect)
            out.count("replaced", sum(expect.values()))
        elif kind == "reap":
            n = reap(t)
            with out.guard(op):
                got = pool.reap_dead_workers()
            if got != n:
                out.violate("C13", "reaped", f"{op}: {got} dead workers reported, there were {n}")
            sync(op, {})
        elif kind == "failure":
            ids = sorted(owner)
            if not ids:
                continue
            # any worker that ever lived (messages of dead ones may be late)
            wid = ids[-1 - a % len(ids)]
            t = owner[wid][0]
            for j in range(b):
                failures[wid] = failures.get(wid, 0) + 1
                expect = {}
                m = models[t]
                if failures[wid] > limit:
                    failures[wid] = 0
                    if wid in m.members:
                        if m.state[wid] == "alive":
                            stopped_by_us[wid] = True
                        m.members.remove(wid)
                        expect = {t: 1}
                        out.count("restarted")
                with out.guard(op):
                    pools.on_block_failure(None, RuntimeError("x"), owner[wid][2].context.copy())
                sync(f"{op} #{j}", expect)
        elif kind == "stop-one":
            ids = sorted(owner)
            if not ids:
                continue
            wid = ids[a % len(ids)]
            t = owner[wid][0]
            if wid in models[t].members:
                if models[t].state[wid] == "alive":
                    stopped_by_us[wid] = True
                models[t].members.remove(wid)
            with out.guard(op):
                pools.worker_pools[tasks[t].task_id].stop(wid)
            sync(op, {})
        elif kind == "stop-all":
            for t in range(len(tasks)):
                resize(t, 0)
            with out.guard(op):
                pools.stop()
            sync(op, {})
        if case["server_only"]:
            for t in range(len(tasks)):
                n = sum(1 for w in members(t) if models[t].state[w] == "alive")
                if n > case["nw"][t]:
                    out.violate("C13", "too-many", f"{op}: {n} live workers of t{t}, {case['nw'][t]} configured")
        kinds.add(kind)
        peak = max(peak, len(sim.alive()))

    with out.guard("final stop"):
        for t in range(len(tasks)):
            resize(t, 0)
        pools.stop()
    sync("final stop", {})
    if sim.alive():
        out.violate("C13", "left-running", f"{len(sim.alive())} workers running after stopping all pools")
    out.nontrivial = peak >= 2 and len(kinds) >= 3
    out.note = f"{len(tasks)} pools, {len(owner)} workers started, {len(case['ops'])} operations"


# --- single workers ---------------------------------------------------------------

worker_cases = st.fixed_dictionaries(
    dict(
        variables=st.lists(st.tuples(st.sampled_from(["task_id", "hostname", "port", "x"]), st.sampled_from(["a", "1", ""])).map(list), max_size=3),
        ops=st.lists(
            st.tuples(st.integers(0, 2), st.sampled_from(["start", "stop", "stop", "start", "exit", "die"])).map(list), max_size=14
        ),
        workers=st.integers(1, 3),
    )
)


def run_worker_case(case):
    out = Outcome()
    sim = SimProcesses()
    try:
        with sim.installed():
            _run_worker(case, out, sim)
    except StopCase:
        pass
    return out


def _run_worker(case, out, sim):
    from daisy import Context, Worker

    variables = dict(case["variables"])
    context = Context(**variables)
    before = context.to_env()
    with out.guard("starting workers"):
        workers = [Worker(lambda: None, context) for _ in range(case["workers"])]
    state = ["running"] * len(workers)

    def processes(w):
        return [p for p in sim.started if sim.worker_of(p) is w]

    def check(where):
        for i, w in enumerate(workers):
            alive = [p for p in processes(w) if p._sim_code is None]
            if len(alive) != (state[i] == "running"):
                out.violate("C13", "worker", f"{where}: {len(alive)} processes of a worker that is {state[i]}")
            if state[i] == "stopped" and any(p._sim_n not in sim.joined for p in processes(w)):
                out.violate("C13", "worker", f"{where}: stopped without waiting for the process")
            if any(str(w.context[k]) != v for k, v in variables.items()) or str(w.context["worker_id"]) != str(w.worker_id):
                out.violate(("C13", "C15"), "worker", f"{where}: the worker has the context {w.context}, given was {before}")
        if len({w.worker_id for w in workers}) != len(workers):
            out.violate("C13", "worker", f"{where}: ids {[w.worker_id for w in workers]}")
        if context.to_env() != before:
            out.violate(("C13", "C15"), "worker", f"{where}: the context given to the worker was changed to {context}")
        if out.violations:
            raise StopCase()

    check("started")
    restarts = 0
    for i, op in case["ops"]:
        i %= len(workers)
        w = workers[i]
        if op == "start" and state[i] == "dead":
            continue
        where = f"{op} of worker {i} ({state[i]})"
        with out.guard(where):
            if op == "start":
                w.start()
                if state[i] == "stopped":
                    state[i] = "running"
                    restarts += 1
            elif op == "stop":
                w.stop()
                state[i] = "stopped"
            elif state[i] == "running":
                processes(w)[-1]._sim_code = 0 if op == "exit" else -9
                state[i] = "dead"
        check(where)
    out.count("workers started again", restarts)
    out.nontrivial = restarts > 0
    out.note = f"{len(workers)} workers, {len(case['ops'])} operations"
