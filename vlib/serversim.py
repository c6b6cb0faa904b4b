"""Deterministic simulation of a distributed run: the real Server, Scheduler,
worker pools and bookkeeping, with the network and the worker processes
replaced by a simulated world whose events (connect, request, deliver, finish,
fail, crash, disconnect) are interleaved as the generated case says."""

import collections
import contextlib
import pickle

from . import geom
from .core import replaced, HarnessError, Outcome, StopCase
from .tapes import Tapes
from .sched import (
    answer,
    passed_tasks,
    Choices,
    Model,
    check_hand_out,
    check_regions,
    key_of,
    state_counts,
    upstream_map,
)
from .monitor import Watch
from .serial import choose_skips, make_plan


class Abort(BaseException):
    """Leaves the server's event loop."""


class SimError(Exception):
    """The exception raised by simulated user code."""


class OddError(Exception):
    """User exception that cannot be unpickled."""

    def __init__(self, a, b):
        super().__init__(f"{a}-{b}")


class MuteError(Exception):
    """User exception without a representation."""

    def __repr__(self):
        raise TypeError("no text")

    __str__ = __repr__


class FakeStream:
    def __init__(self, world, worker):
        self.world, self.worker = world, worker
        self.address = ("sim", worker.worker_id)
        self.is_closed = False
        self.net = collections.deque()  # towards the server
        self.inbox = collections.deque()  # towards the client
        self.graceful = False

    def send_message(self, message):
        from daisy.tcp import StreamClosedError

        if self.is_closed:
            self.world.on_send_closed(self, message)
            raise StreamClosedError(*self.address)
        message = pickle.loads(pickle.dumps(message))
        self.world.on_send(self, message)
        if self.worker.connected:
            self.inbox.append(message)

    def closed(self):
        return self.is_closed

    def close(self):
        self.is_closed = True

    def __repr__(self):
        return f"stream-of-worker-{self.worker.worker_id}"


class FakeProcess:
    def __init__(self, worker):
        self.worker = worker
        self.pid = 100000 + worker.worker_id
        self.exitcode = None

    def is_alive(self):
        return self.exitcode is None

    def start(self):
        pass

    def terminate(self):
        if self.exitcode is None:
            self.worker.die(-15)

    kill = terminate

    def join(self, timeout=None):
        pass

    def close(self):
        pass


class FakeTCPServer:
    def __init__(self, host=None, *args, **kwargs):
        self.world = FakeTCPServer.current
        self.world.tcp = self
        self.address = (host or "127.0.0.1", 12345)
        self.messages = collections.deque()
        self.errors = collections.deque()
        self.disconnected = False

    def get_message(self, timeout=None):
        return self.world.get_message(timeout)

    def disconnect(self):
        self.disconnected = True
        for w in self.world.workers:
            if w.stream:
                w.stream.close()


def make_fake_worker_class(world):
    import daisy.worker

    class FakeWorker(daisy.worker.Worker):
        """The real worker, without a process."""

        spawn_function = None
        process = None
        proc = None

        @staticmethod
        def get_next_id():
            world.next_id += 1
            return world.next_id - 1

        def start(self):
            if self.process is not None:
                return
            self.process = self.proc = FakeProcess(self)
            self.task = world.index[self.context["task_id"]]
            self.stream = None
            self.connected = False
            self.state = "booting"
            self.block = None
            self.ahead = False  # asked for another block while processing
            self.kept = []  # blocks put aside for another one
            self.finished_blocks = 0
            self.last_ok = True
            self.stopped = False
            world.on_worker_start(self)

        def stop(self):
            if self.process is None:
                return
            self.stopped = True
            world.on_worker_stop(self)
            if self.proc.exitcode is None:
                self.die(-15)
            self.process = None

        # -- simulation --

        def die(self, exitcode):
            self.proc.exitcode = exitcode
            self.state = "dead"
            if self.stream is not None and self.connected:
                self.connected = False
                self.stream.net.append(None)  # close marker

        def send(self, message):
            message.stream = None
            message = pickle.loads(pickle.dumps(message))
            message.stream = self.stream
            self.stream.net.append(message)

        def __repr__(self):
            return f"worker {self.worker_id} of t{self.task} ({self.state})"

    return FakeWorker


class World:
    def __init__(self, case, out, specs, names, model):
        self.case, self.out = case, out
        self.specs, self.names = specs, names
        self.index = {n: i for i, n in enumerate(names)}
        self.model = model
        self.keys = sorted(model.blocks)
        self.plan = make_plan(case["outcomes"])
        self.choices = Choices(case["ops"], case["tail"])
        self.crashes_left = case["crashes"]
        self.rogues_left = case["rogues"]
        self.freezes_left = 3
        self.workers = []
        self.next_id = 0
        self.tcp = None
        self.clock = 1000.0
        self.holder = {}  # key -> stream
        self.returned = {}  # key -> status popped from the holder
        self.lost = set()  # keys of blocks whose holder was lost
        self.unsent = None
        self.in_acquire = False
        self.events = []
        self.idle = 0
        self.calls = 0
        self.frozen = 0
        self.failure_counts = collections.Counter()
        self.expected_failures = []
        self.stopped_at = None
        self.finished = False
        self.short = collections.Counter()
        self.outcomes_seen = set()
        self.ever_ready = set()
        self.limit = 400 + 60 * len(self.keys) * 6 + 200 * sum(s["nw"] for s in specs) + 8 * case["crashes"]
        self.server = None
        self.waiting_replies = collections.Counter()
        self.real_clock = False

    # -- views ---------------------------------------------------------------

    def alive(self, t):
        return [w for w in self.workers if w.task == t and w.proc.exitcode is None]

    def violate(self, props, kind, message):
        self.out.violate(props, kind, f"call {self.calls}: {message}")

    # -- callbacks of fakes ----------------------------------------------------

    def on_worker_start(self, w):
        self.workers.append(w)
        self.out.count("workers started")
        t = w.task
        n = len(self.alive(t))
        if n > self.specs[t]["nw"]:
            self.violate("C13", "too-many", f"{n} live workers for t{t}, {self.specs[t]['nw']} configured")
        m = self.model
        touched = m.ready(t) or any(
            k[0] == t and (m.attempts[k] or k in m.completed) for k in self.keys
        )
        if not touched:
            self.violate("C13", "early", f"worker for t{t} started before it had a ready block")
        self.short[t] = 0

    def on_worker_stop(self, w):
        if self.stopped_at is None and not self.all_settled() and w.proc.exitcode is None:
            n = self.failure_counts[(w.task, w.worker_id)]
            if n <= 3:
                self.violate("C13", "killed", f"{w} was stopped after {n} failures")
        self.out.count("workers stopped")

    def on_send_closed(self, stream, message):
        from daisy.messages import SendBlock

        if isinstance(message, SendBlock):
            self.violate("C11", "closed", f"{message.block} handed to closed {stream}")
            k = key_of(self.index, message.block)
            self.holder[k] = stream
            self.unsent = None

    def on_send(self, stream, message):
        from daisy.messages import RequestShutdown, SendBlock

        w = stream.worker
        self.waiting_replies[w.worker_id] -= 1
        if self.waiting_replies[w.worker_id] < 0:
            self.violate(("C12", "C11"), "unsolicited", f"{type(message).__name__} sent to {w} without request")
        if isinstance(message, SendBlock):
            b = message.block
            k = key_of(self.index, b)
            if k[0] != w.task:
                self.violate(("C11", "C06"), "wrong-task", f"{b} sent to {w}")
            if stream.is_closed:
                self.violate("C11", "closed", f"{b} handed to closed {stream}")
            old = self.holder.get(k)
            if old is not None:
                self.violate("C11", "two-owners", f"{b} handed to {w} while {old} holds it")
            if self.unsent != k:
                self.violate(("C11", "C06"), "unscheduled", f"{b} sent to {w}, but was not acquired for it")
            self.unsent = None
            self.holder[k] = stream
            self.returned.pop(k, None)
            self.out.count("hand-outs")
        elif isinstance(message, RequestShutdown):
            c = self.model.counts(w.task)
            if c["ready"] or c["pending"] or c["processing"]:
                self.violate(
                    "C12", "dismissed", f"{w} dismissed although {c['ready']} blocks are ready, {c['pending']} pending and {c['processing']} being processed"
                )
            self.out.count("dismissals")
        else:
            raise HarnessError(f"unknown message {message}")

    # -- recording scheduler ---------------------------------------------------

    def after_acquire(self, task_id, block):
        if self.unsent is not None:
            self.violate(("C11", "C06"), "unsent", f"{self.unsent} was acquired but not sent to any worker")
            self.unsent = None
        if block is None:
            return
        k = key_of(self.index, block)
        where = f"call {self.calls}"
        check_regions(self.out, self.model, k, block, where)
        inflight = [
            o for o, s in self.holder.items() if o in self.model.processing and not s.is_closed
        ]
        known = len(self.out.violations)
        check_hand_out(self.out, self.model, k, inflight, where)
        if k in self.lost and any("C07" in v.props for v in self.out.violations[known:]):
            self.violate("C11", "lost-uncounted", f"{block} is handed out again after {self.model.attempts[k]} attempts, some of which were lost")
        if k in self.skippable:
            self.violate("C09", "processed", f"{block} is done already")
        self.model.hand_out(k)
        self.unsent = k

    def on_release(self, block):
        from daisy import BlockStatus

        k = key_of(self.index, block)
        status = block.status
        stream = self.holder.get(k)
        where = f"{block} released as {status}"
        if stream is None:
            self.violate("C11", "not-held", f"{where}, but no worker holds it")
            return
        ret = self.returned.get(k)
        if ret is not None:
            if status.name != ret[0] and not (ret[1] and status == BlockStatus.FAILED):
                self.violate(("C11", "C07"), "status", f"{where}, but {stream} returned it as {ret[0]}")
        elif not stream.is_closed:
            self.violate("C11", "spurious", f"{where}, but {stream} is still processing it")
        elif status != BlockStatus.FAILED:
            self.violate("C11", "lost-success", f"{where}, but its worker is lost")
        else:
            self.out.count("lost blocks")
            self.lost.add(k)
        del self.holder[k]
        self.returned.pop(k, None)
        if status == BlockStatus.SUCCESS:
            self.model.succeed(k)
        else:
            self.out.count("failed attempts")
            if self.model.fail(k):
                self.out.count("permanent failures")
            elif self.case.get("check") and self.case.get("late") and (k[0] + sum(k[1]) + self.model.attempts[k]) % 2:
                # done, but its worker did not live to tell
                self.skippable.add(k)
                self.raising.discard(k)
                self.out.count("done although reported as failed")

    def all_settled(self):
        m = self.model
        return len(m.completed) + len(m.failed | m.orphaned) == len(self.keys)

    # -- the world -------------------------------------------------------------

    def actions(self):
        """Possible events, as (weight, function)."""
        acts = []
        for w in self.workers:
            if w.stream is not None and w.stream.net:
                acts.append((6, self.arrive, w))
            if w.proc.exitcode is not None:
                continue
            if w.state == "booting":
                acts.append((4, self.boot, w))
            elif w.state == "waiting":
                if w.stream.inbox:
                    acts.append((6, self.receive, w))
            elif w.state == "processing":
                acts.append((3, self.finish, w))
                if self.case.get("greedy"):
                    if not w.ahead:
                        acts.append((2, self.ask_ahead, w))
                    elif w.stream.inbox:
                        acts.append((2, self.put_aside, w))
            elif w.state == "between":
                acts.append((6, self.request, w))
                if w.last_ok and w.stream.net == collections.deque() and self.case.get("quits"):
                    others = [
                        o
                        for o in self.alive(w.task)
                        if o is not w
                        and o.state in ("waiting", "processing", "between")
                        and not any(type(m).__name__ == "RequestShutdown" for m in o.stream.inbox)
                    ]
                    if others:
                        acts.append((1, self.quit, w))
            elif w.state == "exiting":
                acts.append((4, self.exit, w))
            if self.crashes_left > 0 and w.state != "exiting":
                acts.append((2 if w.state == "processing" else 1, self.crash, w))
            if self.rogues_left > 0 and w.state in ("waiting", "between", "processing"):
                acts.append((1, self.rogue, w))
        return acts

    def boot(self, w, r):
        w.stream = FakeStream(self, w)
        w.connected = True
        self.request(w, r)

    def request(self, w, r):
        from daisy.messages import AcquireBlock

        w.state = "waiting"
        w.send(AcquireBlock(self.names[w.task]))
        self.waiting_replies[w.worker_id] += 1

    def receive(self, w, r):
        from daisy import BlockStatus
        from daisy.messages import RequestShutdown, SendBlock

        m = w.stream.inbox.popleft()
        if isinstance(m, SendBlock):
            w.block = m.block
            w.block.status = BlockStatus.PROCESSING
            w.state = "processing"
        elif isinstance(m, RequestShutdown):
            w.state = "exiting"

    def ask_ahead(self, w, r):
        """The client asks for another block before it returns the current one
        (without waiting for the answer)."""
        self.request(w, r)
        w.state = "processing"
        w.ahead = True
        self.out.count("requests while processing")

    def put_aside(self, w, r):
        from daisy.messages import SendBlock

        if isinstance(w.stream.inbox[0], SendBlock):
            w.kept.append(w.block)
            w.ahead = False
            self.receive(w, r)

    def finish(self, w, r):
        from daisy import BlockStatus
        from daisy.messages import BlockFailed, ReleaseBlock

        k = key_of(self.index, w.block)
        o = self.plan(k, self.model.attempts[k], self.keys)
        self.outcomes_seen.add(o)
        b = w.block
        w.last_ok = o == 0
        if o == 0:
            b.status = BlockStatus.SUCCESS
            w.send(ReleaseBlock(b))
        elif o == 1:
            b.status = BlockStatus.FAILED
            w.send(ReleaseBlock(b))
        else:
            b.status = BlockStatus.FAILED
            e = SimError(f"error {k}") if o == 2 else MuteError() if r % 3 == 0 else OddError(1, 2)
            w.send(BlockFailed(e, b, w.context))
            w.send(ReleaseBlock(b))
        w.block = None
        w.state = "between"
        if w.kept:
            w.block = w.kept.pop()
            w.state = "processing"
        elif w.ahead:
            w.ahead = False
            w.state = "waiting"
        elif r % 2:
            self.request(w, r)

    def quit(self, w, r):
        """The spawn function returns although there might be more blocks."""
        w.proc.exitcode = 0
        w.state = "dead"
        w.connected = False
        w.stream.graceful = True
        self.out.count("early clean exits")

    def exit(self, w, r):
        w.proc.exitcode = 0
        w.state = "dead"
        w.connected = False
        w.stream.graceful = True

    def crash(self, w, r):
        self.crashes_left -= 1
        self.out.count("crashes")
        self.out.count(f"crashes while {w.state}")
        w.die([1, -9, -11, 3][r % 4])

    def rogue(self, w, r):
        """A return of a block that w does not hold (or holds no more)."""
        from daisy.messages import ReleaseBlock
        from daisy import BlockStatus

        self.rogues_left -= 1
        if not self.keys:
            return
        held = sorted(k for k, s in self.holder.items() if s is not w.stream)
        pool = held if held and r % 3 else self.keys
        k = pool[(r // 3) % len(pool)]
        if self.holder.get(k) is w.stream or (
            w.block is not None and key_of(self.index, w.block) == k
        ):
            return
        # not if it might be sent to this very worker before this arrives
        if any(
            getattr(m, "block", None) is not None and key_of(self.index, m.block) == k
            for m in w.stream.inbox
        ):
            return
        b = self.any_block[k].copy()
        b.status = BlockStatus.SUCCESS if (r // 7) % 2 else BlockStatus.FAILED
        w.send(ReleaseBlock(b))
        self.out.count("foreign or stale returns")

    def arrive(self, w, r):
        from daisy.tcp import StreamClosedError

        s = w.stream
        m = s.net.popleft()
        if m is None:
            s.is_closed = True
            self.tcp.errors.append(StreamClosedError(*s.address))
        else:
            self.tcp.messages.append(m)

    # -- the server asks for a message ------------------------------------------

    def step(self):
        acts = self.actions()
        if not acts:
            return False
        r = self.choices.next()
        total = sum(a[0] for a in acts)
        x = r % total
        r //= total
        for weight, fn, w in acts:
            if x < weight:
                fn(w, r)
                return True
            x -= weight
        raise HarnessError("unreachable")

    def check_pools(self):
        for t, s in enumerate(self.specs):
            mine = [w for w in self.workers if w.task == t]
            if not mine:
                continue
            n = len(self.alive(t))
            if n > s["nw"]:
                self.violate("C13", "too-many", f"{n} live workers for t{t}, {s['nw']} configured")
            clean = sum(1 for w in mine if w.proc.exitcode == 0)
            if n + clean < s["nw"]:
                self.short[t] += 1
                if self.short[t] > 3:
                    self.violate(
                        ("C13", "C12"), "not-replaced", f"t{t} has {n} live workers ({clean} exited normally), {s['nw']} configured"
                    )
                    raise Abort()
            else:
                self.short[t] = 0
            for w in mine:
                if w.proc.exitcode is None and self.failure_counts[(t, w.worker_id)] > 3:
                    self.violate("C13", "not-restarted", f"{w} failed {self.failure_counts[(t, w.worker_id)]} times and was not restarted")
                    self.failure_counts[(t, w.worker_id)] = -100

    def get_message(self, timeout):
        self.calls += 1
        if not self.real_clock:
            self.clock += 0.02
        if self.calls > self.limit:
            self.violate(("C12", "C06"), "endless", f"run goes on forever: {self.describe()}")
            raise Abort()
        if self.stopped_at is not None and self.calls > self.stopped_at + 5:
            self.violate("C12", "not-interrupted", "run goes on after being interrupted")
            raise Abort()
        if self.unsent is not None:
            self.violate(("C11", "C12"), "unsent", f"{self.unsent} was acquired but not sent to any worker")
            self.unsent = None
        self.check_pools()
        case_stop = self.case.get("interrupt")
        if case_stop is not None and self.calls == case_stop:
            self.stopped_at = self.calls
            self.server.stop_event.set()
            self.out.count("interrupts")
        if self.frozen > 0:
            self.frozen -= 1
            if self.frozen == 0:
                self.check_served("after being idle")
            if not self.tcp.messages and not self.tcp.errors:
                return None
        else:
            r = self.choices.next()
            n = [0, 1, 1, 1, 2, 2, 3, 5][r % 8]
            if (r // 192) % 30 == 0 and not self.real_clock:
                # blocks may take their time
                self.clock += 7200
                self.out.count("long waits")
            if n == 0 and not self.tcp.messages and not self.tcp.errors:
                n = 1
            progressed = False
            for _ in range(n):
                progressed = self.step() or progressed
            if (r // 8) % 24 == 0 and self.freezes_left > 0 and self.calls > 3:
                self.freezes_left -= 1
                self.frozen = 8 + 2 * len(self.workers)
            if progressed:
                self.idle = 0
        if self.tcp.errors:
            raise self.tcp.errors.popleft()
        if self.tcp.messages:
            self.idle = 0
            m = self.tcp.messages.popleft()
            self.on_pop(m)
            return m
        if self.actions():
            return None
        # nothing can happen anymore, except through the server
        self.idle += 1
        if not self.real_clock:
            self.clock += 0.1
        else:
            import time

            time.sleep(0.02)
        if self.idle > 150:
            self.violate(("C12",) if not self.all_settled() else ("C12", "C06"), "hang", f"nothing happens anymore: {self.describe()}")
            raise Abort()
        return None

    def check_served(self, when):
        for t in range(len(self.specs)):
            if not self.model.ready(t):
                continue
            waiting = [
                w
                for w in self.alive(t)
                if w.state == "waiting"
                and not w.stream.net
                and self.waiting_replies[w.worker_id] > 0
                and not w.stream.inbox
            ]
            queued = [m for m in self.tcp.messages]
            if waiting and not queued:
                self.violate(
                    ("C12", "C06"), "starved", f"{waiting[0]} waits {when} although {len(self.model.ready(t))} blocks are ready"
                )

    def on_pop(self, m):
        from daisy.messages import BlockFailed, ReleaseBlock

        if isinstance(m, (ReleaseBlock, BlockFailed)):
            k = key_of(self.index, m.block)
            s = m.stream
            if isinstance(m, BlockFailed):
                self.failure_counts[(s.worker.task, s.worker.worker_id)] += 1
                self.expected_failures.append(
                    (m.block.block_id, int(m.context["worker_id"]))
                )
            if self.holder.get(k) is s and k not in self.returned:
                self.returned[k] = (m.block.status.name, s.is_closed)
            elif self.holder.get(k) is not s:
                self.out.count("stale returns")

    def describe(self):
        ws = [w for w in self.workers if w.proc.exitcode is None]
        left = [
            k
            for k in self.keys
            if k not in self.model.completed
            and k not in self.model.failed
            and k not in self.model.orphaned
        ]
        return f"{len(left)} blocks left, workers {ws[:4]}, held {list(self.holder)[:3]}"


@contextlib.contextmanager
def patched(world):
    """Replaces the network, the worker processes and the clock of the server,
    wherever modules of daisy refer to them."""
    import daisy.server
    import daisy.tcp
    import daisy.worker
    import time

    class FakeTime:
        def __getattr__(self, name):
            return getattr(time, name)

        def time(self):
            return world.clock

        monotonic = time
        perf_counter = time

        def sleep(self, seconds):
            pass

    FakeTCPServer.current = world
    for mod, name in ((daisy.tcp, "TCPServer"), (daisy.worker, "Worker")):
        if not hasattr(mod, name):
            raise HarnessError(f"seam {mod.__name__}.{name} is gone")
    with contextlib.ExitStack() as stack:
        stack.enter_context(replaced(daisy.tcp.TCPServer, FakeTCPServer))
        stack.enter_context(replaced(daisy.worker.Worker, make_fake_worker_class(world)))
        fake = FakeTime()
        n = stack.enter_context(replaced(time, fake, only=daisy.server))
        for f in (time.time, time.monotonic, time.perf_counter):
            n += stack.enter_context(replaced(f, fake.time, only=daisy.server))
        # the same clock for all parts of the server
        stack.enter_context(replaced(time, fake))
        for f in (time.time, time.monotonic, time.perf_counter):
            stack.enter_context(replaced(f, fake.time))
        if n == 0:
            world.real_clock = True
        yield


def run_server_case(case):
    out = Outcome()
    try:
        _run(case, out)
    except StopCase:
        pass
    return out


def _run(case, out):
    from daisy import DependencyGraph, Scheduler, Server
    from daisy.server_observer import ServerObserver

    specs = case["tasks"]
    names = geom.names_of(specs)
    index = {n: i for i, n in enumerate(names)}
    with out.guard("creating tasks"):
        graph = DependencyGraph(geom.make_tasks(specs))
        ups = upstream_map(graph, names, out)
        any_block = {
            key_of(index, b): b
            for n in names
            for g in [graph.task_dependency_graphs[n]]
            for lvl in range(g.num_levels)
            for b in g.level_blocks(lvl)
        }
    model = Model(specs, lambda k: ups.get(k, set()))
    if set(ups) != set(model.blocks):
        out.violate(("C01", "C06"), "tiling", "blocks of the graph differ from the model")
        raise StopCase()
    world = World(case, out, specs, names, model)
    world.any_block = any_block
    world.skippable, raising = choose_skips(case, world.keys)
    world.raising = raising

    class RecordingScheduler(Scheduler):
        def acquire_block(self, task_id):
            world.in_acquire = True
            try:
                block = super().acquire_block(task_id)
            finally:
                world.in_acquire = False
            world.after_acquire(task_id, block)
            return block

        def release_block(self, block):
            if not world.in_acquire:
                world.on_release(block)
            return super().release_block(block)

    def check(block):
        k = key_of(index, block)
        if k in raising:
            raise ValueError("check failed")
        if k in world.skippable:
            if k not in model.ready(k[0]):
                out.violate(("C09", "C06"), "checked-early", f"{block} checked although not ready")
            model.skip(k)
            out.count("skipped blocks")
            return answer(True, k)
        return answer(False, k)

    cf = None
    if case.get("check"):
        cf = (check, lambda b: 1 / 0) if case.get("pair") else check

    events = world.events
    inits = collections.Counter()

    def make_init(n):
        def init(context):
            inits[n] += 1
            events.append(("init", n))
            if context["task_id"] != n or str(context["port"]) != "12345":
                out.violate("C18", "init", f"start callback of {n} got {context}")

        return init

    class Observer(ServerObserver):
        def on_task_start(self, task_id, task_state):
            events.append(("start", task_id))

        def on_acquire_block(self, task_id, task_state):
            self.compare(task_id, task_state, "hand-out")
            events.append(("acquire", task_id))

        def on_release_block(self, task_id, task_state):
            self.compare(task_id, task_state, "return")
            events.append(("release", task_id))

        def compare(self, task_id, task_state, what):
            got, want = state_counts(task_state), model.counts(index[task_id])
            if got != want:
                out.violate(("C18", "C08"), "state", f"at {what} of {task_id}: reported {got}, true {want}")

        def on_task_done(self, task_id, task_state):
            if not model.done(index[task_id]):
                out.violate("C18", "done-early", f"{task_id} announced as done with {model.counts(index[task_id])}")
            events.append(("done", task_id))

        def on_block_failure(self, block, exception, context):
            events.append(("failure", block.block_id, int(context["worker_id"])))

        def on_server_exit(self):
            events.append(("exit",))

    releases = collections.Counter()
    acquires = collections.Counter()
    orig_after, orig_release = world.after_acquire, world.on_release

    def after(task_id, block):
        if block is not None:
            acquires[task_id] += 1
        orig_after(task_id, block)

    def rel(block):
        releases[block.task_id] += 1
        orig_release(block)

    world.after_acquire, world.on_release = after, rel

    states = None
    tapes = None
    aborted = False
    watch = None
    if case.get("monitor"):
        watch = Watch(lambda n: model.counts(index[n]))
    with out.guard("creating tasks"):
        tasks = geom.make_tasks(
            specs,
            check_function=[cf] * len(specs),
            init_callback_fn=[make_init(n) for n in names],
        )
        passed = passed_tasks(tasks, specs, case.get("pass", 0))
        scheduler = RecordingScheduler(passed)
    try:
        with patched(world):
            with out.guard("distributed run"):
                server = Server()
                world.server = server
                tapes = Tapes(server, lambda: Observer(server))
                if watch is None:
                    states = server.run_blockwise(passed, scheduler=scheduler)
                else:
                    with watch.captured():
                        watch.attach(server)
                        states = server.run_blockwise(passed, scheduler=scheduler)
    except Abort:
        aborted = True
    if world.tcp is None:
        raise HarnessError("the simulated network was not used")

    if tapes is not None and not aborted:
        tapes.check(out, events)
    live = [w for w in world.workers if w.proc.exitcode is None]
    if live:
        out.violate("C13", "left-running", f"{live[:3]} still running after the run")
    kinds = [e[0] for e in events]
    if kinds.count("exit") != 1 or kinds[-1] != "exit":
        out.violate("C18", "exit", f"end of run announced {kinds.count('exit')} times, last events {kinds[-3:]}")
    if aborted:
        return

    interrupted = world.stopped_at is not None
    if not interrupted:
        if not world.all_settled():
            out.violate(("C12", "C06"), "unfinished", f"run ended early: {world.describe()}")
        for t, n in enumerate(names):
            got = state_counts(states[n])
            if got != model.counts(t):
                lost = ("C11",) if any(k[0] == t for k in world.lost) else ()
                out.violate(("C12", "C08", "C07") + lost, "final-state", f"{n}: reported {got}, true {model.counts(t)}")
    for t, n in enumerate(names):
        ev = [e[0] for e in events if len(e) == 2 and e[1] == n]
        if ev.count("start") > 1 or ev.count("done") > 1:
            out.violate("C18", "repeated", f"{n}: {ev.count('start')} starts, {ev.count('done')} ends announced")
        if ev.count("acquire") != acquires[n] or ev.count("release") != releases[n]:
            out.violate(
                "C18", "blocks", f"{n}: {acquires[n]} hand-outs and {releases[n]} returns, announced {ev.count('acquire')} and {ev.count('release')}"
            )
        if "acquire" in ev and ("start" not in ev or ev.index("start") > ev.index("acquire")):
            out.violate("C18", "start", f"{n}: {ev[:4]}")
        if "start" in ev and inits[n] != 1:
            out.violate("C18", "init", f"start callback of {n} called {inits[n]} times")
        if not interrupted and "done" not in ev:
            out.violate("C18", "done", f"{n} was not announced as done")
        if "done" in ev and ("release" in ev[ev.index("done") :] or "acquire" in ev[ev.index("done") :]):
            out.violate("C18", "done", f"{n}: {ev[ev.index('done'):][:4]}")
    told = sorted((e[1], e[2]) for e in events if e[0] == "failure")
    if told != sorted(world.expected_failures):
        out.violate("C18", "failures", f"{len(world.expected_failures)} failures reported by workers, {len(told)} announced")

    if watch is not None:
        failures = {}
        for b, w in world.expected_failures:
            failures.setdefault(b[0], []).append((b[1], w, None))
        watch.check(out, names, failures, watch.started if interrupted else names)

    out.count("server calls", world.calls)
    out.nontrivial = len(world.keys) >= 2 and len(world.workers) >= 2
    out.note = (
        f"{len(specs)} tasks, {len(world.keys)} blocks, {len(world.workers)} workers, "
        f"{out.stats.get('crashes', 0)} crashes, {world.calls} server calls"
    )
