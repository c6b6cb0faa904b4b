"""Process functions in all forms of callables, run in real workers (and
sequentially)."""

import collections
import functools
import json
import os
import sys

from hypothesis import strategies as st

from . import isolate
from .core import HarnessError, Outcome

ints = st.integers


class Custom(Exception):
    pass


ERRORS = [
    ValueError,
    OSError,
    RuntimeError,
    KeyError,
    StopIteration,
    StopAsyncIteration,
    ConnectionError,
    BrokenPipeError,
    FileNotFoundError,
    TimeoutError,
    EOFError,
    MemoryError,
    AssertionError,
    TypeError,
    AttributeError,
    NotImplementedError,
    ZeroDivisionError,
    Custom,
]


def record(path, **what):
    fd = os.open(path, os.O_WRONLY | os.O_APPEND | os.O_CREAT)
    try:
        os.write(fd, (json.dumps(what) + "\n").encode())
    finally:
        os.close(fd)


def called(path, state, args, fail=((), 0, False)):
    """What every process function does."""
    state["calls"] += 1
    b = args[0] if len(args) == 1 else None
    n = None
    if b is not None and type(b).__name__ == "Block":
        n = int(b.write_roi.begin[0]) // 10
        b = [str(b.read_roi), str(b.write_roi), b.task_id, b.status.name]
    else:
        b = repr(args)
    record(path, kind="call", pid=os.getpid(), block=b, n=n, value=state["value"], calls=state["calls"])
    blocks, error, always = fail
    if n in blocks:
        marker = f"{path}.failed-{n}"
        if always or not os.path.exists(marker):
            open(marker, "w").close()
            raise ERRORS[error]("planned")


def spawned(path, state, args, fail=((), 0, False)):
    """What every function that runs its own client does."""
    from daisy import Client, Context

    state["calls"] += 1
    record(path, kind="spawn", pid=os.getpid(), args=repr(args), value=state["value"], calls=state["calls"], worker=Context.from_env()["worker_id"])
    client = Client()
    inner = dict(value=state["value"], calls=0)
    while True:
        with client.acquire_block() as block:
            if block is None:
                break
            called(path, inner, (block,), fail)


def wrapped(f):
    @functools.wraps(f)
    def wrapper(*args, **kwargs):
        return f(*args, **kwargs)

    return wrapper


def swap(f):
    """A decorator that leaves the signature alone, without wraps."""

    def wrapper(block):
        return f(block)

    return wrapper


def make_callables(what, path, state, fail):
    """name -> (number of arguments, callable); what is called or spawned"""

    class Thing:
        def __init__(self):
            self.state = state

        def method(self, block):
            what(path, self.state, (block,), fail)

        def empty(self):
            what(path, self.state, (), fail)

        def odd_self(this, block):
            what(path, this.state, (block,), fail)

        def odd_empty(this):
            what(path, this.state, (), fail)

        def named_self(self_, self):
            what(path, self_.state, (self,), fail)

        @classmethod
        def class_method(cls, block):
            what(path, state, (block,), fail)

        @classmethod
        def class_empty(cls):
            what(path, state, (), fail)

        @staticmethod
        def static_method(block):
            what(path, state, (block,), fail)

        @staticmethod
        def static_empty():
            what(path, state, (), fail)

        def two(self, block, x):
            what(path, self.state, (block,), fail)

        def __call__(self, block):
            what(path, self.state, (block,), fail)

    class Empty:
        def __init__(self):
            self.state = state

        def __call__(self):
            what(path, self.state, (), fail)

    def closure(block):
        what(path, state, (block,), fail)

    def closure_empty():
        what(path, state, (), fail)

    def default_state(block, *, s=state):
        what(path, s, (block,), fail)

    def named_self(self):
        what(path, state, (self,), fail)

    def positional(block, /):
        what(path, state, (block,), fail)

    def two(x, block):
        assert x == "first"
        what(path, state, (block,), fail)

    def two_kw(block, x):
        assert x == "second"
        what(path, state, (block,), fail)

    def default(block, x=1):
        what(path, state, (block,), fail)

    def three(a, b, c):
        pass

    thing = Thing()
    return {
        "closure": (1, closure),
        "lambda": (1, lambda block: what(path, state, (block,), fail)),
        "method": (1, thing.method),
        "odd-self": (1, thing.odd_self),
        "method-argument-self": (1, thing.named_self),
        "class-method": (1, Thing.class_method),
        "class-method-of-instance": (1, thing.class_method),
        "static-method": (1, Thing.static_method),
        "object": (1, thing),
        "keyword-default": (1, default_state),
        "argument-self": (1, named_self),
        "positional-only": (1, positional),
        "wrapped": (1, wrapped(closure)),
        "wrapped-method": (1, wrapped(thing.method)),
        "decorated": (1, swap(closure)),
        "partial": (1, functools.partial(two, "first")),
        "partial-keyword": (1, functools.partial(two_kw, x="second")),
        "partial-method": (1, functools.partial(thing.method)),
        "partial-of-partial": (1, functools.partial(functools.partial(three, 1), 2) if what is None else functools.partial(functools.partial(two), "first")),
        "empty": (0, closure_empty),
        "lambda-empty": (0, lambda: what(path, state, (), fail)),
        "method-empty": (0, thing.empty),
        "odd-self-empty": (0, thing.odd_empty),
        "class-empty": (0, Thing.class_empty),
        "static-empty": (0, Thing.static_empty),
        "object-empty": (0, Empty()),
        "partial-empty": (0, functools.partial(closure, "no block") if what is None else functools.partial(closure_empty)),
        "wrapped-empty": (0, wrapped(closure_empty)),
        "two": (2, two),
        "two-lambda": (2, lambda a, b: None),
        "two-method": (2, thing.two),
        "unbound": (2, Thing.method),
        "default": (2, default),
        "three": (3, three),
        "partial-three": (2, functools.partial(three, 1)),
        "wrapped-two": (2, wrapped(two)),
    }


NAMES = {n: a for n, (a, _) in make_callables(called, "", {}, ()).items()}

value = st.recursive(
    st.one_of(st.none(), st.booleans(), ints(-(2**40), 2**40), st.text(max_size=5)),
    lambda c: st.one_of(st.lists(c, max_size=3), st.dictionaries(st.text(max_size=3), c, max_size=3)),
    max_leaves=6,
)
cases = st.fixed_dictionaries(
    dict(
        name=st.sampled_from(sorted(NAMES)),
        value=value,
        changed=value,
        change=st.booleans(),
        # the state changes again when the task starts
        late=st.one_of(st.none(), st.lists(value, min_size=1, max_size=1)),
        blocks=ints(1, 8),
        nw=ints(1, 3),
        fail=st.lists(ints(0, 7), max_size=3),
        error=ints(0, len(ERRORS) - 1),
        always=st.booleans(),
        retries=ints(0, 2),
        how=st.sampled_from(["fork", "fork", "fork", "fork", "serial", "spawn", "forkserver"]),
        tasks=st.sampled_from([1, 1, 2]),
    )
)


def child(case, workdir):
    import multiprocessing

    import daisy
    from daisy import Roi, Task

    if case["how"] in ("spawn", "forkserver"):
        main = sys.modules["__main__"]
        main.__spec__ = None
        if hasattr(main, "__file__"):
            del main.__file__
        multiprocessing.set_start_method(case["how"], force=True)

    paths = [os.path.join(workdir, f"calls-{t}") for t in range(case["tasks"])]
    states = [dict(value=case["value"], calls=0) for _ in paths]
    tasks = []
    rejected = None

    def changing(state):
        def init(context):
            if case["late"]:
                state["value"] = case["late"][0]

        return init

    for t in range(case["tasks"]):
        # which blocks fail (only their first or all attempts), and how
        fail = (tuple(case["fail"]), case["error"], case["always"])
        one = make_callables(called, paths[t], states[t], fail)[case["name"]]
        what = called if one[0] == 1 else spawned
        arity, f = make_callables(what, paths[t], states[t], fail)[case["name"]]
        try:
            tasks.append(
                Task(
                    f"t{t}",
                    Roi((0,), (case["blocks"] * 10 + 2,)),
                    Roi((-1,), (12,)),
                    Roi((0,), (10,)),
                    f,
                    read_write_conflict=False,
                    num_workers=case["nw"],
                    max_retries=case["retries"],
                    init_callback_fn=changing(states[t]),
                    upstream_tasks=[] if case["always"] or case["retries"] == 0 else tasks[-1:],
                )
            )
        except Exception as e:
            rejected = f"{type(e).__name__}: {e}"
            break
    if rejected or NAMES[case["name"]] > 1:
        return dict(rejected=rejected)
    if case["change"]:
        for s in states:
            s["value"] = case["changed"]
    error = returned = None
    try:
        returned = daisy.run_blockwise(tasks, multiprocessing=case["how"] != "serial")
        if case["how"] == "serial":
            returned = all(s.completed_count == s.total_block_count for s in returned.values())
    except Exception as e:
        error = f"{type(e).__name__}: {e}"
    calls = []
    for p in paths:
        calls.append([json.loads(x) for x in open(p)] if os.path.exists(p) else [])
    return dict(rejected=None, calls=calls, error=error, returned=returned, states=states, pid=os.getpid())


def run_callable_case(case):
    out = Outcome()
    arity = NAMES[case["name"]]
    if arity == 0 and case["how"] == "serial":
        case = dict(case, how="fork")
    if case["how"] == "serial":
        # exceptions are raised to the caller
        case = dict(case, fail=[])
    if case["always"]:
        # a worker with more than three exceptions is stopped, together with
        # whatever it is doing
        case = dict(case, fail=sorted(set(case["fail"]))[: 3 // (1 + case["retries"])])
    what = f"{case['name']} ({arity} arguments, {case['how']})"
    r = isolate.run(child, case)
    if r.hung:
        out.violate("C19", "hang", f"{what}: run did not end within {isolate.LIMITS[-1]} s")
        return out
    if r.died:
        out.violate("C19", "died", f"the calling process was ended ({r.died})")
        return out
    if r.error:
        raise HarnessError(r.error)
    res = r.value
    out.count(f"kind {case['name']}")
    out.count(f"how {case['how']}")
    out.nontrivial = True
    out.note = f"{what}: {str(res)[:200]}"
    if arity > 1:
        if not res["rejected"]:
            out.violate("C19", "accepted", f"{what} was accepted")
        return out
    if res["rejected"]:
        out.violate("C19", "rejected", f"{what} was rejected: {res['rejected']}")
        return out
    if res["error"]:
        out.violate("C19", "exception", f"{what}: run raised {res['error']}")
        return out
    value = case["changed"] if case["change"] else case["value"]
    if case["late"] and case["how"] != "serial":
        value = case["late"][0]
    fail = {f for f in case["fail"] if f < case["blocks"]}
    for t, calls in enumerate(res["calls"]):
        blocks = [c for c in calls if c["kind"] == "call"]
        spawns = [c for c in calls if c["kind"] == "spawn"]
        per_block = collections.Counter(c["n"] for c in blocks)
        again = case["retries"] if case["always"] else min(1, case["retries"])
        want = {n: 1 + again if n in fail else 1 for n in range(case["blocks"])}
        if per_block != want:
            out.violate("C19", "calls", f"{what}: calls per block {dict(per_block)}, expected {want}")
        for c in blocks:
            n = c["n"]
            if n is None or c["block"][:3] != [
                f"[{n * 10}:{n * 10 + 12}] (12)",
                f"[{n * 10 + 1}:{n * 10 + 11}] (10)",
                f"t{t}",
            ]:
                out.violate("C19", "argument", f"{what}: called with {c['block']}")
            elif c["block"][3] != "PROCESSING":
                out.violate("C19", "argument", f"{what}: called with {c['block']}")
            if c["value"] != value:
                out.violate("C19", "state", f"{what}: state in worker is {c['value']!r}, expected {value!r}")
        if arity == 0:
            # (a worker might be stopped before it got that far)
            n = len(spawns)
            if not 1 <= n <= case["nw"] or len({c["worker"] for c in spawns}) != n or len({c["pid"] for c in spawns}) != n:
                out.violate("C19", "spawns", f"{what}: called {len(spawns)} times for {case['nw']} workers")
            for c in spawns:
                if c["args"] != "()" or c["value"] != value or c["calls"] != 1:
                    out.violate("C19", "state", f"{what}: called with {c}, expected {value!r}")
        elif spawns:
            raise HarnessError("unexpected spawn")
        if case["how"] != "serial":
            # workers have their own copy
            for pid in {c["pid"] for c in blocks}:
                n = [c["calls"] for c in blocks if c["pid"] == pid]
                if n != list(range(1, len(n) + 1)):
                    out.violate("C19", "shared", f"{what}: calls counted by worker: {n}")
            if any(c["pid"] == res["pid"] for c in calls):
                out.violate("C19", "process", f"{what}: called in the main process")
            if res["states"][t] != dict(value=value, calls=0):
                out.violate("C19", "shared", f"{what}: state of the caller changed to {res['states'][t]}")
    if res["returned"] is not (not fail or (not case["always"] and case["retries"] > 0)):
        out.violate("C19", "result", f"{what}: run returned {res['returned']}")
    return out
