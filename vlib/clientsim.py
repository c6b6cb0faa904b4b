"""Engine driving the real Client (and a Task's worker loop) against a scripted
server connection, with generated user code outcomes."""

import contextlib
import pickle

from hypothesis import strategies as st

from .core import replaced, HarnessError, Outcome, StopCase


class TwoArgs(Exception):
    def __init__(self, a, b):
        super().__init__(f"{a}|{b}")
        self.a, self.b = a, b


class Unpicklable(Exception):
    def __init__(self, text):
        super().__init__(text)
        self.handle = lambda: None


class NoReduce(Exception):
    def __reduce__(self):
        raise TypeError("cannot pickle this")


class NoText(Exception):
    def __repr__(self):
        raise TypeError("no text")

    __str__ = __repr__


def local_class(text):
    class Local(Exception):
        pass

    return Local(text)


def stream_closed(text):
    from daisy.tcp.exceptions import StreamClosedError

    return StreamClosedError(text, 1)


def not_connected(text):
    from daisy.tcp.exceptions import NotConnected

    return NotConnected(text)


EXCEPTIONS = {
    "value": lambda s: ValueError(s),
    "key": lambda s: KeyError(s),
    "os": lambda s: FileNotFoundError(2, s, "some/file"),
    "unicode": lambda s: UnicodeDecodeError("utf-8", s.encode(), 0, 1, "bad"),
    "two": lambda s: TwoArgs(s, 3),
    "unpicklable": lambda s: Unpicklable(s),
    "noreduce": lambda s: NoReduce(s),
    "local": local_class,
    "notext": lambda s: NoText(s),
    "stop": lambda s: StopIteration(s),
    "assert": lambda s: AssertionError(s),
    "memory": lambda s: MemoryError(s),
    "group": lambda s: ExceptionGroup("g", [ValueError(s)]),
    "runtime": lambda s: RuntimeError(s),
    "timeout": lambda s: TimeoutError(s),
    "connection": lambda s: ConnectionResetError(s),
    # daisy's own
    "stream": lambda s: stream_closed(s),
    "not-connected": lambda s: not_connected(s),
    # setting what a block does not have
    "typo": lambda s: TypeError(s),
}
BASES = {
    "interrupt": lambda s: KeyboardInterrupt(s),
    "exit": lambda s: SystemExit(3),
    "base": lambda s: BaseExceptionGroup("b", [KeyboardInterrupt(s)]),
}
STATUSES = ["CREATED", "PROCESSING", "SUCCESS", "FAILED"]

outcome = st.one_of(
    st.just(["ok"]),
    st.sampled_from(STATUSES).map(lambda s: ["status", s]),
    st.tuples(
        st.just("raise"),
        st.sampled_from(sorted(EXCEPTIONS)),
        st.sampled_from([None] + STATUSES),
    ).map(list),
    st.tuples(
        st.just("base"),
        st.sampled_from(sorted(BASES)),
        st.sampled_from([None] + STATUSES),
    ).map(list),
    st.just(["return"]),
    st.just(["continue"]),
)

cases = st.fixed_dictionaries(
    dict(
        steps=st.lists(
            st.fixed_dictionaries(
                dict(waits=st.integers(0, 3), outcome=outcome, text=st.text(max_size=6), nest=st.booleans())
            ),
            max_size=8,
        ),
        end=st.sampled_from(["shutdown", "closed"]),
        endwaits=st.integers(0, 2),
        mode=st.sampled_from(["client", "nested", "task", "task-env"]),
        worker=st.integers(0, 10**6),
        task=st.sampled_from(["t", "my task", "täsk", "a/b", "x" * 40]),
    )
)


def run_client_case(case):
    out = Outcome()
    try:
        _run(case, out)
    except StopCase:
        pass
    return out


def _run(case, out):
    import os
    import daisy
    import daisy.client
    import daisy.tcp
    import daisy.logging as dl
    from daisy import Block, BlockStatus, Client, Context, Roi, Task
    from daisy.messages import (
        AcquireBlock,
        BlockFailed,
        ReleaseBlock,
        RequestShutdown,
        SendBlock,
    )
    from daisy.tcp import StreamClosedError

    steps = case["steps"]
    sent = []
    blocks = [
        Block(
            Roi((0,), (100,)), Roi((i,), (3,)), Roi((i + 1,), (1,)), task_id=case["task"]
        )
        for i in range(len(steps))
    ]

    class FakeTCPClient:
        instances = []

        def __init__(self, host, port):
            self.address = (host, port)
            self.script = None
            self.pos = 0
            self.up = True
            FakeTCPClient.instances.append(self)

        def connected(self):
            return self.up

        def send_message(self, message):
            m = pickle.loads(pickle.dumps(message))
            sent.append(m)
            if isinstance(m, AcquireBlock):
                i = self.pos
                self.pos += 1
                if i < len(steps):
                    b = pickle.loads(pickle.dumps(blocks[i]))
                    # what is left from an earlier attempt must not matter
                    b.status = BlockStatus[STATUSES[i % 4]]
                    self.script = [None] * steps[i]["waits"] + [SendBlock(b)]
                else:
                    end = (
                        RequestShutdown()
                        if case["end"] == "shutdown"
                        else StreamClosedError("sim", 1)
                    )
                    self.script = [None] * case["endwaits"] + [end]

        def get_message(self, timeout=None):
            if timeout is None and self.script and self.script[0] is None:
                while self.script[0] is None:
                    self.script.pop(0)
            if not self.script:
                raise HarnessError("client waits for a message it did not ask for")
            m = self.script.pop(0)
            if isinstance(m, Exception):
                self.up = False
                raise m
            return m

        def disconnect(self):
            self.up = False

    seen = []  # block ids user code saw
    per_block = []  # messages sent while each block was processed
    wrong_status = []

    def user(block, i):
        """Simulated user code; returns 'return'/'continue' or raises."""
        seen.append(block.block_id)
        return act(block, i)

    def act(block, i):
        s = steps[i]
        o = s["outcome"]
        if block.status != BlockStatus.PROCESSING:
            wrong_status.append((i, block.status.name))
        if o[0] == "status":
            block.status = BlockStatus[o[1]]
        elif o[0] in ("raise", "base"):
            if o[2]:
                block.status = BlockStatus[o[2]]
            if o[1] == "typo":
                block.state = BlockStatus.FAILED
                return "accepted"
            table = EXCEPTIONS if o[0] == "raise" else BASES
            raise table[o[1]](s["text"])
        return o[0]

    def expected(i):
        o = steps[i]["outcome"]
        if o[0] in ("raise", "base"):
            return "FAILED"
        if o[0] == "status":
            return "SUCCESS" if o[1] in ("SUCCESS", "PROCESSING") else "FAILED"
        return "SUCCESS"

    seams = contextlib.ExitStack()
    saved_env = os.environ.get("DAISY_CONTEXT")
    saved_dir = dl.get_log_basedir()
    # block 'base' may end the worker: the case continues with a new client
    got_none = 0
    propagated = []
    try:
        seams.enter_context(replaced(daisy.tcp.TCPClient, FakeTCPClient))
        context = Context(
            hostname="127.0.0.1", port=1, task_id=case["task"], worker_id=case["worker"]
        )
        if case["mode"] == "nested":
            # acquires blocks while still working on others
            with out.guard("creating a client"):
                client = Client(context)

            def nested():
                nonlocal got_none
                i = len(seen)
                handled = False
                try:
                    with client.acquire_block() as block:
                        if block is None:
                            got_none += 1
                            return False
                        if i >= len(steps):
                            raise HarnessError("too many blocks")
                        handled = True
                        seen.append(block.block_id)
                        if steps[i].get("nest") and len(seen) < len(steps):
                            nested()
                        act(block, i)
                except HarnessError:
                    raise
                except Exception as e:
                    out.violate("C10", "escaped", f"{e!r} of user code left the client (step {i})")
                    raise StopCase()
                except BaseException as e:
                    if not handled or steps[i]["outcome"][0] != "base":
                        raise
                    propagated.append((i, e))
                return True

            while nested():
                pass
            per_block = [
                [m for m in sent if getattr(m, "block", None) is not None and m.block.block_id == b.block_id] for b in blocks
            ]
        elif case["mode"] == "client":
            with out.guard("creating a client"):
                client = Client(context)
            alive = True
            while alive:
                i = len(seen)
                before = len(sent)
                handled = False
                try:
                    with client.acquire_block() as block:
                        if block is None:
                            got_none += 1
                            alive = False
                        else:
                            if i >= len(steps):
                                raise HarnessError("too many blocks")
                            handled = True
                            r = user(block, i)
                            if r == "continue":
                                continue
                except HarnessError:
                    raise
                except Exception as e:
                    out.violate("C10", "escaped", f"{e!r} of user code left the client (step {i})")
                    raise StopCase()
                except BaseException as e:
                    if not handled or steps[i]["outcome"][0] != "base":
                        raise
                    propagated.append((i, e))
                finally:
                    if handled:
                        per_block.append(sent[before:])
        else:
            os.environ["DAISY_CONTEXT"] = context.to_env()
            calls = []

            def process(block):
                i = len(seen)
                if i >= len(steps):
                    raise HarnessError("too many blocks")
                calls.append(len(sent))
                user(block, i)

            task = Task(
                case["task"],
                Roi((0,), (100,)),
                Roi((0,), (3,)),
                Roi((1,), (1,)),
                process,
            )
            pos = 0
            while True:
                n0 = len(FakeTCPClient.instances)
                try:
                    with out.guard("the worker loop"):
                        task.spawn_worker_function()
                    got_none += 1
                    break
                except StopCase:
                    raise
                except BaseException as e:
                    i = len(seen) - 1
                    if i < 0 or steps[i]["outcome"][0] != "base":
                        raise
                    propagated.append((i, e))
                    # a new worker continues
                    if len(FakeTCPClient.instances) > n0:
                        nxt = len(seen)
                        orig = FakeTCPClient.__init__

                        def init(self, host, port, nxt=nxt, orig=orig):
                            orig(self, host, port)
                            self.pos = nxt

                        FakeTCPClient.__init__ = init
                pos += 1
                if pos > len(steps) + 2:
                    raise HarnessError("worker loop does not end")
            per_block = split(sent, len(seen))
    finally:
        seams.close()
        dl.set_log_basedir(saved_dir)
        if saved_env is None:
            os.environ.pop("DAISY_CONTEXT", None)
        else:
            os.environ["DAISY_CONTEXT"] = saved_env

    if wrong_status:
        i, name = wrong_status[0]
        out.violate("C10", "initial-status", f"block {i} was given to user code with status {name}")
    if seen != [b.block_id for b in blocks]:
        out.violate("C10", "blocks", f"user code saw {len(seen)} blocks, {len(blocks)} were sent")
    if got_none != 1:
        out.violate("C10", "end", f"user code was told {got_none} times that there are no more blocks")
    for i, msgs in enumerate(per_block):
        rel = [m for m in msgs if isinstance(m, ReleaseBlock)]
        fail = [m for m in msgs if isinstance(m, BlockFailed)]
        o = steps[i]["outcome"]
        if len(rel) != 1:
            out.violate("C10", "returns", f"block {i} ({o}) was returned {len(rel)} times")
            continue
        if rel[0].block.block_id != blocks[i].block_id:
            out.violate("C10", "identity", f"block {blocks[i]} returned as {rel[0].block}")
        if rel[0].block.status.name != expected(i):
            out.violate(
                "C10", "status", f"block {i} ({o}) was returned as {rel[0].block.status.name}, expected {expected(i)}"
            )
        if o[0] == "raise":
            if len(fail) != 1:
                out.violate("C10", "report", f"exception {o} was reported {len(fail)} times")
                continue
            m = fail[0]
            orig = EXCEPTIONS[o[1]](steps[i]["text"])
            if m.block.block_id != blocks[i].block_id or m.block.status != BlockStatus.FAILED:
                out.violate("C10", "report", f"exception reported with block {m.block} ({m.block.status})")
            if str(m.context["worker_id"]) != str(case["worker"]) or m.context["task_id"] != case["task"]:
                out.violate("C10", "report", f"exception reported with context {m.context}")
            same = type(m.exception) is type(orig) and m.exception.args == orig.args
            if o[1] in ("group", "typo"):
                same = type(m.exception) is type(orig)
            if not isinstance(m.exception, Exception) or not (
                same or type(orig).__name__ in repr(m.exception)
            ):
                out.violate("C10", "exception", f"{o} reported as {m.exception!r}")
            if msgs.index(fail[0]) > msgs.index(rel[0]):
                out.count("reported after return")
        elif fail:
            out.violate("C10", "report", f"block {i} ({o}) reported as failed with {fail[0].exception!r}")
        out.count(f"outcome {o[0]}")
    for m in sent:
        if isinstance(m, AcquireBlock) and m.task_id != case["task"]:
            out.violate("C10", "request", f"asked for task {m.task_id}")
        elif not isinstance(m, (AcquireBlock, ReleaseBlock, BlockFailed)):
            out.violate("C10", "message", f"unexpected {m}")
    out.nontrivial = len(steps) >= 2 and len({s["outcome"][0] for s in steps}) >= 2
    out.note = f"{len(steps)} blocks: {[s['outcome'][0] for s in steps]}, {case['mode']}"


def split(sent, n):
    from daisy.messages import AcquireBlock

    parts, cur = [], []
    for m in sent:
        if isinstance(m, AcquireBlock):
            parts.append(cur)
            cur = []
        else:
            cur.append(m)
    parts.append(cur)
    return parts[1 : n + 1]
