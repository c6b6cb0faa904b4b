"""Real runs that end early: an exception escapes from a worker, or the run is
interrupted. Whatever happened, everything has to be cleaned up, the end of
the run announced, and the next run has to work."""

import os
import signal
import threading
import time

from hypothesis import strategies as st

from . import geom, isolate
from .core import HarnessError, Outcome, StopCase
from .e2e import OddError

ints = st.integers


class PlainError(Exception):
    pass


def make_exception(kind):
    if kind == "value":
        return ValueError("planned error", 17)
    if kind == "key":
        return KeyError("planned error")
    if kind == "plain":
        return PlainError("planned error")
    if kind == "os":
        return FileNotFoundError(2, "planned error", "some file")
    if kind == "odd":
        return OddError("planned", "error")
    if kind == "lambda":
        e = ValueError("planned error")
        e.callback = lambda: None
        return e
    if kind == "group":
        return ExceptionGroup("planned error", [ValueError(1), TypeError(2)])
    if kind == "assert":
        return AssertionError()
    raise HarnessError(kind)


# exceptions that can be sent as they are
PLAIN = {"value", "key", "plain", "os", "group", "assert"}
KINDS = sorted(PLAIN | {"odd", "lambda"})

cases = st.fixed_dictionaries(
    dict(
        end=st.sampled_from(["error", "error", "error", "interrupt", "event"]),
        kind=st.sampled_from(KINDS),
        tasks=ints(1, 3),
        nw=ints(1, 4),
        blocks=ints(1, 12),
        culprit=ints(0, 3),  # which of the workers
        task=ints(0, 2),  # of which task
        after=ints(0, 3),  # after how many blocks
        when=st.sampled_from(["boot", "connected", "blocks"]),
        delay=st.sampled_from([0, 20, 100, 300]),  # of interrupts, ms
        entry=st.sampled_from(["convenience", "server"]),
        mode=st.sampled_from(["client", "process"]),
    )
)


def child(case, workdir):
    import daisy
    from daisy import BlockStatus, Client, Roi, Server, Task
    from daisy.server_observer import ServerObserver

    def count(name):
        fd = os.open(os.path.join(workdir, name), os.O_WRONLY | os.O_APPEND | os.O_CREAT)
        os.write(fd, b"x")
        n = os.fstat(fd).st_size
        os.close(fd)
        return n

    nt = case["tasks"]
    culprit_task = case["task"] % nt
    culprit = 1 + case["culprit"] % case["nw"]
    hold = culprit_task
    # one block is left for the culprit if all others hold one
    blocks = max(case["blocks"], case["nw"] + case["after"] + 1)

    def make_client(t):
        def client():
            n = count(f"spawn-{t}")
            mine = case["end"] == "error" and t == culprit_task and n == culprit
            if mine and case["when"] == "boot":
                raise make_exception(case["kind"])
            c = Client()
            if mine and case["when"] == "connected":
                raise make_exception(case["kind"])
            while True:
                with c.acquire_block() as block:
                    if block is None:
                        break
                    total = count(f"blocks-{t}")
                    if t == hold and total > case["after"]:
                        if mine:
                            block.status = BlockStatus.FAILED
                            break
                        # the run can not be completed anymore
                        count("waiting")
                        time.sleep(100)
            if mine:
                raise make_exception(case["kind"])

        return client

    def make_process(t):
        def process(block):
            total = count(f"blocks-{t}")
            if t == hold and total > case["after"]:
                count("waiting")
                time.sleep(100)

        return process

    def tasks(functions, prefix):
        ts = []
        for t in range(nt):
            ts.append(
                Task(
                    f"{prefix}{t}",
                    Roi((0,), (blocks * 10,)),
                    Roi((0,), (10,)),
                    Roi((0,), (10,)),
                    functions[t],
                    read_write_conflict=False,
                    num_workers=case["nw"],
                    upstream_tasks=ts[-1:],
                )
            )
        return ts

    told = []

    class Observer(ServerObserver):
        def on_task_start(self, task_id, task_state):
            told.append("start")

        def on_acquire_block(self, task_id, task_state):
            told.append("acquire")

        def on_server_exit(self):
            told.append("exit")

    clients = case["end"] == "error" or case["mode"] == "client"
    ts = tasks([(make_client if clients else make_process)(t) for t in range(nt)], "t")
    event = threading.Event()

    def trigger():
        while not os.path.exists(os.path.join(workdir, "waiting")):
            time.sleep(0.005)
        time.sleep(case["delay"] / 1000)
        if case["end"] == "event":
            event.set()
        else:
            signal.pthread_kill(threading.main_thread().ident, signal.SIGINT)

    convenience = case["end"] == "interrupt" or (case["end"] == "error" and case["entry"] == "convenience")
    if case["end"] != "error":
        threading.Thread(target=trigger, daemon=True).start()
    result = dict(error=None, returned=None)
    start = time.monotonic()
    try:
        if convenience:
            result["returned"] = daisy.run_blockwise(ts)
        else:
            server = Server(stop_event=event)
            Observer(server)
            states = server.run_blockwise(ts)
            result["returned"] = all(s.completed_count == s.total_block_count for s in states.values())
    except BaseException as e:
        result["error"] = [type(e).__name__, str(e), repr(e.args)]
    result["seconds"] = time.monotonic() - start
    result["left"] = isolate.session_pids(os.getsid(0), exclude=(os.getpid(),))
    result["told"] = told
    result["convenience"] = convenience
    result["blocks"] = blocks

    # life goes on
    def fine(block):
        count("fine")

    try:
        result["next"] = daisy.run_blockwise(tasks([fine] * nt, "n"))
    except BaseException as e:
        result["next"] = f"{type(e).__name__}: {e}"
    try:
        result["fine"] = os.stat(os.path.join(workdir, "fine")).st_size
    except OSError:
        result["fine"] = 0
    return result


def run_error_case(case):
    out = Outcome()
    r = isolate.run(child, case)
    what = f"run ending with {case['end']}"
    if r.hung:
        out.violate(("C12", "C13", "C17", "C18"), "hang", f"{what} did not end within {isolate.LIMITS[-1]} s")
        return out
    if r.died:
        out.violate(("C12", "C13", "C17", "C18"), "died", f"the calling process was ended ({r.died})")
        return out
    if r.error:
        raise HarnessError(r.error)
    res = r.value
    if case["end"] == "error":
        e = make_exception(case["kind"])
        if res["error"] is None:
            out.violate("C13", "swallowed", f"{e!r} escaped from a worker, but the run returned {res['returned']}")
        elif case["kind"] in PLAIN:
            if res["error"][0] != type(e).__name__ or res["error"][2] != repr(e.args):
                out.violate("C13", "changed", f"{e!r} escaped from a worker, the run raised {res['error']}")
        else:
            if "planned" not in res["error"][1]:
                out.violate("C13", "changed", f"{e!r} escaped from a worker, the run raised {res['error']}")
    else:
        if res["error"] is not None:
            out.violate("C12", "interrupted", f"{what} raised {res['error']}")
        elif res["returned"] is not False:
            out.violate("C17", "returned", f"{what} returned {res['returned']}")
    if res["left"] or r.left:
        out.violate("C13", "left-running", f"{what}: {len(res['left'])} processes are still running")
    if not res["convenience"]:
        if res["told"].count("exit") != 1 or res["told"][-1] != "exit":
            out.violate("C18", "exit", f"{what}: end announced {res['told'].count('exit')} times, last {res['told'][-2:]}")
    if res["next"] is not True or res["fine"] != case["tasks"] * res["blocks"]:
        out.violate(("C12", "C17"), "next", f"run after a {what}: {res['next']}, {res['fine']} blocks processed")
    out.count("ended by " + case["end"])
    out.count("exception " + case["kind"], int(case["end"] == "error"))
    out.nontrivial = case["nw"] > 1 or case["tasks"] > 1
    out.note = f"{what} {res['error']}, {res['seconds']:.1f} s"
    return out
