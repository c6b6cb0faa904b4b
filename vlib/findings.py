"""Replays of the known findings: each shows one listed failure on the real
code. A scenario returns "fails-as-listed", "holds", or a violation."""

import os
import socket
import stat
import time

from . import isolate
from .core import HarnessError


def append(path, text):
    fd = os.open(path, os.O_WRONLY | os.O_APPEND | os.O_CREAT)
    os.write(fd, (text + "\n").encode())
    os.close(fd)


def lines(path):
    try:
        with open(path) as f:
            return f.read().split()
    except OSError:
        return []


def task(process, n=4, **kw):
    import daisy

    return daisy.Task(
        "t",
        daisy.Roi((0,), (10 * n,)),
        daisy.Roi((0,), (10,)),
        daisy.Roi((0,), (10,)),
        process,
        read_write_conflict=False,
        **kw,
    )


def run(t):
    import daisy

    try:
        return daisy.run_blockwise([t])
    except Exception as e:
        return f"{type(e).__name__}"


def evaluate(child, limit, judge):
    r = isolate.run_once(child, None, limit)
    if r.error and not r.hung:
        raise HarnessError(r.error)
    return judge(r)


def violation(kind, message):
    return dict(props=[], kind=kind, message=message)


# --- C12: all workers exit normally while blocks remain


def clean_exit(finding):
    def child(case, workdir):
        import daisy

        def client():
            c = daisy.Client()
            with c.acquire_block():
                pass

        return run(task(client, num_workers=2))

    def judge(r):
        if r.hung:
            return "fails-as-listed"
        return "holds"

    return evaluate(child, 8, judge)


# --- C12: a worker that lives on loses its connection within a block


def connection_lost(finding):
    def child(case, workdir):
        log = os.path.join(workdir, "log")

        def process(block):
            append(log, str(block.block_id[1]))
            if block.write_roi.begin[0] == 10 and lines(log).count(str(block.block_id[1])) == 1:
                for fd in range(3, 200):
                    try:
                        if stat.S_ISSOCK(os.fstat(fd).st_mode):
                            s = socket.socket(fileno=os.dup(fd))
                            if s.family in (socket.AF_INET, socket.AF_INET6):
                                s.shutdown(socket.SHUT_RDWR)
                            s.close()
                    except OSError:
                        pass
                time.sleep(0.5)

        return run(task(process))

    def judge(r):
        if not r.hung and r.value == "StreamClosedError":
            return "fails-as-listed"
        if not r.hung and r.value is True:
            return "holds"
        return violation("connection-lost", "hang" if r.hung else f"run returned {r.value}")

    return evaluate(child, 90, judge)


# --- C12: the timeout of a task has no effect


def timeout_ignored(finding):
    def child(case, workdir):
        log = os.path.join(workdir, "log")

        def process(block):
            append(log, str(block.block_id[1]))
            if len(lines(log)) == 1:
                time.sleep(3)

        result = run(task(process, n=1, timeout=1))
        return [result, len(lines(log))]

    def judge(r):
        if not r.hung and r.value == [True, 1]:
            return "fails-as-listed"
        if not r.hung and r.value == [True, 2]:
            return "holds"
        return violation("timeout", "hang" if r.hung else f"run returned {r.value}")

    return evaluate(child, 90, judge)


# --- C09: the second of a pair of check functions is not called


def post_check(finding):
    def child(case, workdir):
        log, post = os.path.join(workdir, "log"), os.path.join(workdir, "post")

        def process(block):
            append(log, str(block.block_id[1]))

        def after(block):
            append(post, str(block.block_id[1]))
            return False

        result = run(task(process, max_retries=1, check_function=(lambda b: False, after)))
        return [result, len(lines(log)), len(lines(post))]

    def judge(r):
        if not r.hung and r.value == [True, 4, 0]:
            return "fails-as-listed"
        if not r.hung and r.value[0] is False and r.value[1] == 8:
            return "holds"
        return violation("post-check", "hang" if r.hung else f"run returned {r.value}")

    return evaluate(child, 90, judge)
