"""Runs a function of a case in a forked, disposable process with its own
session and scratch directory; collects its result and kills all it leaves."""

import json
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback

# Hangs are decided by these limits (seconds): normal runs need 1 to 5. A case
# that exceeds the first is repeated with the second before it is believed.
LIMITS = (60, 90)
LIMITS_SHRINKING = (20,)
shrinking = False


def _plain(x):
    try:
        return int(x)
    except Exception:
        return repr(x)


def session_pids(sid, exclude=()):
    pids = []
    for d in os.listdir("/proc"):
        if not d.isdigit() or int(d) in exclude:
            continue
        try:
            with open(f"/proc/{d}/stat") as f:
                fields = f.read().rsplit(")", 1)[1].split()
        except OSError:
            continue
        # state ppid pgrp session
        if int(fields[3]) == sid and fields[0] not in "ZX":
            pids.append(int(d))
    return pids


def _kill_session(sid):
    for _ in range(5):
        pids = session_pids(sid)
        if not pids:
            return
        for p in pids:
            try:
                os.kill(p, signal.SIGKILL)
            except OSError:
                pass
        time.sleep(0.01)


class Result:
    def __init__(self, hung, value, error, output, left, seconds, died=None):
        self.hung = hung  # no end within the limit
        self.value = value  # what fn returned
        self.error = error  # harness error in the child
        self.output = output
        self.left = left  # processes still running after fn returned
        self.seconds = seconds
        self.died = died  # how the process ended that should have returned


def run_once(fn, case, limit):
    scratch = tempfile.mkdtemp(prefix="case-", dir=os.environ.get("VERIF_SCRATCH"))
    result_file = os.path.join(scratch, "result.json")
    start = time.monotonic()
    try:
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.setsid()
                signal.signal(signal.SIGPROF, signal.SIG_DFL)
                signal.signal(signal.SIGINT, signal.default_int_handler)
                signal.signal(signal.SIGTERM, signal.SIG_DFL)
                workdir = os.path.join(scratch, "work")
                os.mkdir(workdir)
                os.chdir(workdir)
                fd = os.open(os.path.join(scratch, "output"), os.O_WRONLY | os.O_CREAT | os.O_APPEND)
                null = os.open(os.devnull, os.O_RDONLY)
                os.dup2(null, 0)
                os.dup2(fd, 1)
                os.dup2(fd, 2)
                sys.stdout = sys.__stdout__ = os.fdopen(1, "w", 1, closefd=False)
                sys.stderr = sys.__stderr__ = os.fdopen(2, "w", 1, closefd=False)
                value, error = None, None
                try:
                    value = fn(case, workdir)
                except BaseException:
                    error = traceback.format_exc()
                with open(result_file + ".tmp", "w") as f:
                    json.dump(dict(value=value, error=error), f, default=_plain)
                os.rename(result_file + ".tmp", result_file)
            except BaseException:
                traceback.print_exc()
                code = 70
            finally:
                os._exit(code)
        hung = False
        left = []
        while True:
            done, status = os.waitpid(pid, os.WNOHANG)
            if done:
                break
            if time.monotonic() - start > limit:
                hung = True
                _kill_session(pid)
                os.waitpid(pid, 0)
                break
            time.sleep(0.005)
        if not hung:
            left = session_pids(pid)
            if left:
                time.sleep(0.2)
                left = session_pids(pid)
        _kill_session(pid)
        value = error = died = None
        if os.path.exists(result_file):
            with open(result_file) as f:
                r = json.load(f)
            value, error = r["value"], r["error"]
        elif not hung:
            code = os.waitstatus_to_exitcode(status)
            error = f"child ended with {code}"
            if code != 70:
                died = f"exit status {code}" if code >= 0 else f"signal {-code}"
        output = ""
        try:
            with open(os.path.join(scratch, "output"), errors="replace") as f:
                output = f.read()[-400000:]
        except OSError:
            pass
        if error and not hung:
            error += "\n" + output[-1500:]
        return Result(hung, value, error, output, len(left), time.monotonic() - start, died)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def run(fn, case):
    """Like run_once; a hang or death is only reported if it happens again."""
    for limit in LIMITS_SHRINKING if shrinking else LIMITS:
        r = run_once(fn, case, limit)
        if not r.hung and not r.died:
            return r
    return r
