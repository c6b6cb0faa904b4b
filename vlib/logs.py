"""Output of real worker processes: every line has to be in the log files of
the worker that wrote it, once and in order, and nowhere else."""

import json
import os
import subprocess
import sys
import time

from hypothesis import strategies as st

from . import isolate
from .core import HarnessError, Outcome

ints = st.integers
CHANNELS = ["print", "print", "write", "err", "fd1", "fd2", "sub1", "sub2", "long", "orig", "origerr"]

cases = st.fixed_dictionaries(
    dict(
        logdir=st.sampled_from(["default", "logs", "a/b c/d", "absolute", "path", "dotted.dir", "none", "none"]),
        tasks=st.lists(st.sampled_from(["t", "my task", "täsk", "a.b", "x-1", "run/one", "two/one"]), min_size=1, max_size=2, unique=True),
        nw=ints(1, 3),
        blocks=ints(1, 5),
        lines=st.lists(st.tuples(ints(0, len(CHANNELS) - 1), st.text(st.sampled_from("ab é€😀%\t"), max_size=6)).map(list), min_size=1, max_size=6),
        end=st.sampled_from(["wait", "return"]),
        fault=st.sampled_from([None, None, "kill", "raise", "exit"]),
        mode=st.sampled_from(["process", "client", "pool"]),
        runs=ints(1, 2),
    )
)


def write_lines(case, side, tag, worker):
    """Writes the lines of a block, and notes what was written."""

    def note(*what):
        fd = os.open(side, os.O_WRONLY | os.O_APPEND | os.O_CREAT)
        os.write(fd, (json.dumps(what) + "\n").encode())
        os.close(fd)

    lines = []
    for i, (c, text) in enumerate(case["lines"]):
        ch = CHANNELS[c]
        line = f"<<{tag} w{worker} {i} {ch} {text}>>"
        if ch == "long":
            line = f"<<{tag} w{worker} {i} {ch} {'x' * 20000}>>"
        to = 2 if ch in ("err", "fd2", "sub2", "origerr") else 1
        lines.append([to, line, ch])
    note("begin", worker, [x[:2] for x in lines])
    for to, line, ch in lines:
        if ch in ("print", "long"):
            print(line)
        elif ch == "write":
            sys.stdout.write(line[:5])
            sys.stdout.write(line[5:] + "\n")
        elif ch == "err":
            sys.stderr.write(line + "\n")
        elif ch in ("orig", "origerr"):
            f = sys.__stdout__ if ch == "orig" else sys.__stderr__
            f.write(line + "\n")
            f.flush()
        elif ch.startswith("fd"):
            os.write(to, (line + "\n").encode())
        else:
            subprocess.run(["sh", "-c", f'printf "%s\\n" "$L" >&{to}'], env={**os.environ, "L": line}, check=True)
    note("done", worker, None)


def child(case, workdir):
    from pathlib import Path

    import daisy
    from daisy import Client, Context, Roi, Task
    import daisy.logging as dl

    d = case["logdir"]
    base = {
        "default": "daisy_logs",
        "logs": "logs",
        "a/b c/d": "a/b c/d",
        "absolute": os.path.join(workdir, "abs"),
        "path": "p",
        "dotted.dir": "dotted.dir",
        "none": None,
    }[d]
    if d != "default":
        dl.set_log_basedir(Path(base) if d == "path" else base)
    print("<<main before>>", flush=True)

    def make(t, run):
        side = os.path.join(workdir, f"side-{t}")

        def process(block):
            worker = Context.from_env()["worker_id"]
            n = int(block.write_roi.begin[0]) // 10
            write_lines(case, side, f"r{run} t{t} b{n}", worker)
            if n == 0 and case["fault"]:
                marker = os.path.join(workdir, f"faulty-{t}-{run}")
                if not os.path.exists(marker):
                    open(marker, "w").close()
                    if case["fault"] == "kill":
                        os.kill(os.getpid(), 9)
                    if case["fault"] == "exit":
                        os._exit(3)
                    raise ValueError("planned")

        def client():
            worker = Context.from_env()["worker_id"]
            write_lines(case, side, f"r{run} t{t} start", worker)
            c = Client()
            while True:
                with c.acquire_block() as block:
                    if block is None:
                        break
                    process(block)

        return client if case["mode"] == "client" else process

    ids = []
    error = None
    for run in range(case["runs"]):
        if case["mode"] == "pool":
            # without any task
            side = os.path.join(workdir, f"side-{0}")
            ready = os.path.join(workdir, "ready")

            def spawn():
                worker = Context.from_env()["worker_id"]
                write_lines(case, side, f"r{run} pool", worker)
                fd = os.open(ready, os.O_WRONLY | os.O_APPEND | os.O_CREAT)
                os.write(fd, b"x")
                os.close(fd)
                if case["end"] == "wait":
                    time.sleep(60)

            from daisy.worker_pool import WorkerPool

            pool = WorkerPool(spawn)
            pool.set_num_workers(case["nw"])
            while not os.path.exists(ready) or os.path.getsize(ready) < case["nw"] * (run + 1):
                time.sleep(0.01)
                pool.check_for_errors()
            pool.stop()
            continue
        tasks = []
        for t, name in enumerate(case["tasks"]):
            tasks.append(
                Task(
                    name,
                    Roi((0,), (case["blocks"] * 10,)),
                    Roi((0,), (10,)),
                    Roi((0,), (10,)),
                    make(t, run),
                    num_workers=case["nw"],
                    read_write_conflict=False,
                    upstream_tasks=tasks[-1:],
                )
            )
        try:
            if daisy.run_blockwise(tasks) is not True:
                error = "run failed"
        except Exception as e:
            error = f"{type(e).__name__}: {e}"
    print("<<main after>>", flush=True)
    print("<<main error>>", file=sys.stderr, flush=True)

    notes = {}
    for t in range(len(case["tasks"])):
        p = os.path.join(workdir, f"side-{t}")
        notes[t] = [json.loads(x) for x in open(p)] if os.path.exists(p) else []
    files = {}
    for root, dirs, names in os.walk(workdir):
        for n in names:
            if n.endswith((".out", ".err")):
                p = os.path.join(root, n)
                files[os.path.relpath(p, workdir)] = open(p, errors="replace").read()
    output = open(os.path.join(workdir, "..", "output"), errors="replace").read()
    rel = None if base is None else os.path.relpath(os.path.join(workdir, base), workdir)
    return dict(notes=notes, files=files, output=output, base=rel, error=error)


def marked(text):
    return [x for x in text.splitlines() if x.startswith("<<") or "<<" in x]


def run_log_case(case):
    out = Outcome()
    r = isolate.run(child, case)
    if r.hung:
        out.violate("C20", "hang", f"run did not end within {isolate.LIMITS[-1]} s")
        return out
    if r.died:
        out.violate("C20", "died", f"the calling process was ended ({r.died})")
        return out
    if r.error:
        raise HarnessError(r.error)
    res = r.value
    if res["error"]:
        out.violate("C20", "run", f"run with logs in {case['logdir']}: {res['error']}")
        return out
    lines = 0
    # complete chunks, and chunks of workers that were stopped while writing
    notes, partial = {}, {}
    for t, ns in res["notes"].items():
        begun = {}
        for what, worker, n in ns:
            if what == "begin":
                begun[worker] = n
            else:
                notes.setdefault(t, []).append((worker, begun.pop(worker)))
        for worker, n in begun.items():
            partial[(t, worker)] = n
    out.count("interrupted workers", len(partial))
    main = [x for x in marked(res["output"]) if "<<main" in x]
    if sorted(main) != ["<<main after>>", "<<main before>>", "<<main error>>"]:
        out.violate("C20", "main", f"output of the main process is {main}")
    if res["base"] is None:
        if res["files"]:
            out.violate("C20", "files", f"log files {sorted(res['files'])[:3]} although there is no log directory")
        got = sorted(x for x in marked(res["output"]) if "<<main" not in x)
        want = sorted(x[1] for ns in notes.values() for _, n in ns for x in n)
        # (lines of concurrent workers to the same terminal)
        whole = "".join(got)
        missing = [x for x in want if whole.count(x) != want.count(x)]
        if missing:
            out.violate("C20", "lost", f"{len(missing)} lines of workers were not printed (once), like {missing[0][:80]}")
        lines = len(want)
    else:
        if any("<<" in x and "<<main" not in x for x in res["output"].splitlines()):
            leaked = [x for x in marked(res["output"]) if "<<main" not in x]
            out.violate("C20", "leaked", f"worker output was printed: {leaked[0][:80]}")
        expected = {}
        tails = {}
        for (t, worker), n in partial.items():
            folder = [] if case["mode"] == "pool" else [case["tasks"][int(t)]]
            for to, ext in ((1, "out"), (2, "err")):
                p = os.path.join(res["base"], *folder, f"worker_{worker}.{ext}")
                tails[p] = [line for k, line in n if k == to]
                expected.setdefault(p, [])
        for t, ns in notes.items():
            folder = [] if case["mode"] == "pool" else [case["tasks"][int(t)]]
            for worker, n in ns:
                for to, line in n:
                    p = os.path.join(res["base"], *folder, f"worker_{worker}.{'out' if to == 1 else 'err'}")
                    expected.setdefault(p, []).append(line)
                    lines += 1
                for ext in ("out", "err"):
                    expected.setdefault(os.path.join(res["base"], *folder, f"worker_{worker}.{ext}"), [])
        for p, want in expected.items():
            if p not in res["files"]:
                out.violate("C20", "missing", f"{p} was not written, there are {sorted(res['files'])[:4]}")
                continue
            got = marked(res["files"][p])
            if p in tails and got[: len(want)] == want:
                rest = got[len(want) :]
                if all(any(line.startswith(x) for line in tails[p]) for x in rest):
                    continue
            if got != want:
                out.violate("C20", "content", f"{p} contains {[x[:40] for x in got[:4]]} ({len(got)} lines), written were {[x[:40] for x in want[:4]]} ({len(want)} lines)")
        for p, text in res["files"].items():
            if p not in expected and marked(text):
                out.violate("C20", "stray", f"{p} contains {marked(text)[0][:80]}")
    out.count("lines", lines)
    out.count("log files", len(res["files"]))
    out.count("mode " + case["mode"])
    out.nontrivial = lines >= 2 and (case["nw"] > 1 or case["blocks"] > 1)
    out.note = f"{len(res['files'])} files, {lines} lines, {r.seconds:.1f} s"
    return out


# --- a process that redirects its own output ------------------------------------

redirect_cases = st.fixed_dictionaries(
    dict(
        steps=st.lists(
            st.fixed_dictionaries(
                dict(
                    base=st.sampled_from([None, "a", "b", "d/a", "x y/ü", "exp.1", "exp.2", "v1.0/run.3", "a.out", "absolute"]),
                    mode=st.sampled_from([None, "w", "a", "a"]),
                    path=st.booleans(),
                    lines=st.lists(
                        st.tuples(ints(0, len(CHANNELS) - 1), st.text(st.sampled_from("ab é%\t"), max_size=6)).map(list), max_size=5
                    ),
                )
            ),
            min_size=1,
            max_size=4,
        )
    )
)


def redirect_child(case, workdir):
    from pathlib import Path

    import daisy

    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            for i, step in enumerate(case["steps"]):
                base = step["base"]
                if base == "absolute":
                    base = os.path.join(workdir, "abs.d", "log")
                if base is not None and step["path"]:
                    base = Path(base)
                kw = {} if step["mode"] is None else dict(mode=step["mode"])
                daisy.redirect_stdouterr(base, **kw)
                write_lines(step, os.path.join(workdir, "side"), f"step {i}", 0)
            code = 0
        except BaseException as e:
            with open(os.path.join(workdir, "error"), "w") as f:
                f.write(f"{type(e).__name__}: {e}")
        finally:
            os._exit(code)
    _, status = os.waitpid(pid, 0)
    error = None
    if status:
        p = os.path.join(workdir, "error")
        error = open(p).read() if os.path.exists(p) else f"exit status {status}"
    files = {}
    for root, dirs, names in os.walk(workdir):
        for n in names:
            if n not in ("side", "error"):
                p = os.path.join(root, n)
                files[os.path.relpath(p, workdir)] = open(p, errors="replace").read()
    return dict(files=files, output=open(os.path.join(workdir, "..", "output"), errors="replace").read(), error=error)


def run_redirect_case(case):
    out = Outcome()
    r = isolate.run(redirect_child, case)
    if r.hung:
        out.violate("C20", "hang", f"no end within {isolate.LIMITS[-1]} s")
        return out
    if r.died:
        out.violate("C20", "died", f"the calling process was ended ({r.died})")
        return out
    if r.error:
        raise HarnessError(r.error)
    res = r.value
    if res["error"]:
        out.violate("C20", "redirect", f"redirecting output to {[s['base'] for s in case['steps']]}: {res['error']}")
        return out
    want = {}
    base = None  # printed
    for i, step in enumerate(case["steps"]):
        if step["base"] is not None:
            base = "abs.d/log" if step["base"] == "absolute" else step["base"]
            for ext in ("out", "err"):
                if step["mode"] == "a":
                    want.setdefault(f"{base}.{ext}", [])
                else:
                    want[f"{base}.{ext}"] = []
        for j, (c, text) in enumerate(step["lines"]):
            ch = CHANNELS[c]
            line = f"<<step {i} w0 {j} {ch} {'x' * 20000 if ch == 'long' else text}>>"
            ext = "err" if ch in ("err", "fd2", "sub2", "origerr") else "out"
            want.setdefault(None if base is None else f"{base}.{ext}", []).append(line)
            out.count("lines")
    printed = want.pop(None, [])
    got = res["output"]
    for line in printed:
        if got.count(line) != 1:
            out.violate("C20", "printed", f"{line[:60]} was printed {got.count(line)} times without any log file")
    if got.count("<<step") != len(printed):
        out.violate("C20", "leaked", f"{got.count('<<step')} lines were printed, expected {len(printed)}")
    for p, lines in want.items():
        if p not in res["files"]:
            out.violate("C20", "missing", f"{p} was not written, there are {sorted(res['files'])[:4]}")
        elif marked(res["files"][p]) != lines:
            out.violate("C20", "content", f"{p} contains {[x[:40] for x in marked(res['files'][p])[:4]]}, written were {[x[:40] for x in lines[:4]]}")
    stray = set(res["files"]) - set(want)
    if stray:
        out.violate("C20", "stray", f"{sorted(stray)[:3]} were written, expected {sorted(want)[:4]}")
    out.nontrivial = bool(want) and any(want.values())
    out.note = f"{len(want)} files, {len(case['steps'])} steps"
    return out
