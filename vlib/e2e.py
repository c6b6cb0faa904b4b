"""Real runs: real server, network, worker processes; faults injected from
within the process function. The result is compared with a sequential run of
the same tasks and with the model."""

import collections
import json
import os
import signal
import sys
import time

from hypothesis import strategies as st

from . import geom, isolate
from .monitor import check_run_text
from .core import HarnessError, Outcome, StopCase
from .sched import Model, key_of, state_counts, upstream_map

ints = st.integers
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MARK = "\n=== distributed run ===\n"

FAULTS = ["fail", "raise", "odd", "kill-before", "kill-mid", "kill-after", "sysexit", "exit1"]


def small(specs):
    lo, hi = bounds(specs)
    v = 1
    for a, b in zip(lo, hi):
        v *= b - a
    return v * len(specs) <= 300_000


def bounds(specs):
    dims = len(specs[0]["ws"])
    lo, hi = [0] * dims, [1] * dims
    first = True
    for t, s in enumerate(specs):
        for b in geom.model_blocks(t, s):
            if first:
                lo, hi = list(b.rb), list(b.re)
                first = False
            lo = [min(x, y) for x, y in zip(lo, b.rb)]
            hi = [max(x, y) for x, y in zip(hi, b.re)]
    return lo, hi


def cases(max_tasks=3, max_blocks=14, faults=True, enough=None, entry=None):
    return st.fixed_dictionaries(
        dict(
            tasks=geom.task_graph(max_tasks=max_tasks, max_blocks=max_blocks, max_workers=4).filter(small),
            mode=st.lists(st.sampled_from(["process"] * 5 + ["client"] * 3 + ["script"]), min_size=3, max_size=3),
            entry=st.sampled_from(["convenience", "convenience", "server"]) if entry is None else st.just(entry),
            leaves=st.booleans(),
            # do retries suffice?
            enough=st.sampled_from([True, False]) if enough is None else st.just(enough),
            # which block fails for good: any, one no other depends on, or one of the last task
            spot=st.sampled_from([0, 0, 1, 2]),
            faults=st.lists(st.tuples(ints(0, 10**4), ints(0, len(FAULTS) - 1)).map(list), max_size=6)
            if faults
            else st.just([]),
            boot=st.sampled_from([0, 0, 0, 1, 2]) if faults else st.just(0),
            sleep=st.sampled_from([0, 0, 5, 20]),
            skip=st.lists(ints(0, 10**4), max_size=6),
            check=st.sampled_from([False, False, True]),
        )
    )


def unneeded(keys, specs):
    """Blocks of upstream tasks that no block reads."""
    blocks = {b.key: b for t, s in enumerate(specs) for b in geom.model_blocks(t, s)}
    used = {t for s in specs for t in s["up"]}
    return [
        k
        for k in keys
        if k[0] in used
        and not any(
            k[0] in specs[b.key[0]]["up"] and geom.overlap(blocks[k].wb, blocks[k].we, b.rb, b.re)
            for b in blocks.values()
        )
    ]


def make_faults(case, keys, specs):
    """key -> list of faults of its first attempts."""
    plan = {}
    raises = collections.Counter()
    for i, f in case["faults"]:
        if not keys:
            break
        k = keys[i % len(keys)]
        kind = FAULTS[f]
        if kind in ("raise", "odd"):
            # a worker with more than three exceptions is stopped, together
            # with whatever it is doing
            raises[k[0]] += 1
            if raises[k[0]] > 3:
                kind = "fail"
        fs = plan.setdefault(k, [])
        if len(fs) < specs[k[0]]["retries"] + (0 if case["enough"] else 1):
            fs.append(kind)
    if not case["enough"] and plan:
        # one block fails for good
        i = case["faults"][0][0]
        k = keys[i % len(keys)]
        pool = []
        if case.get("spot") == 1:
            pool = unneeded(keys, specs)
        elif case.get("spot") == 2:
            pool = [x for x in keys if x[0] == keys[-1][0]]
        if pool:
            k = pool[i % len(pool)]
        while len(plan.setdefault(k, [])) <= specs[k[0]]["retries"]:
            plan[k].append(["fail", "kill-before", "exit1"][case["faults"][0][1] % 3])
    return plan


class OddError(Exception):
    def __init__(self, a, b):
        super().__init__(f"{a}-{b}")


class Arrays:
    def __init__(self, path, specs, new=True):
        import numpy as np

        self.lo, hi = bounds(specs)
        self.shape = tuple(b - a for a, b in zip(self.lo, hi))
        self.path = path
        if not new:
            return
        os.makedirs(path, exist_ok=True)
        for t in range(len(specs)):
            p = os.path.join(path, f"{t}.bin")
            np.memmap(p, dtype=np.uint64, mode="w+", shape=self.shape).flush()

    def get(self, t):
        import numpy as np

        return np.memmap(os.path.join(self.path, f"{t}.bin"), dtype=np.uint64, mode="r+", shape=self.shape)

    def slices(self, b, e):
        return tuple(slice(x - o, y - o) for x, y, o in zip(b, e, self.lo))


def compute(arrays, t, s, block, mid=None):
    """What a block does: combines what it reads of its inputs (and, in case
    of conflicts, of its own output) and writes it."""
    import numpy as np

    rb, re = geom.box(block.read_roi)
    wb, we = geom.box(block.write_roi)
    r, w = arrays.slices(rb, re), arrays.slices(wb, we)
    own = arrays.get(t)
    with np.errstate(over="ignore"):
        v = np.uint64(1000003 * (t + 1))
        for i, u in enumerate(s["up"]):
            v = v * np.uint64(31) + arrays.get(u)[r].sum(dtype=np.uint64)
        if s["rwc"]:
            v = v * np.uint64(17) + own[r].sum(dtype=np.uint64) - own[w].sum(dtype=np.uint64)
        n = own[w].size
        data = (np.arange(n, dtype=np.uint64) * np.uint64(7919) + v + np.uint64(1)).reshape(own[w].shape)
    if mid is not None:
        own[w].reshape(-1)[: max(1, n // 2)] = 12345
        own.flush()
        mid()
    own[w] = data


def log(path, *event):
    fd = os.open(path, os.O_WRONLY | os.O_APPEND | os.O_CREAT)
    try:
        os.write(fd, (json.dumps(event) + "\n").encode())
    finally:
        os.close(fd)


def make_process(cfg, t):
    def process(block):
        k = key_of(cfg["index"], block)
        idx = cfg["keys"].index(k)
        att = os.path.join(cfg["dir"], f"att-{idx}")
        fd = os.open(att, os.O_WRONLY | os.O_APPEND | os.O_CREAT)
        os.write(fd, b"x")
        n = os.fstat(fd).st_size
        os.close(fd)
        log(cfg["events"], "b", idx, n, os.getpid(), time.monotonic_ns())
        faults = cfg["faults"].get(k, [])
        fault = faults[n - 1] if n <= len(faults) else None
        if cfg["sleep"]:
            time.sleep(((idx * 7 + n * 3) % 5) * cfg["sleep"] / 5000)

        def end():
            log(cfg["events"], "e", idx, n, os.getpid(), time.monotonic_ns())

        def die():
            end()
            os.kill(os.getpid(), signal.SIGKILL)

        if fault == "kill-before":
            die()
        compute(cfg["arrays"], t, cfg["specs"][t], block, die if fault == "kill-mid" else None)
        if fault == "kill-after":
            die()
        end()
        if fault == "exit1":
            os._exit(1)
        if fault == "sysexit":
            raise SystemExit(3)
        if fault == "raise":
            raise ValueError(f"planned failure of {idx}")
        if fault == "odd":
            raise OddError(idx, n)
        if fault == "fail":
            from daisy import BlockStatus

            block.status = BlockStatus.FAILED

    def client():
        from daisy import Client

        fd = os.open(os.path.join(cfg["dir"], f"spawn-{t}"), os.O_WRONLY | os.O_APPEND | os.O_CREAT)
        os.write(fd, b"x")
        n = os.fstat(fd).st_size
        os.close(fd)
        log(cfg["events"], "s", t, n, os.getpid(), time.monotonic_ns())
        if n <= cfg["boot"] and n % 2 == 1:
            os._exit(1)
        c = Client()
        if n <= cfg["boot"]:
            os._exit(9)
        while True:
            with c.acquire_block() as block:
                if block is None:
                    break
                process(block)

    return process, client


def make_config(case, workdir, new=True):
    specs = case["tasks"]
    keys = sorted(b.key for t, s in enumerate(specs) for b in geom.model_blocks(t, s))
    return dict(
        specs=specs,
        index={n: i for i, n in enumerate(geom.names_of(specs))},
        keys=keys,
        faults=make_faults(case, keys, specs),
        dir=workdir,
        events=os.path.join(workdir, "events"),
        boot=case["boot"],
        sleep=case["sleep"],
        arrays=Arrays(os.path.join(workdir, "out"), specs, new),
    )


def make_script(case, workdir, t):
    """A worker function that runs another program."""

    def start():
        code = f"import sys; sys.path.insert(0, {VERIF!r}); from vlib import core; core.setup_paths(); from vlib import e2e; e2e.script()"
        with open(os.path.join(workdir, f"script-{t}-{os.getpid()}.json"), "w") as f:
            json.dump([case, workdir, t], f)
        os.execv(sys.executable, [sys.executable, "-B", "-c", code, f.name])

    return start


def script():
    """The program run by such a worker function: all it knows of the run it
    takes part in is in its environment."""
    with open(sys.argv[1]) as f:
        case, workdir, t = json.load(f)
    process, client = make_process(make_config(case, workdir, new=False), t)
    client()


def child(case, workdir):
    """Runs in its own process."""
    import daisy
    from daisy import DependencyGraph, SerialServer, Server
    from daisy.server_observer import ServerObserver

    specs = case["tasks"]
    names = geom.names_of(specs)
    index = {n: i for i, n in enumerate(names)}
    keys = sorted(b.key for t, s in enumerate(specs) for b in geom.model_blocks(t, s))
    events = os.path.join(workdir, "events")
    cfg = make_config(case, workdir)
    serial_arrays = Arrays(os.path.join(workdir, "serial"), specs)
    serial_blocks = []

    def serial_process(t):
        def process(block):
            serial_blocks.append(keys.index(key_of(index, block)))
            compute(serial_arrays, t, specs[t], block)

        return process

    ups = {t for s in specs for t in s["up"]}
    selected = [t for t in range(len(specs)) if not case["leaves"] or t not in ups]
    result = dict(serial=None, serial_error=None)
    try:
        tasks = geom.make_tasks(specs, process=[serial_process(t) for t in range(len(specs))])
        if case["entry"] == "convenience":
            states = daisy.run_blockwise([tasks[t] for t in selected], multiprocessing=False)
        else:
            states = SerialServer().run_blockwise([tasks[t] for t in selected])
        result["serial"] = sorted(serial_blocks)
        result["serial_states"] = {n: state_counts(s) for n, s in states.items()}
    except Exception as e:
        result["serial_error"] = f"{type(e).__name__}: {e}"

    print(MARK, flush=True)
    skip = {keys[i % len(keys)] for i in case["skip"]} if case["check"] and keys else set()

    def check(block):
        k = key_of(index, block)
        if k not in skip or cfg["faults"].get(k):
            return False
        # the volume of an earlier run
        wb, we = geom.box(block.write_roi)
        w = serial_arrays.slices(wb, we)
        cfg["arrays"].get(k[0])[w] = serial_arrays.get(k[0])[w]
        log(events, "c", keys.index(k), 0, os.getpid(), time.monotonic_ns())
        return True

    procs = []
    for t in range(len(specs)):
        process, client = make_process(cfg, t)
        procs.append(dict(process=process, client=client, script=make_script(case, workdir, t))[case["mode"][t % 3]])
    told = []

    class Observer(ServerObserver):
        def on_task_start(self, task_id, task_state):
            told.append(["start", task_id])

        def on_acquire_block(self, task_id, task_state):
            told.append(["acquire", task_id])

        def on_release_block(self, task_id, task_state):
            told.append(["release", task_id])

        def on_task_done(self, task_id, task_state):
            told.append(["done", task_id])

        def on_block_failure(self, block, exception, context):
            told.append(["failure", keys.index(key_of(index, block)), type(exception).__name__, str(exception)])

        def on_server_exit(self):
            told.append(["exit"])

    result.update(returned=None, error=None, states=None)
    try:
        tasks = geom.make_tasks(
            specs, process=procs, check_function=[check if case["check"] else None] * len(specs)
        )
        if case["entry"] == "convenience":
            result["returned"] = daisy.run_blockwise([tasks[t] for t in selected])
        else:
            server = Server()
            Observer(server)
            states = server.run_blockwise([tasks[t] for t in selected])
            result["states"] = {n: state_counts(s) for n, s in states.items()}
    except Exception as e:
        result["error"] = f"{type(e).__name__}: {e}"
    result["left"] = isolate.session_pids(os.getsid(0), exclude=(os.getpid(),))
    result["told"] = told
    ev = []
    if os.path.exists(events):
        with open(events) as f:
            ev = [json.loads(line) for line in f]
    result["events"] = ev
    # blocks with the same output as in the sequential run
    same = []
    for i, k in enumerate(keys):
        b = {b.key: b for b in geom.model_blocks(k[0], specs[k[0]])}[k]
        w = serial_arrays.slices(b.wb, b.we)
        same.append(bool((serial_arrays.get(k[0])[w] == cfg["arrays"].get(k[0])[w]).all()))
    result["same"] = same
    result["skip"] = [keys.index(k) for k in skip if not cfg["faults"].get(k)]
    return result


def run_e2e_case(case):
    out = Outcome()
    try:
        _run(case, out)
    except StopCase:
        pass
    return out


def _run(case, out):
    from daisy import DependencyGraph

    specs = case["tasks"]
    names = geom.names_of(specs)
    index = {n: i for i, n in enumerate(names)}
    with out.guard("creating tasks"):
        graph = DependencyGraph(geom.make_tasks(specs))
        ups = upstream_map(graph, names, out)
    model = Model(specs, lambda k: ups.get(k, set()))
    if set(ups) != set(model.blocks):
        out.violate(("C01", "C06"), "tiling", "blocks of the graph differ from the model")
        raise StopCase()
    keys = sorted(model.blocks)
    faults = make_faults(case, keys, specs)

    r = isolate.run(child, case)
    if r.hung:
        out.violate(("C12", "C17"), "hang", f"run did not end within {isolate.LIMITS[-1]} s")
        return
    if r.died:
        out.violate(("C12", "C17"), "died", f"the calling process was ended ({r.died})")
        return
    if r.error:
        raise HarnessError(r.error)
    res = r.value
    skip = {keys[i] for i in res["skip"]}

    # what should have happened
    expected = {}
    for t in range(len(specs)):  # upstream first; run the model to its end
        pass
    progress = True
    while progress:
        progress = False
        for t in range(len(specs)):
            for k in sorted(model.ready(t)):
                progress = True
                if k in skip:
                    model.skip(k)
                    continue
                model.hand_out(k)
                fs = faults.get(k, [])
                if model.attempts[k] <= len(fs):
                    model.fail(k)
                else:
                    model.succeed(k)
    ok = len(model.completed) == len(keys)

    attempts = collections.Counter()
    intervals = {}
    first_check = {}
    for e in res["events"]:
        if e[0] == "b":
            attempts[keys[e[1]]] += 1
            intervals.setdefault((e[1], e[2]), [None, None])[0] = e[4]
        elif e[0] == "e":
            intervals.setdefault((e[1], e[2]), [None, None])[1] = e[4]
        elif e[0] == "c":
            first_check.setdefault(e[1], e[4])

    if res["serial_error"]:
        out.violate("C17", "serial", f"sequential run raised {res['serial_error']}")
        return
    if res["serial"] != list(range(len(keys))):
        out.violate(("C17", "C06"), "serial", f"sequential run processed {len(res['serial'])} blocks of {len(keys)}")
    for t, n in enumerate(names):
        c = res["serial_states"][n]
        if c["completed"] != len(model.by_task[t]):
            out.violate("C17", "serial", f"sequential run ended with {n}: {c}")
    if res["error"]:
        out.violate(("C12", "C17"), "exception", f"distributed run raised {res['error']}")
        return
    if res["left"] or r.left:
        out.violate("C13", "left-running", f"{len(res['left'])} processes are running after the run")
    for k in keys:
        got, want = attempts[k], model.attempts[k]
        if k in skip and got:
            out.violate(("C09", "C17"), "processed", f"{model.blocks[k]} was processed, but is done already")
        elif got != want:
            out.violate(
                ("C06", "C17") if not faults else ("C07", "C17"), "attempts", f"{model.blocks[k]} processed {got} times, expected {want} (faults {faults.get(k, [])}, {specs[k[0]]['retries']} retries)"
            )
    for i, k in enumerate(keys):
        if k in model.completed and not res["same"][i]:
            out.violate("C17", "output", f"output of {model.blocks[k]} differs from the sequential run")
    if case["entry"] == "convenience":
        if r.output.count(MARK) != 1:
            raise HarnessError("output of the run is incomplete")
        first, second = r.output.split(MARK)
        full = {n: dict(model.counts(t), total=len(model.by_task[t])) for t, n in enumerate(names)}
        empty = dict(skipped=0, failed=0, orphaned=0)
        serial = {n: dict(empty, completed=full[n]["total"], total=full[n]["total"]) for n in names}
        some = [n for n in names if full[n]["total"]]
        check_run_text(out, first, serial, some, {}, some, "sequential run")
        raised = collections.Counter(
            names[k[0]] for k, fs in faults.items() for f in fs[: model.attempts[k]] if f in ("raise", "odd")
        )
        worked = [n for t, n in enumerate(names) if any(model.attempts[k] for k in keys if k[0] == t)]
        check_run_text(out, second, full, names, raised, worked, "distributed run")
        if res["returned"] is not ok:
            out.violate(
                "C17", "returned", f"run_blockwise returned {res['returned']}, {len(model.completed)} of {len(keys)} blocks completed"
            )
    else:
        for t, n in enumerate(names):
            if res["states"].get(n) != model.counts(t):
                out.violate(("C17", "C12", "C08"), "states", f"{n} ended with {res['states'].get(n)}, expected {model.counts(t)}")
        told = res["told"]
        kinds = [e[0] for e in told]
        if kinds.count("exit") != 1 or kinds[-1] != "exit":
            out.violate("C18", "exit", f"end of run announced {kinds.count('exit')} times, last events {kinds[-3:]}")
        for t, n in enumerate(names):
            ev = [e[0] for e in told if len(e) == 2 and e[1] == n]
            total = sum(model.attempts[k] for k in keys if k[0] == t)
            if ev.count("acquire") != total or ev.count("release") != total:
                out.violate(
                    "C18", "blocks", f"{n}: {total} attempts, {ev.count('acquire')} hand-outs and {ev.count('release')} returns announced"
                )
            if ev.count("done") != 1 or ev.count("start") > 1 or ev[-1] != "done":
                out.violate("C18", "story", f"{n}: {ev.count('start')} starts, {ev.count('done')} ends, last {ev[-2:]}")
            if "acquire" in ev and ev[0] != "start":
                out.violate("C18", "start", f"{n}: {ev[:3]}")
        reported = sorted(tuple(e[1:3]) for e in told if e[0] == "failure")
        want = sorted(
            (keys.index(k), "ValueError" if f == "raise" else "RuntimeError")
            for k, fs in faults.items()
            for f in fs[: model.attempts[k]]
            if f in ("raise", "odd")
        )
        if reported != want:
            out.violate("C18", "failures", f"failures announced: {reported}, expected {want}")

    # real time order
    done_at = {}
    for (i, n), (b, e) in intervals.items():
        k = keys[i]
        if k in model.completed and n == attempts[k]:
            done_at[k] = e
    for i, at in first_check.items():
        done_at[keys[i]] = at
    runs = [(keys[i], n, b, e) for (i, n), (b, e) in intervals.items() if b is not None and e is not None]
    for k, n, b, e in runs:
        for d in model.cross[k]:
            if d not in done_at or done_at[d] > b:
                out.violate("C04", "early", f"{model.blocks[k]} started before {model.blocks[d]} was done")
    for j, (k, n, b, e) in enumerate(runs):
        if not specs[k[0]]["rwc"]:
            continue
        for k2, n2, b2, e2 in runs[j + 1 :]:
            if k2[0] == k[0] and k2 != k and b < e2 and b2 < e:
                if geom.conflict(model.blocks[k], model.blocks[k2]):
                    out.violate("C03", "conflict", f"{model.blocks[k]} and {model.blocks[k2]} at the same time")
    pids = {e[3] for e in res["events"] if e[0] == "b"}
    out.count("worker processes", len(pids))
    out.count("attempts", sum(attempts.values()))
    for fs in faults.values():
        for f in fs:
            out.count("fault " + f)
    out.count("client functions", sum(1 for e in res["events"] if e[0] == "s"))
    out.count("boot crashes", case["boot"])
    out.count("returned false", int(not ok))
    out.nontrivial = len(keys) >= 2 and len(pids) >= 2
    out.note = f"{len(specs)} tasks, {len(keys)} blocks, {len(pids)} processes, faults {sorted(sum(faults.values(), []))}, {r.seconds:.1f} s"
