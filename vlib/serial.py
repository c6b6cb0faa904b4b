"""Engine running the sequential server on generated task graphs with planned
outcomes, skips and observers."""

import contextlib
import io

from . import geom
from .core import Outcome, StopCase
from .monitor import Watch, check_run_text
from .tapes import Tapes
from .sched import (
    answer,
    passed_tasks,
    Model,
    check_hand_out,
    check_regions,
    key_of,
    state_counts,
    upstream_map,
)


def make_plan(seq):
    """Outcome per (key, attempt), stable under shrinking."""

    def plan(key, attempt, keys):
        if not seq:
            return 0
        return seq[(keys.index(key) * 3 + attempt) % len(seq)]

    return plan


def choose_skips(case, keys):
    skippable, raising = set(), set()
    if case.get("check") == "all":
        return set(keys), raising
    if case.get("check"):
        for v in case["skip"]:
            if keys:
                k = keys[v % len(keys)]
                if v % 7 == 3:
                    raising.add(k)
                    skippable.discard(k)
                else:
                    skippable.add(k)
                    raising.discard(k)
        if case["check"] == "most":
            skippable = set(keys) - skippable - raising
    return skippable, raising


def run_serial_case(case):
    out = Outcome()
    try:
        _run(case, out)
    except StopCase:
        pass
    return out


class Abort(BaseException):
    pass


def _run(case, out):
    import daisy
    from daisy import BlockStatus, DependencyGraph, Scheduler, SerialServer
    from daisy.server_observer import ServerObserver

    specs = case["tasks"]
    names = geom.names_of(specs)
    index = {n: i for i, n in enumerate(names)}

    with out.guard("creating tasks"):
        graph = DependencyGraph(geom.make_tasks(specs))
        ups = upstream_map(graph, names, out)
    model = Model(specs, lambda k: ups.get(k, set()))
    if set(ups) != set(model.blocks):
        out.violate(("C01", "C06"), "tiling", "blocks of the graph differ from the model")
        raise StopCase()
    keys = sorted(model.blocks)
    plan = make_plan(case["outcomes"])
    skippable, raising = choose_skips(case, keys)
    events = []
    last_settled = {}
    steps = [0]

    def process(block):
        steps[0] += 1
        if steps[0] > 50 + 10 * len(keys) * 6:
            out.violate(("C06", "C07"), "endless", "blocks are processed forever")
            raise Abort()
        where = f"sequential run, call {steps[0]}"
        k = key_of(index, block)
        check_regions(out, model, k, block, where)
        check_hand_out(out, model, k, [], where)
        if k in skippable:
            out.violate("C09", "processed", f"{where}: {block} is done already")
        events.append(("process", block.task_id))
        model.hand_out(k)
        o = plan(k, model.attempts[k], keys)
        fails = False
        if o == 1:
            block.status = BlockStatus.FAILED
            fails = True
        elif o == 2:
            block.status = BlockStatus.SUCCESS
        out.count("blocks processed")
        last_settled[k[0]] = "release"
        if fails:
            out.count("failed attempts")
            orphaned = set(model.orphaned)
            if model.fail(k):
                out.count("permanent failures")
                for o in model.orphaned - orphaned:
                    if o[0] != k[0]:
                        last_settled[o[0]] = "orphan"
            elif case.get("check") and case.get("late") and (k[0] + sum(k[1]) + model.attempts[k]) % 2:
                # done, but reported as failed
                skippable.add(k)
                raising.discard(k)
                out.count("done although reported as failed")
        else:
            model.succeed(k)
        if case.get("check") and case.get("late"):
            # somebody else provides a block
            x = keys[(steps[0] * 7 + len(case["skip"])) % len(keys)]
            if steps[0] % 3 == 0 and x not in model.completed and x not in raising:
                skippable.add(x)

    def check(block):
        k = key_of(index, block)
        if k in raising:
            out.count("raising checks")
            raise ValueError("check failed")
        if k in skippable:
            if k not in model.ready(k[0]):
                out.violate(("C09", "C06"), "checked-early", f"{block} checked although not ready")
            model.skip(k)
            out.count("skipped blocks")
            last_settled[k[0]] = "skip"
            return answer(True, k)
        return answer(False, k)

    def second(block):
        raise RuntimeError("second of the pair called instead of the first")

    cf = None
    if case.get("check"):
        cf = (check, second) if case.get("pair") else check

    class Observer(ServerObserver):
        def on_task_start(self, task_id, task_state):
            events.append(("start", task_id))

        def on_acquire_block(self, task_id, task_state):
            events.append(("acquire", task_id, state_counts(task_state)))

        def on_release_block(self, task_id, task_state):
            got = state_counts(task_state)
            want = model.counts(index[task_id])
            if got != want:
                out.violate(("C18", "C08"), "state", f"after a block of {task_id}: reported {got}, true {want}")
            events.append(("release", task_id))

        def on_task_done(self, task_id, task_state):
            if not model.done(index[task_id]) or not task_state.is_done():
                out.violate("C18", "done-early", f"{task_id} announced as done with {model.counts(index[task_id])}")
            events.append(("done", task_id))

        def on_block_failure(self, block, exception, context):
            events.append(("failure", block.task_id))

        def on_server_exit(self):
            events.append(("exit",))

    with out.guard("creating tasks"):
        tasks = geom.make_tasks(
            specs, process=[process] * len(specs), check_function=[cf] * len(specs)
        )
    states = None
    watch = None
    printed = io.StringIO()
    if case.get("monitor"):
        watch = Watch(lambda n: model.counts(index[n]))
    try:
        passed = passed_tasks(tasks, specs, int(case.get("pass", 0)))
        with out.guard("sequential run"):
            if case.get("entry") == "convenience":
                with contextlib.redirect_stderr(printed), contextlib.redirect_stdout(printed):
                    states = daisy.run_blockwise(passed, multiprocessing=False)
            else:
                server = SerialServer()
                own = [Scheduler(passed)] if case.get("scheduler") else []
                tapes = Tapes(server, lambda: Observer(server))
                if watch is None:
                    states = server.run_blockwise(passed, *own)
                else:
                    with watch.captured():
                        watch.attach(server)
                        states = server.run_blockwise(passed, *own)
    except Abort:
        raise StopCase()

    left = set(keys) - model.completed - model.failed - model.orphaned
    if left:
        props = ["C06", "C12"]
        if model.failed:
            props.append("C07")
        if case.get("check"):
            props.append("C09")
        out.violate(
            tuple(props + ["C17"]),
            "unfinished",
            f"sequential run ended with {len(left)} blocks left, e.g. {model.blocks[min(left)]}",
        )
    for t, n in enumerate(names):
        try:
            got = state_counts(states[n])
        except Exception as e:
            out.violate("C17", "result", f"no final state for {n}: {e!r}")
            raise StopCase()
        if got != model.counts(t):
            out.violate(
                ("C17", "C08", "C07", "C09"), "final-state", f"{n}: reported {got}, true {model.counts(t)}"
            )
    if not case.get("entry") == "convenience":
        check_story(out, names, model, events, last_settled)
        tapes.check(out, events)
    if case.get("entry") == "convenience":
        full = {n: dict(model.counts(t), total=len(model.by_task[t])) for t, n in enumerate(names)}
        worked = {n for t, n in enumerate(names) if any(model.attempts[k] for k in keys if k[0] == t)}
        ended = {n for n in worked if last_settled.get(index[n]) == "release" and model.done(index[n])}
        check_run_text(out, printed.getvalue(), full, worked, None, ended, "sequential run")
    if watch is not None and case.get("entry") != "convenience":
        watch.check(out, names, {}, watch.started)
    nb = len(keys)
    out.nontrivial = nb >= 2 and out.stats.get("blocks processed", 0) + out.stats.get("skipped blocks", 0) >= 2
    out.note = f"{len(specs)} tasks, {nb} blocks, {out.stats.get('blocks processed', 0)} processed, {out.stats.get('skipped blocks', 0)} skipped"


def check_story(out, names, model, events, last_settled):
    ends = [i for i, e in enumerate(events) if e[0] == "exit"]
    if ends != [len(events) - 1]:
        out.violate("C18", "exit", f"end of run announced at {ends} of {len(events)} events")
    for t, n in enumerate(names):
        ev = [e for e in events if len(e) > 1 and e[1] == n]
        kinds = [e[0] for e in ev]
        processed = kinds.count("process")
        if kinds.count("start") > 1 or (processed and kinds[0] != "start"):
            out.violate("C18", "start", f"{n}: {kinds[:6]}")
        body = [k for k in kinds if k in ("acquire", "process", "release")]
        if body != ["acquire", "process", "release"] * processed:
            out.violate("C18", "blocks", f"{n}: notifications {body[:9]}")
        if kinds.count("done") > 1:
            out.violate("C18", "done", f"{n} announced as done {kinds.count('done')} times")
        if "done" in kinds and kinds[-1] != "done":
            out.violate("C18", "done", f"{n}: blocks after being done: {kinds[-3:]}")
        if model.done(t) and last_settled.get(t) == "release" and processed:
            if "done" not in kinds:
                out.violate("C18", "done", f"{n} finished but was not announced as done")
        for e in ev:
            if e[0] == "acquire" and (e[2]["processing"] != 1):
                out.violate("C18", "state", f"{n}: state at hand-out {e[2]}")
