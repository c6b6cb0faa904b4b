"""Many chained tasks with (exponentially) many paths between them: setting up
and running them takes time that depends on their number, not on the number of
paths. A case needs milliseconds; the CPU limit of the layer decides."""

import contextlib
import io

from hypothesis import strategies as st

from .core import Outcome, StopCase
from .sched import state_counts

CPU_LIMIT = 40
ints = st.integers

cases = st.fixed_dictionaries(
    dict(
        shape=st.sampled_from(["layers", "layers", "window", "window", "all", "chain"]),
        width=ints(2, 3),
        # up to 3^20 paths
        tasks=st.sampled_from([5, 12, 25, 40, 60]),
        blocks=ints(1, 2),
        entry=st.sampled_from(["convenience", "convenience", "serial", "scheduler"]),
        listed=st.sampled_from(["last", "last", "all", "reversed"]),
        fails=st.one_of(st.none(), ints(0, 59)),
    )
)


def parents_of(case, i):
    w = case["width"]
    if case["shape"] == "layers":
        first = i // w * w - w
        return list(range(max(0, first), first + w)) if first >= 0 else []
    if case["shape"] == "window":
        return list(range(max(0, i - w), i))
    if case["shape"] == "chain":
        return [i - 1] if i else []
    return list(range(i))


def run_ladder_case(case):
    out = Outcome()
    try:
        _run(case, out)
    except StopCase:
        pass
    return out


def _run(case, out):
    import daisy
    from daisy import BlockStatus, Roi, Scheduler, SerialServer, Task

    n = case["tasks"] if case["shape"] != "all" else min(20, case["tasks"])
    parents = [parents_of(case, i) for i in range(n)]
    fails = None if case["fails"] is None else case["fails"] % n
    done, calls = set(), []

    def process(block):
        i, k = int(block.task_id[1:]), int(block.write_roi.begin[0]) // 10
        if len(calls) > 10 * n * case["blocks"]:
            out.violate(("C22", "C06"), "endless", "blocks are processed forever")
            raise StopCase()
        calls.append((i, k))
        missing = [p for p in parents[i] if (p, k) not in done]
        if missing:
            out.violate(("C22", "C04"), "order", f"block {k} of task {i} is processed before that of task {missing[0]}")
        if i == fails:
            block.status = BlockStatus.FAILED
        else:
            block.status = BlockStatus.SUCCESS
            done.add((i, k))

    tasks = []
    with out.guard("creating tasks", ("C22",)):
        for i in range(n):
            tasks.append(
                Task(
                    f"t{i}",
                    Roi((0,), (10 * case["blocks"],)),
                    Roi((0,), (10,)),
                    Roi((0,), (10,)),
                    process,
                    read_write_conflict=False,
                    max_retries=0,
                    upstream_tasks=[tasks[p] for p in parents[i]],
                )
            )
    # everything the listed ones require
    if case["listed"] == "last":
        passed, used = [tasks[-1]], {n - 1}
        for i in reversed(range(n)):
            if i in used:
                used |= set(parents[i])
    else:
        passed = list(tasks) if case["listed"] == "all" else list(reversed(tasks))
        used = set(range(n))
    what = f"running {len(used)} tasks ({case['shape']}, width {case['width']})"
    with out.guard(what, ("C22",)):
        if case["entry"] == "convenience":
            with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
                states = daisy.run_blockwise(passed, multiprocessing=False)
        elif case["entry"] == "serial":
            states = SerialServer().run_blockwise(passed)
        else:
            sch = Scheduler(passed)
            while True:
                ready = sch.get_ready_tasks()
                if not ready:
                    break
                b = sch.acquire_block(ready[-1].task_id)
                if b is None:
                    out.violate(("C22", "C06"), "withheld", f"nothing for {ready[-1].task_id} although ready")
                    raise StopCase()
                process(b)
                sch.release_block(b)
            states = sch.task_states

    given_up = {fails} if fails in used else set()
    for i in range(n):
        if given_up & set(parents[i]):
            given_up.add(i)
    blocks = case["blocks"]
    for i in sorted(used):
        want = dict(completed=blocks, failed=0, orphaned=0)
        if i in given_up:
            want = dict(completed=0, failed=blocks if i == fails else 0, orphaned=0 if i == fails else blocks)
        got = state_counts(states[f"t{i}"])
        if {k: got[k] for k in want} != want:
            out.violate(("C22", "C08"), "counts", f"{what}: task {i} ended with {got}, expected {want}")
        seen = sorted(k for j, k in calls if j == i)
        if seen != (list(range(blocks)) if i not in given_up or i == fails else []):
            out.violate(("C22", "C06"), "processed", f"{what}: blocks {seen} of task {i} were processed")
    out.count("tasks", len(used))
    out.count("runs with a failure", int(bool(given_up)))
    out.nontrivial = len(used) >= 10 and case["shape"] != "chain"
    out.note = f"{len(used)} tasks ({case['shape']}, width {case['width']})"
