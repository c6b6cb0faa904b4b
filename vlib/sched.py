"""Engine driving the Scheduler directly with generated operation sequences,
against a reference model of the whole run."""

import pickle

import numpy

from . import geom
from .core import Outcome, StopCase


class Choices:
    """A list of ints, continued by a deterministic generator."""

    def __init__(self, ops, tail):
        self.ops, self.i, self.x = ops, 0, (tail * 2654435761 + 12345) & 0xFFFFFFFF

    def next(self):
        if self.i < len(self.ops):
            v = self.ops[self.i]
        else:
            self.x = (self.x * 1103515245 + 12345) & 0x7FFFFFFF
            v = self.x >> 8
        self.i += 1
        return v


class Model:
    """True state of every block."""

    def __init__(self, specs, upstream_of):
        self.specs = specs
        self.blocks = {}
        self.by_task = []
        for t, s in enumerate(specs):
            bs = geom.model_blocks(t, s)
            self.by_task.append(bs)
            for b in bs:
                self.blocks[b.key] = b
        # cross-task dependencies are geometric; dependencies within a task are
        # the ones the system under test declares (their correctness is C05)
        self.deps = {b: set() for b in self.blocks}
        for t, s in enumerate(specs):
            for b in self.by_task[t]:
                for u in s["up"]:
                    for a in self.by_task[u]:
                        if geom.feeds(a, b):
                            self.deps[b.key].add(a.key)
        self.cross = {k: set(v) for k, v in self.deps.items()}
        for k in self.blocks:
            self.deps[k] |= upstream_of(k)
        self.rdeps = {k: set() for k in self.blocks}
        for k, ds in self.deps.items():
            for d in ds:
                self.rdeps.setdefault(d, set()).add(k)
        self.completed, self.skipped, self.failed, self.orphaned = (
            set(),
            set(),
            set(),
            set(),
        )
        self.processing = set()
        self.attempts = {k: 0 for k in self.blocks}
        self._ready = [
            {b.key for b in bs if not self.deps[b.key]} for bs in self.by_task
        ]

    def ready(self, t):
        return self._ready[t]

    def hand_out(self, k):
        self.attempts[k] += 1
        self.processing.add(k)
        self._ready[k[0]].discard(k)

    def _complete(self, k):
        self.completed.add(k)
        for d in self.rdeps[k]:
            if (
                d not in self.completed
                and d not in self.failed
                and d not in self.orphaned
                and d not in self.processing
                and self.deps[d] <= self.completed
            ):
                self._ready[d[0]].add(d)

    def succeed(self, k):
        self.processing.discard(k)
        self._complete(k)

    def skip(self, k):
        self._ready[k[0]].discard(k)
        self.skipped.add(k)
        self._complete(k)

    def fail(self, k):
        """Returns True if permanent."""
        self.processing.discard(k)
        if self.attempts[k] > self.specs[k[0]]["retries"]:
            self.failed.add(k)
            stack = [k]
            while stack:
                for d in self.rdeps[stack.pop()]:
                    if d not in self.orphaned:
                        self.orphaned.add(d)
                        stack.append(d)
            return True
        self._ready[k[0]].add(k)
        return False

    def counts(self, t):
        def n(s):
            return sum(1 for k in s if k[0] == t)

        c = dict(
            total=len(self.by_task[t]),
            ready=len(self._ready[t]),
            processing=n(self.processing),
            completed=n(self.completed),
            skipped=n(self.skipped),
            failed=n(self.failed),
            orphaned=n(self.orphaned),
        )
        c["pending"] = (
            c["total"]
            - c["ready"]
            - c["processing"]
            - c["completed"]
            - c["failed"]
            - c["orphaned"]
        )
        return c

    def done(self, t):
        c = self.counts(t)
        return c["completed"] + c["failed"] + c["orphaned"] == c["total"]


def state_counts(ts):
    return dict(
        total=ts.total_block_count,
        ready=ts.ready_count,
        processing=ts.processing_count,
        completed=ts.completed_count,
        skipped=ts.skipped_count,
        failed=ts.failed_count,
        orphaned=ts.orphaned_count,
        pending=ts.pending_count,
    )


def daisy_block(graph_task, s, k):
    """A daisy Block object for a model block, built like daisy builds them."""
    from daisy import Block, Roi

    total, read, write = geom.rois(s)
    wb = k.wb
    rb = k.rb
    return Block(
        total,
        Roi(rb, [e - b for b, e in zip(k.rb, k.re)]),
        Roi(wb, [e - b for b, e in zip(k.wb, k.we)]),
        task_id=graph_task,
    )


def answer(done, key):
    """What a check function returns: anything that is (not) true."""
    r = (key[0] + sum(key[1])) % 5
    if done:
        return [True, True, numpy.bool_(True), numpy.bool_(True), 1][r]
    return [False, False, numpy.bool_(False), None, 0][r]


def collect_blocks(graph, names):
    """All blocks as the dependency graph enumerates them, by task index."""
    out = []
    for name in names:
        g = graph.task_dependency_graphs[name]
        out.append([b for lvl in range(g.num_levels) for b in g.level_blocks(lvl)])
    return out


def key_of(names_index, block):
    return (names_index[block.task_id], geom.box(block.write_roi)[0])


def upstream_map(graph, names, out):
    """key -> set of keys of same-task upstream blocks, as declared."""
    index = {n: i for i, n in enumerate(names)}
    result = {}
    for blocks in collect_blocks(graph, names):
        for b in blocks:
            result[key_of(index, b)] = {
                key_of(index, u)
                for u in graph.upstream(b)
                if u.task_id == b.task_id
            }
    return result


def check_regions(out, model, k, block, where):
    mb = model.blocks.get(k)
    if mb is None:
        out.violate(
            ("C01", "C06"), "unknown-block", f"{where}: {block} is not part of the tiling"
        )
        raise StopCase()
    if geom.box(block.write_roi) != (mb.wb, mb.we) or geom.box(block.read_roi) != (
        mb.rb,
        mb.re,
    ):
        out.violate("C01", "regions", f"{where}: got {block}, expected {mb}")


def check_hand_out(out, model, k, inflight, where):
    """Invariants when block k is handed out while `inflight` keys are being
    processed."""
    s = model.specs[k[0]]
    mb = model.blocks[k]
    if k in model.processing:
        out.violate(("C06", "C11"), "duplicate", f"{where}: {mb} is already being processed")
    if k in model.completed:
        if k in model.skipped:
            out.violate(("C06", "C09"), "again", f"{where}: {mb} was already skipped")
        else:
            out.violate(("C06", "C11"), "again", f"{where}: {mb} was already completed")
    if k in model.failed:
        out.violate(("C07", "C06"), "after-failure", f"{where}: {mb} failed permanently before")
    if k in model.orphaned:
        out.violate(("C07", "C06"), "orphan", f"{where}: {mb} depends on a failed block")
    if model.attempts[k] >= s["retries"] + 1:
        out.violate(
            "C07", "retries", f"{where}: {mb} attempt {model.attempts[k] + 1} of {s['retries'] + 1}"
        )
    missing = model.cross[k] - model.completed
    if missing:
        a = model.blocks[min(missing)]
        out.violate("C04", "order", f"{where}: {mb} handed out before {a} was completed")
    missing = (model.deps[k] - model.cross[k]) - model.completed
    if missing:
        a = min(missing)
        out.violate("C03", "order", f"{where}: {mb} handed out before its dependency {a}")
    if s["rwc"]:
        for o in inflight:
            if o[0] == k[0] and o != k and geom.conflict(model.blocks[o], mb):
                out.violate(
                    "C03", "conflict", f"{where}: {mb} conflicts with {model.blocks[o]} in flight"
                )
                break


def check_states(out, model, scheduler, names, where, all_orphans=True):
    for t, name in enumerate(names):
        got = state_counts(scheduler.task_states[name])
        want = model.counts(t)
        if any(v < 0 for v in got.values()):
            out.violate("C08", "negative", f"{where}: state of {name} is {got}")
        if not all_orphans:
            # orphans may be counted as pending
            if got["orphaned"] > want["orphaned"]:
                out.violate(("C08", "C07"), "counts", f"{where}: {name} {got} != {want}")
            got["pending"] += got["orphaned"]
            want["pending"] += want["orphaned"]
            got["orphaned"] = want["orphaned"] = 0
        if got != want:
            bad = {k: (got[k], want[k]) for k in got if got[k] != want[k]}
            props = {"C08"}
            if set(bad) & {"failed", "orphaned"}:
                props.add("C07")
            if "skipped" in bad:
                props.add("C09")
            if "total" in bad:
                props.add("C01")
            if set(bad) == {"ready", "pending"}:
                props.add("C06")
            out.violate(
                tuple(props), "counts", f"{where}: {name} (reported, true) {bad}"
            )
            raise StopCase()
        if all_orphans and bool(scheduler.task_states[name].is_done()) != model.done(t):
            out.violate(
                "C08", "done", f"{where}: {name} is_done {not model.done(t)} with {want}"
            )
    ready = sorted(t.task_id for t in scheduler.get_ready_tasks())
    want = sorted(n for t, n in enumerate(names) if model.ready(t))
    if ready != want:
        out.violate(("C08", "C06"), "ready-tasks", f"{where}: {ready} reported, {want} are ready")


def passed_tasks(tasks, specs, mode):
    """The list handed to the scheduler: everything, only leaves, shuffled, with
    duplicates."""
    used = {u for s in specs for u in s["up"]}
    leaves = [t for i, t in enumerate(tasks) if i not in used]
    if mode == 0:
        return list(tasks)
    if mode == 1:
        return leaves
    if mode == 2:
        return list(reversed(tasks))
    return leaves + tasks[:1] + leaves


def run_scheduler_case(case):
    """case: tasks, pass, phases (list of dicts: ops, tail, par, pf, relw, cut),
    skip (None or list of ints), raises, pair, orphans"""
    out = Outcome()
    try:
        _run_scheduler_case(case, out)
    except StopCase:
        pass
    return out


def _run_scheduler_case(case, out):
    from daisy import BlockStatus, Scheduler

    specs = case["tasks"]
    names = geom.names_of(specs)
    index = {n: i for i, n in enumerate(names)}
    done_before = set()  # keys persisted over phases
    checked = {}

    for p, phase in enumerate(case["phases"]):
        where0 = f"phase {p}" if len(case["phases"]) > 1 else "run"
        use_check = case.get("check") and (p > 0 or case["check"] != "resume")
        raising = set()
        skippable = set(done_before) if case.get("check") == "resume" else set()

        def check(block):
            k = key_of(index, block)
            checked[k] = checked.get(k, 0) + 1
            if k in raising:
                raise ValueError("check failed")
            return answer(k in skippable, k)

        def second(block):
            raise RuntimeError("second of the pair called instead of the first")

        cf = None
        if use_check:
            cf = (check, second) if case.get("pair") else check
        with out.guard("creating tasks and scheduler"):
            tasks = geom.make_tasks(specs, check_function=[cf] * len(specs))
            if case.get("orphans", True):
                sch = Scheduler(passed_tasks(tasks, specs, case.get("pass", 0)))
            else:
                sch = Scheduler(
                    passed_tasks(tasks, specs, case.get("pass", 0)),
                    count_all_orphans=False,
                )
            graph = sch.dependency_graph
            ups = upstream_map(graph, names, out)
        model = Model(specs, lambda k: ups.get(k, set()))
        nblocks = len(model.blocks)
        if set(ups) != set(model.blocks):
            out.violate(
                ("C01", "C06"),
                "tiling",
                f"blocks {sorted(set(ups) ^ set(model.blocks))[:3]} enumerated or expected only",
            )
            raise StopCase()
        if use_check and case["check"] != "resume":
            keys = sorted(model.blocks)
            for n, v in enumerate(case["skip"]):
                if keys and n < 200:
                    k = keys[v % len(keys)]
                    if v % 7 == 3:
                        raising.add(k)
                        skippable.discard(k)
                    else:
                        skippable.add(k)
                        raising.discard(k)
            if case["check"] == "all":
                skippable = set(keys)
                raising = set()
            elif case["check"] == "most":
                skippable = set(keys) - skippable - raising
        check_states(out, model, sch, names, f"{where0}, start", case.get("orphans", True))

        choices = Choices(phase["ops"], phase["tail"])
        inflight = []
        none_since = set()
        steps = 0
        skipped_now = 0
        limit = 50 + 40 * nblocks * (5 + max(s["retries"] for s in specs))
        while True:
            steps += 1
            if steps > limit:
                out.violate(("C06", "C07"), "endless", f"{where0}: not finished after {steps} steps")
                raise StopCase()
            if phase["cut"] is not None and steps > phase["cut"]:
                break  # crash: scheduler and workers are gone
            candidates = [t for t in range(len(specs)) if t not in none_since]
            if not candidates and not inflight:
                break
            r = choices.next()
            release = inflight and (
                not candidates
                or len(inflight) >= phase["par"]
                or r % 100 < phase["relw"]
            )
            r //= 100
            if release:
                none_since = set()
                b, k = inflight.pop(r % len(inflight))
                r //= 64
                fails = r % 10 < phase["pf"]
                if (r // 10) % 3 == 0:
                    # as it comes back from another process
                    b = pickle.loads(pickle.dumps(b))
                b.status = BlockStatus.FAILED if fails else BlockStatus.SUCCESS
                before = {n: sch.task_states[n].ready_count for n in names}
                with out.guard(f"{where0} step {steps}: releasing {b}"):
                    ret = sch.release_block(b)
                permanent = False
                if fails:
                    out.count("failed attempts")
                    permanent = model.fail(k)
                    if permanent:
                        out.count("permanent failures")
                    elif use_check and case.get("late") and (r // 10) % 2:
                        # done, but the worker did not live to tell
                        skippable.add(k)
                        raising.discard(k)
                        out.count("done although reported as failed")
                else:
                    model.succeed(k)
                    done_before.add(k)
                where = f"{where0} step {steps}: after releasing {k} as {b.status.name}"
                check_states(out, model, sch, names, where, case.get("orphans", True))
                gained = {n for n in names if sch.task_states[n].ready_count > before[n]}
                if not isinstance(ret, dict) or not gained <= set(ret) or any(
                    ret[n] is not sch.task_states[n] and state_counts(ret[n]) != state_counts(sch.task_states[n])
                    for n in ret
                ):
                    out.violate(
                        "C08", "release-report", f"{where}: {sorted(gained)} gained ready blocks, reported {sorted(ret or [])}"
                    )
            else:
                t = candidates[r % len(candidates)]
                r //= 16
                if use_check and case.get("late") and r % 4 == 0 and nblocks:
                    # somebody else provides a block
                    x = sorted(model.blocks)[(r // 4) % nblocks]
                    if x not in model.completed and x not in raising and all(x != y for _, y in inflight):
                        skippable.add(x)
                where = f"{where0} step {steps}"
                with out.guard(f"{where}: requesting a block of {names[t]}"):
                    b = sch.acquire_block(names[t])
                # every ready block that is done already may be skipped before
                # (and only before) a block is handed out
                k = None
                if b is not None:
                    if b.task_id != names[t]:
                        out.violate(("C06", "C02"), "task", f"{where}: asked for {names[t]}, got {b}")
                        raise StopCase()
                    k = key_of(index, b)
                    check_regions(out, model, k, b, where)
                # replay skipping in the model: the reported number of skips
                # tells how many blocks were skipped
                if use_check:
                    # blocks that are skippable and ready are skipped in some
                    # order; which ones is visible through the check calls
                    calls = dict(checked)
                    checked.clear()
                    pend = {c for c in calls if c in skippable and c[0] == t}
                    while pend:
                        now = [c for c in pend if c in model.ready(t)]
                        if not now:
                            break
                        for c in now:
                            model.skip(c)
                            skipped_now += 1
                            pend.discard(c)
                    for c in calls:
                        if c in raising:
                            out.count("raising checks")
                    if skippable & {k}:
                        out.violate(("C09",), "processed", f"{where}: {b} is done already")
                if b is None:
                    none_since.add(t)
                    if model.ready(t):
                        left = sorted(model.ready(t))
                        props = ["C06"]
                        if set(left) & skippable:
                            props.append("C09")
                        if model.failed or any(model.attempts[x] for x in left):
                            props.append("C07")
                        out.violate(tuple(props), "withheld", f"{where}: nothing for {names[t]} although {left[:3]} ready")
                        raise StopCase()
                else:
                    check_hand_out(out, model, k, [x for _, x in inflight], where)
                    if k not in model.ready(t):
                        out.violate("C06", "not-ready", f"{where}: {b} was not ready")
                    model.hand_out(k)
                    inflight.append((b, k))
                    out.count("hand-outs")
                    # other tasks might have become ready by skipping
                    if skipped_now:
                        none_since = set()
                if use_check and b is None and skipped_now:
                    none_since = {x for x in none_since if not model.ready(x)} | {t}
                check_states(out, model, sch, names, where + f": after request for {names[t]}", case.get("orphans", True))
            out.count("operations")
        out.count("skipped blocks", skipped_now)
        if phase["cut"] is None:
            left = set(model.blocks) - model.completed - model.failed - model.orphaned
            if left:
                out.violate(
                    ("C06", "C07") if model.failed else ("C06",),
                    "unfinished",
                    f"{where0}: no block available, {len(left)} left, e.g. {model.blocks[min(left)]}",
                )
            if not model.failed and case.get("check") == "resume":
                if model.completed != set(model.blocks):
                    out.violate("C09", "unfinished", f"{where0}: resumed run left blocks")
        else:
            out.count("interrupted runs")
        if case.get("check") == "resume":
            done_before |= model.completed
        inflight_conf = sum(len(v) for v in model.deps.values())
        out.count("dependencies", inflight_conf)
        if nblocks >= 2 and (len(specs) > 1 or inflight_conf) and steps > 4:
            out.nontrivial = True
    out.note = f"{len(specs)} task(s), {nblocks} blocks, {out.stats.get('operations', 0)} operations"
