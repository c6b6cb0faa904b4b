"""Volumes with up to 10^15 blocks: nothing may enumerate them. Regions,
identifiers, dependencies and the first steps of a schedule are compared with
closed-form geometry, within a CPU budget that is orders of magnitude larger
than what a handful of blocks needs and smaller than any enumeration."""

import contextlib
import itertools
import resource

from hypothesis import strategies as st

from . import geom
from .core import Outcome, StopCase
from .sched import Choices, state_counts

ints = st.integers
MEMORY = 3 << 30
CPU_LIMIT = 40


@st.composite
def cases(draw):
    dims = draw(st.sampled_from([1, 2, 3, 3, 3, 4]))
    # (identifiers have to fit into 53 bits)
    nmax = draw(st.sampled_from([{1: 10**6, 2: 10**5, 3: 4 * 10**4, 4: 3000}, {1: 2**50, 2: 6 * 10**7, 3: 10**5, 4: 4500}]))[dims]
    axes = []
    big = draw(ints(0, dims - 1))
    for d in range(dims):
        ws = draw(st.sampled_from([1, 2, 3, 10, 64, 1000]))
        n = draw(ints(1, 6)) if d != big and draw(ints(0, 2)) == 0 else draw(ints(nmax // 20, nmax))
        c0 = draw(st.sampled_from([0, 0, 1, ws // 2, ws, ws + 1, 2 * ws]))
        c1 = c0 if draw(st.booleans()) else draw(st.sampled_from([0, 1, ws // 2, ws, 2 * ws + 1]))
        axes.append((ws, c0, c1, n * ws + draw(ints(0, ws - 1)), draw(ints(-(10**9), 10**9)), draw(ints(-9, 9))))
    s = dict(zip(("ws", "c0", "c1", "W", "off", "ro"), map(list, zip(*axes))))
    s.update(fit=draw(st.sampled_from(["valid", "overhang", "shrink"])), rwc=draw(ints(0, 3)) > 0, retries=draw(ints(0, 2)), nw=1, up=[])
    specs = [s]
    if draw(ints(0, 2)) > 0:
        # a chained task within the region the first one writes
        u, t = s, dict(fit=draw(st.sampled_from(["valid", "overhang", "shrink"])), rwc=draw(st.booleans()), retries=0, nw=1, up=[0])
        # bounded fan-out: a few axes with larger blocks or context
        wide = [draw(ints(0, dims - 1)) == 0 for _ in range(dims)]
        t["ws"] = [w * draw(st.sampled_from([1, 2, 3])) if x else w for w, x in zip(u["ws"], wide)]
        t["c0"] = [draw(st.sampled_from([0, 1, w])) if x else 0 for w, x in zip(t["ws"], wide)]
        t["c1"] = [draw(st.sampled_from([0, 1, w])) if x else 0 for w, x in zip(t["ws"], wide)]
        t["ro"] = [0] * dims
        # aligned or not, always starting within the first block
        shift = [draw(ints(0, max(0, w - 1))) if draw(st.booleans()) else 0 for w in u["ws"]]
        t["W"] = [max(1, W // w * w - x) for W, w, x in zip(u["W"], u["ws"], shift)]
        t["off"] = [o + a + x - c for o, a, x, c in zip(u["off"], u["c0"], shift, t["c0"])]
        specs.append(t)
    return dict(
        tasks=specs,
        probes=draw(st.lists(st.lists(ints(0, 2**40), min_size=dims, max_size=dims), min_size=1, max_size=5)),
        far=draw(st.booleans()),
        ops=draw(st.lists(ints(0, 2**24), max_size=30)),
        tail=draw(ints(0, 2**20)),
    )


@st.composite
def count_cases(draw):
    """Counts of blocks of any size."""
    dims = draw(ints(1, 5))
    axes = []
    for d in range(dims):
        ws = draw(st.one_of(st.sampled_from([1, 2, 3, 64]), ints(1, 2**20)))
        n = draw(st.one_of(ints(0, 5), ints(0, 2**33), ints(0, 2**70), st.sampled_from([2**16, 2**31, 2**32, 2**63, 2**64])))
        c0, c1 = draw(ints(0, 3 * ws)), draw(ints(0, 3 * ws))
        axes.append((ws, min(c0, 2 * ws) if d else c0, min(c1, ws) if d > 1 else c1, n * ws + draw(ints(0, ws - 1)), draw(ints(-(2**60), 2**60)), draw(ints(-9, 9))))
    s = dict(zip(("ws", "c0", "c1", "W", "off", "ro"), map(list, zip(*axes))))
    s.update(fit=draw(st.sampled_from(["valid", "overhang", "shrink"])), rwc=draw(st.booleans()), retries=0, nw=1, up=[])
    return dict(task=s)


def run_count_case(case):
    out = Outcome()
    s = case["task"]
    want = geom.num_blocks(s)
    try:
        with limited_memory(), out.guard("counting the blocks of a large volume", ("C22",)):
            from daisy import Scheduler

            (task,) = geom.make_tasks([s])
            scheduler = Scheduler([task])
            state = scheduler.task_states[task.task_id]
            got = [int(scheduler.dependency_graph.num_blocks(task.task_id)), int(state.total_block_count)]
            if got != [want, want]:
                out.violate(("C22", "C01"), "count", f"{got[0]} blocks announced, {want} expected")
            if bool(state.is_done()) != (want == 0):
                out.violate(("C22", "C08"), "done", f"a task with {want} blocks is {'' if want else 'not '}done")
            if not 0 < int(state.ready_count) <= want and want:
                out.violate(("C22", "C08"), "ready", f"{state.ready_count} of {want} blocks ready at the start")
    except StopCase:
        pass
    out.nontrivial = want > 2**53
    out.note = f"{want} blocks"
    return out


def block_at(t, s, k):
    """The model block at index k, or None."""
    if any(not 0 <= i < n for i, n in zip(k, geom.axis_counts(s))):
        return None
    wb = tuple(o + a + i * w for o, a, i, w in zip(s["off"], s["c0"], k, s["ws"]))
    we = tuple(b + w for b, w in zip(wb, s["ws"]))
    if s["fit"] == "shrink":
        we = tuple(min(e, o + a + W) for e, o, a, W in zip(we, s["off"], s["c0"], s["W"]))
    rb = tuple(b - a for b, a in zip(wb, s["c0"]))
    re = tuple(e + a for e, a in zip(we, s["c1"]))
    return geom.MBlock(t, tuple(k), wb, we, rb, re)


def near(t, s, begin, end, reads):
    """Blocks whose write (or read) region overlaps the box."""
    ranges = []
    for d, n in enumerate(geom.axis_counts(s)):
        g, w = s["off"][d] + s["c0"][d], s["ws"][d]
        lo = (begin[d] - s["c1"][d] * reads - g) // w - 2
        hi = (end[d] + s["c0"][d] * reads - g) // w + 2
        ranges.append(range(max(0, lo), min(n, hi + 1)))
    found = []
    for k in itertools.product(*ranges):
        b = block_at(t, s, k)
        if geom.overlap(begin, end, b.rb if reads else b.wb, b.re if reads else b.we):
            found.append(b)
    return found


@contextlib.contextmanager
def limited_memory():
    soft, hard = resource.getrlimit(resource.RLIMIT_AS)
    resource.setrlimit(resource.RLIMIT_AS, (MEMORY, hard))
    try:
        yield
    finally:
        resource.setrlimit(resource.RLIMIT_AS, (soft, hard))


def run_huge_case(case):
    out = Outcome()
    try:
        with limited_memory():
            _run(case, out)
    except StopCase:
        pass
    return out


def _run(case, out):
    from daisy import BlockStatus, Roi, Scheduler

    specs = case["tasks"]
    names = geom.names_of(specs)
    with out.guard("setting up a large volume", ("C22",)):
        tasks = geom.make_tasks(specs)
        scheduler = Scheduler([tasks[-1]])
        graph = scheduler.dependency_graph
    totals = [geom.num_blocks(s) for s in specs]
    for n, s, want in zip(names, specs, totals):
        got = int(graph.num_blocks(n))
        if got != want or int(scheduler.task_states[n].total_block_count) != want:
            out.violate(("C22", "C01"), "count", f"{n} announces {got} blocks, has {want}")
    out.nontrivial = max(totals) > 10**6

    def same(b, m, what):
        if (geom.box(b.write_roi), geom.box(b.read_roi)) != ((m.wb, m.we), (m.rb, m.re)):
            out.violate(("C22", "C01", "C02"), "regions", f"{what}: {b}, expected {m}")

    # --- some blocks and their neighbourhood
    ids = {}

    def identify(b, what):
        key = (b.task_id, geom.box(b.write_roi)[0])
        if ids.setdefault(b.block_id, key) != key:
            out.violate(("C22", "C02"), "identifier", f"{what}: {b} has the identifier of the block at {ids[b.block_id]}")
        seen = back.setdefault(key, b.block_id)
        if seen != b.block_id:
            out.violate(("C22", "C02"), "identifier", f"{what}: {b} had identifier {seen} before")
        return key

    back = {}
    for t, s in enumerate(specs):
        counts = geom.axis_counts(s)
        if 0 in counts:
            continue
        for p in case["probes"]:
            k = [i % n if not case["far"] else n - 1 - i % min(n, 3) for i, n in zip(p, counts)]
            m = block_at(t, s, k)
            with out.guard("looking up a block of a large volume", ("C22",)):
                found = graph.task_dependency_graphs[names[t]].get_subgraph_blocks(Roi(m.wb, [1] * len(m.wb)))
                if len(found) != 1:
                    out.violate(("C22", "C16"), "lookup", f"{len(found)} blocks found at {m.wb}")
                    raise StopCase()
                b = found[0]
                same(b, m, "looked up")
                identify(b, "looked up")
                ups, downs = graph.upstream(b), graph.downstream(b)
                for others, direction in ((ups, "upstream"), (downs, "downstream")):
                    for o in others:
                        identify(o, direction)
                    if len(others) != len(set(o.block_id for o in others)):
                        out.violate(("C22", "C05"), "twice", f"{b}: {direction} lists a block twice")
                for u in ups:
                    if b not in graph.downstream(u):
                        out.violate(("C22", "C05"), "mirror", f"{u} is upstream of {b}, which is not downstream of it")
                for x in downs:
                    if b not in graph.upstream(x):
                        out.violate(("C22", "C05"), "mirror", f"{x} is downstream of {b}, which is not upstream of it")
            for o, reads, others, direction in ((t - 1, 0, ups, "upstream"), (t + 1, 1, downs, "downstream")):
                if not 0 <= o < len(specs):
                    continue
                region = (m.rb, m.re) if not reads else (m.wb, m.we)
                want = {x.key[1] for x in near(o, specs[o], *region, reads)}
                got = {geom.box(x.write_roi)[0] for x in others if x.task_id == names[o]}
                if want != got:
                    out.violate(("C22", "C05", "C04"), "dependencies", f"{direction} of {b} at {sorted(got)}, expected {sorted(want)}")

    # --- the first steps of a run
    choices = Choices(case["ops"], case["tail"])
    flight, done, attempts = [], set(), {}
    counts = {n: dict(completed=0, processing=0) for n in names}
    last = len(names) - 1
    for _ in range(24):
        c = choices.next()
        if flight and (c % 3 == 0 or len(flight) > 6):
            b, key = flight.pop(c // 3 % len(flight))
            b.status = BlockStatus.SUCCESS
            with out.guard("returning a block of a large volume", ("C22", "C06")):
                scheduler.release_block(b)
            done.add(key)
            counts[b.task_id]["processing"] -= 1
            counts[b.task_id]["completed"] += 1
        else:
            name = names[c % len(names)]
            with out.guard("requesting a block of a large volume", ("C22", "C06")):
                b = scheduler.acquire_block(name)
            t = names.index(name)
            if b is None:
                if t == 0 and totals[0] > 0 and not flight and not done:
                    out.violate(("C22", "C06"), "no-block", "no block although none was started")
                continue
            out.count("handed out")
            s = specs[t]
            key = identify(b, "handed out")
            wb = key[1]
            m = block_at(t, s, [(x - o - a) // w for x, o, a, w in zip(wb, s["off"], s["c0"], s["ws"])])
            if m is None:
                out.violate(("C22", "C01"), "regions", f"{b} is not part of the task")
                raise StopCase()
            same(b, m, "handed out")
            if key in attempts:
                out.violate(("C22", "C06"), "twice", f"{b} was handed out twice")
            attempts[key] = 1
            if s["rwc"]:
                for o, okey in flight:
                    if o.task_id != name:
                        continue
                    if o.read_roi.intersects(b.write_roi) or b.read_roi.intersects(o.write_roi):
                        out.violate(("C22", "C03"), "conflict", f"{b} and {o} are processed at the same time")
            if t > 0:
                missing = [x for x in near(t - 1, specs[t - 1], m.rb, m.re, 0) if (names[t - 1], x.key[1]) not in done]
                if missing:
                    out.violate(("C22", "C04"), "order", f"{b} before {missing[0]}")
            flight.append((b, key))
            counts[name]["processing"] += 1
        for n, total in zip(names, totals):
            got = state_counts(scheduler.task_states[n])
            sums = got["ready"] + got["processing"] + got["completed"] + got["pending"]
            if sums != total or min(got.values()) < 0 or any(got[k] != v for k, v in counts[n].items()):
                out.violate(("C22", "C08"), "state", f"{n}: {got}, expected {counts[n]} of {total}")
    out.note = f"{totals} blocks, {len(attempts)} handed out"
