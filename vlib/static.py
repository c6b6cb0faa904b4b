"""Engine checking the dependency graph itself (no schedule): tiling, block
identity and the dependency relation, against the geometric model."""

import pickle

from . import geom
from .core import Outcome, StopCase
from .sched import key_of


def run_static_case(case):
    out = Outcome()
    try:
        _run(case, out)
    except StopCase:
        pass
    return out


def snapshot(b):
    return (b.block_id, b.task_id, geom.box(b.read_roi), geom.box(b.write_roi))


def total_write_ok(task, s):
    """The part that can be written is the total without the context."""
    total, read, write = geom.rois(s)
    want = [
        (int(tb + wb - rb), int(te - (re - we)))
        for tb, te, rb, re, wb, we in zip(total.begin, total.end, read.begin, read.end, write.begin, write.end)
    ]
    if any(e < b for b, e in want):
        return True  # there is none
    got = geom.box(task.total_write_roi)
    return list(zip(*got)) == want


def _run(case, out):
    import copy
    from daisy import BlockwiseDependencyGraph, DependencyGraph

    specs = case["tasks"]
    names = geom.names_of(specs)
    index = {n: i for i, n in enumerate(names)}
    with out.guard("building the dependency graph"):
        tasks = geom.make_tasks(specs, names=names)
        order = tasks if case.get("order", 0) == 0 else list(reversed(tasks))
        graph = DependencyGraph(order)
        # the same tasks, independently constructed
        graph2 = DependencyGraph(geom.make_tasks(specs, names=names))

    model = []
    blocks = []  # per task: key -> daisy block
    ids = {}
    for t, s in enumerate(specs):
        mbs = {b.key: b for b in geom.model_blocks(t, s)}
        model.append(mbs)
        total, read, write = geom.rois(s)
        if not total_write_ok(tasks[t], s):
            out.violate("C01", "total-write", f"task {t}: total write region {tasks[t].total_write_roi} of {total}, blocks {read} and {write}")
        with out.guard(f"enumerating the blocks of task {t}"):
            g = graph.task_dependency_graphs[names[t]]
            announced = int(graph.num_blocks(names[t]))
            found = [b for lvl in range(g.num_levels) for b in g.level_blocks(lvl)]
            listed = [(b, list(us)) for b, us in g.enumerate_all_dependencies()]
            found2 = [
                b
                for lvl in range(graph2.task_dependency_graphs[names[t]].num_levels)
                for b in graph2.task_dependency_graphs[names[t]].level_blocks(lvl)
            ]
            # alternative constructions of the same grid
            alt = None
            if not any(w <= 0 for w in s["W"]):
                tw = total.grow(
                    -(write.begin - read.begin), -(read.end - write.end)
                )
                alt = [
                    BlockwiseDependencyGraph(
                        names[t], read, write, s["rwc"], s["fit"], total_write_roi=tw
                    ),
                    BlockwiseDependencyGraph(
                        names[t],
                        read,
                        write,
                        s["rwc"],
                        s["fit"],
                        total_read_roi=total,
                        total_write_roi=tw,
                    ),
                ]
                alt = [
                    sorted(
                        snapshot(b) for lvl in range(a.num_levels) for b in a.level_blocks(lvl)
                    )
                    for a in alt
                ]
        out.count("blocks", len(found))
        if announced != len(mbs):
            out.violate("C01", "count", f"task {t}: {announced} blocks announced, {len(mbs)} expected")
        if len(found) != len(mbs):
            out.violate("C01", "count", f"task {t}: {len(found)} blocks enumerated, {len(mbs)} expected")
        if sorted(map(snapshot, found)) != sorted(snapshot(b) for b, _ in listed):
            out.violate(("C01", "C02"), "listing", f"task {t}: two ways to enumerate blocks disagree")
        if sorted(map(snapshot, found)) != sorted(map(snapshot, found2)):
            out.violate("C02", "deterministic", f"task {t}: blocks differ between two constructions")
        if alt is not None:
            for a in alt:
                if a != sorted(map(snapshot, found)):
                    out.violate(
                        ("C01", "C02"), "totals", f"task {t}: giving the total write region instead of the total region changes the blocks"
                    )
        mine = {}
        for b in found:
            k = key_of(index, b)
            mb = mbs.get(k)
            if mb is None:
                out.violate("C01", "tiling", f"task {t}: unexpected block {b}")
                raise StopCase()
            if k in mine:
                out.violate("C01", "overlap", f"task {t}: block {b} enumerated twice")
            if geom.box(b.write_roi) != (mb.wb, mb.we):
                out.violate("C01", "write", f"task {t}: {b}, expected {mb}")
            if geom.box(b.read_roi) != (mb.rb, mb.re):
                out.violate("C01", "read", f"task {t}: {b}, expected {mb}")
            if b.block_id in ids and ids[b.block_id] != k:
                out.violate("C02", "collision", f"{b.block_id} is the id of {ids[b.block_id]} and {k}")
            ids[b.block_id] = k
            mine[k] = b
        if set(mine) != set(mbs):
            out.violate("C01", "coverage", f"task {t}: no block at {sorted(set(mbs) - set(mine))[:3]}")
            raise StopCase()
        blocks.append(mine)

    allb = {k: b for m in blocks for k, b in m.items()}
    mb_of = {k: b for m in model for k, b in m.items()}

    # root blocks
    with out.guard("asking for root blocks"):
        roots = {}
        for name, (n, gen) in graph.roots().items():
            bs = list(gen)
            if len(bs) != int(n):
                out.violate(("C01", "C06"), "roots", f"{name}: {n} roots announced, {len(bs)} found")
            roots[name] = bs
    for name, bs in roots.items():
        for b in bs:
            k = key_of(index, b)
            if k not in allb or snapshot(b) != snapshot(allb[k]):
                out.violate("C02", "root", f"root block {b} differs from the enumerated one")

    # dependencies
    up, down = {}, {}
    with out.guard("querying dependencies"):
        for k, b in allb.items():
            up[k] = graph.upstream(b)
            down[k] = graph.downstream(b)

    def norm(k, found, what):
        keys = []
        for b in found:
            kk = (index.get(b.task_id, -1), geom.box(b.write_roi)[0])
            if kk not in allb:
                out.violate("C05", "phantom", f"{what} of {mb_of[k]}: {b} does not exist")
                continue
            if snapshot(b) != snapshot(allb[kk]):
                out.violate(
                    ("C02", "C05"), "identity", f"{what} of {mb_of[k]}: {b} (id {b.block_id}) is known as {allb[kk]} (id {allb[kk].block_id})"
                )
            if not (b == allb[kk]) or hash(b) != hash(allb[kk]):
                out.violate("C02", "equality", f"{b} does not equal its other instance")
            keys.append(kk)
        if len(set(keys)) != len(keys):
            out.violate("C05", "repeated", f"{what} of {mb_of[k]} lists a block twice")
        return set(keys)

    up = {k: norm(k, v, "upstream") for k, v in up.items()}
    down = {k: norm(k, v, "downstream") for k, v in down.items()}

    for k in allb:
        for a in up[k]:
            if k not in down[a]:
                out.violate("C05", "mirror", f"{mb_of[k]} waits for {mb_of[a]}, which does not list it as dependent")
        for d in down[k]:
            if k not in up[d]:
                out.violate("C05", "mirror", f"{mb_of[k]} lists {mb_of[d]} as dependent, which does not wait for it")
        s = specs[k[0]]
        mb = mb_of[k]
        for t2 in range(len(specs)):
            if t2 == k[0]:
                continue
            got = {a for a in up[k] if a[0] == t2}
            want = (
                {a for a, m in model[t2].items() if geom.feeds(m, mb)}
                if t2 in s["up"]
                else set()
            )
            out.count("cross-task dependencies", len(want))
            if got != want:
                missing, extra = want - got, got - want
                out.violate(
                    ("C05", "C04") if missing else "C05",
                    "cross-task",
                    f"{mb}: misses {[str(mb_of[x]) for x in sorted(missing)[:2]]}, needlessly waits for {[str(mb_of[x]) for x in sorted(extra)[:2]]}",
                )
    # within tasks: order
    for t, s in enumerate(specs):
        keys = list(model[t])
        inner = {k: {a for a in up[k] if a[0] == t} for k in keys}
        out.count("in-task dependencies", sum(len(v) for v in inner.values()))
        free = not s["rwc"] or not any(s["c0"] + s["c1"])
        if free:
            for k in keys:
                if inner[k]:
                    out.violate("C05", "needless", f"task {t} without conflicts: {mb_of[k]} waits for {sorted(inner[k])[:2]}")
                    break
            if s["rwc"] is False:
                continue
        # transitive closure in topological order (Kahn)
        indeg = {k: len(inner[k]) for k in keys}
        rev = {k: [] for k in keys}
        for k in keys:
            for a in inner[k]:
                if a in rev:
                    rev[a].append(k)
        bit = {k: 1 << i for i, k in enumerate(keys)}
        anc = {}
        queue = [k for k in keys if indeg[k] == 0]
        while queue:
            k = queue.pop()
            m = 0
            for a in inner[k]:
                m |= anc[a] | bit[a]
            anc[k] = m
            for d in rev[k]:
                indeg[d] -= 1
                if indeg[d] == 0:
                    queue.append(d)
        if len(anc) != len(keys):
            out.violate("C05", "cycle", f"task {t}: blocks wait for each other in a circle")
            continue
        cmax = [max(a, b) for a, b in zip(s["c0"], s["c1"])]
        for i, k in enumerate(keys):
            a = mb_of[k]
            for j in range(i):
                b = mb_of[keys[j]]
                if not free and geom.conflict(a, b):
                    out.count("conflicting pairs")
                    if not (anc[k] & bit[keys[j]] or anc[keys[j]] & bit[k]):
                        out.violate(("C05", "C03"), "unordered", f"{a} and {b} conflict but are not ordered")
                elif keys[j] in inner[k] or k in inner[keys[j]]:
                    wide = (
                        tuple(x - c for x, c in zip(a.wb, cmax)),
                        tuple(x + ws + c for x, ws, c in zip(a.wb, s["ws"], cmax)),
                    )
                    if not geom.overlap(*wide, b.wb, tuple(x + ws for x, ws in zip(b.wb, s["ws"]))):
                        out.violate("C05", "far", f"{a} and {b} are ordered although they are far apart")

    # identity across copies, pickling, equality
    sample = list(allb.values())[:: max(1, len(allb) // 12)]
    with out.guard("copying and pickling blocks"):
        for b in sample:
            for c in (b.copy(), copy.deepcopy(b), pickle.loads(pickle.dumps(b))):
                if snapshot(c) != snapshot(b) or not (c == b) or (c != b) or hash(c) != hash(b):
                    out.violate("C02", "copy", f"copy of {b} differs: {c}")
                c2 = c
                before = b.status
                c2.status = type(b.status).FAILED
                if b.status != before:
                    out.violate("C02", "copy", f"changing a copy of {b} changes it")
                if not (c2 == b) or hash(c2) != hash(b):
                    out.violate("C02", "status-identity", f"{b}: equality depends on the status")
        for i, a in enumerate(sample):
            for b in sample[:i]:
                if a == b or not (a != b):
                    out.violate("C02", "equality", f"different blocks {a} and {b} are equal")
            # created with a given identifier
            for other in sample[:3]:
                for n in (0, i, other.block_id[1]):
                    x = type(a)(a.read_roi, other.read_roi, other.write_roi, block_id=n, task_id=a.task_id)
                    if x.block_id != (a.task_id, n) or (x == a) != (n == a.block_id[1]):
                        out.violate("C02", "given", f"block created as number {n} of {a.task_id} is {x.block_id}, equals {a}: {x == a}")
            if a == None:  # noqa: E711
                out.violate("C02", "equality", f"{a} equals None")

    deps = out.stats.get("cross-task dependencies", 0) + out.stats.get("in-task dependencies", 0)
    out.nontrivial = len(allb) >= 2 and (deps > 0 or len(set(map(len, blocks))) > 0)
    out.note = f"{len(specs)} task(s), {len(allb)} blocks, {deps} dependencies"
