"""Expansion of regions to the grid of a task, against a brute-force search
over the blocks of the grid, block by block along each axis."""

from hypothesis import strategies as st

from .core import Outcome, StopCase
from .geom import box

ints = st.integers


@st.composite
def cases(draw):
    dims = draw(st.sampled_from([1, 1, 2, 3, 4]))
    scale = draw(st.sampled_from([1, 1, 1, 4, 40, 1000]))
    axes = []
    for _ in range(dims):
        ws = draw(ints(1, 8))
        far = draw(st.sampled_from([0, 5, 20, 200, 10**6, 2**40, 2**58 // scale]))
        # distance of the region to the origin of the grid, and its length
        away, length = (draw(st.sampled_from([0, 0, 0, 10**3, 2**58 // (ws * scale)])) for _ in range(2))
        axes.append(
            dict(
                ws=ws,
                c0=draw(ints(0, 2 * ws + 1)),
                c1=draw(ints(0, 2 * ws + 1)),
                ro=draw(ints(-far, far)),
                off=draw(ints(-far, far)),
                total=draw(ints(0, 60)),
                # region relative to the origin of the grid
                b=draw(ints(-away - 3, away + 3)) * ws + draw(ints(-ws, ws)),
                n=draw(ints(0, length + 5)) * ws + draw(ints(1, ws)),
                shift=draw(ints(-far - 3, far + 3)),
            )
        )
    return dict(axes=axes, scale=scale)


def run_expand_case(case):
    out = Outcome()
    try:
        _run(case, out)
    except StopCase:
        pass
    return out


def enclosing(begin, end, grid0, ws):
    """Smallest run of cells [grid0 + i * ws, grid0 + (i + 1) * ws) containing
    [begin, end), found by walking over the cells."""
    i = (begin - grid0) // ws - 2  # anywhere before
    while not (grid0 + i * ws <= begin < grid0 + (i + 1) * ws):
        i += 1
    j = max(i, (end - grid0) // ws - 2)
    while grid0 + (j + 1) * ws < end:
        j += 1
    return grid0 + i * ws, grid0 + (j + 1) * ws


def _run(case, out):
    from daisy import Coordinate, Roi
    from daisy.blocks import (
        expand_request_roi_to_grid,
        expand_roi_to_grid,
        expand_write_roi_to_grid,
    )

    k = case["scale"]
    ax = [{n: v * k if n != "shift" else v * k for n, v in a.items()} for a in case["axes"]]
    ws = [a["ws"] for a in ax]
    read = Roi([a["ro"] for a in ax], [a["ws"] + a["c0"] + a["c1"] for a in ax])
    write = Roi([a["ro"] + a["c0"] for a in ax], ws)
    total = Roi([a["off"] for a in ax], [a["total"] + a["c0"] + a["c1"] for a in ax])
    grid0 = [a["off"] + a["c0"] for a in ax]  # write region of the first block
    unit = 1
    sub = Roi([g + a["b"] // unit for g, a in zip(grid0, ax)], [a["n"] for a in ax])
    if k > 1:
        # not aligned with voxels of the scale either
        sub = Roi([b + i + 1 for i, b in enumerate(sub.begin)], sub.shape)
    b0, e0 = box(sub)
    shift = Coordinate([a["shift"] for a in ax])

    want = [enclosing(b, e, g, w) for b, e, g, w in zip(b0, e0, grid0, ws)]
    want_w = (tuple(x[0] for x in want), tuple(x[1] for x in want))
    want_r = (
        tuple(x - a["c0"] for x, a in zip(want_w[0], ax)),
        tuple(x + a["c1"] for x, a in zip(want_w[1], ax)),
    )
    with out.guard("expand_roi_to_grid"):
        got = box(expand_roi_to_grid(sub, total, read, write))
        if got != want_w:
            out.violate("C16", "roi", f"{sub} expanded to {got}, expected {want_w}")
        again = box(expand_roi_to_grid(Roi(got[0], [b - a for a, b in zip(*got)]), total, read, write))
        if again != got:
            out.violate("C16", "idempotent", f"{sub}: {got} expanded again to {again}")
    with out.guard("expand_request_roi_to_grid"):
        got = box(expand_request_roi_to_grid(sub, total, read, write))
        if got != want_r:
            out.violate("C16", "request", f"{sub} expanded to {got}, expected {want_r}")

    # metamorphic: shift everything
    def moved(box_, s):
        return tuple(tuple(x + d for x, d in zip(side, s)) for side in box_)

    with out.guard("expansion of shifted regions"):
        a = box(expand_roi_to_grid(sub + shift, total + shift, read, write))
        if a != moved(want_w, shift):
            out.violate("C16", "shift", f"{sub} shifted by {shift}: {a}, expected {moved(want_w, shift)}")
        # where the block regions are given does not matter, only their context
        a = box(expand_roi_to_grid(sub + shift, total + shift, read + shift, write + shift))
        if a != moved(want_w, shift):
            out.violate("C16", "shift", f"{sub} and blocks shifted by {shift}: {a}, expected {moved(want_w, shift)}")
        a = box(expand_request_roi_to_grid(sub + shift, total + shift, read + shift, write + shift))
        if a != moved(want_r, shift):
            out.violate("C16", "shift", f"{sub} shifted by {shift}: {a}, expected {moved(want_r, shift)}")

    # the grid that starts at the origin
    want = [enclosing(b, e, 0, w) for b, e, w in zip(b0, e0, ws)]
    want_0 = (tuple(x[0] for x in want), tuple(x[1] for x in want))
    with out.guard("expand_write_roi_to_grid"):
        got = box(expand_write_roi_to_grid(sub, write))
        if got != want_0:
            out.violate("C16", "write", f"{sub} expanded to {got}, expected {want_0}")
        again = box(expand_write_roi_to_grid(Roi(got[0], [b - a for a, b in zip(*got)]), write))
        if again != got:
            out.violate("C16", "idempotent", f"{sub}: {got} expanded again to {again}")
        step = Coordinate([w * (s % 7 - 3) for w, s in zip(ws, shift)])
        a = box(expand_write_roi_to_grid(sub + step, write))
        if a != moved(want_0, step):
            out.violate("C16", "shift", f"{sub} shifted by {step}: {a}, expected {moved(want_0, step)}")
    out.nontrivial = want_w != (b0, e0)
    out.note = f"{sub} -> {want_w}"


@st.composite
def lookup_cases(draw, max_blocks=60):
    from . import geom

    s = draw(geom.task_spec(max_blocks=max_blocks))
    regions = []
    for _ in range(draw(ints(1, 4))):
        r = []
        for ws, c0, c1, W in zip(s["ws"], s["c0"], s["c1"], s["W"]):
            lim = max(0, W) + c0 + c1 + 2
            r.append([draw(ints(-2 - ws, lim)), draw(ints(0, 2)) * ws + draw(ints(1, ws + 1))])
        regions.append(r)
    return dict(task=s, regions=regions)


def run_lookup_case(case):
    out = Outcome()
    try:
        _lookup(case, out)
    except StopCase:
        pass
    return out


def _lookup(case, out):
    from daisy import DependencyGraph, Roi
    from . import geom

    s = case["task"]
    model = {b.wb: b for b in geom.model_blocks(0, s)}
    with out.guard("creating the graph"):
        graph = DependencyGraph([geom.make_task("t0", s, [])])
        g = graph.task_dependency_graphs["t0"]
    for r in case["regions"]:
        # relative to the total region
        roi = Roi([o + x[0] for o, x in zip(s["off"], r)], [x[1] for x in r])
        b, e = box(roi)
        for reads in (False, True):
            with out.guard("looking up blocks"):
                got = g.get_subgraph_blocks(roi, read_roi=reads)
                boxes = sorted((box(x.write_roi), box(x.read_roi)) for x in got)
            want = sorted(
                ((m.wb, m.we), (m.rb, m.re))
                for m in model.values()
                if (geom.overlap(m.rb, m.re, b, e) if reads else geom.overlap(m.wb, m.we, b, e))
            )
            what = "read" if reads else "write"
            if boxes != want:
                missing = [x for x in want if x not in boxes]
                extra = [x for x in boxes if x not in want]
                out.violate(
                    "C16", "lookup", f"blocks that {what} {roi}: {len(boxes)} found, {len(want)} expected; missing {missing[:2]}, not expected {extra[:2]}"
                )
            out.count("lookups")
            if want:
                out.count("lookups with result")
            if 0 < len(want) < len(model):
                out.nontrivial = True
    out.note = f"{len(model)} blocks, {len(case['regions'])} regions"
