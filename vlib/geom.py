"""Independent model of task geometry, and strategies for it.

A task spec is plain data:
  ws: write shape, c0/c1: lower/upper context, ro: offset of the block read
  ROI, off: offset of the total ROI, W: extent of the total ROI minus context
  (may be negative: total smaller than the context), fit, rwc, retries, nw,
  up: indices of upstream tasks.
"""

from itertools import product

from hypothesis import strategies as st


class MBlock:
    """A block of the model: half-open boxes."""

    __slots__ = ("t", "k", "wb", "we", "rb", "re", "key")

    def __init__(self, t, k, wb, we, rb, re):
        self.t, self.k = t, k
        self.wb, self.we, self.rb, self.re = wb, we, rb, re
        self.key = (t, wb)

    def __repr__(self):
        return f"block {self.k} of t{self.t} (write {self.wb}-{self.we}, read {self.rb}-{self.re})"


def overlap(b0, e0, b1, e1):
    return all(max(a, c) < min(b, d) for a, b, c, d in zip(b0, e0, b1, e1))


def axis_counts(s):
    counts = []
    for w, ws in zip(s["W"], s["ws"]):
        w = max(0, w)
        counts.append(w // ws if s["fit"] == "valid" else -(-w // ws))
    return counts


def num_blocks(s):
    n = 1
    for c in axis_counts(s):
        n *= c
    return n


def model_blocks(t, s):
    """All blocks of task number t with spec s."""
    wend = [o + a + max(0, w) for o, a, w in zip(s["off"], s["c0"], s["W"])]
    blocks = []
    for k in product(*(range(c) for c in axis_counts(s))):
        wb = tuple(
            o + a + i * ws for o, a, i, ws in zip(s["off"], s["c0"], k, s["ws"])
        )
        we = tuple(b + ws for b, ws in zip(wb, s["ws"]))
        if s["fit"] == "shrink":
            we = tuple(min(e, x) for e, x in zip(we, wend))
        rb = tuple(b - a for b, a in zip(wb, s["c0"]))
        re = tuple(e + a for e, a in zip(we, s["c1"]))
        blocks.append(MBlock(t, k, wb, we, rb, re))
    return blocks


def conflict(a, b):
    return overlap(a.rb, a.re, b.wb, b.we) or overlap(b.rb, b.re, a.wb, a.we)


def feeds(a, b):
    """Does (upstream task's) a write what b reads?"""
    return overlap(a.wb, a.we, b.rb, b.re)


# --- daisy objects -----------------------------------------------------------


def rois(s):
    from daisy import Roi

    read = Roi(s["ro"], [w + a + b for w, a, b in zip(s["ws"], s["c0"], s["c1"])])
    write = Roi([o + a for o, a in zip(s["ro"], s["c0"])], s["ws"])
    total = Roi(
        s["off"],
        [max(0, w + a + b) for w, a, b in zip(s["W"], s["c0"], s["c1"])],
    )
    return total, read, write


def make_task(name, s, upstream, process=None, **kwargs):
    from daisy import Task

    total, read, write = rois(s)
    return Task(
        name,
        total,
        read,
        write,
        process if process is not None else (lambda b: None),
        read_write_conflict=s["rwc"],
        fit=s["fit"],
        max_retries=s["retries"],
        num_workers=s["nw"],
        upstream_tasks=upstream,
        **kwargs,
    )


def names_of(specs):
    return [s.get("name", f"t{i}") for i, s in enumerate(specs)]


def make_tasks(specs, process=None, names=None, **per_task):
    tasks = []
    if names is None:
        names = names_of(specs)
    for i, s in enumerate(specs):
        kw = {k: v[i] for k, v in per_task.items()}
        tasks.append(
            make_task(
                names[i],
                s,
                [tasks[u] for u in s["up"]],
                process[i] if process else None,
                **kw,
            )
        )
    return tasks


def box(roi):
    return (
        tuple(int(x) for x in roi.begin),
        tuple(int(x) for x in roi.end),
    )


# --- strategies --------------------------------------------------------------

ints = st.integers


def cost(specs):
    """Rough number of steps to run all blocks (dependents of dependencies)."""
    n = d = 0
    for s in specs:
        n += num_blocks(s)
        own = 1
        for w, a, b in zip(s["ws"], s["c0"], s["c1"]):
            own *= (a + b) // w + 2
        k = own if s["rwc"] else 1
        for u in s["up"]:
            m = 1
            for w, a, b, uw in zip(s["ws"], s["c0"], s["c1"], specs[u]["ws"]):
                m *= (w + a + b) // uw + 2
            k += m
            m = 1
            for w, a, b, uw in zip(s["ws"], s["c0"], s["c1"], specs[u]["ws"]):
                m *= (uw + a + b) // w + 2
            d = max(d, m)
        d = max(d, k)
    return n * d * d


# blocks per axis, by number of dimensions
NARROW = {1: 12, 2: 6, 3: 4, 4: 3}
CAPS = {1: 14, 2: 6, 3: 4, 4: 3}
WIDE = {1: 500, 2: 40, 3: 10, 4: 6}


def _axis(draw, nmax, big):
    """ws, c0, c1, W for one axis with at most nmax blocks."""
    ws = draw(st.sampled_from([1, 2, 3, 4, 5, 7, 10] if big else [1, 2, 3, 4]))
    ctx = draw(ints(0, 9))
    if ctx <= 2:
        c0 = c1 = 0
    elif ctx <= 5:
        c0 = c1 = draw(ints(0, 2 * ws + 1))
    elif ctx <= 7:
        c0, c1 = draw(ints(0, ws + 1)), draw(ints(0, ws + 1))
    else:
        most = (3 if ctx == 8 else 6) * ws + 1
        c0, c1 = draw(ints(0, most)), draw(ints(0, most))
    n = draw(ints(1, nmax))
    rem = draw(ints(0, ws - 1)) if draw(ints(0, 2)) else 0
    W = n * ws + rem
    if draw(ints(0, 39)) == 0:
        W = draw(ints(0, ws)) if draw(ints(0, 4)) else -draw(ints(1, c0 + c1 + 1))
    return ws, c0, c1, W


@st.composite
def task_spec(
    draw,
    dims=None,
    max_blocks=40,
    big=False,
    retries=None,
    max_workers=4,
    offsets=True,
    rwc=None,
    wide=False,
):
    if dims is None:
        dims = draw(st.sampled_from([1, 1, 2, 2, 2, 3, 3, 4]))
    per_axis = (WIDE if wide else NARROW)[dims]
    axes = []
    left = max_blocks
    for _ in range(dims):
        nmax = max(1, min(per_axis, left))
        a = _axis(draw, nmax, big)
        axes.append(list(a))
        left //= max(1, -(-max(1, a[3]) // a[0]))
    s = dict(
        ws=[a[0] for a in axes],
        c0=[a[1] for a in axes],
        c1=[a[2] for a in axes],
        W=[a[3] for a in axes],
    )
    if offsets:
        mode = draw(ints(0, 5))
        lim = 0 if mode == 0 else 12 if mode < 5 else draw(st.sampled_from([10**9, 2**58]))
        s["off"] = [draw(ints(-lim, lim)) for _ in range(dims)]
        mode = draw(ints(0, 3))
        lim = 0 if mode == 0 else 9 if mode < 3 else draw(st.sampled_from([10**9, 2**58]))
        s["ro"] = [draw(ints(-lim, lim)) for _ in range(dims)]
    else:
        s["off"] = [0] * dims
        s["ro"] = [0] * dims
    s["fit"] = draw(st.sampled_from(["valid", "overhang", "shrink"]))
    s["rwc"] = draw(ints(0, 3)) > 0 if rwc is None else rwc
    s["retries"] = draw(ints(0, 3)) if retries is None else draw(retries)
    s["nw"] = draw(ints(1, max_workers))
    s["up"] = []
    if offsets and draw(ints(0, 9)) == 0:
        vox = draw(st.sampled_from([4, 40, 1000] if max(map(abs, s["off"] + s["ro"])) < 2**40 else [4]))
        for k in ("ws", "c0", "c1", "W", "off", "ro"):
            s[k] = [x * vox for x in s[k]]
    return s


# task names: sorted against the direction of the dependencies, prefixes of each
# other, unusual characters
NAMES = [
    ["t9", "t8", "t7", "t6", "t5", "t4"],
    ["seg", "segment", "se", "segmentation", "s", "seg_1"],
    ["Fläche 1", "extract (2)", "a.b-c", "1", "T", "über %d"],
]


@st.composite
def task_graph(draw, max_tasks=4, max_blocks=60, retries=None, max_workers=4, min_tasks=1, wide=False):
    """A list of task specs, upstream tasks first."""
    n = draw(
        st.sampled_from([k for k in (1, 2, 2, 2, 3, 3, 4, 5) if min_tasks <= k <= max_tasks])
    )
    dims = draw(st.sampled_from([1, 1, 1, 2, 2, 3] if n > 1 else [1, 1, 2, 2, 3, 4]))
    per_task = max(2, max_blocks // n)
    specs = []
    for i in range(n):
        s = draw(
            task_spec(
                dims=dims,
                max_blocks=per_task,
                retries=retries,
                max_workers=max_workers,
                offsets=(i == 0),
                wide=wide,
            )
        )
        if i > 0:
            base = draw(ints(0, i - 1))
            u = specs[base]
            scale = 1
            if max(u["ws"]) >= 40:
                # specs[0] was scaled up: keep the graph in the same range
                scale = max(1, min(u["ws"]) // 2)
                for k in ("ws", "c0", "c1", "W"):
                    s[k] = [x * scale for x in s[k]]
            nup = draw(ints(0, 9))
            if nup == 0:
                s["up"] = []
            elif nup <= 6 or i == 1:
                s["up"] = [base]
            else:
                others = [j for j in range(i) if j != base]
                extra = [j for j in others if draw(st.booleans())]
                s["up"] = draw(st.permutations([base] + extra))
            place = draw(ints(0, 9))
            uwb = [o + a for o, a in zip(u["off"], u["c0"])]
            if place <= 2:
                # same write region (and maybe the same grid) as upstream
                s["W"] = list(u["W"])
                if draw(st.booleans()):
                    s["ws"] = list(u["ws"])
                else:
                    # bounded number of blocks
                    s["ws"] = [
                        max(w, -(-max(1, W) // (WIDE[dims] if wide else 8))) for w, W in zip(s["ws"], s["W"])
                    ]
                s["off"] = [b - a for b, a in zip(uwb, s["c0"])]
            elif place <= 5:
                # reads start where upstream writes start
                s["off"] = list(uwb)
            elif place <= 8:
                # anywhere around
                s["off"] = [
                    b
                    - (W + a)
                    + draw(ints(0, max(1, max(0, uW) + max(0, W) + a + c) // scale))
                    * scale
                    for b, W, a, c, uW in zip(uwb, s["W"], s["c0"], s["c1"], u["W"])
                ]
            else:
                # likely disjoint
                s["off"] = [
                    b + draw(ints(-3, 3)) * (abs(uW) + abs(W) + a + c + 1)
                    for b, W, a, c, uW in zip(uwb, s["W"], s["c0"], s["c1"], u["W"])
                ]
            s["ro"] = [draw(ints(-5, 5)) * scale for _ in range(dims)]
            # bound the number of blocks
            for d in range(dims):
                cap = (WIDE if wide else CAPS)[dims]
                s["ws"][d] = max(s["ws"][d], -(-max(1, s["W"][d]) // cap))
        specs.append(s)
    style = draw(ints(0, 7))
    if style < len(NAMES):
        for i, s in enumerate(specs):
            s["name"] = NAMES[style][i]
    return specs
