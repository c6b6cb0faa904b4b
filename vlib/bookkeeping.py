"""The list of sent blocks: histories of sends, returns, closed connections
and (simulated) time against a model."""

import contextlib
import time

from hypothesis import strategies as st

from .core import Outcome, StopCase

ints = st.integers

cases = st.fixed_dictionaries(
    dict(
        timeout=st.sampled_from([None, None, 1, 5]),
        streams=ints(1, 4),
        blocks=ints(1, 6),
        ops=st.lists(
            st.tuples(
                st.sampled_from(["send", "send", "send", "send", "own", "own", "return", "lost", "lost", "close", "sleep", "reconnect"]),
                ints(0, 5),
                ints(0, 3),
            ).map(list),
            min_size=4,
            max_size=40,
        ),
    )
)


class Stream:
    def __init__(self, name):
        self.name, self.is_closed = name, False

    def closed(self):
        return self.is_closed

    def __repr__(self):
        return self.name


@contextlib.contextmanager
def clock(now):
    names = ["time", "monotonic"]
    old = {n: getattr(time, n) for n in names}
    try:
        for n in names:
            setattr(time, n, lambda: now[0])
        yield
    finally:
        for n, f in old.items():
            setattr(time, n, f)


def run_bookkeeper_case(case):
    out = Outcome()
    try:
        _run(case, out)
    except StopCase:
        pass
    return out


def _run(case, out):
    from daisy import Block, Roi
    from daisy.block_bookkeeper import BlockBookkeeper

    now = [1000.0]
    total = Roi((0,), (100,))

    def make(i):
        r = Roi((i * 10,), (10,))
        return Block(total, r, r, task_id="t")

    streams = [Stream(f"s{i}") for i in range(case["streams"])]
    owner = {}  # block -> (stream, time)
    lost_total = returned = refused = 0
    with clock(now), out.guard("bookkeeper", ("C11",)):
        books = BlockBookkeeper(processing_timeout=case["timeout"])
        for op, b, s in case["ops"]:
            b %= case["blocks"]
            stream = streams[s % len(streams)]
            if op == "own":
                if not owner:
                    continue
                b = sorted(owner)[b % len(owner)]
                stream = owner[b][0]
                op = "return"
            if op == "send":
                free = [x for x in range(case["blocks"]) if x not in owner]
                if not free or stream.is_closed:
                    continue
                b = free[b % len(free)]
                books.notify_block_sent(make(b), stream)
                owner[b] = (stream, now[0])
            elif op == "return":
                valid = books.is_valid_return(make(b), stream)
                want = b in owner and owner[b][0] is stream
                if bool(valid) != want:
                    out.violate("C11", "validity", f"return of block {b} by {stream}: {valid}, held by {owner.get(b)}")
                    raise StopCase()
                if want:
                    block = make(b)
                    books.notify_block_returned(block, stream)
                    del owner[b]
                    returned += 1
                else:
                    refused += 1
            elif op == "lost":
                got = sorted(x.write_roi.begin[0] // 10 for x in books.get_lost_blocks())
                want = sorted(
                    k
                    for k, (st_, t) in owner.items()
                    if st_.is_closed or (case["timeout"] is not None and now[0] - t > case["timeout"])
                )
                if got != want:
                    out.violate("C11", "lost", f"lost blocks {got}, expected {want}")
                    raise StopCase()
                for k in want:
                    del owner[k]
                lost_total += len(want)
            elif op == "close":
                stream.is_closed = True
            elif op == "reconnect":
                streams[s % len(streams)] = Stream(stream.name + "'")
            elif op == "sleep":
                now[0] += b
    out.count("returns", returned)
    out.count("refused returns", refused)
    out.count("lost blocks", lost_total)
    out.nontrivial = returned + lost_total >= 2 and refused + lost_total >= 1
    out.note = f"{returned} returned, {refused} refused, {lost_total} lost"
