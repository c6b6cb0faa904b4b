from hypothesis import strategies as st

from . import geom

ints = st.integers


def phase(pf=None, cut=False):
    return st.fixed_dictionaries(
        dict(
            ops=st.lists(ints(0, 2**24), max_size=40),
            tail=ints(0, 2**20),
            par=st.sampled_from([1, 2, 3, 4, 8, 100]),
            pf=st.sampled_from([0, 0, 1, 3, 6, 10]) if pf is None else pf,
            relw=st.sampled_from([10, 50, 90]),
            cut=ints(0, 60) if cut else st.none(),
        )
    )


def sched_cases(pf=None, max_tasks=4, max_blocks=50, min_tasks=1, orphans=None, retries=None, wide=False):
    return st.fixed_dictionaries(
        {
            "tasks": geom.task_graph(max_tasks=max_tasks, max_blocks=max_blocks, min_tasks=min_tasks, retries=retries, wide=wide),
            "pass": ints(0, 3),
            "phases": st.tuples(phase(pf)).map(list),
            "orphans": st.sampled_from([True, True, True, False]) if orphans is None else st.just(orphans),
        }
    )


def skip_fields(draw_none=True):
    return dict(
        check=st.sampled_from([None, None, "some", "some", "most", "all"]) if draw_none else st.sampled_from(["some", "some", "most", "all"]),
        skip=st.lists(ints(0, 10**6), max_size=25),
        pair=st.booleans(),
        # blocks become done while the run goes on
        late=st.booleans(),
    )


def serial_cases(max_tasks=4, max_blocks=40, check=None, fails=True, monitor=False, entry=None):
    return st.fixed_dictionaries(
        {
            "tasks": geom.task_graph(max_tasks=max_tasks, max_blocks=max_blocks),
            "scheduler": st.booleans(),
            "entry": st.just("server") if monitor else st.just(entry) if entry else st.sampled_from(["server", "server", "server", "convenience"]),
            "monitor": st.just(monitor),
            "pass": ints(0, 3),
            "outcomes": st.lists(st.sampled_from([0, 0, 1, 2] if fails else [0, 2]), max_size=20),
            **skip_fields(check is None),
        }
    )


def check_cases(max_tasks=4, max_blocks=40, wide=False):
    """Scheduler cases with check functions: arbitrary subsets, and runs that
    are interrupted and resumed."""
    common = {
        "tasks": geom.task_graph(max_tasks=max_tasks, max_blocks=max_blocks, wide=wide),
        "pass": ints(0, 3),
        "pair": st.booleans(),
        "late": st.booleans(),
    }
    some = st.fixed_dictionaries(
        {
            **common,
            "phases": st.tuples(phase()).map(list),
            "check": st.sampled_from(["some", "some", "some", "most", "all"] if not wide else ["some", "most", "most", "all"]),
            "skip": st.lists(ints(0, 10**6), max_size=25),
        }
    )
    resume = st.fixed_dictionaries(
        {
            **common,
            "phases": st.tuples(
                st.lists(phase(cut=True), min_size=1, max_size=3),
                phase(pf=st.just(0)),
            ).map(lambda x: x[0] + [x[1]]),
            "check": st.just("resume"),
        }
    )
    return st.one_of(some, resume)


def server_cases(max_tasks=3, max_blocks=24, crashes=True, fails=True, check=False, rogues=True, interrupt=True, retries=None, max_workers=3, monitor=False, wide=False):
    return st.fixed_dictionaries(
        {
            "tasks": geom.task_graph(max_tasks=max_tasks, max_blocks=max_blocks, retries=retries, max_workers=max_workers, wide=wide),
            "outcomes": st.lists(st.sampled_from([0, 0, 0, 0, 1, 2, 3] if fails else [0]), max_size=20),
            "pass": ints(0, 3),
            "ops": st.lists(ints(0, 2**24), max_size=60),
            "tail": ints(0, 2**20),
            "crashes": st.sampled_from([0, 0, 1, 2, 5] if not wide else [0, 2, 8, 45]) if crashes else st.just(0),
            "monitor": st.just(monitor),
            "rogues": st.sampled_from([0, 0, 1, 3]) if rogues else st.just(0),
            "quits": st.sampled_from([False, False, True]),
            "greedy": st.sampled_from([False, False, True]),
            "interrupt": st.sampled_from([None] * 9 + [5, 12, 30]) if interrupt else st.none(),
            **(
                skip_fields(False)
                if check
                else dict(check=st.sampled_from([None, None, None, "some", "all"]), skip=st.lists(ints(0, 10**6), max_size=12), pair=st.booleans(), late=st.booleans())
            ),
        }
    )
