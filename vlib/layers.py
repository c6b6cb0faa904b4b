"""Factories of the layers shared by several checks."""

from hypothesis import strategies as st

from . import geom, sched, static, strategies
from .core import Layer

STATIC_RULE = "at least two blocks in the graph"
SCHED_RULE = "at least two blocks, dependencies or several tasks, more than four operations"


def static_layer(quick=(4000, 18), max_tasks=3, max_blocks=50, min_tasks=1, big=True, name="static"):
    def strategy(tier):
        blocks = max_blocks if tier == "quick" else max_blocks * 2
        multi = st.fixed_dictionaries(
            dict(
                tasks=geom.task_graph(max_tasks=max_tasks, max_blocks=blocks, min_tasks=min_tasks),
                order=st.integers(0, 1),
            )
        )
        if not big or min_tasks > 1:
            return multi
        single = st.fixed_dictionaries(
            dict(tasks=st.tuples(geom.task_spec(max_blocks=blocks, big=True)).map(list))
        )
        return st.one_of(multi, single)

    return Layer(name, strategy, static.run_static_case, quick=quick, rule=STATIC_RULE)


def sched_layer(quick=(4000, 20), name="scheduler", **kw):
    def strategy(tier):
        sizes = [16, 30, 50] if tier == "quick" else [16, 50, 120]
        return st.sampled_from(sizes).flatmap(
            lambda n: strategies.sched_cases(max_blocks=n, **kw)
        )

    return Layer(name, strategy, sched.run_scheduler_case, quick=quick, rule=SCHED_RULE)


def wide_static_layer(quick=(240, 10), name="static-wide", min_tasks=1, max_tasks=3):
    def strategy(tier):
        return st.fixed_dictionaries(
            dict(
                tasks=geom.task_graph(
                    max_tasks=max_tasks, max_blocks=300 if tier == "quick" else 600, min_tasks=min_tasks, wide=True
                ),
                order=st.integers(0, 1),
            )
        )

    return Layer(name, strategy, static.run_static_case, quick=quick, rule=STATIC_RULE, cpu_limit=120)


def cheap(case):
    return geom.cost(case["tasks"]) <= 80_000


def wide_sched_layer(quick=(240, 15), name="scheduler-wide", **kw):
    def strategy(tier):
        return st.sampled_from([200, 400] if tier == "quick" else [200, 400, 1000]).flatmap(
            lambda n: strategies.sched_cases(
                max_blocks=n, wide=True, retries=st.sampled_from([0, 1, 2, 5, 12]), **kw
            ).filter(cheap)
        )

    return Layer(name, strategy, sched.run_scheduler_case, quick=quick, rule=SCHED_RULE, cpu_limit=120)


def wide_server_layer(quick=(200, 12), name="server-simulation-wide", **kw):
    from . import serversim

    return Layer(
        name,
        lambda tier: st.sampled_from([60, 120] if tier == "quick" else [120, 300]).flatmap(
            lambda n: strategies.server_cases(
                max_blocks=n, wide=True, max_workers=12, retries=st.sampled_from([0, 1, 2, 5, 12]), **kw
            ).filter(cheap)
        ),
        serversim.run_server_case,
        quick=quick,
        rule="at least two blocks and at least two workers",
        cpu_limit=120,
    )


def serial_layer(quick=(1500, 10), name="sequential-server", **kw):
    from . import serial

    return Layer(
        name,
        lambda tier: strategies.serial_cases(max_blocks=30 if tier == "quick" else 80, **kw),
        serial.run_serial_case,
        quick=quick,
        rule="at least two blocks, at least two processed or skipped",
    )


def server_layer(quick=(2500, 15), name="server-simulation", **kw):
    from . import serversim

    return Layer(
        name,
        lambda tier: st.sampled_from([10, 24] if tier == "quick" else [10, 24, 60]).flatmap(
            lambda n: strategies.server_cases(max_blocks=n, **kw)
        ),
        serversim.run_server_case,
        quick=quick,
        rule="at least two blocks and at least two workers",
    )


def check_function_layer(quick=(2500, 15), name="scheduler-resume"):
    return Layer(
        name,
        lambda tier: strategies.check_cases(max_blocks=30 if tier == "quick" else 80),
        sched.run_scheduler_case,
        quick=quick,
        rule=SCHED_RULE,
    )


def wide_check_layer(quick=(160, 10), name="scheduler-resume-wide"):
    return Layer(
        name,
        lambda tier: st.sampled_from([200, 400] if tier == "quick" else [200, 400, 1000]).flatmap(
            lambda n: strategies.check_cases(max_blocks=n, wide=True).filter(cheap)
        ),
        sched.run_scheduler_case,
        quick=quick,
        rule=SCHED_RULE,
        cpu_limit=120,
    )


def real_layer(name, strategy, run, rule, quick=(160, 25), thorough=None):
    """Layers that start real processes: run in disposable children."""
    return Layer(
        name,
        lambda tier: strategy,
        run,
        quick=quick,
        thorough=thorough or (quick[0] * 25, quick[1] * 25),
        rule=rule,
        deterministic=False,
        cpu_limit=None,
    )


def e2e_layer(quick=(160, 25), name="real-runs", **kw):
    from . import e2e

    return real_layer(
        name,
        e2e.cases(**kw),
        e2e.run_e2e_case,
        "at least two blocks, processed by at least two processes",
        quick,
    )


def error_layer(quick=(120, 20), name="real-runs-that-end-early"):
    from . import e2e_errors

    return real_layer(
        name,
        e2e_errors.cases,
        e2e_errors.run_error_case,
        "at least two workers or tasks",
        quick,
    )


def huge_layer(quick=(1500, 8), name="huge-volumes"):
    from . import huge

    return Layer(
        name,
        lambda tier: huge.cases(),
        huge.run_huge_case,
        quick=quick,
        rule="more than 10^6 blocks in a task",
        cpu_limit=huge.CPU_LIMIT,
    )
