from vlib import huge, ladder
from vlib.core import Layer
from vlib.layers import huge_layer

ID = "C22"
LAYERS = [
    huge_layer(quick=(6000, 30)),
    Layer(
        "counts",
        lambda tier: huge.count_cases(),
        huge.run_count_case,
        quick=(1600, 8),
        rule="more than 2^53 blocks",
        cpu_limit=huge.CPU_LIMIT,
    ),
    Layer(
        "many-paths",
        lambda tier: ladder.cases,
        ladder.run_ladder_case,
        quick=(600, 15),
        rule="at least ten tasks with several paths between them",
        cpu_limit=ladder.CPU_LIMIT,
    ),
]
FINDINGS = {}
