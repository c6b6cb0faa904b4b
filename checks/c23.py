from vlib import nested, rerun
from vlib.core import Layer
from vlib.layers import real_layer

ID = "C23"
RULE = "at least two blocks, at least two processed"
LAYERS = [
    Layer(
        "repeated-sequential-runs",
        lambda tier: rerun.cases(),
        rerun.run_rerun_case,
        quick=(4000, 15),
        rule=RULE,
    ),
    real_layer("repeated-real-runs", rerun.cases(True), rerun.run_real_case, RULE, quick=(250, 35)),
    Layer(
        "interleaved-runs",
        lambda tier: nested.interleaved_cases(),
        nested.run_interleaved_case,
        quick=(1500, 12),
        rule="at least two switches between runs, two of which process blocks",
    ),
    real_layer(
        "runs-at-the-same-time",
        nested.nested_cases(),
        nested.run_nested_case,
        "at least one run is started by a block of another or together with another",
        quick=(120, 25),
    ),
    real_layer("many-runs", rerun.many_cases(), rerun.run_many_case, "at least two blocks", quick=(24, 25)),
    real_layer("thousand-runs", rerun.thousand_cases(), rerun.run_thousand_case, "always", quick=(16, 20)),
]
FINDINGS = {}
