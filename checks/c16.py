from vlib import expand
from vlib.core import Layer
from vlib.layers import huge_layer

ID = "C16"
LAYERS = [
    Layer(
        "expansion",
        lambda tier: expand.cases(),
        expand.run_expand_case,
        quick=(40000, 20),
        rule="the expanded region differs from the given one",
    ),
    Layer(
        "lookup",
        lambda tier: expand.lookup_cases(max_blocks=60 if tier == "quick" else 150),
        expand.run_lookup_case,
        quick=(10000, 15),
        rule="the region overlaps some but not all of the blocks",
    ),
    huge_layer(),
]
FINDINGS = {}
