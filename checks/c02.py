from vlib.layers import huge_layer, sched_layer, static_layer, wide_static_layer
from hypothesis import strategies as st

ID = "C02"
LAYERS = [
    static_layer(quick=(6000, 25)),
    sched_layer(quick=(1500, 12)),
    huge_layer(),
    wide_static_layer(),
]
FINDINGS = {}
