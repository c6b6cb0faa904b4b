from vlib.layers import huge_layer, sched_layer, serial_layer, static_layer, wide_static_layer
from hypothesis import strategies as st

ID = "C01"
LAYERS = [
    static_layer(quick=(6000, 22)),
    sched_layer(quick=(1500, 10), pf=st.just(0)),
    serial_layer(quick=(600, 6)),
    huge_layer(),
    wide_static_layer(),
]
FINDINGS = {}
