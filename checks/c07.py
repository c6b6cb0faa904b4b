from vlib.layers import sched_layer, serial_layer, server_layer, wide_sched_layer
from hypothesis import strategies as st

ID = "C07"
LAYERS = [
    sched_layer(quick=(4500, 20), pf=st.sampled_from([1, 2, 4, 6, 10])),
    serial_layer(quick=(1200, 8)),
    server_layer(quick=(2000, 12)),
    wide_sched_layer(pf=st.sampled_from([1, 2, 4, 6, 10])),
]
FINDINGS = {}
