from vlib.layers import check_function_layer, wide_check_layer, sched_layer, serial_layer, server_layer, wide_sched_layer
from hypothesis import strategies as st

ID = "C06"
LAYERS = [
    sched_layer(quick=(3000, 14), name="scheduler-nofail", pf=st.just(0)),
    sched_layer(quick=(2500, 12)),
    serial_layer(quick=(1200, 8)),
    server_layer(quick=(1500, 8)),
    check_function_layer(quick=(1500, 8)),
    wide_sched_layer(),
    wide_check_layer(),
]
FINDINGS = {}
