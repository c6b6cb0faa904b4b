from vlib.layers import sched_layer, server_layer, static_layer, wide_sched_layer

ID = "C03"
LAYERS = [
    sched_layer(quick=(4500, 20), max_tasks=2),
    static_layer(quick=(2500, 8), max_tasks=1),
    server_layer(quick=(2000, 10), max_tasks=2),
    wide_sched_layer(max_tasks=1),
]
FINDINGS = {}
