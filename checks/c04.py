from vlib.layers import sched_layer, serial_layer, server_layer, static_layer, wide_sched_layer

ID = "C04"
LAYERS = [
    sched_layer(quick=(4000, 20), min_tasks=2),
    static_layer(quick=(2500, 10), min_tasks=2),
    server_layer(quick=(1500, 8)),
    serial_layer(quick=(800, 6)),
    wide_sched_layer(min_tasks=2),
]
FINDINGS = {}
