from vlib.layers import check_function_layer, sched_layer, serial_layer, server_layer, wide_sched_layer

ID = "C08"
LAYERS = [
    sched_layer(quick=(4000, 20)),
    check_function_layer(quick=(1500, 8)),
    server_layer(quick=(1500, 8)),
    serial_layer(quick=(600, 4)),
    wide_sched_layer(),
]
FINDINGS = {}
