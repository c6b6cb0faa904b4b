from vlib.layers import huge_layer, static_layer, wide_static_layer

ID = "C05"
LAYERS = [
    static_layer(quick=(5000, 20), name="static-chained", min_tasks=2),
    static_layer(quick=(5000, 20), name="static-single", max_tasks=1),
    huge_layer(),
    wide_static_layer(quick=(400, 14)),
]
FINDINGS = {}
