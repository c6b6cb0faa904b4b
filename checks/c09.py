from vlib import findings
from vlib.layers import check_function_layer, wide_check_layer, serial_layer, server_layer

ID = "C09"
LAYERS = [
    check_function_layer(quick=(3500, 20)),
    serial_layer(quick=(1500, 8), check=True),
    server_layer(quick=(1500, 8), check=True),
    wide_check_layer(),
]
FINDINGS = {"post-check": findings.post_check}
