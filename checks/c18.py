from vlib.layers import e2e_layer, error_layer, serial_layer, server_layer, wide_server_layer

ID = "C18"
LAYERS = [
    server_layer(quick=(4000, 18)),
    serial_layer(quick=(2000, 12)),
    error_layer(quick=(100, 12)),
    e2e_layer(quick=(80, 12)),
    wide_server_layer(quick=(120, 8)),
]
FINDINGS = {}
