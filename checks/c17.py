from vlib.layers import e2e_layer, error_layer

ID = "C17"
LAYERS = [e2e_layer(quick=(420, 50)), error_layer(quick=(60, 10))]
FINDINGS = {}
