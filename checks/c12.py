from vlib import findings
from vlib.layers import e2e_layer, error_layer, server_layer, wide_server_layer

ID = "C12"
LAYERS = [
    server_layer(quick=(4000, 18)),
    server_layer(quick=(2500, 12), name="server-chains", max_tasks=5, max_workers=2, rogues=False, interrupt=False),
    e2e_layer(quick=(130, 18)),
    error_layer(quick=(70, 12)),
    wide_server_layer(),
]
FINDINGS = {
    "clean-exit": findings.clean_exit,
    "connection-lost": findings.connection_lost,
    "timeout-ignored": findings.timeout_ignored,
}
