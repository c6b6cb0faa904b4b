from vlib import monitor
from vlib.core import Layer
from vlib.layers import e2e_layer, serial_layer, server_layer

ID = "C21"
LAYERS = [
    Layer(
        "monitor",
        lambda tier: monitor.cases,
        monitor.run_monitor_case,
        quick=(3000, 15),
        rule="at least four notifications including a hand-out",
    ),
    server_layer(quick=(2500, 15), monitor=True),
    serial_layer(quick=(1200, 8), monitor=True),
    serial_layer(quick=(1200, 8), name="sequential-run", entry="convenience"),
    e2e_layer(quick=(110, 14), entry="convenience"),
]
FINDINGS = {}
