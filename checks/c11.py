from vlib import bookkeeping
from vlib.core import Layer
from vlib.layers import server_layer, wide_server_layer

ID = "C11"
LAYERS = [
    server_layer(quick=(6000, 28)),
    Layer(
        "bookkeeping",
        lambda tier: bookkeeping.cases,
        bookkeeping.run_bookkeeper_case,
        quick=(8000, 10),
        rule="at least two blocks returned or lost, one refused return or lost block",
    ),
    wide_server_layer(),
]
FINDINGS = {}
