from vlib import callables
from vlib.layers import real_layer

ID = "C19"
LAYERS = [
    real_layer(
        "callables",
        callables.cases,
        callables.run_callable_case,
        "every case (a generated callable run by real workers, or rejected)",
        quick=(420, 45),
    )
]
FINDINGS = {}
