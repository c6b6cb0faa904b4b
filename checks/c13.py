from vlib import pools
from vlib.core import Layer
from vlib.layers import e2e_layer, error_layer, server_layer

ID = "C13"
LAYERS = [
    Layer(
        "pools",
        lambda tier: pools.cases,
        pools.run_pool_case,
        quick=(6000, 18),
        rule="at least two workers alive at once and three kinds of operations",
    ),
    Layer(
        "workers",
        lambda tier: pools.worker_cases,
        pools.run_worker_case,
        quick=(1500, 4),
        rule="a stopped worker was started again",
    ),
    server_layer(quick=(2500, 12)),
    error_layer(quick=(100, 15)),
    e2e_layer(quick=(80, 12)),
]
FINDINGS = {}
