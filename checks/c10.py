from vlib import clientsim
from vlib.core import Layer

ID = "C10"
LAYERS = [
    Layer(
        "client",
        lambda tier: clientsim.cases,
        clientsim.run_client_case,
        quick=(12000, 25),
        rule="at least two blocks with at least two kinds of outcomes",
    )
]
FINDINGS = {}
