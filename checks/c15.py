from vlib import contexts
from vlib.core import Layer

ID = "C15"
LAYERS = [
    Layer(
        "contexts",
        lambda tier: contexts.cases,
        contexts.run_context_case,
        quick=(40000, 30),
        rule="several contexts, or one with more than two variables, or a rejected value",
    )
]
FINDINGS = {}
