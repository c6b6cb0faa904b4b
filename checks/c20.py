from vlib import logs
from vlib.layers import real_layer

ID = "C20"
LAYERS = [
    real_layer(
        "worker-output",
        logs.cases,
        logs.run_log_case,
        "at least two lines printed, by several workers or for several blocks",
        quick=(420, 45),
    ),
    real_layer(
        "redirection",
        logs.redirect_cases,
        logs.run_redirect_case,
        "output redirected to a file, and lines written to it",
        quick=(400, 8),
    ),
]
FINDINGS = {}
