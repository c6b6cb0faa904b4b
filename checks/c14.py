from vlib import ports, tcpnet
from vlib.layers import real_layer

ID = "C14"
LAYERS = [
    real_layer(
        "tcp",
        tcpnet.cases,
        tcpnet.run_tcp_case,
        "at least two messages exchanged",
        quick=(420, 40),
    ),
    real_layer(
        "bursts",
        tcpnet.burst_cases,
        tcpnet.run_tcp_case,
        "at least two messages exchanged",
        quick=(64, 20),
    ),
    real_layer(
        "large-messages",
        tcpnet.large_cases,
        tcpnet.run_tcp_case,
        "at least two messages exchanged",
        quick=(80, 25),
    ),
    real_layer(
        "addresses",
        ports.cases,
        ports.run_port_case,
        "failing attempts to listen, or a detected address",
        quick=(160, 12),
    ),
]
FINDINGS = {}
