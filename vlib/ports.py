"""Where a server listens: ports that cannot be bound, hosts that are given,
detected, or detected wrongly (the operating system's answers are replaced
while the server is created, the connections made afterwards are real)."""

import errno
import socket

from hypothesis import strategies as st

from . import isolate
from .core import HarnessError, Outcome

ints = st.integers

ERRORS = [errno.EADDRINUSE, errno.EACCES, errno.EMFILE, errno.ENOBUFS, errno.EINVAL]
# what happens when the address found for the default route is tried
TRIALS = ["works", "works", "bind", "connect", "accept", "recv", "send"]
cases = st.fixed_dictionaries(
    dict(
        host=st.sampled_from([None, None, None, "127.0.0.1", "localhost", "127.0.0.3"]),
        # the address of the interface of the default route
        detected=st.sampled_from([None, "127.0.0.2", "127.9.8.7", "127.0.0.1", "203.0.113.5"]),
        trial=st.sampled_from(TRIALS),
        # which attempts to bind a port fail
        fail=st.one_of(st.just([]), st.integers(1, 6).map(lambda n: list(range(n))), st.lists(ints(0, 9), max_size=5)),
        error=st.sampled_from(ERRORS),
        tries=st.one_of(st.none(), ints(1, 6)),
        clients=ints(1, 3),
    )
)


def child(case, workdir):
    from daisy.tcp import TCPClient, TCPMessage, TCPServer
    from daisy.tcp.exceptions import NoFreePort

    S = socket.socket
    real = {n: getattr(S, n) for n in ("bind", "connect", "getsockname", "accept", "recv", "send", "sendall")}
    log = dict(binds=0, failed=0)
    detected = case["detected"]
    trial = case["trial"]

    def mine(s):
        """one of the sockets that try the detected address"""
        for name in (real["getsockname"], S.getpeername):
            try:
                if s.type == socket.SOCK_STREAM and name(s)[0] == detected != "127.0.0.1":
                    return True
            except OSError:
                pass
        return False

    def bind(s, address):
        if s.type == socket.SOCK_STREAM and address[0] == detected and detected != "127.0.0.1":
            if trial == "bind":
                raise OSError(errno.EADDRNOTAVAIL, "planned")
            return real["bind"](s, address)
        n = log["binds"]
        log["binds"] += 1
        if n in case["fail"]:
            log["failed"] += 1
            raise OSError(case["error"], "planned")
        return real["bind"](s, address)

    def connect(s, address):
        if s.type == socket.SOCK_DGRAM:
            if detected is None:
                raise OSError(errno.ENETUNREACH, "planned")
            return None
        if trial == "connect" and address[0] == detected:
            raise socket.timeout("planned")
        return real["connect"](s, address)

    def getsockname(s):
        if s.type == socket.SOCK_DGRAM:
            return (detected, 12345)
        return real["getsockname"](s)

    def accept(s):
        if trial == "accept" and mine(s):
            raise socket.timeout("planned")
        return real["accept"](s)

    def recv(s, *args):
        if trial == "recv" and mine(s):
            raise OSError(errno.ENOTCONN, "planned")
        return real["recv"](s, *args)

    def sending(name):
        def send(s, *args):
            if trial == "send" and mine(s):
                raise BrokenPipeError(errno.EPIPE, "planned")
            return real[name](s, *args)

        return send

    # how many ports does a server bind at once (one for each kind of address)?
    counted = []

    def counting(s, address):
        counted.append(address)
        return real["bind"](s, address)

    S.bind = counting
    TCPServer(host="127.0.0.1")
    S.bind = bind
    S.connect, S.getsockname, S.accept, S.recv = connect, getsockname, accept, recv
    S.send, S.sendall = sending("send"), sending("sendall")
    error = server = None
    kw = {} if case["tries"] is None else dict(max_port_tries=case["tries"])
    try:
        server = TCPServer(host=case["host"], **kw)
    except NoFreePort as e:
        error = ["no port", repr(e)]
    except Exception as e:
        error = ["other", repr(e)]
    finally:
        for n, f in real.items():
            setattr(S, n, f)
    res = dict(error=error, per_attempt=len(counted), **log)
    if server is not None:
        res["address"] = list(server.address)
        got = []
        try:
            clients = [TCPClient(*server.address) for _ in range(case["clients"])]
            for i, c in enumerate(clients):
                c.send_message(TCPMessage(["hello", i]))
            for _ in clients:
                m = server.get_message(timeout=20)
                if m is None:
                    break
                m.stream.send_message(TCPMessage(["answer", m.payload[1]]))
            for c in clients:
                m = c.get_message(timeout=20)
                got.append(m and m.payload)
            for c in clients:
                c.disconnect()
        except Exception as e:
            got.append(repr(e))
        res["got"] = got
    return res


def run_port_case(case):
    out = Outcome()
    r = isolate.run(child, case)
    if r.hung:
        out.violate("C14", "hang", f"did not end within {isolate.LIMITS[-1]} s")
        return out
    if r.died:
        out.violate("C14", "died", f"the calling process was ended ({r.died})")
        return out
    if r.error:
        raise HarnessError(r.error)
    res = r.value
    # what should have happened
    tries = 1000 if case["tries"] is None else case["tries"]
    n = attempts = 0
    ok = False
    while attempts < tries and not ok:
        attempts += 1
        ok = True
        for _ in range(res["per_attempt"]):
            n += 1
            if n - 1 in case["fail"]:
                ok = False
                break
    what = f"binding failed {res['failed']} times, {tries} tries"
    out.count("failed attempts", attempts - ok)
    out.count("no port", int(not ok))
    if not ok:
        if not res["error"] or res["error"][0] != "no port":
            out.violate("C14", "port", f"{what}: got {res['error'] or res['address']}, expected NoFreePort")
        return out
    if res["error"]:
        out.violate("C14", "port", f"{what}: {res['error'][1]}")
        return out
    if case["host"] is not None:
        want = case["host"]
    elif case["detected"] not in (None, "203.0.113.5") and (case["trial"] == "works" or case["detected"] == "127.0.0.1"):
        want = case["detected"]
    else:
        want = "127.0.0.1"
    what = f"host {case['host']}, detected {case['detected']} ({case['trial']}), announced {res['address']}"
    if res["address"][0] != want:
        out.violate("C14", "address", f"{what}, expected {want}")
    if res["got"] != [["answer", i] for i in range(case["clients"])]:
        out.violate("C14", "unreachable", f"{what}: {case['clients']} clients got {res['got']}")
    out.count("announced " + res["address"][0])
    out.nontrivial = bool(case["fail"]) or (case["host"] is None and case["detected"] is not None)
    out.note = f"{what}, {res['failed']} failed binds"
    return out
