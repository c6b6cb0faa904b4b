"""The real TCP layer, with a proxy between client and server that fragments
the byte streams and cuts connections at generated positions."""

import collections
import pickle
import select
import socket
import struct
import threading
import time

from hypothesis import strategies as st

from . import isolate
from .core import HarnessError, Outcome

ints = st.integers

sizes = st.one_of(
    ints(0, 40),
    ints(0, 5000),
    st.sampled_from([0, 1, 3, 4, 5, 255, 256, 257, 4096, 65535, 65536, 65537, 100_000, 1 << 20, (1 << 20) + 17]),
)
frags = st.lists(st.sampled_from([1, 1, 2, 3, 4, 5, 7, 64, 500, 4096, 65536, 1 << 20]), max_size=12)
cut = st.one_of(
    st.none(),
    st.none(),
    st.tuples(st.sampled_from(["up", "down"]), st.one_of(ints(1, 12), ints(1, 600), ints(1, 10**5)), st.booleans()).map(list),
)
client = st.fixed_dictionaries(dict(up=frags, down=frags, cut=cut, narrow=st.booleans()))
op = st.one_of(
    st.tuples(st.just("send"), ints(0, 3), st.lists(sizes, min_size=1, max_size=4)),
    st.tuples(st.just("send"), ints(0, 3), st.lists(sizes, min_size=1, max_size=4)),
    st.tuples(st.just("threads"), ints(0, 3), st.lists(sizes, min_size=2, max_size=6)),
    st.tuples(st.just("serve"), ints(1, 5), st.lists(sizes, max_size=3)),
    st.tuples(st.just("serve"), ints(1, 5), st.lists(sizes, max_size=3)),
    st.tuples(st.just("receive"), ints(0, 3), st.just([])),
    st.tuples(st.just("bye"), ints(0, 3), st.just([])),
    # leaving while the connection is held up for a while
    st.tuples(st.just("slow-bye"), ints(0, 3), st.lists(st.one_of(ints(0, 40), st.sampled_from([300_000, 8 << 20])), min_size=1, max_size=4)),
    st.tuples(st.just("hold"), ints(0, 3), st.just([])),
    st.tuples(st.just("open"), ints(0, 3), st.just([])),
    # more than fits into the buffers of a connection that is held up
    st.tuples(st.just("flood"), ints(0, 3), st.lists(st.one_of(ints(0, 40), st.sampled_from([300_000, 1 << 20])), min_size=2, max_size=8)),
    st.tuples(st.just("serve-held"), ints(0, 3), st.lists(st.one_of(ints(0, 40), st.sampled_from([300_000, 1 << 20])), min_size=2, max_size=8)),
).map(list)
cases = st.fixed_dictionaries(
    dict(
        clients=st.lists(client, min_size=1, max_size=4),
        ops=st.lists(op, min_size=2, max_size=14),
        kind=st.sampled_from(["bytes", "mixed", "block"]),
        reuse=st.booleans(),
    )
)

# more messages at once than anyone should have queued
coarse = st.sampled_from([[], [], [1000], [7, 4000]])
burst_cases = st.fixed_dictionaries(
    dict(
        clients=st.lists(st.fixed_dictionaries(dict(up=coarse, down=coarse, cut=st.none(), narrow=st.booleans())), min_size=1, max_size=2),
        ops=st.tuples(
            st.lists(op, max_size=2),
            st.tuples(st.just("burst"), ints(0, 3), ints(300, 1800).map(lambda n: [n])).map(list),
            st.lists(op, max_size=3),
        ).map(lambda x: x[0] + [x[1]] + x[2]),
        kind=st.sampled_from(["bytes", "mixed"]),
        reuse=st.booleans(),
    )
)

# messages of the sizes where counters of two or three bytes wrap, and more
large = st.one_of(
    st.sampled_from([(1 << 16) - 60, 1 << 16, (1 << 24) - 300, (1 << 24) - 1, 1 << 24, (1 << 24) + 1, 1 << 25, 40_000_000, 90_000_000]),
    ints(0, 100),
    ints((1 << 24) - 200, 1 << 24),
    ints(1 << 20, 3 << 24),
)
large_op = st.one_of(
    st.tuples(st.just("send"), ints(0, 1), st.lists(large, min_size=1, max_size=2)),
    st.tuples(st.just("serve"), ints(1, 3), st.lists(large, max_size=1)),
    st.tuples(st.just("receive"), ints(0, 1), st.just([])),
).map(list)
large_frags = st.sampled_from([[], [], [1 << 20], [65536, 1 << 20], [5, 1 << 20]])
large_client = st.fixed_dictionaries(
    dict(
        up=large_frags,
        down=large_frags,
        cut=st.one_of(st.none(), st.none(), st.tuples(st.sampled_from(["up", "down"]), ints(1 << 20, 1 << 25), st.booleans()).map(list)),
        narrow=st.just(False),
    )
)
large_cases = st.fixed_dictionaries(
    dict(
        clients=st.lists(large_client, min_size=1, max_size=2),
        ops=st.lists(large_op, min_size=1, max_size=4),
        kind=st.sampled_from(["bytes", "bytes", "mixed"]),
    )
)


class Proxy:
    def __init__(self, target, up, down, cut, narrow=False):
        self.listener = socket.socket(socket.AF_INET, socket.SOCK_STREAM)
        self.narrow = narrow
        if narrow:
            self.shrink(self.listener)
        self.listener.bind(("127.0.0.1", 0))
        self.listener.listen(8)
        self.flowing = threading.Event()
        self.flowing.set()
        self.port = self.listener.getsockname()[1]
        self.target, self.frags, self.cut = target, dict(up=up, down=down), cut
        self.forwarded = dict(up=0, down=0)
        self.was_cut = False
        threading.Thread(target=self.run, daemon=True).start()

    def shrink(self, s):
        # little is buffered by the kernel
        s.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, 4096)
        s.setsockopt(socket.SOL_SOCKET, socket.SO_SNDBUF, 4096)
        s.setsockopt(socket.IPPROTO_TCP, socket.TCP_MAXSEG, 1400)

    def run(self):
        try:
            self.forward()
        except OSError:
            pass

    def forward(self):
        a, _ = self.listener.accept()
        b = socket.socket(socket.AF_INET, socket.SOCK_STREAM)
        if self.narrow:
            self.shrink(b)
        b.connect(self.target)
        for s in (a, b):
            s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        ways = {a: ("up", b), b: ("down", a)}
        count = dict(up=0, down=0)
        if self.cut and self.cut[1] == 0:
            return self.do_cut(a, b)
        while ways:
            ready, _, _ = select.select(list(ways), [], [])
            self.flowing.wait()
            for src in ready:
                way, dst = ways[src]
                limit = self.cut[1] if self.cut and self.cut[0] == way else None
                frags = self.frags[way]
                try:
                    data = src.recv(1 << 16)
                    while data:
                        n, i = len(data), count[way]
                        if frags and i < 400:
                            n = frags[i % len(frags)]
                            count[way] += 1
                        if limit is not None:
                            n = min(n, limit - self.forwarded[way])
                        dst.sendall(data[:n])
                        self.forwarded[way] += min(n, len(data))
                        data = data[n:]
                        if limit is not None and self.forwarded[way] >= limit:
                            time.sleep(0.01)
                            return self.do_cut(a, b)
                        if i < 40 and frags:
                            time.sleep(0.0003)
                        if not data:
                            break
                    else:
                        # end of this direction
                        del ways[src]
                        dst.shutdown(socket.SHUT_WR)
                except OSError:
                    ways.pop(src, None)
                    try:
                        dst.shutdown(socket.SHUT_WR)
                    except OSError:
                        pass
        a.close()
        b.close()

    def do_cut(self, *socks):
        self.was_cut = True
        for s in socks:
            if self.cut[2]:
                s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
            s.close()


def body(kind, n):
    data = bytes((i * 31 + n) % 251 for i in range(min(n, 997)))
    data = (data * (n // max(1, len(data)) + 1))[:n]
    if kind == "bytes":
        return data
    if kind == "mixed":
        return {"d": data, "n": n, "l": [None, 1.5, ("x", "é€"), {"k": -n}]}
    from daisy import Block, BlockStatus, Roi

    b = Block(Roi((-n, 0), (100, n + 1)), Roi((-n, 0), (10, 10)), Roi((-n + 1, 1), (5, 5)), task_id=f"t{n}")
    b.status = [BlockStatus.CREATED, BlockStatus.PROCESSING, BlockStatus.SUCCESS, BlockStatus.FAILED][n % 4]
    return (b, data)


def comparable(x):
    if isinstance(x, tuple) and x and type(x[0]).__name__ == "Block":
        b = x[0]
        return (str(b.read_roi), str(b.write_roi), tuple(b.block_id), b.status.name, b.task_id, x[1])
    return x


def child(case, workdir):
    from daisy.tcp import StreamClosedError, TCPClient, TCPMessage, TCPServer
    from daisy.tcp.exceptions import NotConnected

    problems = []
    stats = collections.Counter()
    server = TCPServer(host="127.0.0.1")
    n = len(case["clients"])
    proxies = [Proxy(server.address, c["up"], c["down"], c["cut"], c["narrow"]) for c in case["clients"]]
    clients = []
    for p in proxies:
        try:
            clients.append(TCPClient("127.0.0.1", p.port))
        except Exception as e:
            problems.append(["connect", repr(e)])
            return dict(problems=problems, stats=dict(stats))
    kind = case["kind"]
    sent = [[] for _ in range(n)]  # (seq, size) by each client
    nbytes = [[] for _ in range(n)]
    received = [[] for _ in range(n)]  # by server
    streams = {}
    replies = [[] for _ in range(n)]  # sent by server
    got = [[] for _ in range(n)]
    gone = [False] * n  # said goodbye
    client_down = [False] * n
    objects = {}  # last message object of each client
    reply_objects = {}
    errors = []
    lost_sends = [False] * n

    def bad(what, msg):
        problems.append([what, msg])

    def send(c, size, seq):
        m = TCPMessage((c, seq, size, body(kind, size)))
        last, old = objects.get(c, (None, None))
        if last in received[c] and case.get("reuse"):
            # the same object, with new contents (it was received, so it will
            # not be looked at anymore)
            old.payload = m.payload
            m = old
            stats["message objects reused"] += 1
        objects[c] = ((seq, size), m)
        try:
            clients[c].send_message(m)
        except (StreamClosedError, NotConnected) as e:
            if not case["clients"][c]["cut"] and not gone[c]:
                bad("send", f"client {c}: {e!r}")
            client_down[c] = True
            return
        sent[c].append((seq, size))
        nbytes[c].append(len(pickle.dumps(m)))
        stats["messages"] += 1

    def serve_one(reply_sizes, timeout):
        try:
            m = server.get_message(timeout=timeout)
        except StreamClosedError as e:
            errors.append(e)
            return True
        if m is None:
            return False
        c, seq, size, data = m.payload
        if comparable(data) != comparable(body(kind, size)):
            bad("modified", f"message {seq} of client {c} ({size} bytes) was modified")
        received[c].append((seq, size))
        if streams.setdefault(c, m.stream) is not m.stream:
            bad("stream", f"messages of client {c} have different streams")
        if any(s is m.stream for o, s in streams.items() if o != c):
            bad("stream", f"message of client {c} has the stream of another client")
        for j, r in enumerate(reply_sizes):
            reply = TCPMessage((c, seq, j, r, body(kind, r)))
            last, old = reply_objects.get(c, (None, None))
            if last in got[c] and case.get("reuse"):
                old.payload = reply.payload
                reply = old
                stats["message objects reused"] += 1
            reply_objects[c] = ((seq, j, r), reply)
            try:
                m.stream.send_message(reply)
                replies[c].append((seq, j, r))
                stats["replies"] += 1
            except StreamClosedError:
                if not case["clients"][c]["cut"] and not gone[c]:
                    bad("reply", f"stream to client {c} is closed")
        return True

    def receive_one(c, timeout):
        if client_down[c] or gone[c]:
            return False
        try:
            m = clients[c].get_message(timeout=timeout)
        except (StreamClosedError, NotConnected) as e:
            if not case["clients"][c]["cut"]:
                bad("closed", f"client {c}, connection is up: {e!r}")
            client_down[c] = True
            return False
        if m is None:
            return False
        to, seq, j, size, data = m.payload
        if to != c:
            bad("misdirected", f"client {c} received a reply for client {to}")
            return True
        if comparable(data) != comparable(body(kind, size)):
            bad("modified", f"reply {seq}.{j} to client {c} was modified")
        got[c].append((seq, j, size))
        return True

    seqs = [0] * n
    for what, i, ss in case["ops"]:
        c = i % n
        if what in ("send", "burst") and not gone[c] and not client_down[c]:
            if what == "burst":
                stats["bursts"] += 1
                ss = [3] * ss[0]
            for s in ss:
                send(c, s, seqs[c])
                seqs[c] += 1
        elif what == "threads":
            # all clients at the same time
            ts = []
            for c in range(n):
                if gone[c] or client_down[c]:
                    continue
                first = seqs[c]
                seqs[c] += len(ss)
                ts.append(
                    threading.Thread(target=lambda c=c, f=first: [send(c, s, f + k) for k, s in enumerate(ss)])
                )
            [t.start() for t in ts]
            [t.join() for t in ts]
        elif what == "hold":
            proxies[c].flowing.clear()
            stats["holds"] += 1
        elif what == "open":
            proxies[c].flowing.set()
        elif what == "flood" and not gone[c] and not client_down[c]:
            proxies[c].flowing.clear()
            for s in ss:
                send(c, s, seqs[c])
                seqs[c] += 1
            time.sleep(0.01)
            proxies[c].flowing.set()
            stats["floods"] += 1
        elif what == "serve-held" and not gone[c] and not client_down[c] and proxies[c].flowing.is_set():
            # replies to one message, that can not leave for a while
            send(c, 3, seqs[c])
            seqs[c] += 1
            for _ in range(20):
                k = len(received[c])
                if not serve_one(ss if proxies[c].narrow else ss[:2], 0.02) or len(received[c]) > k:
                    break
            proxies[c].flowing.clear()
            time.sleep(0.01)
            proxies[c].flowing.set()
            stats["floods"] += 1
        elif what == "serve":
            for _ in range(i):
                if not serve_one(ss, 0.02):
                    break
        elif what == "receive":
            receive_one(c, 0.02)
        elif what in ("bye", "slow-bye") and case["clients"][c]["cut"] is None and not gone[c]:
            if what == "slow-bye":
                proxies[c].flowing.clear()
                for s in ss:
                    send(c, s, seqs[c])
                    seqs[c] += 1
                threading.Timer(0.7, proxies[c].flowing.set).start()
                stats["slow goodbyes"] += 1
            else:
                proxies[c].flowing.set()
            # replies that did not arrive yet are lost
            gone[c] = True
            try:
                clients[c].disconnect()
            except Exception as e:
                bad("disconnect", f"client {c}: {e!r}")
            if clients[c].connected():
                bad("disconnect", f"client {c} is still connected")
            for f in (lambda: clients[c].send_message(TCPMessage(1)), lambda: clients[c].get_message(timeout=0.01)):
                try:
                    f()
                    bad("disconnect", f"client {c} can be used after disconnecting")
                except NotConnected:
                    pass

    for p in proxies:
        p.flowing.set()

    # everything has to arrive in the end
    def settled():
        for c in range(n):
            if not proxies[c].was_cut:
                if len(received[c]) < len(sent[c]):
                    return False
                if not gone[c] and len(got[c]) < len(replies[c]):
                    return False
        return True

    deadline = time.monotonic() + 15 + 0.03 * sum(seqs)
    while not settled() and time.monotonic() < deadline and not problems:
        serve_one([3], 0.02)
        for c in range(n):
            while receive_one(c, 0.002):
                pass
    # connections that were cut: both ends have to notice
    cuts = [c for c in range(n) if proxies[c].was_cut]
    deadline = time.monotonic() + 10
    while time.monotonic() < deadline and not problems:
        if len(errors) >= len(cuts) and all(client_down[c] for c in cuts):
            break
        serve_one([], 0.02)
        for c in cuts:
            while receive_one(c, 0.002):
                pass
    # anything that should not be there?
    end = time.monotonic() + 0.03
    while serve_one([], 0.01) or time.monotonic() < end:
        for c in range(n):
            receive_one(c, 0)

    cuts = [c for c in range(n) if proxies[c].was_cut]
    for c in range(n):
        def prefix(a, b):
            return b[: len(a)] == a

        if c in cuts:
            if not prefix(received[c], sent[c]):
                bad("prefix", f"cut client {c}: server received {received[c][:6]}, sent {sent[c][:6]}")
            if not prefix(got[c], replies[c]):
                bad("prefix", f"cut client {c} received {got[c][:6]}, sent {replies[c][:6]}")
            # complete messages that made it through before the end
            if not case["clients"][c]["cut"][2]:
                total, k = 0, 0
                for b in nbytes[c]:
                    total += b + 64
                    if total > proxies[c].forwarded["up"]:
                        break
                    k += 1
                if len(received[c]) < k:
                    bad("lost", f"cut client {c}: at least {k} messages were complete, {len(received[c])} received")
            if not client_down[c]:
                bad("unnoticed", f"client {c} did not notice that the connection was cut")
            stats["cuts"] += 1
        else:
            if received[c] != sent[c]:
                bad("received", f"client {c} sent {sent[c][:8]}, server received {received[c][:8]}")
            if not gone[c] and got[c] != replies[c]:
                bad("replies", f"server sent {replies[c][:8]} to client {c}, received {got[c][:8]}")
            if gone[c] and not prefix(got[c], replies[c]):
                bad("replies", f"server sent {replies[c][:8]} to client {c}, received {got[c][:8]}")
    if len(errors) != len(cuts):
        bad("unnoticed", f"{len(cuts)} connections were cut, server reported {len(errors)}")
    stats["goodbyes"] = sum(gone)
    # the server closes all connections
    if not problems:
        up = [c for c in range(n) if not gone[c] and c not in cuts]
        server.disconnect()
        deadline = time.monotonic() + 10
        while time.monotonic() < deadline and not all(client_down[c] for c in up):
            for c in up:
                if not client_down[c]:
                    try:
                        if clients[c].get_message(timeout=0.01) is not None:
                            bad("ghost", f"client {c} received a message that was never sent")
                    except (StreamClosedError, NotConnected):
                        client_down[c] = True
        if not all(client_down[c] for c in up):
            bad("unnoticed", "clients did not notice that the server closed the connections")
    return dict(problems=problems, stats=dict(stats), cuts=len(cuts))


def run_tcp_case(case):
    out = Outcome()
    r = isolate.run(child, case)
    if r.hung:
        out.violate(("C14",), "hang", f"did not end within {isolate.LIMITS[-1]} s")
        return out
    if r.died:
        out.violate(("C14",), "died", f"the calling process was ended ({r.died})")
        return out
    if r.error:
        # anything but connection errors escaping from the TCP classes
        if "daisy/tcp" in r.error and "HarnessError" not in r.error:
            out.violate("C14", "exception", r.error.strip().splitlines()[-1][:300] if not r.output else r.error[:1500])
            return out
        raise HarnessError(r.error)
    for what, message in r.value["problems"][:5]:
        out.violate("C14", what, message)
    for k, v in r.value["stats"].items():
        out.count(k, v)
    out.nontrivial = r.value["stats"].get("messages", 0) >= 2
    out.note = f"{len(case['clients'])} clients, {r.value['stats']}, {r.seconds:.1f} s"
    return out
