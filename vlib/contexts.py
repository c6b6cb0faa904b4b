"""Contexts: operation histories against a plain dictionary, read back through
the environment variable (in this and in another process)."""

import os
import subprocess
import sys

from hypothesis import strategies as st

from .core import REPO, Outcome, StopCase

alphabet = st.characters(exclude_characters="\0", exclude_categories=["Cs"])
text = st.one_of(
    st.text(alphabet, max_size=8),
    st.text(st.sampled_from("ab=:; \t\n%s\\/é€😀'\"{}"), max_size=6),
    st.sampled_from(["worker_id", "task_id", "hostname", "port", "logdir", "a", "A", "a b", "", "%s", "None", "0"]),
)
values = st.one_of(
    text,
    st.integers(-(2**70), 2**70),
    st.floats(allow_nan=True),
    st.booleans(),
    st.just(["path", "x/y z"]),
    st.just(["path", "/tmp/a=b"]),
    st.just(["none"]),
    st.just(["ip", "::1"]),
)
keys = st.one_of(text, text, st.integers(0, 5))

ops = st.lists(
    st.tuples(st.sampled_from(["set", "set", "set", "copy", "copy", "switch", "check", "env"]), keys, values).map(list),
    max_size=14,
)
cases = st.fixed_dictionaries(
    dict(
        init=st.dictionaries(st.one_of(st.sampled_from(["task_id", "hostname", "port", "x", "ünï"]), text.filter(lambda t: t != "self")), values, max_size=5),
        logdir=st.one_of(st.just(""), st.text(st.sampled_from("ab/ .-é"), min_size=1, max_size=6)),
        ops=ops,
        other_process=st.integers(0, 2**20).map(lambda i: i % 97 == 13),
    )
)


def value(v):
    from pathlib import Path

    if isinstance(v, list):
        return {"path": lambda: Path(v[1]), "none": lambda: None, "ip": lambda: v[1]}[v[0]]()
    return v


def bad(s):
    return "=" in str(s) or ":" in str(s)


def run_context_case(case):
    import daisy.logging as dl

    out = Outcome()
    saved = dl.get_log_basedir()
    env = os.environ.get("DAISY_CONTEXT")
    try:
        _run(case, out)
    except StopCase:
        pass
    finally:
        dl.set_log_basedir(saved)
        os.environ.pop("DAISY_CONTEXT", None)
        if env is not None:
            os.environ["DAISY_CONTEXT"] = env
    return out


READER = r"""
import sys, json, pathlib
sys.path.insert(0, %r)
import logging; logging.disable(logging.CRITICAL)
from daisy import Context
c = Context.from_env()
keys = json.loads(sys.stdin.read())
print(json.dumps([c[k] for k in keys]))
"""


def _run(case, out):
    import json

    from daisy import Context
    import daisy.logging as dl

    logdir = case["logdir"] or "./daisy_logs"
    dl.set_log_basedir(logdir)
    init = {k: value(v) for k, v in case["init"].items() if k != "logdir"}
    reject = any(bad(k) or bad(v) for k, v in init.items())
    try:
        ctx = Context(**init)
    except Exception as e:
        if not reject:
            out.violate("C15", "refused", f"Context(**{init}) raised {type(e).__name__}: {e}")
        out.count("rejected constructors")
        out.nontrivial = True
        out.note = "rejected by the constructor"
        return
    if reject:
        out.violate("C15", "accepted", f"Context(**{init}) was accepted")
        return
    model = {k: str(v) for k, v in init.items()}
    model["logdir"] = str(dl.get_log_basedir())
    contexts = [(ctx, model)]
    cur = 0

    def compare(c, m, what):
        for k, v in m.items():
            with out.guard(what):
                got = c[k]
                got2 = c.get(k, None)
            if str(got) != v or str(got2) != v:
                out.violate("C15", "value", f"{what}: {k!r} is {got!r}, was set to {v!r}")
        with out.guard(what):
            default = c.get("\x01 not there", "default")
        if default != "default":
            out.violate("C15", "default", f"{what}: got {default!r} for a key that was never set")

    def through_env(c, m, what):
        with out.guard(what):
            os.environ[Context.ENV_VARIABLE] = c.to_env()
            back = Context.from_env()
        for k, v in m.items():
            with out.guard(what):
                got = back[k]
            if got != v:
                out.violate("C15", "round-trip", f"{what}: {k!r} came back as {got!r}, was {v!r}")
        # nothing else came back
        with out.guard(what):
            sent, again = c.to_env(), back.to_env()
        if sorted(again) != sorted(sent):
            out.violate("C15", "keys", f"{what}: {again!r} came back, {sent!r} was sent")
        out.count("round trips")
        # what comes back is independent, too
        with out.guard(what):
            back["worker_id"] = "changed"
        compare(c, m, what + ", after changing what was read")

    for i, (op, k, v) in enumerate(case["ops"]):
        c, m = contexts[cur]
        what = f"operation {i} {op}"
        v = value(v)
        if op == "set":
            what += f" {k!r} = {v!r}"
            try:
                c[k] = v
                ok = True
            except Exception as e:
                ok = False
                if not (bad(k) or bad(v)):
                    out.violate("C15", "refused", f"{what} raised {type(e).__name__}: {e}")
                out.count("rejected values")
            if ok:
                if bad(k) or bad(v):
                    out.violate("C15", "accepted", f"{what} was accepted")
                    return
                m[str(k)] = str(v)
            compare(c, m, what)
        elif op == "copy":
            with out.guard(what):
                contexts.append((c.copy(), dict(m)))
            if len(contexts) % 2:
                cur = len(contexts) - 1
        elif op == "switch":
            cur = (cur + 1) % len(contexts)
        elif op == "check":
            for c, m in contexts:
                compare(c, m, what)
        else:
            through_env(c, m, what)
        if out.violations:
            return
    for j, (c, m) in enumerate(contexts):
        compare(c, m, f"end, context {j}")
        through_env(c, m, f"end, context {j}")

    if case["other_process"] and not out.violations:
        # a real process; environments are made of bytes
        c, m = contexts[-1]
        ks = sorted(m)
        with out.guard("environment of a process"):
            e = c.to_env()
        r = subprocess.run(
            [sys.executable, "-c", READER % REPO],
            input=json.dumps(ks),
            env={**os.environ, Context.ENV_VARIABLE: e},
            capture_output=True,
            text=True,
        )
        if r.returncode != 0:
            out.violate("C15", "process", f"process with context {e!r} failed: {r.stderr[-300:]}")
        elif json.loads(r.stdout.strip().splitlines()[-1]) != [m[k] for k in ks]:
            out.violate("C15", "process", f"process with context {e!r} read {r.stdout}")
        out.count("other processes")
    out.nontrivial = len(contexts) > 1 or len(contexts[0][1]) > 2
    out.note = f"{len(contexts)} contexts, {len(contexts[0][1])} variables"
