"""Mutation screen (development tool, no check uses it).

mutate.py list                     all mutants of daisy as JSON lines
mutate.py screen LIST OUT [JOBS]   for each mutant in LIST: run the repository's
                                   tests and, if they pass, a screen over all
                                   engines; appends the verdict to OUT
mutate.py one DIR                  the screen, on the copy of daisy in DIR
"""
import ast, copy, importlib, json, os, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

PY = "/opt/venv/bin/python"
FILES = """block block_bookkeeper blocks cl_monitor client context convenience
dependency_graph logging processing_queue ready_surface scheduler serial_server
server task task_state task_worker_pools worker worker_pool server_observer
messages/message tcp/tcp_client tcp/tcp_message tcp/tcp_server tcp/tcp_stream
tcp/io_looper tcp/internal_messages messages/client_exception""".split()

CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq,
       ast.NotEq: ast.Eq, ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Is: ast.IsNot, ast.IsNot: ast.Is}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Add, ast.FloorDiv: ast.Mult, ast.Mod: ast.FloorDiv,
       ast.Div: ast.Mult}
NAMES = {"min": "max", "max": "min", "any": "all", "all": "any", "set": "list", "append": "discard",
         "floor_division": "ceil_division", "ceil_division": "floor_division", "sorted": "list",
         "intersect": "union", "popleft": "pop"}


def noise(node):
    t = ast.unparse(node)
    return t.startswith(("logger.", "logging.getLogger", "assert ", '"', "'", "import ", "from ", "super().__init__"))


def mutants_of(tree):
    """Yields (description, lineno, mutated tree)."""
    nodes = list(ast.walk(tree))
    for i, node in enumerate(nodes):
        def fresh():
            t = copy.deepcopy(tree)
            return t, list(ast.walk(t))[i]
        line = getattr(node, "lineno", 0)
        if isinstance(node, ast.Compare):
            for k, op in enumerate(node.ops):
                if type(op) in CMP:
                    t, n = fresh()
                    n.ops[k] = CMP[type(op)]()
                    yield f"cmp {ast.unparse(node)} -> {ast.unparse(n)}", line, t
        if isinstance(node, ast.BinOp) and type(node.op) in BIN and not isinstance(node.left, (ast.Constant, ast.JoinedStr)):
            t, n = fresh()
            n.op = BIN[type(node.op)]()
            yield f"bin {ast.unparse(node)} -> {ast.unparse(n)}", line, t
        if isinstance(node, ast.BoolOp):
            t, n = fresh()
            n.op = ast.And() if isinstance(node.op, ast.Or) else ast.Or()
            yield f"bool {ast.unparse(node)} -> {ast.unparse(n)}", line, t
            for k in range(len(node.values)):
                t, n = fresh()
                del n.values[k]
                if len(n.values) == 1:
                    n.values.append(copy.deepcopy(n.values[0]))
                yield f"drop {ast.unparse(node)} -> {ast.unparse(n)}", line, t
        if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
            t, n = fresh()
            n.operand = ast.UnaryOp(ast.Not(), n.operand)
            yield f"not {ast.unparse(node)} -> {ast.unparse(n)}", line, t
        if isinstance(node, ast.Constant) and type(node.value) is int:
            t, n = fresh()
            n.value += 1
            yield f"const {node.value} -> {n.value}", line, t
        if isinstance(node, ast.Constant) and type(node.value) is bool:
            t, n = fresh()
            n.value = not n.value
            yield f"const {node.value} -> {n.value}", line, t
        if isinstance(node, (ast.If, ast.While, ast.IfExp)):
            for v in (True, False):
                t, n = fresh()
                n.test = ast.Constant(v)
                if v and isinstance(node, ast.While):
                    continue
                yield f"test {ast.unparse(node.test)} -> {v}", line, t
        if isinstance(node, ast.comprehension) and node.ifs:
            t, n = fresh()
            n.ifs = []
            yield f"drop filter {ast.unparse(node)}", node.target.lineno, t
        if isinstance(node, ast.Call):
            f = node.func
            name = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else None
            if name in NAMES:
                t, n = fresh()
                if isinstance(f, ast.Name):
                    n.func.id = NAMES[name]
                else:
                    n.func.attr = NAMES[name]
                yield f"call {ast.unparse(node)} -> {ast.unparse(n)}", line, t
            if name in ("copy", "deepcopy", "list", "set", "sorted", "reversed", "tuple") :
                t, n = fresh()
                src = n.args[0] if n.args else (n.func.value if isinstance(n.func, ast.Attribute) else None)
                if src is not None:
                    n.func = ast.Name("_ident", ast.Load())
                    n.args = [src]
                    n.keywords = []
                    yield f"ident {ast.unparse(node)}", line, t
            for k, kw in enumerate(node.keywords):
                if kw.arg and not noise(node):
                    t, n = fresh()
                    del n.keywords[k]
                    yield f"dropkw {kw.arg} in {ast.unparse(node)[:60]}", line, t
            if len(node.args) == 2 and not noise(node) and not any(isinstance(a, ast.Starred) for a in node.args):
                t, n = fresh()
                n.args.reverse()
                yield f"swap {ast.unparse(node)[:80]}", line, t
        for field in ("body", "orelse", "finalbody"):
            stmts = getattr(node, field, None)
            if not isinstance(stmts, list) or isinstance(node, (ast.Module, ast.ClassDef)):
                continue
            for k, s in enumerate(stmts):
                if noise(s) or isinstance(s, (ast.Pass, ast.FunctionDef, ast.AsyncFunctionDef, ast.Import, ast.ImportFrom)):
                    continue
                if isinstance(s, (ast.Expr, ast.Assign, ast.AugAssign, ast.Delete, ast.Raise, ast.Continue, ast.Break, ast.AnnAssign)):
                    if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
                        continue
                    t, n = fresh()
                    getattr(n, field)[k] = ast.Pass()
                    yield f"del {ast.unparse(s)[:90]}", s.lineno, t
                if isinstance(s, ast.Return) and s.value is not None:
                    t, n = fresh()
                    getattr(n, field)[k].value = None
                    yield f"ret None for {ast.unparse(s)[:80]}", s.lineno, t
                if isinstance(s, (ast.Continue, ast.Break)):
                    t, n = fresh()
                    getattr(n, field)[k] = ast.Break() if isinstance(s, ast.Continue) else ast.Continue()
                    yield f"flow {ast.unparse(s)}", s.lineno, t
                if isinstance(s, (ast.With,)):
                    t, n = fresh()
                    getattr(n, field)[k:k + 1] = getattr(n, field)[k].body
                    yield f"unwith {ast.unparse(s.items[0])}", s.lineno, t
                if isinstance(s, ast.For):
                    t, n = fresh()
                    getattr(n, field)[k].body.append(ast.Break())
                    yield f"once {ast.unparse(s.target)} in {ast.unparse(s.iter)[:60]}", s.lineno, t
                if isinstance(s, ast.Try):
                    for h in range(len(s.handlers)):
                        t, n = fresh()
                        getattr(n, field)[k].handlers[h].body = [ast.Raise()]
                        yield f"reraise {ast.unparse(s.handlers[h])[:50]!r}", s.lineno, t
                if k + 1 < len(stmts) and isinstance(s, (ast.Expr, ast.Assign, ast.AugAssign)) and isinstance(stmts[k + 1], (ast.Expr, ast.Assign, ast.AugAssign)) and not noise(stmts[k + 1]):
                    t, n = fresh()
                    b = getattr(n, field)
                    b[k], b[k + 1] = b[k + 1], b[k]
                    yield f"order {ast.unparse(s)[:50]} <-> {ast.unparse(stmts[k + 1])[:50]}", s.lineno, t


def generate():
    for f in FILES:
        path = f"/repo/daisy/{f}.py"
        tree = ast.parse(open(path).read())
        base = ast.unparse(tree)
        seen = set()
        for k, (desc, line, t) in enumerate(mutants_of(tree)):
            src = ast.unparse(ast.fix_missing_locations(t))
            if src == base or src in seen:
                continue
            seen.add(src)
            if "_ident" in src:
                src += "\ndef _ident(x):\n    return x\n"
            yield dict(id=f"{f}:{k}", file=f"daisy/{f}.py", line=line, desc=desc, src=src)


CORE = "static sched huge expand serial"
RUN = "serversim e2e e2e_errors rerun"
RELEVANT = dict(
    block=CORE + " clientsim", block_bookkeeper="bookkeeping serversim e2e", blocks="expand static",
    cl_monitor="monitor serversim serial rerun", client="clientsim e2e e2e_errors callables", context="contexts callables logs pools",
    convenience="serial rerun e2e e2e_errors", dependency_graph=CORE, logging="logs rerun", processing_queue=CORE,
    ready_surface=CORE + " serversim", scheduler=CORE + " serversim", serial_server="serial rerun", server=RUN,
    task="callables sched serial serversim e2e clientsim", task_state="sched serial serversim", task_worker_pools="pools " + RUN,
    worker="pools callables logs " + RUN, worker_pool="pools callables logs " + RUN, server_observer="serial serversim rerun monitor",
)


def layers(file=None):
    """One layer per engine, as registered by the checks, with a share of its cases."""
    rel = RELEVANT.get(file, "tcpnet clientsim e2e e2e_errors rerun").split()
    found = {}
    for i in range(1, 30):
        try:
            c = importlib.import_module(f"checks.c{i:02d}")
        except ModuleNotFoundError:
            break
        for layer in c.LAYERS:
            if layer.run.__module__.split(".")[-1] not in rel:
                continue
            key = (layer.run.__module__, layer.run.__name__, layer.name)
            if key not in found or layer.quick[0] > found[key].quick[0]:
                found[key] = layer
    order = sorted(found.values(), key=lambda l: (not l.deterministic, rel.index(l.run.__module__.split('.')[-1]), l.name))
    return order


def one(repo, file):
    os.environ["VERIF_REPO"] = repo
    os.environ["VERIF_SCRATCH"] = os.getcwd()
    V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    sys.path.insert(0, V)
    from vlib import core
    core.REPO = repo
    core.setup_paths()
    import daisy
    assert daisy.__file__.startswith(repo)
    import hypothesis, signal
    from hypothesis import HealthCheck, Phase, given, settings

    class Found(Exception):
        pass

    share = float(os.environ.get("SHARE", "0.12"))
    for layer in layers(file):
        if os.fork():
            _, st = os.wait()
            if st:
                os._exit(0)
            continue
        n, secs = layer.budget("quick")
        n = max(3, int(n * share))
        limit = time.monotonic() + secs * 8 * share * 2 + 5
        got = []

        def body(case):
            if time.monotonic() > limit:
                return
            try:
                out = layer.run(case)
            except BaseException as e:
                got.append(("harness", repr(e)[:200]))
                raise Found()
            if out.violations:
                v = out.violations[0]
                got.append(("/".join(v.props), v.kind))
                raise Found()
        test = given(layer.strategy("quick"))(body)
        test = hypothesis.seed(5)(test)
        test = settings(max_examples=n, database=None, deadline=None, suppress_health_check=list(HealthCheck),
                        phases=[Phase.generate], report_multiple_bugs=False, print_blob=False)(test)
        try:
            test()
        except BaseException as e:
            if not got:
                got.append(("harness", repr(e)[:200]))
        if got:
            print("\nRESULT", json.dumps(dict(layer=layer.name, tags=got[0][0], kind=got[0][1])), flush=True)
            os._exit(1)
        os._exit(0)
    print("\nRESULT", json.dumps(dict(layer=None)), flush=True)
    os._exit(0)


def work(slot, m, out):
    wt = f"/tmp/mut/w{slot}"
    scratch = f"/tmp/mut/s{slot}"
    shutil.rmtree(scratch, ignore_errors=True)
    os.makedirs(scratch)
    path = f"{wt}/{m['file']}"
    orig = open(f"/repo/{m['file']}").read()
    open(path, "w").write(m["src"])
    env = dict(os.environ, PYTHONPATH=wt, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", TMPDIR=scratch)
    rec = {k: m[k] for k in ("id", "file", "line", "desc")}

    def run(cmd, limit):
        p = subprocess.Popen(cmd, cwd=wt if "pytest" in cmd else scratch, env=env, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, start_new_session=True)
        try:
            o, _ = p.communicate(timeout=limit)
        except subprocess.TimeoutExpired:
            o = "TIMEOUT"
        try:
            os.killpg(p.pid, 9)
        except ProcessLookupError:
            pass
        return o
    try:
        o = run([PY, "-m", "pytest", "tests", "-x", "-q", "-p", "no:cacheprovider", "--timeout=40", f"--basetemp={scratch}/pt"], 120)
        rec["tests"] = o == "TIMEOUT" and "timeout" or (" passed" in o and "failed" not in o and "error" not in o)
        if rec["tests"] is True:
            t = time.time()
            o = run([PY, os.path.abspath(__file__), "one", wt, m["id"].split(":")[0]], 900)
            rec["secs"] = round(time.time() - t)
            rec["screen"] = json.loads(o.split("RESULT", 1)[1].splitlines()[0]) if "RESULT" in o else dict(layer="?", tail=o[-300:])
    finally:
        open(path, "w").write(orig)
    with open(out, "a") as f:
        f.write(json.dumps(rec) + "\n")


def screen(lst, out, jobs=8):
    ms = [json.loads(l) for l in open(lst)]
    done = {json.loads(l)["id"] for l in open(out)} if os.path.exists(out) else set()
    ms = [m for m in ms if m["id"] not in done]
    import queue
    slots = queue.Queue()
    for s in range(jobs):
        shutil.rmtree(f"/tmp/mut/w{s}", ignore_errors=True)
        subprocess.run(["cp", "-a", "/repo", f"/tmp/mut/w{s}"], check=True)
        slots.put(s)

    def job(m):
        s = slots.get()
        try:
            work(s, m, out)
        finally:
            slots.put(s)
    with ThreadPoolExecutor(jobs) as ex:
        for r in ex.map(job, ms):
            pass


if __name__ == "__main__":
    if sys.argv[1] == "list":
        for m in generate():
            print(json.dumps(m))
    elif sys.argv[1] == "one":
        one(*sys.argv[2:])
    else:
        screen(sys.argv[2], sys.argv[3], int(sys.argv[4]) if len(sys.argv) > 4 else 8)
