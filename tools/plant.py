"""Makes and confirms planted bugs (development tool, no check uses it).

plant.py make FILE.py    FILE.py defines BUGS, a list of dicts: id, property,
                         needs, breaks, edits [(file, old, new)], demo (python)
plant.py check ID [P..]  runs the checks (default: of its property) on the bug
"""
import json, os, shutil, subprocess, sys

V = "/verif"
WT = "/tmp/wt"


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)


def fresh(wt=WT):
    shutil.rmtree(wt, ignore_errors=True)
    sh(f"git -C /repo worktree prune; cp -a /repo {wt} && git -C {wt} checkout -q -- .")


def env(wt):
    return dict(os.environ, PYTHONPATH=wt, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")


def tests(wt):
    r = sh(f"cd {wt} && setsid timeout -k 5 300 /opt/venv/bin/python -m pytest tests -q -p no:cacheprovider --timeout=60 --basetemp={wt}-tmp -o junit_family=xunit2 2>&1 | tail -15", env=env(wt))
    shutil.rmtree(wt + "-tmp", ignore_errors=True)
    return r.stdout


def demo(d, wt):
    try:
        r = sh(f"cd {wt} && setsid timeout -k 5 300 bash {d}/demo.sh", env=env(wt), timeout=320)
        return r.returncode, r.stdout[-600:]
    except subprocess.TimeoutExpired:
        return 124, "timeout"


DEMO = """#!/bin/bash
# cwd: the repository. Works in a scratch directory of its own.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
scratch=$(mktemp -d)
trap 'rm -rf "$scratch"' EXIT
cd "$scratch" || exit 2
PYTHONPATH="$repo" PYTHONDONTWRITEBYTECODE=1 timeout -k 5 %d /opt/venv/bin/python "$here/demo.py" 2>&1 | tail -n 20
exit "${PIPESTATUS[0]}"
"""


def make(path):
    ns = {}
    exec(open(path).read(), ns)
    only = sys.argv[3:]
    for b in ns["BUGS"]:
        if only and b["id"] not in only:
            continue
        d = f"{V}/seeded/{b['id']}"
        fresh()
        ok = True
        for f, old, new in b["edits"]:
            p = f"{WT}/{f}"
            s = open(p).read()
            if s.count(old) != 1:
                print(b["id"], "edit matches", s.count(old), "times:", old[:60]); ok = False; break
            open(p, "w").write(s.replace(old, new))
        if not ok:
            continue
        diff = sh(f"git -C {WT} diff").stdout
        t = tests(WT)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        open(d + "/patch.diff", "w").write(diff)
        open(d + "/demo.sh", "w").write(DEMO % b.get("limit", 120))
        open(d + "/demo.py", "w").write(b["demo"])
        json.dump(dict(property=b["property"], needs=b["needs"], what_it_breaks=b["breaks"]), open(d + "/meta.json", "w"), indent=1)
        bad, o1 = demo(d, WT)
        good, o0 = demo(d, "/repo")
        passed = "29 passed" in t and "failed" not in t
        status = "OK" if passed and bad != 0 and good == 0 else "REJECTED"
        print(f"{b['id']} [{b['property']}] {status}: tests {t.strip().splitlines()[-1]!r} demo bug={bad} clean={good}")
        if status != "OK":
            print("   ", t[-700:] if not passed else "", "\n--bug:", o1[-500:], "\n--clean:", o0[-500:])
            shutil.rmtree(d)
    shutil.rmtree(WT, ignore_errors=True)


def check(ids, props, seed="1"):
    for i in ids:
        d = f"{V}/seeded/{i}"
        fresh()
        r = sh(f"git -C {WT} apply {d}/patch.diff")
        assert r.returncode == 0, r.stdout
        meta = json.load(open(d + "/meta.json"))
        for p in props or [meta["property"]]:
            r = sh(f"cd {V} && /opt/venv/bin/python run.py {p}", env=dict(os.environ, VERIF_REPO=WT, VERIF_SEED=seed, PYTHONPATH=WT))
            last = [l for l in r.stdout.splitlines() if "VIOLATION" in l or "violation" in l or ": " in l]
            print(f"{i} {p}: rc={r.returncode} " + " | ".join(x[:170] for x in last[-4:]), flush=True)
            for l in r.stdout.splitlines():
                if l.startswith("VIOLATION") and "replay=" in l:
                    try: os.remove(l.split("replay=")[1])
                    except OSError: pass
    shutil.rmtree(WT, ignore_errors=True)


if __name__ == "__main__":
    if sys.argv[1] == "make":
        make(sys.argv[2])
    else:
        ids = [a for a in sys.argv[2:] if os.path.isdir(f"{V}/seeded/{a}")]
        check(ids, [a for a in sys.argv[2:] if a not in ids])
