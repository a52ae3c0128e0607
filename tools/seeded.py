"""Planted bugs: make one from a description (new), or validate those kept (check [ID...] [--no-checks]).

Development only; no check reads the planted bugs."""
import concurrent.futures as cf
import json
import os
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(VERIF, "seeded")
PY = "/opt/venv/bin/python"
LIB = ["dst/__init__.py", "dst/sim.py", "dst/zwire.py", "dst/world.py"]


def sh(*cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, **kw)


def copy():
    d = tempfile.mkdtemp(prefix="sb-", dir="/tmp")
    subprocess.run(["cp", "-a", "/repo/.", d], check=True)
    return d


def new(bug):
    out = os.path.join(SEEDED, bug["id"])
    d = copy()
    try:
        for f, old, repl in bug["edits"]:
            p = os.path.join(d, "pyzwave", f)
            s = open(p).read()
            if s.count(old) != 1:
                sys.exit("%s: %d matches in %s of %r" % (bug["id"], s.count(old), f, old))
            open(p, "w").write(s.replace(old, repl))
        diff = sh("git", "diff", cwd=d).stdout
    finally:
        shutil.rmtree(d)
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out + "/dst")
    open(out + "/patch.diff", "w").write(diff)
    json.dump({"property": bug["property"], "needs": bug["needs"], "what_it_breaks": bug["breaks"]}, open(out + "/meta.json", "w"), indent=1)
    open(out + "/demo.sh", "w").write('#!/bin/bash\nPYTHONDONTWRITEBYTECODE=1 exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    os.chmod(out + "/demo.sh", 0o755)
    open(out + "/demo.py", "w").write(bug["demo"].lstrip("\n"))
    for f in LIB + bug.get("lib", []):
        shutil.copy(os.path.join(VERIF, f), os.path.join(out, f))
    shutil.copy(os.path.join(VERIF, "tools/demolib.py"), out)
    print(bug["id"], "made")


def base_lines(d, diff):
    """Number of original lines the patch removes."""
    n = 0
    for f in sh("git", "apply", "--numstat", "-", input=diff, cwd=d).stdout.splitlines():
        name = f.split("\t")[2]
        blame = sh("git", "blame", "-s", "--abbrev=7", name, cwd=d).stdout.splitlines()
        orig = [ln.lstrip("^").startswith("d9dc1d0") for ln in blame]
        at = None
        inside = False
        for ln in diff.splitlines():
            if ln.startswith("+++ "):
                inside = ln[6:] == name
            elif ln.startswith("@@"):
                at = int(ln.split()[1][1:].split(",")[0]) - 1
            elif inside and at is not None and ln[:1] in "- " and not ln.startswith("---"):
                if ln[:1] == "-" and orig[at]:
                    n += 1
                at += 1
    return n


def validate(bid, checks=True):
    b = os.path.join(SEEDED, bid)
    meta = json.load(open(b + "/meta.json"))
    diff = open(b + "/patch.diff").read()
    d = copy()
    elsewhere = tempfile.mkdtemp(prefix="sd-", dir="/tmp")
    out = [bid, meta["property"]]
    try:
        subprocess.run(["cp", "-a", b + "/.", elsewhere], check=True)
        for f in ("patch.diff", "meta.json"):
            os.remove(os.path.join(elsewhere, f))
        out.append("base%d" % base_lines(d, diff))
        env = dict(os.environ, PYTHONPATH=d)
        r = sh("bash", elsewhere + "/demo.sh", cwd=d, env=env)
        out.append("demo-clean:%d" % r.returncode)
        if r.returncode:
            out.append(r.stdout[-300:] + r.stderr[-600:])
        a = sh("git", "apply", b + "/patch.diff", cwd=d)
        if a.returncode:
            out.append("DOES NOT APPLY " + a.stderr)
            return " ".join(out)
        t = sh(PY, "-B", "-m", "pytest", "-q", "-x", "--deselect", "tests/test_types.py::test_enum_t_IntFlags", "-p", "no:cacheprovider", cwd=d)
        out.append("tests:" + (t.stdout.strip().splitlines() or ["?"])[-1][:60])
        r = sh("bash", elsewhere + "/demo.sh", cwd=d, env=env)
        out.append("demo-bug:%d %s" % (r.returncode, (r.stdout + r.stderr).strip().splitlines()[-2:]))
        if checks:
            props = [meta["property"]] + (ALSO if checks is True else [])
            for c in props:
                r = sh(PY, os.path.join(VERIF, "check.py"), c, env=dict(os.environ, VERIF_REPO=d, VERIF_EVIDENCE=d + "/ev", VERIF_JOBS="3"))
                line = [ln for ln in r.stdout.splitlines() if ln.startswith("violated")]
                out.append("\n      %s rc %d %s" % (c, r.returncode, (line or [""])[0][:200]))
        return " ".join(out)
    finally:
        shutil.rmtree(d)
        shutil.rmtree(elsewhere)


ALSO = []

if __name__ == "__main__":
    args = sys.argv[1:]
    if args[0] == "new":
        bugs = eval(sys.stdin.read())  # pylint: disable=eval-used
        for bug in bugs:
            new(bug)
        ids = [b["id"] for b in bugs]
    else:
        ids = [a for a in args[1:] if not a.startswith("-")] or sorted(os.listdir(SEEDED))
        for a in args[1:]:
            if a.startswith("--also="):
                ALSO[:] = a[7:].split(",")
    with cf.ThreadPoolExecutor(4) as ex:
        for res in ex.map(lambda i: validate(i, "--no-checks" not in args), ids):
            print(res, flush=True)
