#!/usr/bin/env python3
"""Mutation testing of the checks (development tool, not registered in the manifest).

Small syntactic changes are made to a scratch copy of the repository; those that keep the existing tests passing are run
against the checks mapped to the file. Survivors are listed for inspection by hand.

  mutate.py list FILE...                 show mutants
  mutate.py run OUT.jsonl [--files ..] [--sample N] [--seed S] [--scale F] [--workers N] [--recheck OLD.jsonl]
"""
import argparse
import ast
import json
import os
import random
import shutil
import subprocess
import sys
import time
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("VERIF_REPO", "/repo")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D = "dashlivesim/dashlib/"
MAP = {
    D + "dash_proxy.py": "C01 C09 C02 C05 C20 C11 C16 C27 C32 C26 C24 C18 C21 C07 C06 C33 C34 C15 C19 C23 C36 C37 C38",
    D + "configprocessor.py": "C05 C08 C01 C09 C06 C33 C34 C07 C13 C12 C14 C16 C28 C26 C27 C18 C10 C15 C24 C37 C38",
    D + "mpd_proxy.py": "C08 C12 C13 C14 C05 C09 C10 C16 C18 C15 C26 C33 C34 C07 C24",
    D + "mpdprocessor.py": "C08 C09 C10 C12 C13 C15 C16 C18 C14 C21 C11 C07 C05 C34",
    D + "mediasegmentfilter.py": "C02 C03 C04 C22 C23 C21 C16 C28 C19 C17 C05",
    D + "initsegmentfilter.py": "C20 C28 C19 C04",
    D + "mp4filter.py": "C04 C02 C20 C29 C35 C22",
    D + "segtimeline.py": "C10 C11 C16 C07",
    D + "chunker.py": "C17 C18 C30",
    D + "boxes.py": "C30 C17 C19 C16 C21",
    D + "mp4.py": "C30 C17 C19",
    D + "bitreader.py": "C30", D + "bitwriter.py": "C30", D + "structops.py": "C30 C04 C23 C02 C29",
    D + "emsg.py": "C30 C21 C16", D + "scte35.py": "C21", D + "sessionid.py": "C27",
    D + "ttml_timing_offset.py": "C22", D + "timeformatconversions.py": "C31 C08",
    D + "moduloperiod.py": "C06 C26", D + "segmentmuxer.py": "C19 C24",
    D + "stpp_generator/make_stpp_segments.py": "C35", D + "stpp_generator/stpp_creator.py": "C35",
    "dashlivesim/mod_wsgi/mod_dashlivesim.py": "C24 C25 C26 C27 C18 C01 C36 C37",
    "dashlivesim/vodanalyzer/dashanalyzer.py": "C28", "dashlivesim/vodanalyzer/mpdprocessor.py": "C28",
    "dashlivesim/cc_inserter/cc_inserter.py": "C29", "dashlivesim/cc_inserter/mpdprocessor.py": "C29",
}
CMP = {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Eq: "==", ast.NotEq: "!=", ast.In: "in", ast.NotIn: "not in",
       ast.Is: "is", ast.IsNot: "is not"}
CMPSWAP = {"<": ["<=", ">"], "<=": ["<", ">="], ">": [">=", "<"], ">=": [">", "<="], "==": ["!="], "!=": ["=="], "in": ["not in"],
           "not in": ["in"], "is": ["is not"], "is not": ["is"]}
BIN = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Mod: "%", ast.LShift: "<<",
       ast.RShift: ">>", ast.BitAnd: "&", ast.BitOr: "|"}
BINSWAP = {"+": "-", "-": "+", "*": "//", "/": "*", "//": "*", "%": "//", "<<": ">>", ">>": "<<", "&": "|", "|": "&"}
SKIPFN = {"__repr__", "__str__", "print_verbose", "main", "usage", "description"}


def mutants(path):
    "Yield (line, description, new source)."
    src = open(os.path.join(REPO, path), encoding="utf-8").read()
    tree = ast.parse(src)
    lines = src.split("\n")
    starts = [0]
    raw = src.encode("utf-8")
    for ln in raw.split(b"\n"):
        starts.append(starts[-1] + len(ln) + 1)

    def off(line, col):
        return starts[line - 1] + col

    def seg(n):
        return off(n.lineno, n.col_offset), off(n.end_lineno, n.end_col_offset)

    out = []

    def put(n, a, b, new, desc):
        text = raw[:a] + new.encode("utf-8") + raw[b:]
        try:
            ast.parse(text)
        except SyntaxError:
            return
        out.append((n.lineno, desc, text.decode("utf-8")))

    def walk(n, infn):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            if n.name in SKIPFN and n.name != "main":
                return
            infn = True
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            return
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and getattr(n.value.func, "id", "") == "print":
            return
        if isinstance(n, ast.Raise):
            a, b = seg(n)
            put(n, a, b, "pass", "delete raise")
            return
        if infn and isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr)):
            a, b = seg(n)
            put(n, a, b, "pass", "delete: " + raw[a:b].decode("utf-8").split("\n")[0][:80])
        if isinstance(n, ast.Return) and n.value is not None and infn:
            pass
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            a = seg(n.left)[1]
            b = seg(n.comparators[0])[0]
            op = CMP[type(n.ops[0])]
            mid = raw[a:b].decode("utf-8")
            for new in CMPSWAP[op]:
                if op in mid:
                    put(n, a, b, mid.replace(op, new, 1), "%s -> %s" % (op, new))
        if isinstance(n, ast.BinOp) and type(n.op) in BIN:
            op = BIN[type(n.op)]
            if not (op == "%" and isinstance(n.left, (ast.Constant, ast.JoinedStr))):
                a, b = seg(n.left)[1], seg(n.right)[0]
                mid = raw[a:b].decode("utf-8")
                if op in mid:
                    put(n, a, b, mid.replace(op, BINSWAP[op], 1), "%s -> %s" % (op, BINSWAP[op]))
            else:
                return     # message formatting
        if isinstance(n, ast.Constant) and type(n.value) is int and infn:
            a, b = seg(n)
            put(n, a, b, str(n.value + 1), "%d -> %d" % (n.value, n.value + 1))
            if n.value > 0:
                put(n, a, b, str(n.value - 1), "%d -> %d" % (n.value, n.value - 1))
        if isinstance(n, ast.Constant) and isinstance(n.value, bool) and infn:
            a, b = seg(n)
            put(n, a, b, str(not n.value), "%s -> %s" % (n.value, not n.value))
        if isinstance(n, ast.BoolOp):
            for x, y in zip(n.values, n.values[1:]):
                a, b = seg(x)[1], seg(y)[0]
                mid = raw[a:b].decode("utf-8")
                o, w = ("and", "or") if isinstance(n.op, ast.And) else ("or", "and")
                if o in mid:
                    put(n, a, b, mid.replace(o, w, 1), "%s -> %s" % (o, w))
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            a, b = seg(n)
            c, d = seg(n.operand)
            put(n, a, b, "(" + raw[c:d].decode("utf-8") + ")", "drop not")
        if isinstance(n, (ast.If, ast.While, ast.IfExp)):
            a, b = seg(n.test)
            put(n, a, b, "True" if not isinstance(n, ast.While) else "False", "condition -> constant")
            if isinstance(n, (ast.If, ast.IfExp)):
                put(n, a, b, "False", "condition -> False")
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("min", "max"):
            a, b = seg(n.func)
            put(n, a, b, "max" if n.func.id == "min" else "min", "min <-> max")
        if isinstance(n, (ast.Break, ast.Continue)):
            a, b = seg(n)
            put(n, a, b, "pass", "delete " + type(n).__name__)
        for c in ast.iter_child_nodes(n):
            walk(c, infn)

    walk(tree, False)
    seen = set()
    for m in out:
        if m[2] not in seen:
            seen.add(m[2])
            yield m


def work(job, wid, scale, props=None):
    path, line, desc, text = job
    wd = "/tmp/mut/w%d" % wid
    dst = os.path.join(wd, path)
    res = {"file": path, "line": line, "desc": desc, "src": text.split("\n")[line - 1].strip()}
    t0 = time.time()
    try:
        with open(dst, "w", encoding="utf-8") as f:
            f.write(text)
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", TZ="UTC", PYTEST_DISABLE_PLUGIN_AUTOLOAD="1")
        env.pop("PYTHONPATH", None)
        shutil.rmtree(wd + "/dashlivesim/tests/out_test", ignore_errors=True)
        os.makedirs(wd + "/dashlivesim/tests/out_test")
        try:
            r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "dashlivesim/tests", "-q", "-x", "-p", "no:cacheprovider",
                                "-p", "pytest_timeout", "--timeout=20"], cwd=wd, env=env, capture_output=True, text=True, timeout=60)
            if r.returncode != 0:
                res["status"] = "tests"
                return res
        except subprocess.TimeoutExpired:
            res["status"] = "tests"
            return res
        env["VERIF_REPO"] = wd
        env["VERIF_REPLAYS"] = wd + "_replays"
        res["rcs"] = {}
        for p in props or MAP[path].split():
            try:
                r = subprocess.run(["./run_check", p, "--no-evidence", "--jobs", "1", "--scale", str(scale)], cwd=HERE, env=env,
                                   capture_output=True, text=True, timeout=300)
                rc = r.returncode
            except subprocess.TimeoutExpired:
                rc = "timeout"
            res["rcs"][p] = rc
            if rc == 1:
                res["status"] = "killed"
                res["by"] = p
                res["msg"] = [x for x in r.stdout.splitlines() if not x.startswith("VIOLATION")][0][:200]
                return res
        res["status"] = "survived"
        return res
    finally:
        res["t"] = round(time.time() - t0, 1)
        shutil.copyfile(os.path.join(REPO, path), dst)
        shutil.rmtree(wd + "_replays", ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("cmd")
    ap.add_argument("args", nargs="*")
    ap.add_argument("--files", nargs="*")
    ap.add_argument("--sample", type=int)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--scale", type=float, default=0.3)
    ap.add_argument("--workers", type=int, default=8)
    ap.add_argument("--recheck")
    ap.add_argument("--lines")
    a = ap.parse_args()
    if a.cmd == "list":
        n = 0
        for f in a.args or MAP:
            ms = list(mutants(f))
            n += len(ms)
            print(f, len(ms))
            if a.args:
                for line, d, t in ms:
                    print("%5d %-28s %s" % (line, d[:28], t.split("\n")[line - 1].strip()[:110]))
        print(n)
        return
    jobs = []
    keep = None
    if a.recheck:
        keep = {(j["file"], j["line"], j["desc"]) for j in map(json.loads, open(a.recheck)) if j["status"] == "survived"}
    for f in a.files or MAP:
        for line, d, t in mutants(f):
            if keep is not None and (f, line, d) not in keep:
                continue
            jobs.append((f, line, d, t))
    random.Random(a.seed).shuffle(jobs)
    if a.sample:
        jobs = jobs[:a.sample]
    shutil.rmtree("/tmp/mut", ignore_errors=True)
    os.makedirs("/tmp/mut")
    for i in range(a.workers):
        subprocess.run(["git", "clone", "-q", REPO, "/tmp/mut/w%d" % i], check=True)
    import queue
    q = queue.Queue()
    for i in range(a.workers):
        q.put(i)
    out = open(a.args[0], "w")
    cnt = {}

    def one(job):
        w = q.get()
        try:
            r = work(job, w, a.scale)
        finally:
            q.put(w)
        cnt[r["status"]] = cnt.get(r["status"], 0) + 1
        out.write(json.dumps(r) + "\n")
        out.flush()
        return r

    with ThreadPoolExecutor(a.workers) as ex:
        for _ in ex.map(one, jobs):
            pass
    print(len(jobs), cnt)
    shutil.rmtree("/tmp/mut", ignore_errors=True)


if __name__ == "__main__":
    main()
