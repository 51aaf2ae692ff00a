#!/usr/bin/env python3
"""Dev tool: build /verif/seeded/<id> from tools/seeds_src.py, verify each bug, and see which checks catch it.

  mkseed.py build [ids]      write the folders
  mkseed.py verify [ids]     tests pass, demo 0/nonzero, only original lines changed
  mkseed.py catch [ids] [--all] [--seed N]   run the check of the property (or all checks) against the patched tree
"""
import concurrent.futures as cf
import importlib.util
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"


def load():
    spec = importlib.util.spec_from_file_location("seeds_src", os.path.join(HERE, "tools", "seeds_src.py"))
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m.SEEDS


def sh(cmd, cwd=None, env=None, timeout=900):
    return subprocess.run(cmd, shell=True, cwd=cwd, env=env, capture_output=True, text=True, timeout=timeout)


def build(s):
    d = os.path.join(HERE, "seeded", s["id"])
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    tmp = tempfile.mkdtemp(prefix="mkseed_")
    try:
        sh("git -C %s worktree prune" % REPO)
        sh("git clone -q %s %s/r" % (REPO, tmp))
        for f, old, new in s["edits"]:
            p = os.path.join(tmp, "r", f)
            x = open(p, encoding="utf-8").read()
            if x.count(old) != 1:
                raise SystemExit("%s: %d matches in %s of %r" % (s["id"], x.count(old), f, old))
            open(p, "w", encoding="utf-8").write(x.replace(old, new))
        diff = sh("git diff", cwd=tmp + "/r").stdout
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    open(os.path.join(d, "demo.py"), "w").write('"%s"\n%s' % (s["breaks"].replace('"', "'"), s["demo"].lstrip("\n")))
    with open(os.path.join(d, "demo.sh"), "w") as f:
        f.write('#!/bin/bash\n# Exit 0: the property holds; nonzero: it is broken.\n'
                'here="$(cd "$(dirname "$0")" && pwd)"\n'
                'py=/opt/venv/bin/python; [ -x "$py" ] || py=python3\n'
                'PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$here" exec "$py" "$here/demo.py"\n')
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
              open(os.path.join(d, "meta.json"), "w"), indent=1)
    lib = os.path.join(d, "dlib")
    os.makedirs(lib)
    for src in ("tools/seedlib/__init__.py", "tools/seedlib/util.py", "vlib/content.py", "vlib/mp4lib.py"):
        shutil.copy(os.path.join(HERE, src), lib)


def blame_ok(d):
    base = sh("git -C %s rev-list --max-parents=0 HEAD" % REPO).stdout.strip()
    bad = []
    no = 0
    for ln in open(os.path.join(d, "patch.diff")):
        if ln.startswith("--- a/"):
            f = ln[6:].strip()
            bl = sh("git -C %s blame -s -l HEAD -- %s" % (REPO, f)).stdout.split("\n")
        m = re.match(r"@@ -(\d+)", ln)
        if m:
            no = int(m.group(1))
            continue
        if ln.startswith("-") and not ln.startswith("---"):
            if not bl[no - 1].lstrip("^").startswith(base[:30]):
                bad.append((f, no, ln.strip()))
            no += 1
        elif ln.startswith(" "):
            no += 1
    return bad


def patched(sid):
    tmp = tempfile.mkdtemp(prefix="seed_%s_" % sid)
    sh("cp -a %s %s/repo" % (REPO, tmp))
    r = sh("git -C %s/repo apply %s/seeded/%s/patch.diff" % (tmp, HERE, sid))
    if r.returncode:
        shutil.rmtree(tmp)
        raise SystemExit("%s: patch does not apply: %s" % (sid, r.stderr))
    return tmp


def verify(sid):
    d = os.path.join(HERE, "seeded", sid)
    out = []
    bad = blame_ok(d)
    if bad:
        out.append("NOT ORIGINAL %s" % bad)
    tmp = patched(sid)
    try:
        shutil.copytree(d, tmp + "/demo")
        for x in ("patch.diff", "meta.json"):
            os.unlink(os.path.join(tmp, "demo", x))
        r0 = sh("bash %s/demo/demo.sh" % tmp, cwd=REPO, timeout=300)
        if r0.returncode:
            out.append("DEMO FAILS UNPATCHED %s" % (r0.stderr[-600:]))
        r1 = sh("bash %s/demo/demo.sh" % tmp, cwd=tmp + "/repo", timeout=300)
        if not r1.returncode:
            out.append("DEMO PASSES PATCHED")
        else:
            last = r1.stderr.strip().split("\n")[-1][:150]
            if "AssertionError" not in last:
                out.append("(demo: %s)" % last)
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTEST_DISABLE_PLUGIN_AUTOLOAD="1", TZ="UTC", PYTHONHASHSEED="0")
        shutil.rmtree(tmp + "/repo/dashlivesim/tests/out_test", ignore_errors=True)
        os.makedirs(tmp + "/repo/dashlivesim/tests/out_test")
        rt = sh("/opt/venv/bin/python -m pytest dashlivesim/tests -q -p no:cacheprovider 2>&1 | tail -8", cwd=tmp + "/repo", env=env)
        tail = rt.stdout.strip().split("\n")[-1]
        if "failed" in tail or "error" in tail or "passed" not in tail:
            out.append("TESTS: %s" % rt.stdout[-600:])
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return sid, out


def catch(sid, all_=False, seed=1):
    d = os.path.join(HERE, "seeded", sid)
    prop = json.load(open(os.path.join(d, "meta.json")))["property"]
    tmp = patched(sid)
    res = {}
    try:
        props = [json.loads(x)["id"] for x in open(os.path.join(HERE, "properties.jsonl"))] if all_ else [prop]
        for p in props:
            env = dict(os.environ, VERIF_REPO=tmp + "/repo", VERIF_REPLAYS=tmp + "/replays", VERIF_SEED=str(seed),
                       VERIF_TIER="quick", VERIF_EVIDENCE=tmp + "/evidence")
            r = sh("./run_check %s --no-evidence" % p, cwd=HERE, env=env)
            m = re.search(r"VIOLATION.*", r.stdout)
            if r.returncode:
                res[p] = (r.returncode, m.group(0)[:100] if m else r.stdout[-200:])
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return sid, prop, res


def main():
    cmd = sys.argv[1]
    args = [a for a in sys.argv[2:] if not a.startswith("--")]
    seed = 1
    if "--seed" in sys.argv:
        seed = int(args.pop())
    if cmd == "build":
        for s in load():
            if not args or s["id"] in args:
                build(s)
        return
    ids = args or sorted(os.listdir(os.path.join(HERE, "seeded")))
    if cmd == "verify":
        with cf.ThreadPoolExecutor(4) as ex:
            for sid, out in ex.map(verify, ids):
                print(sid, "ok" if not [o for o in out if not o.startswith("(")] else "PROBLEM", *out, flush=True)
    if cmd == "catch":
        with cf.ThreadPoolExecutor(2) as ex:
            for sid, prop, res in ex.map(lambda i: catch(i, "--all" in sys.argv, seed), ids):
                print(sid, prop, "CAUGHT" if prop in res and res[prop][0] == 1 else "MISSED",
                      sorted(res) if "--all" in sys.argv else (res.get(prop) or ""), flush=True)


main()
