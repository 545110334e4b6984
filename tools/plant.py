#!/usr/bin/env python3
"""Validate planted bugs in a scratch copy of /repo.

plant.py new SPECS.py [ids...]   create seeded/<id>/ from specs (dict entries) and validate
plant.py check [ids...]          validate existing ones and run the check of their property
"""
import importlib.util
import json
import os
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
BASE = "0610252"


def sh(cmd, cwd=None, env=None, timeout=1200):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1")
    e.update(env or {})
    return subprocess.run(cmd, shell=True, cwd=cwd, env=e, capture_output=True, text=True,
                          timeout=timeout)


def scratch(name):
    d = "/tmp/plant-" + name
    shutil.rmtree(d, ignore_errors=True)
    sh("git clone -q /repo " + d)
    return d


def tests_ok(d):
    out = d + "/junit.xml"
    env = dict(PYTHONPATH=d + ":/opt/vp/plugins", OMP_NUM_THREADS="4", MKL_NUM_THREADS="4",
               OPENBLAS_NUM_THREADS="4", PYTHONHASHSEED="0")
    sh("%s -m pytest -q -p vp_seed -p no:cacheprovider --timeout=300 --tb=no --junitxml=%s tests"
       % (PY, out), cwd=d, env=env)
    import xml.etree.ElementTree as ET
    bad, n = [], 0
    for t in ET.parse(out).getroot().iter("testcase"):
        n += 1
        if any(c.tag in ("failure", "error") for c in t):
            bad.append(t.get("name"))
    stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    return n, [b for b in bad if any(b in s for s in stable)]


def demo(d, sd):
    return sh("bash %s/demo.sh" % sd, cwd=d, timeout=300)


def validate(bid, run_tests=True, run_check=True):
    sd = os.path.join(VERIF, "seeded", bid)
    meta = json.load(open(sd + "/meta.json"))
    d = scratch(bid)
    res = dict(id=bid, property=meta["property"])
    try:
        r = demo(d, sd)
        res["demo_clean"] = r.returncode
        if r.returncode:
            res["out"] = r.stdout[-600:] + r.stderr[-800:]
        # removed lines belong to the base commit
        p = open(sd + "/patch.diff").read()
        blame_ok = False
        f = None
        for l in p.splitlines():
            if l.startswith("--- a/"):
                f = l[6:]
                bl = sh("git blame -s --abbrev=7 " + f, cwd=d).stdout.splitlines()
            elif l.startswith("-") and not l.startswith("---"):
                for b in bl:
                    if b.split(") ", 1)[-1] == l[1:] and b.startswith("^" + BASE[:6]):
                        blame_ok = True
        res["original_line"] = blame_ok
        a = sh("git apply %s/patch.diff" % sd, cwd=d)
        if a.returncode:
            res["apply"] = a.stderr
            return res
        r = demo(d, sd)
        res["demo_patched"] = r.returncode
        if run_tests:
            res["tests"] = tests_ok(d)
        if run_check:
            import time
            t = time.time()
            r = sh("bash check.sh %s quick" % meta["property"], cwd=VERIF,
                   env=dict(VERIF_REPO=d, VERIF_SEED="1", VERIF_TIER="quick"))
            res["caught"] = r.returncode == 1 and "VIOLATION property=" + meta["property"] in r.stdout
            res["t"] = round(time.time() - t, 1)
            if not res["caught"]:
                res["check_out"] = (r.stdout + r.stderr)[-400:]
            else:
                res["why"] = [l for l in r.stdout.splitlines() if "VIOLATION" not in l][:3]
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return res


def create(s):
    sd = os.path.join(VERIF, "seeded", s["id"])
    d = scratch("new")
    f = os.path.join(d, "torchiva", s["file"])
    edits = s["edits"] if "edits" in s else [(s["file"], s["old"], s["new"])]
    for fn, old, new in edits:
        f = os.path.join(d, "torchiva", fn)
        t = open(f).read()
        assert t.count(old) == 1, (s["id"], fn, t.count(old))
        open(f, "w").write(t.replace(old, new))
    diff = sh("git diff", cwd=d).stdout
    shutil.rmtree(d)
    os.makedirs(sd, exist_ok=True)
    open(sd + "/patch.diff", "w").write(diff)
    open(sd + "/demo.py", "w").write(s["demo"].lstrip("\n"))
    open(sd + "/demo.sh", "w").write(
        "#!/bin/bash\n# run in the root of the repository\nexport PYTHONDONTWRITEBYTECODE=1\n"
        "PYTHONPATH=\"$PWD\" exec /opt/venv/bin/python \"$(dirname \"$0\")/demo.py\"\n")
    json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"]),
              open(sd + "/meta.json", "w"), indent=1)


def main():
    ids = sys.argv[2:]
    if sys.argv[1] == "new":
        sp = importlib.util.spec_from_file_location("specs", ids.pop(0))
        m = importlib.util.module_from_spec(sp)
        sp.loader.exec_module(m)
        todo = []
        for s in m.SPECS:
            if ids and s["id"] not in ids:
                continue
            create(s)
            todo.append(s["id"])
    else:
        todo = ids or sorted(os.listdir(os.path.join(VERIF, "seeded")))
    fast = os.environ.get("NOTESTS")
    for b in todo:
        r = validate(b, run_tests=not fast)
        good = (r.get("demo_clean") == 0 and r.get("demo_patched") and r.get("original_line")
                and (fast or not r["tests"][1]))
        print("%-4s %s %s" % ("ok" if good else "BAD", "caught" if r.get("caught") else "MISSED",
                              json.dumps(r)), flush=True)


if __name__ == "__main__":
    main()
