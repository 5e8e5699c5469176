#!/usr/bin/env python3
"""Runs each planted bug (or those named) against the check of its property. Development aid, no check uses it.

recheck_seeded.py [-j N] [ID...]      results go to tools/seeded_results.json (id -> [check, outcome, first message])
"""
import argparse
import json
import os
import re
import shutil
import subprocess
import tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(VERIF, "seeded")
OUT = os.path.join(VERIF, "tools", "seeded_results.json")


def one(name):
    scratch = tempfile.mkdtemp(prefix="seeded-")
    try:
        tree = os.path.join(scratch, "repo")
        subprocess.run(["git", "clone", "-q", "/repo", tree], check=True)
        d = os.path.join(SEEDED, name)
        demo = ["bash", os.path.join(d, "demo.sh")]
        clean = subprocess.run(demo, cwd=tree, capture_output=True, timeout=300).returncode
        r = subprocess.run(["git", "-C", tree, "apply", os.path.join(d, "patch.diff")], capture_output=True)
        if r.returncode:
            return name, ["", "does not apply", ""]
        broken = subprocess.run(demo, cwd=tree, capture_output=True, timeout=300).returncode
        prop = json.load(open(os.path.join(d, "meta.json")))["property"]
        if clean or not broken:
            return name, [prop, "demo clean %d, patched %d" % (clean, broken), ""]
        env = dict(os.environ, PYMT_REPO=tree, PBT_REPLAYS=os.path.join(scratch, "r"), PBT_EVIDENCE=os.path.join(scratch, "e"),
                   VERIF_SEED="1")
        p = subprocess.run([os.path.join(VERIF, "check"), prop], cwd=VERIF, env=env, capture_output=True, text=True)
        caught = p.returncode == 1 and "VIOLATION property=%s " % prop in p.stdout
        lines = [x.strip() for x in p.stderr.splitlines() if x.strip()]
        return name, [prop, "caught" if caught else "missed (exit %d)" % p.returncode,
                      re.sub(r"\s+", " ", lines[0])[:160] if caught and lines else ""]
    finally:
        shutil.rmtree(scratch)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("-j", type=int, default=2)
    ap.add_argument("names", nargs="*")
    a = ap.parse_args()
    try:
        results = json.load(open(OUT))
    except OSError:
        results = {}
    names = a.names or sorted(os.listdir(SEEDED))
    with ThreadPoolExecutor(a.j) as ex:
        for name, r in ex.map(one, names):
            results[name] = r
            print(name, *r, flush=True)
    results = {k: v for k, v in sorted(results.items()) if os.path.isdir(os.path.join(SEEDED, k))}
    json.dump(results, open(OUT, "w"), indent=0)


main()
