#!/usr/bin/env python3
"""run.py Cxx [--tier quick|thorough] [--seed N] [--only CAMPAIGN] [--replay FILE]

Exit 0: the property held on everything explored; 1: VIOLATION line printed;
2: the check itself failed.
"""
import argparse
import importlib
import json
import os
import signal
import subprocess
import sys
import time
from collections import Counter

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import env  # noqa: E402

if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable, "-B"] + sys.argv)

import engine  # noqa: E402
import lib  # noqa: E402
import refs  # noqa: E402

KNOWN_FILE = os.path.join(env.VERIF, "known_findings.txt")
TRIES, TRY_SECONDS = 2000, 40  # for a case that shows a violation in some runs only


def known_ids(prop):
    """Ids of the findings listed as known for the property."""
    out = []
    if os.path.exists(KNOWN_FILE):
        for line in open(KNOWN_FILE):
            if line.startswith("known: property=%s " % prop):
                for w in line.split():
                    if w.startswith("id="):
                        out.append(w[3:])
    return out


def load_prop(prop):
    env.load()
    return importlib.import_module("props.%s" % prop.lower())


def write_replay(prop, data):
    d = os.path.join(os.environ.get("PBT_REPLAYS", os.path.join(env.VERIF, "replays")), prop)
    os.makedirs(d, exist_ok=True)
    body = json.dumps(data, indent=1)
    import hashlib

    path = os.path.join(d, "%s-%s.json" % (
        data["campaign"], hashlib.sha256(body.encode()).hexdigest()[:10]))
    with open(path, "w") as f:
        f.write(body + "\n")
    return path


def find_campaign(mod, name):
    for c in mod.CAMPAIGNS:
        if c.name == name:
            return c
    raise SystemExit("no campaign %s" % name)


def replay(mod, path, quiet=False):
    """True if the file still shows a violation. None if it did not end."""
    data = json.load(open(path))
    if data["kind"] == "known":
        for kid, text, demo in mod.KNOWN:
            if data["campaign"] == "known-" + kid:
                return text if demo() else None
    camp = find_campaign(mod, data["campaign"])
    signal.signal(signal.SIGALRM, engine._on_alarm)
    if data["kind"] == "case":
        end = time.time() + TRY_SECONDS
        try:
            signal.setitimer(signal.ITIMER_REAL, 2 * engine.CASE_SECONDS)
            for _ in range(data.get("tries", 1)):  # more than one: the failure depends on random bytes or on time
                ctx, msg = engine.run_case(camp, lib.dec(data["case"]))
                if msg or time.time() > end:
                    break
        except engine.CaseTimeout:
            msg = "did not end within %d s" % (2 * engine.CASE_SECONDS)
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
    else:  # the whole shard again: the failure needs what ran before it
        got = []
        sh = engine.Shard(camp, data["shard"], data["tier"], data["seed"], got.append)
        sh.run()
        msg = (got[0]["first_fail"] or {}).get("message")
        if got[0]["error"]:
            print(got[0]["error"])
    if not quiet and msg:
        print("replay: " + msg)
    return msg


def confirm(prop, path):
    """Does the file show a violation in a fresh process?"""
    r = subprocess.run(
        [sys.executable, "-B", os.path.abspath(__file__), prop, "--replay", path, "--confirm"],
        stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r.returncode == 1, r.stdout


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick",
                    choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or "1"))
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("PBT_JOBS") or "8"))
    ap.add_argument("--only")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--replay")
    ap.add_argument("--confirm", action="store_true")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    prop = a.prop
    t0 = time.time()
    refs.self_check()
    mod = load_prop(prop)

    if a.replay:
        msg = replay(mod, a.replay)
        if msg:
            if not a.confirm:
                print("VIOLATION property=%s replay=%s" % (prop, a.replay))
            return 1
        return 0

    violations = []  # (message, path)
    notes = []

    # 1. The saved cases of earlier failures.
    corpus = os.path.join(env.VERIF, "corpus", prop)
    saved = 0
    if os.path.isdir(corpus) and not a.only:
        for f in sorted(os.listdir(corpus)):
            path = os.path.join(corpus, f)
            saved += 1
            msg = replay(mod, path, quiet=True)
            if msg:
                violations.append((msg, path))

    # 2. The search.
    camps = [c for c in mod.CAMPAIGNS if not a.only or c.name == a.only]
    if a.scale != 1.0:
        for c in camps:
            if isinstance(c, engine.Campaign):
                c.quick = max(8, int(c.quick * a.scale))
                c.thorough = max(8, int(c.thorough * a.scale))
    results = [] if violations else engine.run_all(camps, a.tier, a.seed, a.jobs, print)
    results.sort(key=lambda d: ([c.name for c in camps].index(d["campaign"]), d["shard"]))
    errors = [d for d in results if d["error"]]

    for d in results:
        cands = []
        base = {"property": prop, "campaign": d["campaign"], "shard": d["shard"],
                "tier": a.tier, "seed": a.seed, "kind": "case"}
        for fail in (d["last_fail"], d["first_fail"]):
            if fail and fail not in cands:
                cands.append(fail)
        for case in d["timeouts"]:
            cands.append({"case": case, "message": "did not end within the time for a case"})
        done = False
        for fail in cands:
            path = write_replay(prop, dict(base, **fail))
            ok, out = confirm(prop, path)
            if ok:
                violations.append((fail["message"], path))
                done = True
                break
            os.remove(path)
        if cands and not done and d["last_fail"]:
            path = write_replay(prop, dict(base, tries=TRIES, **cands[0]))
            ok, out = confirm(prop, path)
            if not ok:
                os.remove(path)
                path = write_replay(prop, dict(base, kind="shard", message=cands[0]["message"]))
                ok, out = confirm(prop, path)
            if ok:
                violations.append((cands[0]["message"], path))
            else:
                notes.append("not reproduced: %s" % cands[0]["message"])
                errors.append(dict(d, error="violation did not reproduce: %s\n%s" % (
                    cands[0]["message"], json.dumps(cands[0]["case"])[:3000])))
        elif cands and not done:
            notes.append("a case exceeded the time limit once but not when run again")
        if violations:
            break

    # 3. Known findings.
    known = []
    if hasattr(mod, "KNOWN") and not a.only:
        listed = known_ids(prop)
        for kid, text, demo in mod.KNOWN:
            try:
                still = demo()
            except Exception as e:
                still = False
                notes.append("the demonstration of known finding %s failed: %s" % (kid, lib.short(repr(e), 200)))
            if kid in listed:
                if still:
                    known.append(kid)
                    print("KNOWN-FINDING: property=%s %s" % (prop, text))
                else:
                    print("note: known finding %s no longer shows" % kid)
            elif still:
                path = write_replay(prop, {"property": prop, "campaign": "known-" + kid,
                                           "kind": "known", "message": text})
                violations.append((text, path))

    # 4. Evidence.
    nt = set()
    tags, counts, samples = Counter(), Counter(), []
    per = {}
    for d in results:
        raw = bytes.fromhex(d["nt"])
        nt.update((d["campaign"], raw[i : i + 8]) for i in range(0, len(raw), 8))
        for k, v in d["tags"].items():
            tags["%s:%s" % (d["campaign"], k)] += v
        counts.update(d["counts"])
        p = per.setdefault(d["campaign"], {"cases": 0, "shards": 0})
        p["cases"] += d["n"]
        p["shards"] += 1
    for c in camps:
        per.get(c.name, {})["kind"] = (
            "complete enumeration" if isinstance(c, engine.Enumeration) else "random search")
        got = [s for d in results if d["campaign"] == c.name for s in d["samples"]]
        samples += [{"campaign": c.name, "case": s} for s in sorted(got, key=lambda s: len(json.dumps(s)))[:2]]
    ev = {
        "property": prop, "tier": a.tier, "seed": a.seed, "level": getattr(mod, "LEVEL", "exploration"),
        "coverage": {
            "evaluations": sum(d["n"] for d in results) + saved,
            "distinct_nontrivial": len(nt),
            "rule": mod.RULE,
            "samples": samples[:12],
            "campaigns": per,
            "classes": dict(sorted(tags.items())),
            "checks_within_cases": dict(sorted(counts.items())),
            "saved_cases_replayed": saved,
            "known_findings_shown": known,
            "notes": notes,
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(violations),
    }
    if not a.only:
        evd = os.environ.get("PBT_EVIDENCE", os.path.join(env.VERIF, "evidence"))
        os.makedirs(evd, exist_ok=True)
        with open(os.path.join(evd, prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
    print("%s %s seed=%d: %d cases, %d distinct non-trivial, %.1f s" % (
        prop, a.tier, a.seed, ev["coverage"]["evaluations"], len(nt), ev["wall_s"]))
    if a.v:
        print(json.dumps({"campaigns": per, "classes": ev["coverage"]["classes"],
                          "counts": dict(counts)}, indent=1))
    if violations:
        for msg, path in violations[:5]:
            print("  " + lib.short(msg, 600))
            print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if errors:
        for d in errors[:3]:
            print("ERROR in %s shard %s:\n%s" % (d["campaign"], d["shard"], d["error"]))
        return 2
    return 0


if __name__ == "__main__":
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:
        import traceback

        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
