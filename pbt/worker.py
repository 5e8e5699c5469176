"""Runs programs, one per line of input, each in a fresh child of this process;
or writes and reads what processes hand to each other."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import env  # noqa: E402

env.load()
import handover  # noqa: E402
import keys  # noqa: E402
import lib  # noqa: E402
import program  # noqa: E402


def answer(job):
    if "make" in job or "read" in job:
        try:
            if "make" in job:
                return ["made", handover.make(job["make"], job["folder"])]
            return ["read", handover.read(job["read"], job["made"], job["folder"])]
        except Exception as e:
            return ["raised", "%s: %s" % (type(e).__name__, e)]
    pair = keys.pair("all", 0) if any(o[0].startswith("pair") for o in job["ops"]) else None
    return program.run(job, pair)


def main():
    for line in sys.stdin:
        prog = lib.dec(json.loads(line))
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                os.close(r)
                with os.fdopen(w, "w") as f:
                    json.dump(answer(prog), f)
                code = 0
            finally:
                os._exit(code)
        os.close(w)
        with os.fdopen(r) as f:
            out = f.read()
        _, status = os.waitpid(pid, 0)
        print(out if status == 0 else json.dumps("ended with status %d" % status), flush=True)


if __name__ == "__main__":
    try:
        main()
    except (BrokenPipeError, KeyboardInterrupt):  # the check has ended
        os._exit(0)
