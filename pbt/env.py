"""Where the code under test and the tools are. Imported before anything else."""
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# PYMT_REPO is for development only (running the checks on a scratch copy).
REPO = os.path.abspath(os.environ.get("PYMT_REPO", "/repo"))
SRC = os.path.join(REPO, "src")

sys.dont_write_bytecode = True
# Never load bytecode that lies next to the sources: always what the source says.
sys.pycache_prefix = os.path.join(VERIF, ".no-such-pycache")
sys.path.insert(0, SRC)
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")


def load():
    import pymt

    got = os.path.abspath(pymt.__file__)
    if not got.startswith(SRC + os.sep):
        raise SystemExit("pymt was loaded from %s, not from %s" % (got, SRC))
    return pymt


def in_code_under_test(tb):
    """True if a traceback passes through the code under test."""
    while tb is not None:
        if os.path.abspath(tb.tb_frame.f_code.co_filename).startswith(SRC + os.sep):
            return True
        tb = tb.tb_next
    return False
