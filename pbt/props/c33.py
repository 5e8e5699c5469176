"""C33: file and directory checks tell what is there."""
import os
import shutil
import socket
import tempfile

from hypothesis import strategies as st

import gens
from engine import Campaign, Enumeration
from lib import ensure, must, same
from pymt.utils.utils import Utils

RULE = (
    "Histories of making, removing and exchanging files, directories, named pipes, sockets and symbolic links "
    "(relative, absolute, dangling, circular) in a scratch directory and of changing the working directory; after each step both "
    "checks are asked for names in absolute form and with ./ (also with .., doubled and trailing slashes, "
    "odd and impossible names), next to a model of the tree that resolves names itself. Nothing may be made "
    "or removed by asking. Non-trivial: a name with ./ from a second working directory, or a name whose "
    "kind changed."
)
ASSUMPTIONS = [
    "Regular files, directories, named pipes, sockets and symbolic links to them; names without ./ are only asked for in absolute form, "
    "as documented. Symbolic links count as what they lead to.",
]
WORDS = ["a", "b", "c", "a.txt", "A", "a ", ".a", "..a", "\u00e9", "a:b", "~", "$HOME", "*", "-r", "con", "%20", "a\\b"]


@st.composite
def cases(draw):
    names = draw(st.lists(st.sampled_from(WORDS), min_size=2, max_size=4, unique=True))
    path = st.lists(st.sampled_from(names), min_size=1, max_size=3)
    target = st.one_of(
        path.map(lambda p: ["rel", p]), path.map(lambda p: ["abs", p]),
        path.map(lambda p: ["rel", [".."] + p]), st.just(["rel", ["."]]), st.just(["rel", [".."]]))
    op = st.one_of(
        st.tuples(st.just("file"), path), st.tuples(st.just("file"), path), st.tuples(st.just("dir"), path),
        st.tuples(st.just("dir"), path), st.tuples(st.just("link"), path, target),
        st.tuples(st.just("remove"), path), st.tuples(st.sampled_from(["pipe", "socket"]), path), st.tuples(st.just("cd"), st.lists(st.sampled_from(names), max_size=2)))
    query = st.tuples(
        st.sampled_from(["abs", "cwd", "cwd"]),
        st.lists(st.sampled_from(names + names + ["..", ".", ""]), max_size=4),
        st.sampled_from(["", "", "", "/", "/.", "//"]))
    return {"ops": [["dir", names[:1]], ["file", names[:1] + names[1:2]]] +
                   [list(o) for o in draw(st.lists(op, min_size=2, max_size=10))],
            "queries": [list(q) for q in draw(st.lists(query, min_size=2, max_size=8))]}


class Tree:
    """Directories are dictionaries, files None, links tuples, pipes and sockets 1."""

    def __init__(self, base):
        self.base = base  # parts of the absolute path of the scratch directory
        self.root = {}

    def walk(self, at, parts, depth=0):
        """Where a name leads: the list of parts under the scratch directory of
        a thing that is there, or None. `at`: where it starts."""
        if depth > 30:
            return None
        for i, p in enumerate(parts):
            here = self.thing(at)
            if not isinstance(here, dict):
                return None
            if p in ("", "."):
                continue
            if p == "..":
                if not at:
                    return None  # outside; not asked for
                at = at[:-1]
                continue
            if p not in here:
                return None
            x = here[p]
            if isinstance(x, tuple):
                start = at if x[0] == "rel" else []
                at = self.walk(start, list(x[1]), depth + 1)
                if at is None:
                    return None
            else:
                at = at + [p]
        return at

    def thing(self, at):
        x = self.root
        for p in at:
            x = x[p]
        return x

    def leaves_scratch(self, at, parts, depth=0):
        """Would looking this up leave the scratch directory?"""
        if depth > 30:
            return False
        for p in parts:
            here = self.thing(at)
            if not isinstance(here, dict):
                return False
            if p in ("", "."):
                continue
            if p == "..":
                if not at:
                    return True
                at = at[:-1]
                continue
            if p not in here:
                return False
            x = here[p]
            if isinstance(x, tuple):
                start = at if x[0] == "rel" else []
                if self.leaves_scratch(start, list(x[1]), depth + 1):
                    return True
                at = self.walk(start, list(x[1]), depth + 1)
                if at is None:
                    return False
            else:
                at = at + [p]
        return False


def check(case, ctx):
    base = os.path.realpath(tempfile.mkdtemp(prefix="pbt-c33-"))
    old = os.getcwd()
    try:
        _check(case, ctx, base)
    finally:
        os.chdir(old)
        shutil.rmtree(base, ignore_errors=True)


def _check(case, ctx, base):
    tree = Tree(base)
    cwd = []
    os.chdir(base)
    moved = False
    known = {}
    for step, o in enumerate(case["ops"]):
        op, path = o[0], o[1]
        # Only through real directories, so that the model needs no more rules.
        ok, here = True, tree.root
        for p in path[:-1]:
            here = here.get(p) if isinstance(here, dict) else None
            ok = ok and isinstance(here, dict)
        where = os.path.join(base, *path) if path else base
        if op == "cd":
            here = tree.root
            for p in path:
                here = here.get(p) if isinstance(here, dict) else None
            if isinstance(here, dict):
                os.chdir(where)
                cwd = list(path)
                moved = moved or bool(path)
        elif not ok:
            pass
        elif op == "remove":
            if path[-1] in here and cwd[: len(path)] != path:
                x = here.pop(path[-1])
                if isinstance(x, dict):
                    shutil.rmtree(where)
                else:
                    os.unlink(where)
        elif path[-1] in here:
            pass
        elif op == "file":
            with open(where, "w") as f:
                f.write("x" * (step % 2))
            here[path[-1]] = None
        elif op == "pipe":
            os.mkfifo(where)
            here[path[-1]] = 1
        elif op == "socket":
            with socket.socket(socket.AF_UNIX) as k:
                at = os.getcwd()
                os.chdir(os.path.dirname(where))  # the name has to be short
                try:
                    k.bind(path[-1])
                finally:
                    os.chdir(at)
            here[path[-1]] = 1
        elif op == "dir":
            os.mkdir(where)
            here[path[-1]] = {}
        elif op == "link":
            kind, parts = o[2]
            os.symlink("/".join(parts) if kind == "rel" else "/".join([base] + parts), where)
            here[path[-1]] = (kind, tuple(parts))
        before = sorted((d, tuple(ds), tuple(fs)) for d, ds, fs in os.walk(base))
        for q, (how, parts, tail) in enumerate(case["queries"]):
            full = parts + (tail.split("/") if tail else [])
            if tail and not parts:
                continue
            start = cwd if how == "cwd" else []
            if tree.leaves_scratch(start, full):
                continue
            name = "/".join(parts) + tail
            name = "./" + name if how == "cwd" else base + "/" + name
            at = tree.walk(start, full)
            x = tree.thing(at) if at is not None else 0
            is_dir, is_file = isinstance(x, dict), x is None
            same(must(Utils.file_exists, name, what="file_exists(%r)" % name), is_file,
                 "file_exists(%r) at step %d in /%s" % (name, step, "/".join(cwd)))
            same(must(Utils.dir_exists, name, what="dir_exists(%r)" % name), is_dir,
                 "dir_exists(%r) at step %d in /%s" % (name, step, "/".join(cwd)))
            kind = (is_file, is_dir)
            ctx.nt((how == "cwd" and moved and any(kind)) or (q in known and known[q] != kind))
            known[q] = kind
            ctx.tag("file" if is_file else "directory" if is_dir else "neither" if x == 1 else "nothing", how)
        same(sorted((d, tuple(ds), tuple(fs)) for d, ds, fs in os.walk(base)), before, "the directory after asking")


ODD = ["", "\x00", "a\x00b", "./\x00", "./a\x00", "\ud800", "./\udcff", "/" + "x" * 300, "./" + "x" * 5000, "/dev/null/x",
       "./" * 3000 + "nothing-here", "\n", "./\n", "/nothing-here\n"]


def odd_cases(tier):
    for o in range(len(ODD)):
        yield {"i": o}
    for how in ("self", "above", "root", "missing"):
        yield {"how": how}


def check_odd(case, ctx):
    base = os.path.realpath(tempfile.mkdtemp(prefix="pbt-c33-"))
    old = os.getcwd()
    try:
        os.chdir(base)
        ctx.nt()
        if "i" in case:
            for f in (Utils.file_exists, Utils.dir_exists):
                same(must(f, ODD[case["i"]], what="%s(%r)" % (f.__name__, ODD[case["i"]][:40])), False,
                     "%s(%r)" % (f.__name__, ODD[case["i"]][:40]))
            return
        name = {"self": "./", "above": "./..", "root": "/", "missing": "./nothing-here"}[case["how"]]
        same(must(Utils.dir_exists, name), case["how"] != "missing", "dir_exists(%r)" % name)
        same(must(Utils.file_exists, name), False, "file_exists(%r)" % name)
        for k in range(2):  # a file, then a directory, then nothing under one name
            with open("x", "w"):
                pass
            same((Utils.file_exists("./x"), Utils.dir_exists("./x")), (True, False), "a file")
            os.unlink("x")
            same((Utils.file_exists("./x"), Utils.dir_exists("./x")), (False, False), "nothing")
            os.mkdir("x")
            same((Utils.file_exists("./x"), Utils.dir_exists("./x")), (False, True), "a directory")
            os.rmdir("x")
            same((Utils.file_exists(base + "/x"), Utils.dir_exists(base + "/x")), (False, False), "nothing")
    finally:
        os.chdir(old)
        shutil.rmtree(base, ignore_errors=True)


CAMPAIGNS = [
    Campaign("tree", lambda tier: cases(), check, 5000, 100000),
    Enumeration("odd", odd_cases, check_odd, shards=1),
]
