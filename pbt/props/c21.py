"""C21: trie nodes round-trip through their encoding."""
from hypothesis import strategies as st

import gens
import refs
from engine import Campaign, Enumeration
from lib import attempt, ensure, must, refuses, same
from pymt.utils.nibble_path import NibblePath
from pymt.utils.node import Branch, Extension, Leaf, Node

RULE = (
    "Nodes of generated paths, values and child references (empty, hash, inline nodes nested up to the limit "
    "of 31 bytes): the encoding is the RLP of the prescribed structure, decoding gives the same kind, path, "
    "value and references, and the reference is the encoding below 32 bytes and its Keccak-256 hash from "
    "there on (values are sized to fall on both sides); encoded or decoded without data all but the value is the same. Byte strings - mutated encodings, malformed "
    "structures, other RLP, random - are decoded exactly if an independent reading of the format accepts "
    "them, and then encode to themselves. Nodes whose path, value and references are replaced by near twins, encoded before, "
    "between and after, always encode to what they hold. Non-trivial: a changed node encoded three times, or a node whose encoding has 30..33 bytes or that has an "
    "inline child; a byte string that has to be rejected although it is RLP."
)
ASSUMPTIONS = ["Extensions with an empty path, which no trie contains, are left undecided."]


def path(lo=0, hi=8):
    n = st.one_of(st.integers(0, 15), st.sampled_from([0, 1, 15]))
    return st.one_of(st.lists(n, min_size=lo, max_size=hi),
                     st.integers(max(lo, 20), 66).map(lambda k: [k % 16] * k),
                     st.sampled_from([n for n in gens.SMALL_SIZES if n >= lo]).map(lambda k: [1] * (k - 1) + [k % 16]))


def inline():
    """Structures below 32 bytes."""
    leaf = st.builds(lambda p, v: [refs.hp(p, True), v], st.lists(st.integers(0, 15), max_size=5), st.binary(max_size=20))
    base = leaf

    def grow(kids):
        ext = st.builds(lambda p, k: [refs.hp(p, False), k],
                        st.lists(st.integers(0, 15), min_size=1, max_size=3), kids)
        br = st.builds(lambda i, j, a, b, v: [a if n == i else b if n == j else b"" for n in range(16)] + [v],
                       st.integers(0, 15), st.integers(0, 15), kids, kids, st.binary(max_size=3))
        return st.one_of(ext, br)

    return st.recursive(base, grow, max_leaves=4).map(lambda s: s if len(refs.rlp(s)) < 32 else [b"\x20", b"x"])


def child():
    return st.one_of(st.just(b""), st.just(b""), st.binary(min_size=1, max_size=1).map(lambda b: b * 32),
                     st.binary(min_size=32, max_size=32), inline(), inline())


def value():
    return st.one_of(st.just(b""), gens.values(), st.integers(20, 40).map(lambda n: b"v" * n))


@st.composite
def structures(draw):
    kind = draw(st.sampled_from(["leaf", "leaf", "extension", "branch", "branch"]))
    if kind == "leaf":
        p = draw(path())
        if draw(st.booleans()):  # aim at the 32-byte limit
            size = draw(st.integers(29, 35)) - len(refs.rlp([refs.hp(p, True), b""]))
            v = b"\xee" * max(0, size)
        else:
            v = draw(value())
        return {"kind": kind, "path": p, "value": v}
    if kind == "extension":
        r = draw(child().filter(lambda r: r != b""))
        return {"kind": kind, "path": draw(path(1)), "ref": r}
    refs_ = [b""] * 16
    for _ in range(draw(st.sampled_from([0, 1, 1, 2, 2, 3, 8, 16]))):
        refs_[draw(st.integers(0, 15))] = draw(child())
    v = draw(value())
    if draw(st.booleans()):
        size = draw(st.integers(29, 35)) - len(refs.rlp(refs_ + [b""]))
        v = b"\xee" * max(0, size) if size < 40 else v
    return {"kind": kind, "refs": refs_, "value": v}


def cases():
    return st.fixed_dictionaries({"node": structures(), "array": st.booleans(), "off": st.booleans()})


def make_path(nib, off):
    n = len(nib)
    if n % 2:
        seq = [9 if off else 0] + list(nib)
        o = 1
    elif off:
        seq = [3, 3] + list(nib)
        o = 2
    else:
        seq, o = list(nib), 0
    return NibblePath(bytes(seq[i] * 16 + seq[i + 1] for i in range(0, len(seq), 2)), o)


def use(r):
    return refs.rlp(r) if isinstance(r, list) else r


def nib(p):
    return tuple(p.at(i) for i in range(len(p)))


def check(case, ctx):
    n = case["node"]
    kind = n["kind"]
    conv = bytearray if case["array"] else bytes
    if kind == "leaf":
        s = [refs.hp(n["path"], True), n["value"]]
        node = must(Leaf, make_path(n["path"], case["off"]), conv(n["value"]))
        children = []
    elif kind == "extension":
        s = [refs.hp(n["path"], False), n["ref"]]
        node = must(Extension, make_path(n["path"], case["off"]), conv(use(n["ref"])))
        children = [n["ref"]]
    else:
        s = n["refs"] + [n["value"]]
        node = must(Branch, [conv(use(r)) for r in n["refs"]],
                    None if case["off"] and not n["value"] else conv(n["value"]))
        children = n["refs"]
    want = refs.rlp(s)
    ensure(refs.well_formed_node(want) is True, "the generator made no node")
    e = must(node.encode, what="encoding a " + kind)
    same(bytes(e), want, "encoding of a " + kind)
    ctx.tag(kind, "size %d" % len(want) if 28 < len(want) < 36 else "size other")
    ctx.nt(30 <= len(want) <= 33 or any(isinstance(r, list) for r in children))
    if kind != "extension":
        same(bytes(must(node.encode, False)), refs.rlp(s[:-1]), "encoding of a %s without data" % kind)
    r = must(Node.into_reference, node)
    same(bytes(r), want if len(want) < 32 else refs.keccak(want), "reference of a %s of %d bytes" % (kind, len(want)))
    same(bytes(must(node.encode)), want, "encoding of a %s again" % kind)
    for form in (bytes(e), bytearray(e)):
        d = must(Node.decode, form, what="decoding a " + kind)
        ensure(type(d) is {"leaf": Leaf, "extension": Extension, "branch": Branch}[kind],
               "a %s was decoded as %s", kind, type(d).__name__)
        if kind != "branch":
            same(nib(d.path), tuple(n["path"]), "path of a decoded " + kind)
        if kind == "extension":
            same(bytes(d.next_ref), use(n["ref"]), "reference in a decoded extension")
        if kind == "branch":
            same([bytes(b) for b in d.branches], [use(x) for x in n["refs"]], "references in a decoded branch")
        if kind != "extension":
            same(bytes(d.data or b""), n["value"], "value in a decoded " + kind)
        same(bytes(must(d.encode)), want, "encoding of the decoded " + kind)
        same(bytes(must(Node.into_reference, d)), bytes(r), "reference of the decoded " + kind)
        # Without its data.
        d = must(Node.decode, form, False, what="decoding a %s without data" % kind)
        ensure(type(d).__name__.lower() == kind, "a %s was decoded without data as %s", kind, type(d).__name__)
        if kind != "branch":
            same(nib(d.path), tuple(n["path"]), "path of a %s decoded without data" % kind)
        if kind == "extension":
            same(bytes(d.next_ref), use(n["ref"]), "reference in an extension decoded without data")
        elif n["value"] not in (b"", b"1"):
            ensure(d.data != n["value"], "the value in a %s decoded without data", kind)
        if kind == "branch":
            same([bytes(b) for b in d.branches], [use(x) for x in n["refs"]],
                 "references in a branch decoded without data")
        # Inline children are nodes themselves.
        for x in children:
            if isinstance(x, list):
                inner = must(Node.decode, use(x), what="decoding an inline child")
                same(bytes(must(inner.encode)), refs.rlp(x), "encoding of an inline child")
                ctx.count("inline children")


# ------------------------------------------------------ nodes that are changed
def twin_value(v, how):
    """A value much like another one."""
    if how == 0 and v:
        return v[:-1] + bytes([v[-1] ^ 1])
    if how == 1 and v:
        return bytes([v[0] ^ 0x80]) + v[1:]
    if how == 2:
        return v + b"\x00"
    return v[:-1] if how == 3 else b"" if how == 4 else v[::-1]


def twin_path(p, how):
    if how == 0 and p:
        return p[:-1] + [p[-1] ^ 1]
    if how == 1 and p:
        return [p[0] ^ 8] + p[1:]
    if how == 2:
        return p + [0]
    return p[:-1] if how == 3 and len(p) > 1 else p[::-1]


def twin_ref(r, how):
    if isinstance(r, list):
        return b"\x11" * 32 if how == 2 else b"" if how == 3 else r
    if not r:
        return [b"\x20", b"x"] if how == 3 else b"\x12" * 32
    return b"" if how == 3 else r[:-1] + bytes([r[-1] ^ 1])


def changed_cases():
    return st.fixed_dictionaries({
        "node": structures(), "decoded": st.booleans(),
        "steps": st.lists(st.tuples(st.sampled_from(["value", "path", "ref", "encode", "reference", "bare", "kept"]),
                                    st.integers(0, 5), st.integers(0, 15)).map(list), min_size=2, max_size=8)})


def check_changed(case, ctx):
    """A node encodes to what it holds now, however often it was encoded and
    changed before."""
    n = dict(case["node"])
    kind = n["kind"]

    def struct():
        if kind == "leaf":
            return [refs.hp(n["path"], True), n["value"]]
        if kind == "extension":
            return [refs.hp(n["path"], False), n["ref"]]
        return list(n["refs"]) + [n["value"]]

    if case["decoded"]:
        node = must(Node.decode, refs.rlp(struct()), what="decoding a " + kind)
    elif kind == "leaf":
        node = Leaf(make_path(n["path"], False), n["value"])
    elif kind == "extension":
        node = Extension(make_path(n["path"], False), use(n["ref"]))
    else:
        node = Branch([use(r) for r in n["refs"]], n["value"])
    changes = seen = 0
    for what, how, i in case["steps"] + [["encode", 0, 0], ["reference", 0, 0]]:
        if what == "value" and kind != "extension":
            n["value"] = twin_value(n["value"], how)
            node.data = n["value"]
        elif what == "path" and kind != "branch":
            n["path"] = twin_path(list(n["path"]), how)
            node.path = make_path(n["path"], i % 2)
        elif what == "ref" and kind == "extension":
            r = twin_ref(n["ref"], how)
            n["ref"] = r if r != b"" else b"\x13" * 32
            node.next_ref = use(n["ref"])
        elif what == "ref" and kind == "branch":
            n["refs"] = list(n["refs"])
            n["refs"][i] = twin_ref(n["refs"][i], how)
            if how % 2:
                node.branches = [use(r) for r in n["refs"]]
            else:
                node.branches[i] = use(n["refs"][i])
        elif what in ("value", "path", "ref"):
            continue
        want = refs.rlp(struct())
        if what == "encode":
            same(bytes(must(node.encode)), want, "encoding of a %s changed %d times" % (kind, changes))
            seen += 1
        elif what == "reference":
            same(bytes(must(Node.into_reference, node)), want if len(want) < 32 else refs.keccak(want),
                 "reference of a %s changed %d times" % (kind, changes))
            seen += 1
        elif what == "bare" and kind != "extension":
            same(bytes(must(node.encode, False)), refs.rlp(struct()[:-1]), "encoding of a changed %s without data" % kind)
        elif what == "kept":
            d = must(Node.decode, want, what="decoding a " + kind)
            same(bytes(must(d.encode)), want, "encoding of a decoded " + kind)
        elif what in ("value", "path", "ref"):
            changes += 1
    ctx.tag(kind, "changed %d times" % changes)
    ctx.nt(changes >= 1 and seen >= 3)


# --------------------------------------------------------------- byte strings
def any_rlp():
    return st.recursive(
        st.one_of(st.binary(max_size=3), st.sampled_from([b"", b"\x20", b"\x00", b"\x12", b"\x3f", b"\x00\x11", b"\x40\x00"]),
                  st.integers(30, 34).map(lambda n: b"h" * n)),
        lambda k: st.one_of(st.lists(k, max_size=3), st.lists(k, min_size=2, max_size=2),
                            st.lists(k, min_size=17, max_size=17)), max_leaves=20)


@st.composite
def broken(draw):
    """Structure of a node with one or two faults."""
    n = draw(structures())
    if n["kind"] == "leaf":
        s = [refs.hp(n["path"], True), n["value"]]
    elif n["kind"] == "extension":
        s = [refs.hp(n["path"], False), n["ref"]]
    else:
        s = list(n["refs"]) + [n["value"]]
    for _ in range(draw(st.sampled_from([0, 1, 1, 1, 2]))):
        f = draw(st.sampled_from(["drop", "add", "value-list", "path-list", "path-empty", "flag", "pad", "short-ref",
                                  "long-ref", "big-inline", "bad-inline", "bytes", "random", "extra-item"]))
        i = draw(st.integers(0, 40)) % max(1, len(s))
        if not isinstance(s, list) or not s:
            break
        if f == "drop":
            del s[i]
        elif f == "add":
            s.insert(i, draw(st.binary(max_size=2)))
        elif f == "extra-item":
            s.append(b"")
        elif f == "value-list":
            s[-1] = draw(st.sampled_from([[], [b""], [b"\x20", b"x"], [b"a", b"b", b"c"]]))
        elif f == "path-list":
            s[0] = [s[0]]
        elif f == "path-empty":
            s[0] = b""
        elif f == "flag" and isinstance(s[0], bytes) and s[0]:
            s[0] = bytes([s[0][0] ^ draw(st.sampled_from([0x10, 0x20, 0x30, 0x40, 0x80, 0xC0]))]) + s[0][1:]
        elif f == "pad" and isinstance(s[0], bytes) and s[0]:
            s[0] = bytes([s[0][0] ^ draw(st.integers(1, 15))]) + s[0][1:]
        elif f == "short-ref":
            s[i] = draw(st.sampled_from([b"x", b"x" * 31, b"\x00", b"\xc0"]))
        elif f == "long-ref":
            s[i] = b"x" * draw(st.sampled_from([33, 64, 32]))
        elif f == "big-inline":
            s[i] = [b"\x20", b"v" * draw(st.integers(26, 33))]
        elif f == "bad-inline":
            s[i] = draw(st.sampled_from([[], [b""], [b"\x20"], [b"", b""], [b"\x20", []], [b"\x00\x12", b"x"],
                                         [b"\x50", b"x"], [b""] * 16, [b""] * 17, [b"\x2f", b"x"],
                                         [b"\x11", [b"\x20", b"x"]], [b"\x11", [b"\x20"]]]))
        elif f == "bytes":
            s = b"".join(x for x in s if isinstance(x, bytes))
        else:
            s[i] = draw(any_rlp())
    return refs.rlp(s)


@st.composite
def byte_cases(draw):
    how = draw(st.sampled_from(["broken", "broken", "broken", "broken", "rlp", "mutated", "mutated", "random"]))
    if how == "broken":
        b = draw(broken())
    elif how == "rlp":
        b = refs.rlp(draw(any_rlp()))
    elif how == "random":
        b = draw(st.binary(max_size=40))
    else:
        b = bytearray(draw(broken()))
        for _ in range(draw(st.integers(1, 3))):
            m = draw(st.sampled_from(["flip", "set", "cut", "add", "del", "ins"]))
            i = draw(st.integers(0, max(0, len(b) - 1)))
            if m == "add" or not b:
                b += draw(st.binary(min_size=1, max_size=3))
            elif m == "flip":
                b[i] ^= 1 << draw(st.integers(0, 7))
            elif m == "set":
                b[i] = draw(st.sampled_from([0, 1, 0x20, 0x7f, 0x80, 0x81, 0xa0, 0xb8, 0xc0, 0xc1, 0xd1, 0xf8, 0xff]))
            elif m == "cut":
                b = b[:i]
            elif m == "del":
                del b[i]
            else:
                b.insert(i, draw(st.integers(0, 255)))
        b = bytes(b)
    return {"b": b, "data": draw(st.sampled_from([True, True, True, False]))}


def check_bytes(case, ctx):
    b = case["b"]
    want = refs.well_formed_node(b)
    ok, d = attempt(Node.decode, b, case["data"])
    if want is None:
        ctx.tag("undecided")
        return
    if want:
        ctx.tag("well formed")
        ensure(ok, "a well-formed node is rejected: %r", d)
        s = refs.unrlp(b)
        kind = "branch" if len(s) == 17 else "leaf" if refs.unhp(s[0])[1] else "extension"
        same(type(d).__name__, kind.capitalize(), "kind")
        if case["data"]:
            same(bytes(must(d.encode)), b, "encoding of the decoded node")
        return
    ensure(not ok, "bytes that are no node were decoded as %s", type(d).__name__)
    try:
        refs.unrlp(b)
        ctx.tag("RLP, no node")
        ctx.nt()
    except refs.BadRlp:
        ctx.tag("no RLP")


def small_cases(tier):
    for first in range(256):
        yield {"first": first}


def check_small(case, ctx):
    """All strings of one or two bytes, all lists of two short strings from a
    set."""
    f = case["first"]
    todo = [bytes([f])] + [bytes([f, x]) for x in range(256)]
    todo += [refs.rlp([bytes([f]) + p, v]) for p in (b"", b"\x11", b"\xff\x00")
             for v in (b"", b"x", b"x" * 32, b"x" * 33, [], [b"\x20", b"x"], [b"\x20", b"x" * 29], [b"x"])]
    for b in todo:
        check_bytes({"b": b, "data": True}, ctx)
        ctx.count("byte strings")
    ctx.nt()


CAMPAIGNS = [
    Campaign("nodes", lambda tier: cases(), check, 2600, 130000),
    Campaign("changed", lambda tier: changed_cases(), check_changed, 2000, 60000),
    Campaign("bytes", lambda tier: byte_cases(), check_bytes, 4000, 200000),
    Enumeration("short strings", small_cases, check_small),
]
