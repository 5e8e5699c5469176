"""C48: altered or foreign encodings are never misread."""
import json

from hypothesis import strategies as st

import formats
import gens
import keys
import objs
import refs
from engine import Campaign
from lib import attempt, ensure, must, same, spread
from props import merkle
from pymt.empt import EMPT, RootEMPT, SparseEMPT
from pymt.mpt import MPT
from pymt.proof import Proof

RULE = (
    "Encodings of generated tries, proofs and keys, altered up to three times in structure (nodes dropped, repeated, "
    "reordered, exchanged with those of another trie, replaced by lists or garbage; other roots and modes; fields "
    "dropped, added, retyped, exchanged) or in single bytes, and arbitrary bytes and RLP. What is read from them is "
    "compared with what an independent reader finds there, and every answer of a trie read from them with the model "
    "of the trie whose root they carry. Non-trivial: an altered encoding was accepted, or a lookup in it answered."
)
ASSUMPTIONS = ["No two byte strings with the same Keccak-256 hash are generated."]


def junk():
    return st.one_of(st.binary(max_size=40), st.just(b""), st.just(b"\x80" * 17), st.just(b"\xc0"), st.just(b"\xc2\x80\x80"),
                     st.binary(min_size=32, max_size=32))


HOW = ["drop", "drop", "repeat", "reverse", "flip", "flip", "other", "other", "others", "junk", "list", "root", "root",
       "other-root", "other-root", "mode", "long-root", "list-root", "extra", "less", "raw-flip", "raw-cut", "raw-add", "empty"]


def steps():
    return st.lists(st.tuples(st.sampled_from(HOW), st.integers(0, 9999), junk()).map(list), min_size=1, max_size=3)


def alter(e, other, by):
    """Some bytes from the encodings of two tries."""
    how, i, j = by
    if how == "raw-flip":
        n = spread(i, 8 * len(e))
        return e[: n // 8] + bytes([e[n // 8] ^ (1 << (n % 8))]) + e[n // 8 + 1:] if e else b"\x01"
    if how == "raw-cut":
        return e[: spread(i, len(e))] if e else e
    if how == "raw-add":
        return e + (j or b"\x00")
    try:
        x, o = refs.unrlp(e), refs.unrlp(other)
        if not isinstance(x, list) or not isinstance(x[1], list):  # no list of nodes any more
            return e
        root, nodes, mode = x
        nodes = list(nodes)
        oroot, onodes, omode = o
    except (ValueError, TypeError, IndexError, refs.BadRlp):
        return e
    n = i % len(nodes) if nodes else 0
    if how == "drop" and nodes:
        del nodes[n]
    elif how == "repeat" and nodes:
        nodes.append(nodes[n])
    elif how == "reverse":
        nodes.reverse()
    elif how == "flip" and nodes and isinstance(nodes[n], bytes) and nodes[n]:
        b = bytearray(nodes[n])
        b[spread(i, len(b))] ^= 1 + i % 255
        nodes[n] = bytes(b)
    elif how == "other" and onodes:
        nodes.insert(n, onodes[i % len(onodes)])
    elif how == "others":
        nodes = nodes + list(onodes) if i % 2 else list(onodes)
    elif how == "junk":
        nodes.insert(n, j)
    elif how == "list" and nodes:
        nodes[n] = [nodes[n]] if i % 2 or not isinstance(nodes[n], bytes) else tolist(nodes[n])
    elif how == "root":
        root = j
    elif how == "other-root":
        root, mode = oroot, omode
    elif how == "long-root":
        root = root + b"\x00" if isinstance(root, bytes) else b""
    elif how == "list-root":
        root = [root]
    elif how == "mode":
        mode = [b"\x01" if mode == b"" else b"", b"\x02", b"\x00", b"\x01\x00", [b""], [], b"\x80"][i % 7]
    elif how == "extra":
        return refs.rlp([root, nodes, mode, j])
    elif how == "less":
        return refs.rlp([[root, nodes], [nodes, mode], [root, mode], [root], [], root][i % 6])
    elif how == "empty":
        nodes = []
    return refs.rlp([root, nodes, mode])


def tolist(b):
    try:
        return refs.unrlp(b)
    except (ValueError, refs.BadRlp):
        return [b]


def fill(c, kind):
    secure = c["secure"]
    t = {"mpt": lambda: MPT({}, secure=secure), "sparse": lambda: SparseEMPT(secure=secure)}[kind]()
    model = {}
    for k, v in zip(c["keys"], c["vals"]):
        must(t.update, k, v)
        model[k] = v
    for i in c["gone"]:
        if c["keys"][i] in model:
            must(t.delete, c["keys"][i])
            del model[c["keys"][i]]
    inside = gens.inner(model if kind == "mpt" else {k: refs.data_reference(k, v) for k, v in model.items()}, secure)
    return t, model, inside


def root_ref(inside):
    if not inside:
        return refs.EMPTY_ROOT
    e = refs.trie_root_node(inside)
    return e if len(e) < 32 else refs.keccak(e)


def tries(case, ctx):
    kind = case["kind"]
    a, b = fill(case["a"], kind), fill(case["b"], kind)
    known = {(root_ref(x[2]), c["secure"]): x for x, c in ((b, case["b"]), (a, case["a"]))}
    ea, eb = [must(x[0].encode if kind == "mpt" else x[0].encode_rlp) for x in (a, b)]
    e = ea
    for by in case["by"]:
        e = alter(e, eb, by)
        ctx.tag(by[0])
    if case["raw"] is not None:
        e = case["raw"]
    pool = case["a"]["keys"] + case["b"]["keys"]
    read(kind, e, known, pool, e != ea, ctx)


def read(kind, e, known, pool, changed, ctx):
    try:
        x = formats.read_trie(e)
    except (ValueError, refs.BadRlp):
        x = None
    decode = {"mpt": MPT.decode, "sparse": SparseEMPT.decode_rlp}[kind]
    ok, t = attempt(decode, e)
    okv, view = attempt(RootEMPT.decode_rlp, e)
    if not ok and not okv:
        ctx.tag("refused")
        if x is not None and x[0] and all(isinstance(n, bytes) for n in x[1]):
            ensure((x[0], x[2]) not in known, "a well-formed encoding of a known root was refused: %r", t)
        return
    ensure(x is not None, "bytes that are no list of root, nodes and mode were read as a trie: %r", e[:80])
    ensure(all(isinstance(n, bytes) for n in x[1]), "a list was read as a node")
    ctx.nt(changed)
    root, nodes, secure = x
    for u in [t] * ok + [view] * okv:
        if hasattr(u, "secure"):
            same(u.secure, secure, "mode of the trie read")
    if (root, secure) not in known:
        ctx.tag("other root")
        for u in [t] * ok + [view] * okv:
            okr, r = attempt(u.root_hash)
            if okr and len(root) == 32:
                same(r, root, "root of the trie read")
        for k in pool[:6]:
            attempt(t.contains, k) if ok else None
            okg, v = attempt(t.get if kind == "mpt" else t.get_reference, k) if ok else (False, None)
            if okg and len(root) == 32 and root not in [refs.keccak(n) for n in nodes]:
                ensure(False, "%r was read although the root node is not there", k)
        return
    source, model, inside = known[(root, secure)]
    what = "the trie read from altered bytes"
    answers = 0
    for u in [t] * ok + [view] * okv:
        same(must(u.root_hash), refs.trie_root(inside), "root of " + what)
    for k in gens.probes({k: b"" for k in model}, pool, 16):
        stored = k in model
        if model:
            name = "inclusion" if stored else "exclusion"
            p = must(getattr(source, "get_proof_of_" + name), k)
            for u in [t] * ok + [view] * okv:
                same(must(getattr(u, "verify_proof_of_" + name), p), True, "verdict of %s on a genuine proof" % what)
        if not ok:
            continue
        okc, c = attempt(t.contains, k)
        if okc:
            same(c, stored, "membership of %r in %s" % (k, what))
            answers += 1
        okg, v = attempt(t.get if kind == "mpt" else t.get_reference, k)
        if okg:
            ensure(stored, "%r was read from %s: %r", k, what, v)
            if kind == "mpt":
                same(v, model[k], "value of %r in %s" % (k, what))
            else:
                same(v.encode(), refs.data_reference(k, model[k]), "reference of %r in %s" % (k, what))
            answers += 1
        for name, right in (("inclusion", stored), ("exclusion", not stored)):
            okp, p = attempt(getattr(t, "get_proof_of_" + name), k)
            if okp and model:
                ensure(right, "%s gives an %s proof of %r", what, name, k)
                same(must(getattr(source, "verify_proof_of_" + name), p), True, "verdict on a proof of " + what)
                answers += 1
    ctx.count("answers", answers)
    ctx.tag("known root")
    # Carried on, it stays the trie of its root or raises.
    if ok:
        k = b"one key more"
        okw, _ = attempt(t.update, k, b"value")
        ref = b"value" if kind == "mpt" else refs.data_reference(k, b"value")
        more = dict(inside)
        more[refs.keccak(k) if secure else k] = ref
        same(t.root_hash(), refs.trie_root(more if okw else inside), "root of %s after a write" % what)


@st.composite
def trie_cases(draw):
    return {"kind": draw(st.sampled_from(["mpt", "sparse"])), "a": draw(gens.contents(1, 8)), "b": draw(gens.contents(1, 5)),
            "by": draw(steps()), "raw": draw(st.sampled_from([None] * 12 + [1])) and draw(foreign())}


def nested():
    return st.recursive(junk(), lambda s: st.lists(s, max_size=4), max_leaves=12)


def foreign():
    return st.one_of(st.binary(max_size=80), nested().map(refs.rlp),
                     st.tuples(junk(), st.lists(nested(), max_size=3), nested()).map(lambda x: refs.rlp(list(x))),
                     st.integers(1, 3000).map(deep))


def deep(n):
    """Lists within lists, n deep."""
    b = b"\xc0"
    for _ in range(n):
        b = refs.rlp_list_raw([b])
    return b


# ----------------------------------------------------------------------- proofs
TYPES = [b"MT-POI", b"MPT-POI", b"MPT-POE"]


def plain(x):
    return [plain(i) for i in x] if isinstance(x, (list, tuple)) else x


def proof_bytes(case, ctx):
    c = case["t"]
    t = merkle.build(c)
    v = c["leaves"][case["i"] % len(c["leaves"])]
    p = must(t.get_proof_of_inclusion, v)
    x = refs.unrlp(must(p.encode_rlp))
    for how, i, j in case["by"]:
        ctx.tag(how)
        n = i % len(x) if x else 0
        if how == "drop" and x:
            del x[n]
        elif how == "extra":
            x.insert(i % (len(x) + 1), j)
        elif how == "exchange" and len(x) > 1:
            m = (n + 1 + j_(j)) % len(x)
            x[n], x[m] = x[m], x[n]
        elif how == "set" and x:
            x[n] = j
        elif how == "type" and x:
            x[0] = (TYPES + [b"", b"MT", b"MT-POE", b"mt-poi", b"MT-POI\x00", [b"MT-POI"]])[i % 9]
        elif x and isinstance(x[-1], list):
            items = x[-1]
            m = i % len(items) if items else 0
            if how == "item" and items:
                items[m] = j
            elif how == "item-drop" and items:
                del items[m]
            elif how == "item-add":
                items.insert(m, j)
            elif how == "item-swap" and items and isinstance(items[m], list):
                items[m] = items[m][::-1]
    e = refs.rlp(x)
    how, i = case["raw"]
    if how == "flip":
        n = spread(i, 8 * len(e))
        e = e[: n // 8] + bytes([e[n // 8] ^ (1 << (n % 8))]) + e[n // 8 + 1:]
    elif how == "cut":
        e = e[: spread(i, len(e))]
    elif how == "add":
        e += bytes([i % 256])
    elif how == "foreign":
        e = case["foreign"]
    ok, q = attempt(Proof.decode_rlp, e)
    if not ok:
        ctx.tag("refused")
        return
    try:
        y = refs.unrlp(e)
    except (ValueError, refs.BadRlp):
        y = None
    ensure(isinstance(y, list) and len(y) == 5 and isinstance(y[4], list) and all(isinstance(f, bytes) for f in y[:4]),
           "bytes that are no proof were read as one: %r", e[:80])
    same([q.type, q.timestamp, q.target_key, q.trie_root, plain(q.proof)], y, "fields of the proof read")
    verdict(t, q, c, bool(case["by"] or case["raw"][0]), ctx)


def j_(j):
    return len(j) if isinstance(j, (bytes, list)) else 0


def verdict(t, q, c, altered, ctx):
    ctx.nt(altered)
    ctx.tag("read")
    if q.type != b"MT-POI":
        return
    ok, got = attempt(t.verify_proof_of_inclusion, q)
    if not ok:
        return
    sib = merkle.decode_siblings(q.proof)
    want = False
    if sib is not None and q.trie_root == merkle.ref_root(c):
        try:
            leaf = refs.merkle_leaf(c["hash"], c["secure"], q.target_key)
            want = refs.merkle_fold(c["hash"], leaf, sib).hex().encode() == q.trie_root
        except TypeError:
            want = False
    if got is not False:
        ensure(want, "a proof read from altered bytes verifies without folding to the root")
        ensure(q.target_key in c["leaves"] or not c["secure"], "a proof read verifies for a value that is no leaf")


def items():
    return st.recursive(st.binary(max_size=12), lambda s: st.lists(s, max_size=3), max_leaves=6)


def proof_cases():
    how = ["drop", "extra", "exchange", "set", "type", "item", "item-drop", "item-add", "item-swap"]
    return st.fixed_dictionaries({
        "t": merkle.trees(1, 6), "i": st.integers(0, 20), "foreign": foreign(),
        "by": st.lists(st.tuples(st.sampled_from(how), st.integers(0, 40), items()).map(list), max_size=2),
        "raw": st.tuples(st.sampled_from(["", "", "", "flip", "flip", "cut", "add", "foreign"]), st.integers(0, 9999)).map(list)})


def proof_texts(case, ctx):
    c = case["t"]
    t = merkle.build(c)
    v = c["leaves"][case["i"] % len(c["leaves"])]
    p = must(t.get_proof_of_inclusion, v)
    d = json.loads(must(p.encode_json))
    for how, i, j in case["by"]:
        ctx.tag(how)
        names = sorted(d)
        if not names:
            break
        n, m = names[i % len(names)], names[(i // 5) % len(names)]
        if how == "drop":
            del d[n]
        elif how == "extra":
            d["more"] = j
        elif how == "exchange":
            d[n], d[m] = d[m], d[n]
        elif how == "set":
            d[n] = j
        elif how == "type":
            d["proof_type"] = (["MT-POI", "MPT-POI", "MPT-POE", "", "MT", "MT-POE", "XMTX", "mt-poi"])[i % 8]
        elif how == "rename":
            d[n.upper()] = d.pop(n)
        elif isinstance(d.get("proof"), list):
            x = d["proof"]
            m = i % len(x) if x else 0
            if how == "item" and x:
                x[m] = j
            elif how == "item-drop" and x:
                del x[m]
            elif how == "item-add":
                x.insert(m, j)
            elif how == "item-swap" and x and isinstance(x[m], list):
                x[m] = x[m][::-1]
    text = json.dumps(d)
    how, i = case["raw"]
    if how == "flip":
        n = spread(i, len(text))
        text = text[:n] + chr(ord(text[n]) ^ 1) + text[n + 1:]
    elif how == "cut":
        text = text[: spread(i, len(text))]
    elif how == "add":
        text += chr(i % 256)
    elif how == "list":
        text = "[%s]" % text
    ok, q = attempt(Proof.decode_json, text)
    if not ok:
        ctx.tag("refused")
        return
    try:
        d = json.loads(text)
    except (ValueError, refs.BadRlp):
        ensure(False, "text that is no JSON was read as a proof: %r", text[:80])
    ensure(isinstance(d, dict), "a proof was read from %r", text[:80])
    for n in ("proof_type", "timestamp", "target_key", "root_hash"):
        ensure(isinstance(d.get(n), str), "a proof was read although its %s is %r", n, d.get(n))
    same([x.decode(errors="surrogateescape") for x in (q.type, q.timestamp, q.target_key, q.trie_root)],
         [d[n] for n in ("proof_type", "timestamp", "target_key", "root_hash")], "fields of the proof read")
    ensure("MPT" not in d["proof_type"], "a trie proof was read from JSON")
    if isinstance(d["proof"], list):
        want = [[x.encode() for x in i] if isinstance(i, list) else i.encode() for i in d["proof"]]
        same(plain(q.proof), want, "items of the proof read")
    verdict(t, q, c, bool(case["by"] or case["raw"][0]), ctx)


def text_cases():
    how = ["drop", "extra", "exchange", "set", "set", "type", "rename", "item", "item-drop", "item-add", "item-swap"]
    value = st.recursive(st.one_of(st.none(), st.booleans(), st.integers(-5, 5), st.text(max_size=6)),
                         lambda s: st.lists(s, max_size=3), max_leaves=5)
    return st.fixed_dictionaries({
        "t": merkle.trees(1, 6), "i": st.integers(0, 20),
        "by": st.lists(st.tuples(st.sampled_from(how), st.integers(0, 40), value).map(list), max_size=2),
        "raw": st.tuples(st.sampled_from(["", "", "", "", "flip", "flip", "cut", "add", "list"]), st.integers(0, 9999)).map(list)})


# ------------------------------------------------------------------------- keys
def key_texts(case, ctx):
    kind, i = case["key"]
    k = keys.number(i)
    p = keys.pair(kind, i, "name")
    text = must(p.to_key_string, "pass")
    other = must(keys.pair("all", i + 1, "other").to_key_string, case["other"])
    d, o = json.loads(text), json.loads(other)
    foreign_key = False
    for how, n, j in case["by"]:
        ctx.tag(how)
        names = sorted(d)
        if not names:
            break
        f = names[n % len(names)]
        if how == "drop":
            del d[f]
        elif how == "set":
            d[f] = j
        elif how == "other":
            d[f] = o[f]
            foreign_key = foreign_key or f == "private_key"
        elif how in ("flip", "cut", "bit") and isinstance(d.get("private_key"), str):
            try:
                b = bytearray(bytes.fromhex(d["private_key"]))
            except (ValueError, refs.BadRlp):
                continue
            if how == "flip" and b:
                b[spread(n, len(b))] ^= 1 << (n % 8)
            elif how == "cut":
                b = b[: spread(n, len(b))] if b else b
            elif how == "bit":
                b = flip_body(bytes(b), n)
            d["private_key"] = bytes(b).hex()
        elif how == "public" and isinstance(d.get("public_key"), str):
            d["public_key"] = d["public_key"][: n % 200] + "A" + d["public_key"][n % 200:]
    ok, q = attempt(type(p).from_key_string, json.dumps(d), "pass")
    if not ok:
        ctx.tag("refused")
        return
    ctx.nt()
    same(q.nickname, d.get("nickname"), "nickname of the key read")
    got = q.public_key
    wanted = k.publickey().export_key()
    if foreign_key and case["other"] == "pass" and got != wanted:
        same(got, keys.number(i + 1).publickey().export_key(), "public key of the key read")
        return
    same(got, wanted, "public key of the key read from altered text")
    if kind != "enc":
        ok, s = attempt(q.sign, b"data")
        if ok:
            same(s, formats.sign(k, b"data"), "signature of the key read from altered text")


def flip_body(pem, n):
    """One bit of what the PEM text encodes is changed."""
    import base64
    import re

    m = re.search(rb"(-----BEGIN [^-]+-----\n)(.*?)(\n-----END [^-]+-----)", pem, re.S)
    if not m:
        return pem
    try:
        b = bytearray(base64.b64decode(m.group(2)))
    except (ValueError, refs.BadRlp):
        return pem
    b[spread(n, len(b))] ^= 1 << (n % 8)
    return m.group(1) + base64.b64encode(bytes(b)) + m.group(3)


def key_cases():
    how = ["drop", "set", "other", "flip", "flip", "bit", "bit", "bit", "cut", "public"]
    value = st.one_of(st.none(), st.integers(-3, 3), st.text(max_size=6), st.binary(max_size=8).map(bytes.hex))
    return st.fixed_dictionaries({
        "key": st.tuples(st.sampled_from(["all", "auth", "enc"]), st.sampled_from(keys.SMALL)).map(list),
        "other": st.sampled_from(["pass", "word"]),
        "by": st.lists(st.tuples(st.sampled_from(how), st.integers(0, 9999), value).map(list), min_size=1, max_size=2)})


CAMPAIGNS = [
    Campaign("tries", lambda tier: trie_cases(), tries, 2400, 50000),
    Campaign("proofs as RLP", lambda tier: proof_cases(), proof_bytes, 2400, 40000),
    Campaign("proofs as JSON", lambda tier: text_cases(), proof_texts, 2400, 40000),
    Campaign("keys", lambda tier: key_cases(), key_texts, 120, 2500),
]
