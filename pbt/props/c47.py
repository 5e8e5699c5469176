"""C47: stored and exchanged forms keep their layout."""
import json
import os
import tempfile

from hypothesis import strategies as st

import formats
import gens
import keys
import objs
import refs
from engine import Campaign, Enumeration
from lib import dec, ensure, must, same
from props import c26, merkle
from pymt.empt import EMPT, DataReference, RootEMPT, SparseEMPT
from pymt.mpt import MPT
from pymt.mt import MerkleTree
from pymt.proof import Proof
from pymt.utils.utils import Utils

RULE = (
    "An independent reader and writer of every layout (pbt/formats.py: RLP, EAX, OAEP and PKCS#1 put together from "
    "block ciphers and modular powers): what the library writes for generated contents, proofs, messages, passwords "
    "and keys is read and compared with the contents, and what the writer makes (nodes in any order and repeated, "
    "fields in any order and spacing, other session keys, nonces and time stamps) is read by the library. Samples "
    "written by the version the property was stated for have to be read as ever. Non-trivial: contents of at least "
    "one entry or byte."
)
ASSUMPTIONS = ["The protection of exported private keys (encrypted PKCS#8) is left to pycryptodome."]


# ------------------------------------------------------------------------ tries
def is_trie(got, root_ref, nodes, secure, contents, what):
    """The bytes hold the root reference, the mode and all nodes of the trie."""
    x = formats.read_trie(got)
    ensure(x is not None, "%s is no list of root, nodes and mode", what)
    same(x[0], root_ref, "root in " + what)
    same(x[2], secure, "mode in " + what)
    for n in x[1]:
        ensure(isinstance(n, bytes), "a node in %s is a list", what)
    missing = [n for n in nodes if n not in x[1]]
    ensure(not missing, "%d of the %d nodes are not in %s", len(missing), len(nodes), what)


def root_reference(contents):
    if not contents:
        return refs.EMPTY_ROOT
    e = refs.trie_root_node(contents)
    return e if len(e) < 32 else refs.keccak(e)


def tries(case, ctx):
    kind, secure = case["kind"], case["secure"]
    t, model = {"mpt": lambda: MPT({}, secure=secure), "sparse": lambda: SparseEMPT(secure=secure),
                "empt": lambda: EMPT(secure=secure)}[kind](), {}
    ctx.tag(kind)
    for op, i, *rest in case["ops"]:
        k = case["keys"][i]
        if op == "u":
            v = objs.value(rest[0]) if kind != "mpt" else (rest[0][1] or b"0")
            must(t.update, k, v)
            model[k] = v
        elif k in model:
            must(t.delete, k)
            del model[k]
    ctx.nt(len(model) > 0)
    inside = gens.inner(model if kind == "mpt" else
                        {k: refs.data_reference(k, objs.encoding(v)) for k, v in model.items()}, secure)
    nodes = [n for n in refs.trie_nodes(inside) if len(n) >= 32]
    ref = root_reference(inside)
    # What it writes
    if kind == "empt":
        t_ = t.get_sparse_trie()
        view = t.get_root_trie()
    else:
        t_ = t
        view = t.get_root_trie() if kind == "sparse" else None
    e = must(t_.encode if kind == "mpt" else t_.encode_rlp)
    ensure(type(e) is bytes, "the encoding is a %s", type(e).__name__)
    is_trie(e, ref, nodes, secure, inside, "the encoded trie")
    if view is not None:
        x = formats.read_trie(must(view.encode_rlp))
        ensure(x is not None, "the encoded view is no list of root, nodes and mode")
        same((x[0], x[2]), (ref if len(ref) == 32 else x[0], secure), "root and mode of the encoded view")
        ensure(x[0] in (ref, refs.trie_root(inside)), "the root of the encoded view is %r", x[0])
    # What it reads
    order = case["order"]
    mixed = [nodes[(j + order) % len(nodes)] for j in range(len(nodes))] if nodes else []
    if order % 3 == 1:
        mixed.reverse()
    if order % 4 == 2:
        mixed += mixed[:2]
    if order % 5 == 3:
        mixed.append(refs.rlp([refs.hp(refs.nibbles(b"other"), True), b"o" * 40]))
    made = formats.trie(ref, mixed, secure)
    if kind == "mpt":
        u = must(MPT.decode, made, what="reading a trie of another writer")
        same(u.secure, secure, "mode of the trie read")
    else:
        u = must(SparseEMPT.decode_rlp, made, what="reading a trie of another writer")
    same(u.root_hash(), refs.trie_root(inside), "root of the trie read")
    for k in gens.probes({k: b"" for k in model}, case["keys"], 12):
        same(must(u.contains, k), k in model, "membership of %r in the trie read" % k)
        if k in model:
            if kind == "mpt":
                same(must(u.get, k), model[k], "value of %r in the trie read" % k)
            else:
                same(must(u.get_reference, k).encode(), refs.data_reference(k, objs.encoding(model[k])),
                     "reference of %r in the trie read" % k)
    if kind != "mpt":
        r = must(RootEMPT.decode_rlp, formats.trie(ref, mixed if order % 2 else [], secure),
                 what="reading a view of another writer")
        same(r.root_hash(), refs.trie_root(inside), "root of the view read")
        for k in sorted(model)[:3]:
            same(must(r.verify_proof_of_inclusion, t.get_proof_of_inclusion(k)), True, "verdict of the view read")


@st.composite
def trie_cases(draw):
    c = draw(gens.history(8, 16))
    c["ops"] = [[op, i, draw(objs.data_specs())] if op == "u" else [op, i] for op, i, *_ in c["ops"]]
    c["kind"] = draw(st.sampled_from(["mpt", "sparse", "empt"]))
    c["order"] = draw(st.integers(0, 119))
    return c


# ------------------------------------------------------- references and proofs
def proofs(case, ctx):
    c, key, data = case["t"], case["key"], case["data"]
    r = DataReference(key, data)
    same(must(r.encode), refs.data_reference(key, data), "the encoded reference")
    q = must(DataReference.decode, refs.data_reference(key, data), what="reading a reference of another writer")
    same((q.key, q.data, q.hash), (key, data, refs.data_hash(key, data)), "the reference read")
    ctx.nt()
    t = merkle.build(c)
    v = c["leaves"][case["i"] % len(c["leaves"])]
    p = must(t.get_proof_of_inclusion, v)
    stamp = case["stamp"]
    # RLP
    same(refs.unrlp(must(p.encode_rlp)),
         [p.type, p.timestamp, p.target_key, p.trie_root, [list(i) for i in p.proof]], "the proof as RLP")
    made = refs.rlp([b"MT-POI", stamp, v, p.trie_root, [list(i) for i in p.proof]])
    u = must(Proof.decode_rlp, made, what="reading a proof of another writer")
    same((u.type, u.timestamp, u.target_key, u.trie_root, u.proof),
         (b"MT-POI", stamp, v, p.trie_root, p.proof), "the proof read from RLP")
    same(must(t.verify_proof_of_inclusion, u), True, "verdict on it")
    # JSON
    d = json.loads(must(p.encode_json))
    want = {"proof_type": "MT-POI", "timestamp": p.timestamp.decode(),
            "target_key": v.decode(errors="surrogateescape"), "root_hash": p.trie_root.decode(),
            "proof": [[x.decode() for x in i] for i in p.proof]}
    same(d, want, "the proof as JSON")
    want["timestamp"] = stamp.decode()
    names = sorted(want)
    o = case["i"] % 5
    text = json.dumps({n: want[n] for n in names[o:] + names[:o]}, indent=[None, 1, 4][case["i"] % 3],
                      ensure_ascii=case["i"] % 2 == 0)
    u = must(Proof.decode_json, text, what="reading a JSON proof of another writer")
    same((u.type, u.timestamp, u.target_key, u.trie_root, u.proof),
         (b"MT-POI", stamp, v, p.trie_root, p.proof), "the proof read from JSON")
    same(must(t.verify_proof_of_inclusion, u), True, "verdict on it")


def proof_cases():
    return st.fixed_dictionaries({
        "t": merkle.trees(1, 9), "i": st.integers(0, 40), "key": st.binary(max_size=12), "data": gens.values() | st.just(b""),
        "stamp": st.datetimes().map(lambda d: d.strftime("%Y-%m-%d %H:%M:%S").encode())})


# --------------------------------------------------------------------- messages
def messages(case, ctx):
    m, pw = case["m"], case["password"]
    (ka, a), (kb, b) = case["from"], case["to"]
    na, nb = keys.number(a), keys.number(b)
    sender, receiver = keys.pair(ka, a), keys.pair(kb, b)
    apub, bpub = sender.public_key, receiver.public_key
    ctx.nt(len(m) > 0)
    e = must(sender.encrypt, m, bpub)
    if keys.RSA.import_key(apub).n == na.n and keys.RSA.import_key(bpub).n == nb.n:
        same(must(formats.open_envelope, nb, na, e, what="opening an envelope"), m, "what the envelope holds")
        ctx.count("envelopes")
        x = formats.envelope(na, nb, m, case["session"], case["nonce"], case["seed"], case["order"], case["order"] % 2)
        same(must(receiver.decrypt, x, apub, what="decrypting an envelope of another writer"), m, "its message")
        if ka != "enc":
            s = must(sender.sign, m)
            same(s, formats.sign(na, m), "the signature")
    blob = must(Utils.encrypt, m, pw)
    same(formats.password_decrypt(blob, pw), m, "what the password encryption holds")
    same(len(blob), 32 + len(m), "its length")
    made = formats.password_encrypt(m, pw, case["nonce"])
    same(must(Utils.decrypt, made, pw, what="decrypting what another writer encrypted"), m, "its data")


def message_cases():
    pair = st.tuples(st.sampled_from(["all", "enc"]), st.sampled_from(keys.SMALL + [0, 1, 2, 6])).map(list)
    return st.fixed_dictionaries({
        "from": pair, "to": pair, "m": c26.data(), "password": c26.password(),
        "session": st.binary(min_size=16, max_size=16), "nonce": st.binary(min_size=16, max_size=16),
        "seed": st.binary(min_size=20, max_size=20), "order": st.integers(0, 9)})


# ------------------------------------------------------------------------- keys
def exports(case, ctx):
    kind, i = case["key"]
    k = keys.number(i)
    nick, pw = case["nickname"], case["passphrase"]
    p = keys.pair(kind, i, nick)
    ctx.nt()
    if case["file"]:
        with tempfile.TemporaryDirectory() as d:
            f = os.path.join(d, "key")
            must(p.to_key_file, f, pw)
            text = open(f).read()
            open(f, "w").write(formats.exported(k, nick, pw))
            q = must(type(p).from_key_file, f, pw, what="reading a key file of another writer")
    else:
        text = must(p.to_key_string, pw)
        q = must(type(p).from_key_string, formats.exported(k, nick, pw), pw, what="reading a key of another writer")
    got = formats.read_exported(text, pw)
    ensure(got is not None, "the exported key has other fields: %s", sorted(json.loads(text)))
    same(got[0], nick, "nickname in the exported key")
    same(got[1].export_key(), p.public_key, "public key in the exported key")
    ensure(got[2].has_private() and got[2].publickey() == got[1], "the private key in the exported key is another")
    same((q.nickname, q.public_key), (nick, k.publickey().export_key()), "the key read")
    if kind != "enc":
        same(must(q.sign, b"x"), formats.sign(k, b"x"), "signature of the key read")


def export_cases():
    return st.fixed_dictionaries({
        "key": st.tuples(st.sampled_from(["all", "auth", "enc"]), st.sampled_from(keys.SMALL)).map(list),
        "nickname": st.text(st.characters(blacklist_categories=("Cs",)), min_size=1, max_size=12),
        "passphrase": st.text(st.characters(min_codepoint=1, max_codepoint=255), min_size=1, max_size=12),
        "file": st.booleans()})


# ---------------------------------------------------------------------- samples
def samples(tier):
    f = os.path.join(keys.HERE, "samples.json")
    for n, s in enumerate(json.load(open(f))):
        yield dict(dec(s), number=n)


def sample(case, ctx):
    kind = case["kind"]
    ctx.nt()
    ctx.tag(kind)
    what = "sample %d (%s)" % (case["number"], kind)
    if kind in ("mpt", "sparse"):
        secure, e = case["secure"], case["bytes"]
        model = {k: v for k, v in case["model"]}
        inside = gens.inner(model if kind == "mpt" else {k: refs.data_reference(k, v) for k, v in model.items()}, secure)
        t = must(MPT.decode if kind == "mpt" else SparseEMPT.decode_rlp, e, what="reading " + what)
        same(t.root_hash(), refs.trie_root(inside), "root of " + what)
        view = must(RootEMPT.decode_rlp, e, what="reading %s as a view" % what)
        for k, v in model.items():
            if kind == "mpt":
                same(must(t.get, k), v, "value of %r in %s" % (k, what))
            else:
                same(must(t.get_reference, k).encode(), refs.data_reference(k, v), "reference of %r in %s" % (k, what))
        for name, target, root, items in case["proofs"]:
            p = Proof(target_key=target, root_hash=root, proof=tuple(items), proof_type=name.encode())
            for u in (t, view):
                verify = u.verify_proof_of_inclusion if name == "MPT-POI" else u.verify_proof_of_exclusion
                same(must(verify, p), True, "verdict on a proof of " + what)
        k = b"another key"
        must(t.update, k, b"a value")
        model[k] = b"a value"
        inside = gens.inner(model if kind == "mpt" else {k: refs.data_reference(k, v) for k, v in model.items()}, secure)
        same(t.root_hash(), refs.trie_root(inside), "root of %s with an entry more" % what)
    elif kind == "proof":
        t = MerkleTree(hash_type=case["hash"], secure=case["secure"])
        t.put_list(case["leaves"])
        t.make_tree()
        for form, e in (("json", case["json"]), ("rlp", case["rlp"])):
            p = must(Proof.decode_json if form == "json" else Proof.decode_rlp, e, what="reading " + what)
            same(p.timestamp, case["stamp"], "time stamp of " + what)
            same(p.target_key, case["target"], "target of " + what)
            same(must(t.verify_proof_of_inclusion, p), True, "verdict on " + what)
    elif kind == "reference":
        r = must(DataReference.decode, case["bytes"], what="reading " + what)
        same((r.key, r.data), (case["key"], case["data"]), what)
        same(r.encode(), case["bytes"], what + " encoded again")
    elif kind == "password":
        same(must(Utils.decrypt, case["bytes"], case["password"], what="decrypting " + what), case["data"], what)
    elif kind == "envelope":
        for k in ("all", "enc"):
            same(must(keys.pair(k, case["to"]).decrypt, case["bytes"], keys.pair("all", case["from"]).public_key,
                      what="decrypting " + what), case["message"], what)
    elif kind == "key":
        cls = keys.CLASSES[case["class"]]
        p = must(cls.from_key_string, case["text"], case["passphrase"], what="reading " + what)
        same((p.nickname, p.public_key), (case["nickname"], keys.number(case["number of key"]).publickey().export_key()), what)
    elif kind == "signature":
        for k in ("all", "auth"):
            p = keys.pair(k, case["key"])
            same(must(p.signature_valid, case["data"], case["bytes"], p.public_key), True, "validity of " + what)
            same(must(p.sign, case["data"]), case["bytes"], what + " made again")
    else:
        raise AssertionError(kind)


CAMPAIGNS = [
    Campaign("tries", lambda tier: trie_cases(), tries, 1800, 40000),
    Campaign("references and proofs", lambda tier: proof_cases(), proofs, 1500, 30000),
    Campaign("messages", lambda tier: message_cases(), messages, 700, 14000),
    Campaign("keys", lambda tier: export_cases(), exports, 80, 1600),
    Enumeration("samples", samples, sample),
]
