"""C41: text forms show the object and never a secret."""
import json

from hypothesis import strategies as st

import gens
import keys
import objs
import refs
from engine import Campaign
from lib import attempt, ensure, must, same
from props import again, rekeyed
from props.c25 import decoded_parts, nickname, secrecy
from pymt.empt import EMPT, DataReference, SparseEMPT
from pymt.merkletools import MerkleTools
from pymt.mpt import MPT
from pymt.mt import MerkleTree
from pymt.proof import Proof
from pymt.utils.nibble_path import NibblePath
from pymt.utils.node import Node

RULE = (
    "Key pairs of every class with generated nicknames go through generated operations, most of them wrong (altered "
    "envelopes, wrong passphrases, keys and types, assignments); their text forms are taken throughout. No text "
    "form and no error (its chain of causes included) may hold the private numbers in any common form, a loadable "
    "private key, a passphrase or a message; they name class, nickname and public key. Tries, proofs, nodes, paths, "
    "references and trees in every state are shown, before and after operations. Non-trivial: an error was looked "
    "at, or an object of which something was expected in its text. "
    "Merkle trees are shown again after each of a few changes of their leaves and compared with trees made anew."
) + rekeyed.RULE
ASSUMPTIONS = ["Errors are looked at as text, representation and arguments, not as tracebacks with local values."]


def texts(o):
    out = []
    for name, f in (("str", str), ("repr", repr), ("format", lambda x: "{}|{!r}".format(x, x))):
        t = must(f, o, what="%s of a %s" % (name, type(o).__name__))
        ensure(type(t) is str, "%s of a %s gives %r", name, type(o).__name__, type(t))
        out.append(t)
    return out


def chain(e):
    """Everything an error says, with what led to it."""
    out, seen = [], []
    while e is not None and e not in seen:
        seen.append(e)
        out += [str(e), repr(e)] + [repr(a) for a in e.args] + [a.decode("latin-1") for a in e.args if isinstance(a, bytes)]
        e = e.__cause__ or e.__context__
    return out


OPS = ["show", "wrong passphrase", "bytes passphrase", "altered", "wrong sender", "no key", "assign", "delete", "sign text",
       "open garbage", "import garbage", "import cut", "role", "good", "file"]


def check_pairs(case, ctx):
    kp = keys.pair(case["kind"], case["key"])
    key = keys.number(case["key"])
    if kp.public_key != key.publickey().export_key():
        return  # generated in some other way: the numbers are not known
    kp.nickname = case["nick"]
    other = keys.pair("all", case["key"] + 1)
    name = type(kp).__name__
    secret, message = "Pass-" + case["secret"].hex(), b"Message-" + case["secret"][::-1].hex().encode()
    exported = must(kp.to_key_string, secret)
    hidden = [secret, message.decode(), secret.encode().hex(), message.hex()]

    def look(ts, what):
        for t in ts:
            for h in hidden:
                ensure(h not in t, "%s holds %s", what, "the passphrase" if h in hidden[::2] else "the message")
            if len(t) < 20000:
                secrecy(t, key)

    def show(what):
        s, r, f = texts(kp)
        for t in (s, r):
            ensure(name in t, "%s does not name the class: %s", what, t)
            ensure(case["nick"] in t or repr(case["nick"])[1:-1] in t, "%s does not give the nickname: %s", what, t)
        ensure(kp.public_key_string in r or repr(kp.public_key_string)[1:-1] in r,
               "the long text form does not give the public key: %s", r)
        look([s, r, f], what)
        return s, r

    first = show("the text form")
    cls = type(kp)
    for op, i in case["ops"]:
        def step():
            if op == "wrong passphrase":
                return cls.from_key_string(exported, secret + "x"[: i % 2] if i % 2 else secret[:-1])
            if op == "bytes passphrase":
                return [kp.to_key_string, lambda p: cls.from_key_string(exported, p),
                        lambda p: kp.to_key_file("/nonexistent/x", p)][i % 3]([secret.encode(), [secret], (secret, 1)][i % 3])
            if op in ("altered", "wrong sender"):
                receiver = kp if case["kind"] != "auth" else other
                d = json.loads(other.encrypt(message, receiver.public_key))
                if op == "altered":
                    f = ["tag", "nonce", "ciphertext", "signature", "enc_session_key"][i % 5]
                    d[f] = d[f][:-1] + ("0" if d[f][-1] != "0" else "1")
                    return receiver.decrypt(json.dumps(d).encode(), other.public_key)
                return receiver.decrypt(json.dumps(d).encode(), kp.public_key)
            if op == "no key":
                return kp.signature_valid(message, b"x" * 10, message) if i % 2 else kp.encrypt(message, message)
            if op == "assign":
                setattr(kp, ["public_key", "public_key_string"][i % 2], message)
            if op == "delete":
                delattr(kp, ["public_key", "public_key_string", "nickname"][i % 3])
            if op == "sign text":
                return kp.sign(message.decode()) if i % 2 else kp.encrypt(message.decode(), kp.public_key)
            if op == "open garbage":
                return kp.decrypt([message, b"{}", json.dumps(message.decode()).encode(), "x"][i % 4], kp.public_key)
            if op == "import garbage":
                return cls.from_key_string(["{}", "", "[]", '{"nickname": 1, "private_key": "00"}'][i % 4], secret)
            if op == "import cut":
                d = json.loads(exported)
                d["private_key"] = d["private_key"][: -2 * (i + 1)]
                return cls.from_key_string(json.dumps(d), secret)
            if op == "role":
                return [kp.sign, lambda m: kp.encrypt(m, kp.public_key), lambda m: kp.decrypt(m, kp.public_key)][i % 3](message)
            if op == "good":
                return cls.from_key_string(exported, secret)
            if op == "file":
                return [lambda: cls.from_key_file("/nonexistent/" + "f" * (i % 3), secret),
                        lambda: kp.to_key_file("/nonexistent/f", secret)][i % 2]()
        ctx.tag("op " + op)
        ok, r = attempt(step)
        if not ok:
            ctx.nt()
            ctx.count("errors looked at")
            ctx.tag("error of " + op)
            look(chain(r), "the error of %r (%s)" % (op, type(r).__name__))
        elif op == "good":
            same(texts(r)[0], first[0], "text of the imported pair")
            look(texts(r), "the text form of the imported pair")
        same(show("the text form after %r" % op), first, "text forms after %r" % op)


def check_objects(case, ctx):
    secure = case["secure"]
    t, model = gens.build(MPT, case, {})
    e, s = EMPT(secure=secure), SparseEMPT(secure=secure)
    shown = [t, e, s]
    for o in shown:
        texts(o)
    for k, v in model.items():
        e.update(k, v)
        s.update(k, v)
    roots = [o.root_hash() for o in shown]
    for o in shown + [e.get_root_trie(), e.get_sparse_trie()]:
        texts(o)
    same([o.root_hash() for o in shown], roots, "roots after showing the tries")
    same({k: must(t.get, k) for k in model}, model, "contents after showing the trie")
    for k in list(model)[:3]:
        p = must(t.get_proof_of_inclusion, k)
        before = objs.proof_fields(p)
        tree = MerkleTree()
        tree.put_list(list(model.values()))
        tree.make_tree()
        leaf = must(tree.get_proof_of_inclusion, model[k])
        for x in (p, leaf, must(Proof.decode_json, leaf.encode_json()), Proof(k, b"root", (b"a", k), b"MPT-POE")):
            r = texts(x)[1]
            for part in (x.type, x.target_key, x.trie_root, x.timestamp, x.proof):
                ensure(repr(part)[1:-1] in r or str(part) in r, "%r does not occur in %s", part, r)
        same(objs.proof_fields(p), before, "proof after it was shown")
        ctx.nt()
        texts(DataReference(k, model[k]))
        path = NibblePath(k)
        before = path.encode()
        for x in texts(path):
            ensure(k.hex() in x.lower(), "the path of %r is shown as %s", k, x)
        if k:
            texts(path.consume(1))
            fresh = NibblePath(k)
            fresh.consume(1)
            same(texts(path), texts(fresh), "text of a path that was shown before it was consumed, and of one that was not")
            same(texts(path), texts(NibblePath(k, 1)), "text of a consumed path and of one that starts there")
            same(path.encode(), NibblePath(k, 1).encode(), "path after it was shown")
        texts(path.common_prefix(NibblePath(k[:1])))
        texts(NibblePath(k).combine(NibblePath(k)))
    for n in refs.trie_nodes(gens.inner(model, secure))[:6]:
        node = must(Node.decode, n)
        texts(node)
        same(node.encode(), n, "node after it was shown")
    for cls in (MerkleTree, MerkleTools):
        a, b = cls(secure=secure), cls(secure=secure)
        same(texts(a), texts(b), "text of two empty trees")
        for x in (a, b):
            for v in (list(model.values()) * 40)[: max(case["leaves"], len(model))]:
                x.add_leaf(v) if cls is MerkleTools else x.put(v)
        texts(a)
        same(a.get_tree_ready_state(), b.get_tree_ready_state(), "ready state of a tree after it was shown")
        unready = texts(a)
        if model:
            for x in (a, b):
                x.make_tree()
            same(texts(a), texts(b), "text of two equal trees")
            ensure(texts(a) != unready, "a built tree is shown as one that is not built: %s", unready)
            r = a.get_merkle_root()
            texts(a)
            same(a.get_merkle_root(), r, "Merkle root after the tree was shown")


def pairs():
    return st.fixed_dictionaries({
        "kind": st.sampled_from(["all", "auth", "enc"]), "key": st.sampled_from(keys.SMALL + [7]),
        "nick": nickname(), "secret": st.binary(min_size=8, max_size=10),
        "ops": st.lists(st.tuples(st.sampled_from(OPS), st.integers(0, 11)).map(list), min_size=2, max_size=6)})


def objects():
    return st.builds(lambda c, n: dict(c, leaves=n), gens.contents(1, 6),
                     st.sampled_from([0, 0, 0, 1, 2, 3, 5, 7, 8, 9, 12, 16, 17, 30, 33]))


LEVEL = "exploration"

CAMPAIGNS = [
    Campaign("pairs", lambda tier: pairs(), check_pairs, 300, 12000),
    Campaign("objects", lambda tier: objects(), check_objects, 800, 32000),
    Campaign("new keys", lambda tier: rekeyed.programs(("all", "auth", "enc")), rekeyed.check_texts, 400, 8000),
    Campaign("again", lambda tier: again.merkle_programs(), again.check_merkle_texts, 300, 9000),
]
