#!/usr/bin/env python3
"""Writes pbt/fixtures/samples.json: what the library at the version the
properties were stated for writes. To be run once, not at every change: the
samples stand for what earlier versions wrote."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "..", "pbt"))
import env

env.load()
import keys
from lib import enc
from pymt.empt import DataReference, SparseEMPT
from pymt.mpt import MPT
from pymt.mt import MerkleTree
from pymt.utils.utils import Utils

out = []
MODELS = [
    {},
    {b"k": b"v"},
    {b"key": b"a value that is longer than a hash, so that the leaf is stored"},
    {b"": b"empty", b"a": b"1", b"ab": b"2", b"abc": b"3", b"b": b"4"},
    {b"\x00\x01": b"x", b"\x00\x02": b"y", b"\x00\x02\x03": b"z"},
    {b"account %d" % i: b"balance %d" % (i * i) for i in range(40)},
    {bytes([i, j]): b"v" * (i + j + 1) for i in range(8) for j in range(8)},
]
for secure in (False, True):
    for m in MODELS:
        for kind, cls in (("mpt", lambda: MPT({}, secure=secure)), ("sparse", lambda: SparseEMPT(secure=secure))):
            t = cls()
            for k, v in m.items():
                t.update(k, v)
            if m:
                t.update(b"gone", b"gone")
                t.delete(b"gone")
            proofs = []
            if m:
                ks = sorted(m)
                for k in {ks[0], ks[-1], ks[len(ks) // 2]}:
                    p = t.get_proof_of_inclusion(k)
                    proofs.append(["MPT-POI", p.target_key, p.trie_root, list(p.proof)])
                for k in (b"absent", b"\x00", b"accoun"):
                    if k not in m:
                        p = t.get_proof_of_exclusion(k)
                        proofs.append(["MPT-POE", p.target_key, p.trie_root, list(p.proof)])
            out.append({"kind": kind, "secure": secure, "model": [[k, v] for k, v in m.items()],
                        "bytes": t.encode() if kind == "mpt" else t.encode_rlp(), "proofs": proofs})
for i, (name, secure, n) in enumerate([("sha256", False, 1), ("sha256", True, 2), ("sha256", False, 7), ("md5", True, 5),
                                       ("sha3_256", False, 8), ("sha512", True, 13), ("sha224", False, 3)]):
    ls = [b"leaf %d" % j for j in range(n)] + [b"\xff\x00\x80"]
    t = MerkleTree(hash_type=name, secure=secure)
    t.put_list(ls)
    t.make_tree()
    for v in (ls[0], ls[-1]):
        p = t.get_proof_of_inclusion(v)
        out.append({"kind": "proof", "hash": name, "secure": secure, "leaves": ls, "target": v, "stamp": p.timestamp,
                    "json": p.encode_json(), "rlp": p.encode_rlp()})
for k, d in ((b"", b""), (b"key", b"data"), (b"k" * 40, b"\x00" * 70), (b"\x7f", b"\x80")):
    out.append({"kind": "reference", "key": k, "data": d, "bytes": DataReference(k, d).encode()})
for pw, d in (("", b""), ("password", b"data"), ("p\u00e4ssw\u00f6rd \u65e5\u672c", bytes(range(256))), ("x" * 100, b"\x00" * 1000)):
    out.append({"kind": "password", "password": pw, "data": d, "bytes": Utils.encrypt(d, pw)})
for a, b, m in ((0, 1, b"hello"), (1, 1, b""), (2, 6, b"\x00" * 300), (6, 0, bytes(range(256)))):
    for k in ("all", "enc"):
        out.append({"kind": "envelope", "from": a, "to": b, "message": m,
                    "bytes": keys.pair(k, a).encrypt(m, keys.pair("all", b).public_key)})
for i, (c, nick, pw) in enumerate((("all", "n", "passphrase"), ("auth", "name \u00e9", "\u00e9\u00ff"), ("enc", "e", "x"),
                                   ("all", "\u65e5\u672c", "a b c"))):
    out.append({"kind": "key", "class": c, "nickname": nick, "passphrase": pw, "number of key": i,
                "text": keys.pair(c, i, nick).to_key_string(pw)})
for i, d in ((0, b""), (1, b"data"), (6, b"\x00" * 500)):
    out.append({"kind": "signature", "key": i, "data": d, "bytes": keys.pair("all", i).sign(d)})
with open(os.path.join(HERE, "..", "pbt", "fixtures", "samples.json"), "w") as f:
    f.write("[\n" + ",\n".join(json.dumps(enc(s)) for s in out) + "\n]\n")
print(len(out))
