"""What one process writes for another one: everything that can leave a process
and come back (tries, proofs, references, keys, envelopes, encrypted data,
signatures, time stamps)."""
import json
import os

import keys
import objs
from pymt.empt import EMPT, DataReference, RootEMPT, SparseEMPT
from pymt.mpt import MPT
from pymt.mt import MerkleTree
from pymt.proof import Proof
from pymt.utils.hash import keccak_hash
from pymt.utils.utils import Utils

PARTS = ["trie", "extended", "tree", "pair", "secret"]


def make(spec, folder):
    """The texts and files the process writes. Bytes are given in hexadecimal."""
    out = {}
    secure, contents = spec["secure"], spec["contents"]
    part = spec["part"]
    if part == "trie":
        t = MPT({}, secure=secure)
        for k, v in contents:
            t.update(k, v)
        out["trie"], out["root"], out["hash"] = t.encode().hex(), t.root().hex(), str(hash(t))
        for k, v in contents:
            last = t.get_proof_of_inclusion(k)
        out["poi"] = [x.hex() for x in last.proof]
    if part == "extended":
        e, s = EMPT({}, {}, secure=secure), SparseEMPT(secure=secure)
        for k, v in contents:
            e.update(k, v)
            s.update(k, v)
        out["sparse"], out["root trie"] = s.encode_rlp().hex(), e.get_root_trie().encode_rlp().hex()
        out["references"] = [e.get_reference(k).encode().hex() for k, _ in contents]
        out["hashes"] = [str(hash(e.get_reference(k))) for k, _ in contents]
    if part == "tree":
        t = MerkleTree(secure=secure)
        t.put_list([v for _, v in contents])
        t.make_tree()
        p = t.get_proof_of_inclusion(contents[-1][1])
        out["json"], out["rlp"], out["proof hash"] = p.encode_json(), p.encode_rlp().hex(), str(hash(p))
        out["stamp"], out["tree hash"] = p.timestamp.hex(), str(hash(t))
    if part == "pair":
        a, b = keys.pair(spec["kind"], spec["key"]), keys.pair("all", spec["key"] + 1)
        a.nickname = spec["nick"]
        out["text"] = a.to_key_string(spec["secret"])
        name = os.path.join(folder, "key")
        a.to_key_file(name, spec["secret"])
        out["pair hash"] = str(hash(a))
        if spec["kind"] != "enc":
            out["signature"] = a.sign(spec["message"]).hex()
        if spec["kind"] != "auth":
            out["envelope"] = b.encrypt(spec["message"], a.public_key).hex()
        out["public"], out["sender"] = a.public_key.hex(), b.public_key.hex()
    if part == "secret":
        out["data"] = Utils.encrypt(spec["message"], spec["password"]).hex()
        out["time"], out["keccak"] = Utils.get_timestamp_string(), keccak_hash(spec["message"], hexdigest=True).decode()
        with open(os.path.join(folder, "file"), "wb") as f:
            f.write(out["data"].encode())
    return out


def _hex(x):
    return bytes.fromhex(x)


def read(spec, out, folder):
    """What another process finds in it: (what, found, expected as made of the
    specification or as the first process said)."""
    secure, contents = spec["secure"], spec["contents"]
    part = spec["part"]
    got = []

    def note(what, found, expected):
        got.append([what, found == expected, repr(found)[:100], repr(expected)[:100]])

    if part == "trie":
        t = MPT.decode(_hex(out["trie"]))
        note("root", t.root().hex(), out["root"])
        note("mode", t.secure, secure)
        note("hash of the trie", str(hash(t)), out["hash"])
        note("contents", [t.get(k) for k, _ in contents], [dict(contents)[k] for k, _ in contents])
        mine = t.get_proof_of_inclusion(contents[-1][0])
        note("nodes of a proof", [x.hex() for x in mine.proof], out["poi"])
        p = Proof(target_key=mine.target_key, root_hash=mine.trie_root, proof=tuple(map(_hex, out["poi"])), proof_type=b"MPT-POI")
        note("verdict", t.verify_proof_of_inclusion(p), True)
        u = MPT({}, secure=secure)
        for k, v in contents:
            u.update(k, v)
        note("encoding of the same trie", u.encode().hex(), out["trie"])
        u.update(contents[-1][0], b"changed")
        note("verdict against another root", u.verify_proof_of_inclusion(p), dict(contents)[contents[-1][0]] == b"changed")
    if part == "extended":
        s, r = SparseEMPT.decode_rlp(_hex(out["sparse"])), RootEMPT.decode_rlp(_hex(out["root trie"]))
        note("root", s.root_hash(), r.root_hash())
        note("references", [s.get_reference(k).encode().hex() for k, _ in contents], out["references"])
        note("decoded references", [(lambda d: (d.key, d.data))(DataReference.decode(_hex(x))) for x in out["references"]],
             [(k, dict(contents)[k]) for k, _ in contents])
        note("hashes of references", [str(hash(DataReference.decode(_hex(x)))) for x in out["references"]], out["hashes"])
        note("verdicts", [r.verify_proof_of_inclusion(s.get_proof_of_inclusion(k)) for k, _ in contents], [True] * len(contents))
        e = EMPT({}, dict(contents), secure=secure)
        e.build_trie()
        note("root of the rebuilt trie", e.root_hash(), s.root_hash())
        note("values", [e[k] for k, _ in contents], [dict(contents)[k] for k, _ in contents])
    if part == "tree":
        a, b = Proof.decode_json(out["json"]), Proof.decode_rlp(_hex(out["rlp"]))
        t = MerkleTree(secure=secure)
        t.put_list([v for _, v in contents])
        t.make_tree()
        for p in (a, b):
            note("target", p.target_key, contents[-1][1])
            note("time stamp", p.timestamp.hex(), out["stamp"])
            note("hash", str(hash(p)), out["proof hash"])
            note("verdict", t.verify_proof_of_inclusion(p), True)
            note("items", p.proof, t.get_proof_of_inclusion(contents[-1][1]).proof)
            note("encoding", [json.loads(p.encode_json()), p.encode_rlp().hex()], [json.loads(out["json"]), out["rlp"]])
        note("equality", a == b, True)
        note("hash of the tree", str(hash(t)), out["tree hash"])
    if part == "pair":
        cls, b = keys.CLASSES[spec["kind"]], keys.pair("all", spec["key"] + 1)
        for how, p in (("text", cls.from_key_string(out["text"], spec["secret"])),
                       ("file", cls.from_key_file(os.path.join(folder, "key"), spec["secret"]))):
            note("nickname, " + how, p.nickname, spec["nick"])
            note("public key, " + how, p.public_key.hex(), out["public"])
            note("hash, " + how, str(hash(p)), out["pair hash"])
            if "signature" in out:
                note("signature, " + how, p.sign(spec["message"]).hex(), out["signature"])
                note("verdict, " + how, [p.signature_valid(spec["message"], _hex(out["signature"])),
                                         p.signature_valid(spec["message"] + b"x", _hex(out["signature"]))], [True, False])
            if "envelope" in out:
                note("message, " + how, p.decrypt(_hex(out["envelope"]), _hex(out["sender"])), spec["message"])
            try:
                cls.from_key_string(out["text"], spec["secret"] + "!")
                note("wrong passphrase, " + how, "imported", "refused")
            except Exception:
                pass
        if "signature" in out:
            note("verdict of another pair", b.signature_valid(spec["message"], _hex(out["signature"]), _hex(out["public"])), True)
    if part == "secret":
        note("data", Utils.decrypt(_hex(out["data"]), spec["password"]), spec["message"])
        note("keccak", keccak_hash(spec["message"], hexdigest=True).decode(), out["keccak"])
        x = Utils.from_timstamp_string(out["time"])
        now = Utils.from_timstamp_string(Utils.get_timestamp_string())
        note("time stamp", 0 <= (now - x).total_seconds() < 600, True)
        note("the file", [Utils.file_exists(os.path.join(folder, "file")), Utils.dir_exists(folder),
                          Utils.file_exists(os.path.join(folder, "no file"))], [True, True, False])
        try:
            Utils.decrypt(_hex(out["data"])[:-1] + bytes([_hex(out["data"])[-1] ^ 1]), spec["password"])
            note("altered data", "decrypted", "refused")
        except Exception:
            pass
    return got
