"""Readers and writers of the layouts the library stores and sends, written
apart from it. Of pycryptodome only the block ciphers and the import of keys
are used; EAX, OAEP, PKCS#1 and the envelope are put together here."""
import hashlib
import json

from Crypto.Cipher import AES
from Crypto.PublicKey import RSA

import refs


# ------------------------------------------------------------------------ EAX
def _double(b):
    n = int.from_bytes(b, "big") << 1
    if n >> 128:
        n = (n ^ 0x87) & ((1 << 128) - 1)
    return n.to_bytes(16, "big")


def _xor(a, b):
    return bytes(x ^ y for x, y in zip(a, b))


def omac(key, t, data):
    ecb = AES.new(key, AES.MODE_ECB)
    k1 = _double(ecb.encrypt(bytes(16)))
    m = bytes(15) + bytes([t]) + data
    if len(m) % 16:
        last = _double(k1)
        m += b"\x80" + bytes(-(len(m) + 1) % 16)
    else:
        last = k1
    m = m[:-16] + _xor(m[-16:], last)
    return AES.new(key, AES.MODE_CBC, bytes(16)).encrypt(m)[-16:]


def _ctr(key, n, data):
    return AES.new(key, AES.MODE_CTR, nonce=b"", initial_value=n).encrypt(data)


def eax_encrypt(key, nonce, data):
    n = omac(key, 0, nonce)
    c = _ctr(key, n, data)
    return c, _xor(_xor(n, omac(key, 1, b"")), omac(key, 2, c))


def eax_decrypt(key, nonce, c, tag):
    """The data; None if the tag is not that of it."""
    n = omac(key, 0, nonce)
    if tag != _xor(_xor(n, omac(key, 1, b"")), omac(key, 2, c)):
        return None
    return _ctr(key, n, c)


# ---------------------------------------------------------------- OAEP, SHA-1
def _mgf(seed, size):
    out = b""
    i = 0
    while len(out) < size:
        out += hashlib.sha1(seed + i.to_bytes(4, "big")).digest()
        i += 1
    return out[:size]


def oaep_encrypt(key, message, seed):
    size = (key.n.bit_length() + 7) // 8
    lh = hashlib.sha1(b"").digest()
    db = lh + bytes(size - len(message) - 42) + b"\x01" + message
    db = _xor(db, _mgf(seed, len(db)))
    seed = _xor(seed, _mgf(db, 20))
    return pow(int.from_bytes(b"\x00" + seed + db, "big"), int(key.e), int(key.n)).to_bytes(size, "big")


def oaep_decrypt(key, c):
    """The message; None if there is none in it."""
    size = (key.n.bit_length() + 7) // 8
    if len(c) != size:
        return None
    em = pow(int.from_bytes(c, "big"), int(key.d), int(key.n)).to_bytes(size, "big")
    seed, db = em[1:21], em[21:]
    seed = _xor(seed, _mgf(db, 20))
    db = _xor(db, _mgf(seed, len(db)))
    if em[0] or db[:20] != hashlib.sha1(b"").digest():
        return None
    rest = db[20:].lstrip(b"\x00")
    return rest[1:] if rest[:1] == b"\x01" else None


# ----------------------------------------------------------------- signatures
_DIGEST_INFO = bytes.fromhex("3031300d060960864801650304020105000420")


def _signed(key, data):
    size = (key.n.bit_length() + 7) // 8
    t = _DIGEST_INFO + hashlib.sha256(data).digest()
    return size, b"\x00\x01" + b"\xff" * (size - len(t) - 3) + b"\x00" + t


def sign(key, data):
    size, em = _signed(key, data)
    return pow(int.from_bytes(em, "big"), int(key.d), int(key.n)).to_bytes(size, "big")


def signature_valid(key, data, s):
    size, em = _signed(key, data)
    return len(s) == size and pow(int.from_bytes(s, "big"), int(key.e), int(key.n)).to_bytes(size, "big") == em


# ------------------------------------------------------------------- envelope
FIELDS = ["enc_session_key", "nonce", "tag", "ciphertext", "signature"]


def envelope(sender, receiver, message, session, nonce, seed, order=0, spaces=False):
    c, tag = eax_encrypt(session, nonce, message)
    d = {"enc_session_key": oaep_encrypt(receiver, session, seed), "nonce": nonce, "tag": tag,
         "ciphertext": c, "signature": sign(sender, c)}
    names = FIELDS[order % 5:] + FIELDS[:order % 5]
    return json.dumps({n: d[n].hex() for n in names}, indent=1 if spaces else None).encode()


def open_envelope(receiver, sender, e):
    """The message; a word about what is wrong if there is something."""
    d = {n: bytes.fromhex(v) for n, v in json.loads(e.decode("utf-8")).items()}
    if sorted(d) != sorted(FIELDS):
        return "the fields are %s" % sorted(d)
    if not signature_valid(sender, d["ciphertext"], d["signature"]):
        return "the signature is not that of the ciphertext"
    session = oaep_decrypt(receiver, d["enc_session_key"])
    if session is None or len(session) not in (16, 24, 32):
        return "there is no session key in it"
    m = eax_decrypt(session, d["nonce"], d["ciphertext"], d["tag"])
    return "the tag is not that of the ciphertext" if m is None else m


# ---------------------------------------------------------- password encryption
def password_encrypt(data, password, nonce):
    c, tag = eax_encrypt(hashlib.sha256(password.encode()).digest(), nonce, data)
    return nonce + tag + c


def password_decrypt(blob, password):
    return eax_decrypt(hashlib.sha256(password.encode()).digest(), blob[:16], blob[32:], blob[16:32])


# ----------------------------------------------------------------------- keys
def exported(key, nickname, passphrase, **kw):
    return json.dumps({
        "nickname": nickname, "public_key": key.publickey().export_key().decode(),
        "private_key": key.export_key(passphrase=passphrase, **kw).hex()})


def read_exported(text, passphrase):
    """nickname, public key and private key."""
    d = json.loads(text)
    if sorted(d) != ["nickname", "private_key", "public_key"]:
        return None
    return (d["nickname"], RSA.import_key(d["public_key"]),
            RSA.import_key(bytes.fromhex(d["private_key"]), passphrase))


# ---------------------------------------------------------------------- tries
def trie(root, nodes, secure):
    return refs.rlp([root, list(nodes), b"\x01" if secure else b""])


def read_trie(b):
    """root, nodes and mode; None if it is no such list."""
    x = refs.unrlp(b)
    if not (isinstance(x, list) and len(x) == 3 and isinstance(x[0], bytes) and isinstance(x[1], list)
            and x[2] in (b"\x01", b"")):
        return None
    return x[0], x[1], x[2] == b"\x01"


def self_check():
    from Crypto.Cipher import PKCS1_OAEP

    # Bellare, Rogaway and Wagner's vectors (without header)
    key = bytes.fromhex("8395FCF1E95BEBD697BD010BC766AAC3")
    assert _xor(omac(key, 1, b""), omac(key, 1, b"")) == bytes(16)
    c, tag = eax_encrypt(key, b"n" * 16, b"some data, more than a block")
    a = AES.new(key, AES.MODE_EAX, b"n" * 16)
    assert (c, tag) == a.encrypt_and_digest(b"some data, more than a block")
    assert eax_decrypt(key, b"n" * 16, c, tag) == b"some data, more than a block"
    import keys
    k = keys.RSA_KEYS[0]
    assert PKCS1_OAEP.new(k).decrypt(oaep_encrypt(k, b"session key 1234", b"s" * 20)) == b"session key 1234"
    assert oaep_decrypt(k, PKCS1_OAEP.new(k.publickey()).encrypt(b"session key 1234")) == b"session key 1234"


self_check()
