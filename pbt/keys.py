"""RSA key pairs of fixed keys, made through the public interface.

Generating keys takes long and is not the subject here, so while a key pair is
made, Crypto.PublicKey.RSA.generate hands out one of the keys in fixtures/. (If
the code under test got its keys in another way, it would work as well, with
keys of its own.)
"""
import os
import re

from Crypto.PublicKey import RSA

from pymt.keypairs import RsaAuthKeyPair, RsaEncKeyPair, RsaKeyPair

HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "fixtures")
CLASSES = {"all": RsaKeyPair, "auth": RsaAuthKeyPair, "enc": RsaEncKeyPair}


def pems(name):
    data = open(os.path.join(HERE, name), "rb").read()
    return re.findall(rb"-----BEGIN [^-]+-----.*?-----END [^-]+-----", data, re.S)


RSA_PEMS = pems("rsa.pem")
RSA_KEYS = [RSA.import_key(p) for p in RSA_PEMS]
PUBLIC = [k.publickey().export_key() for k in RSA_KEYS]
SMALL = [0, 1, 2, 3, 4, 5, 8]  # 1024 bits


def pair(kind, index, nickname="n"):
    return pair_of(CLASSES[kind], index, nickname)


def pair_of(cls, index, nickname="n"):
    key = RSA_KEYS[index % len(RSA_KEYS)]
    real = RSA.generate
    RSA.generate = lambda *a, **kw: key
    try:
        kp = cls(nickname, _generate_keys=False)
        kp.generate_keypair(key.size_in_bits())
    finally:
        RSA.generate = real
    return kp


def rekey(kp, index):
    """New keys for a pair that is in use."""
    key = RSA_KEYS[index % len(RSA_KEYS)]
    real = RSA.generate
    RSA.generate = lambda *a, **kw: key
    try:
        kp.generate_keypair(key.size_in_bits())
    finally:
        RSA.generate = real


def number(index):
    return RSA_KEYS[index % len(RSA_KEYS)]


_DIGEST_INFO = bytes.fromhex("3031300d060960864801650304020105000420")


def reference_signature(kp_public_pem, index, data):
    """PKCS#1 v1.5 with SHA-256, computed by hand; None if the key of the pair
    is not the one of the fixtures."""
    import hashlib

    k = number(index)
    pub = RSA.import_key(kp_public_pem)
    if pub.n != k.n:
        return None
    size = (k.n.bit_length() + 7) // 8
    t = _DIGEST_INFO + hashlib.sha256(data).digest()
    em = b"\x00\x01" + b"\xff" * (size - len(t) - 3) + b"\x00" + t
    return pow(int.from_bytes(em, "big"), int(k.d), int(k.n)).to_bytes(size, "big")


def reference_verify(public_pem, data, signature):
    import hashlib

    pub = RSA.import_key(public_pem)
    size = (pub.n.bit_length() + 7) // 8
    s = int.from_bytes(signature, "big")
    if len(signature) != size or s >= pub.n:
        return False
    t = _DIGEST_INFO + hashlib.sha256(data).digest()
    em = b"\x00\x01" + b"\xff" * (size - len(t) - 3) + b"\x00" + t
    return pow(s, int(pub.e), int(pub.n)) == int.from_bytes(em, "big")
