"""Independent reference implementations (nothing here uses the code under test).

RLP, hex-prefix, Keccak-256, the Ethereum Merkle-Patricia trie as the yellow
paper defines it (computed from the contents alone), data references and the
Merkle tree. keccak() uses pycryptodome for speed; keccak_slow() is a plain
implementation of the Keccak sponge, compared with it in C27 and in the
self-check of the engine.
"""
import hashlib
from functools import lru_cache
from Crypto.Hash import keccak as _keccak


@lru_cache(maxsize=1 << 15)
def keccak(data):
    h = _keccak.new(digest_bits=256)
    h.update(data)
    return h.digest()


# ------------------------------------------------------------------- Keccak-f
_RC = []


def _rc():
    r = 1
    for _ in range(24):
        c = 0
        for j in range(7):
            if r & 1:
                c |= 1 << ((1 << j) - 1)
            r = (r << 1) ^ ((r >> 7) * 0x171)
        _RC.append(c)


_rc()
_M = (1 << 64) - 1


def _rol(x, n):
    n %= 64
    return ((x << n) | (x >> (64 - n))) & _M if n else x


def _f1600(a):
    for rc in _RC:
        c = [a[x] ^ a[x + 5] ^ a[x + 10] ^ a[x + 15] ^ a[x + 20] for x in range(5)]
        d = [c[(x + 4) % 5] ^ _rol(c[(x + 1) % 5], 1) for x in range(5)]
        a = [a[i] ^ d[i % 5] for i in range(25)]
        b = [0] * 25
        x, y = 1, 0
        b[0] = a[0]
        for t in range(24):
            nx, ny = y, (2 * x + 3 * y) % 5
            b[nx + 5 * ny] = _rol(a[x + 5 * y], (t + 1) * (t + 2) // 2)
            x, y = nx, ny
        a = [
            b[i] ^ (~b[(i % 5 + 1) % 5 + 5 * (i // 5)] & _M & b[(i % 5 + 2) % 5 + 5 * (i // 5)])
            for i in range(25)
        ]
        a[0] ^= rc
    return a


def keccak_slow(data, rate=136, size=32, suffix=0x01):
    p = bytearray(data)
    p.append(suffix)
    while len(p) % rate:
        p.append(0)
    p[-1] |= 0x80
    a = [0] * 25
    for o in range(0, len(p), rate):
        for i in range(rate // 8):
            a[i] ^= int.from_bytes(p[o + 8 * i : o + 8 * i + 8], "little")
        a = _f1600(a)
    return b"".join(w.to_bytes(8, "little") for w in a)[:size]


# ------------------------------------------------------------------------ RLP
def _len(n, base):
    if n < 56:
        return bytes([base + n])
    b = n.to_bytes((n.bit_length() + 7) // 8, "big")
    return bytes([base + 55 + len(b)]) + b


def rlp(x):
    if isinstance(x, (bytes, bytearray)):
        x = bytes(x)
        if len(x) == 1 and x[0] < 0x80:
            return x
        return _len(len(x), 0x80) + x
    body = b"".join(rlp(i) for i in x)
    return _len(len(body), 0xC0) + body


def rlp_list_raw(items):
    """List of already encoded items."""
    body = b"".join(items)
    return _len(len(body), 0xC0) + body


class BadRlp(Exception):
    pass


def unrlp(b):
    """Strict decoder: bytes or nested lists."""
    x, end = _unrlp(b, 0, 0)
    if end != len(b):
        raise BadRlp("trailing bytes")
    return x


def _unrlp(b, i, depth):
    if i >= len(b):
        raise BadRlp("too short")
    if depth > 200:
        raise BadRlp("too deep")
    t = b[i]
    if t < 0x80:
        return b[i : i + 1], i + 1
    base = 0x80 if t < 0xC0 else 0xC0
    n = t - base
    i += 1
    if n > 55:
        ll = n - 55
        lb = b[i : i + ll]
        if len(lb) < ll or lb[0] == 0:
            raise BadRlp("length")
        n = int.from_bytes(lb, "big")
        i += ll
        if n < 56:
            raise BadRlp("long form for short")
    if i + n > len(b):
        raise BadRlp("too short")
    if base == 0x80:
        s = b[i : i + n]
        if n == 1 and s[0] < 0x80:
            raise BadRlp("single byte")
        return s, i + n
    out, end = [], i + n
    while i < end:
        x, i = _unrlp(b, i, depth + 1)
        out.append(x)
    if i != end:
        raise BadRlp("list overrun")
    return out, end


def int_be(n):
    return n.to_bytes((n.bit_length() + 7) // 8, "big")


# ----------------------------------------------------------------- hex prefix
def nibbles(b):
    out = []
    for x in b:
        out.append(x >> 4)
        out.append(x & 15)
    return tuple(out)


def hp(nib, leaf):
    f = 2 if leaf else 0
    if len(nib) % 2:
        seq = (f + 1,) + tuple(nib)
    else:
        seq = (f, 0) + tuple(nib)
    return bytes(seq[i] * 16 + seq[i + 1] for i in range(0, len(seq), 2))


def unhp(b):
    n = nibbles(b)
    if not n or n[0] > 3 or (n[0] % 2 == 0 and n[1] != 0):
        raise BadRlp("hex prefix")
    return (n[1:] if n[0] % 2 else n[2:]), n[0] >= 2


# ----------------------------------------------------- Merkle-Patricia trie
EMPTY_ROOT = keccak(rlp(b""))


def _node(items, depth):
    """Structure of the node for items (list of (nibbles, value), sorted)."""
    if len(items) == 1:
        k, v = items[0]
        return [hp(k[depth:], True), v]
    first, last = items[0][0], items[-1][0]
    n = depth
    m = min(len(first), len(last))
    while n < m and first[n] == last[n]:
        n += 1
    if n > depth:
        return [hp(first[depth:n], False), _ref(_node(items, n))]
    kids = []
    value = b""
    i = 0
    if len(items[0][0]) == depth:
        value = items[0][1]
        i = 1
    for nib in range(16):
        j = i
        while j < len(items) and items[j][0][depth] == nib:
            j += 1
        kids.append(_ref(_node(items[i:j], depth + 1)) if j > i else b"")
        i = j
    return kids + [value]


def _ref(struct):
    e = rlp(struct)
    return struct if len(e) < 32 else keccak(e)


def trie_root(contents):
    """Root hash of {key: value}; keys as they are in the trie (hash them first
    in secure mode)."""
    if not contents:
        return EMPTY_ROOT
    items = sorted((nibbles(k), v) for k, v in contents.items())
    return keccak(rlp(_node(items, 0)))


def trie_root_node(contents):
    items = sorted((nibbles(k), v) for k, v in contents.items())
    return rlp(_node(items, 0))


def trie_path(contents, key):
    """Encodings of the nodes from the root towards key, in order, up to the
    node of the key or the node that shows it is absent. Each as
    (encoding, hashed) where hashed tells whether it is referenced by hash (the
    root counts as such)."""
    items = sorted((nibbles(k), v) for k, v in contents.items())
    nib = nibbles(key)
    out = []
    depth = 0
    while items:
        s = _node(items, depth)
        e = rlp(s)
        out.append((e, len(e) >= 32 or not out))
        if len(s) == 2:
            p, leaf = unhp(s[0])
            if leaf or nib[depth : depth + len(p)] != p:
                break
            depth += len(p)
        else:
            if len(nib) == depth:
                break
            items = [i for i in items if len(i[0]) > depth and i[0][depth] == nib[depth]]
            depth += 1
    return out


def trie_way(node, root, key):
    """The way from the root towards a key through stored nodes. node(hash) gives
    the bytes stored for a hash; root is the root reference. Returns the encodings
    of the nodes on it in order, the hashes of those that are stored, the part of
    the key that is left and the last structure."""
    nib = nibbles(key)
    at = 0
    ways, hashes = [], []
    ref = root
    while True:
        if isinstance(ref, list):
            s, e = ref, rlp(ref)
        else:
            if len(ref) == 32:
                hashes.append(ref)
                e = node(ref)
            else:
                e = ref
            s = unrlp(e)
        ways.append(e)
        if len(s) == 2:
            p, leaf = unhp(s[0])
            if leaf or nib[at : at + len(p)] != p:
                break
            at += len(p)
            ref = s[1]
        else:
            if at == len(nib) or s[nib[at]] == b"":
                break
            ref = s[nib[at]]
            at += 1
    return ways, hashes, nib[at:], s


def trie_nodes(contents):
    """Encodings of all nodes of the trie (inline ones too)."""
    items = sorted((nibbles(k), v) for k, v in contents.items())
    out = []

    def walk(items, depth):
        s = _node(items, depth)
        out.append(rlp(s))
        if len(s) == 2:
            p, leaf = unhp(s[0])
            if not leaf:
                walk(items, depth + len(p))
        else:
            for n in range(16):
                sub = [i for i in items if len(i[0]) > depth and i[0][depth] == n]
                if sub:
                    walk(sub, depth + 1)

    if items:
        walk(items, 0)
    return out


def node_kind(e):
    s = unrlp(e)
    if len(s) == 17:
        return "branch"
    return "leaf" if unhp(s[0])[1] else "extension"


def well_formed_node(b):
    """Is b the encoding of a node of the Ethereum format? (None: not decided
    here, which concerns only extensions with an empty path.)"""
    try:
        s = unrlp(b)
    except BadRlp:
        return False
    return _well_formed(s)


def _well_formed(s):
    if not isinstance(s, list) or len(s) not in (2, 17):
        return False
    if len(s) == 2:
        if not isinstance(s[0], bytes):
            return False
        try:
            p, leaf = unhp(s[0])
        except BadRlp:
            return False
        if leaf:
            return isinstance(s[1], bytes)
        ok = _ref_ok(s[1])
        return None if ok and not p else ok
    if not isinstance(s[16], bytes):
        return False
    res = True
    for r in s[:16]:
        if r == b"":
            continue
        ok = _ref_ok(r)
        if ok is False:
            return False
        if ok is None:
            res = None
    return res


def _ref_ok(r):
    if isinstance(r, bytes):
        return len(r) == 32
    if len(rlp(r)) >= 32:
        return False
    return _well_formed(r)


# ------------------------------------------------------------ data references
def data_hash(key, data):
    return int.from_bytes(keccak(key + data), "big")


def data_reference(key, data):
    return rlp([b"FF", key, data, int_be(data_hash(key, data))])


# ---------------------------------------------------------------- Merkle tree
MERKLE_HASHES = [
    "sha256", "md5", "sha224", "sha384", "sha512",
    "sha3_256", "sha3_224", "sha3_384", "sha3_512",
]


def H(name, data):
    return getattr(hashlib, name)(data).digest()


def merkle_leaf(name, secure, value):
    return H(name, value) if secure else value


def merkle_root(name, leaves):
    level = list(leaves)
    while len(level) > 1:
        nxt = [H(name, level[i] + level[i + 1]) for i in range(0, len(level) - 1, 2)]
        if len(level) % 2:
            nxt.append(level[-1])
        level = nxt
    return level[0]


def merkle_fold(name, leaf, siblings):
    """siblings: list of (b"left"/b"right", bytes)"""
    h = leaf
    for side, s in siblings:
        h = H(name, s + h) if side == b"left" else H(name, h + s)
    return h


def merkle_path(name, leaves, index):
    level = list(leaves)
    out = []
    while len(level) > 1:
        if not (index == len(level) - 1 and len(level) % 2):
            if index % 2:
                out.append((b"left", level[index - 1]))
            else:
                out.append((b"right", level[index + 1]))
        nxt = [H(name, level[i] + level[i + 1]) for i in range(0, len(level) - 1, 2)]
        if len(level) % 2:
            nxt.append(level[-1])
        level = nxt
        index //= 2
    return out


def self_check():
    assert keccak_slow(b"").hex() == "c5d2460186f7233c927e7db2dcc703c0e500b653ca82273b7bfad8045d85a470"
    for n in (0, 1, 135, 136, 137, 300):
        assert keccak_slow(b"q" * n) == keccak(b"q" * n)
    assert keccak_slow(b"abc", suffix=0x06) == hashlib.sha3_256(b"abc").digest()
    # Vectors of the Ethereum foundation (trietest.json, trieanyorder.json)
    assert trie_root({b"do": b"verb", b"horse": b"stallion", b"doge": b"coin", b"dog": b"puppy"}).hex() == \
        "5991bb8c6514148a29db676a14ac506cd2cd5775ace63c30a4fe457715e9ac84"
    assert trie_root({b"A": b"aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa"}).hex() == \
        "d23786fb4a010da3ce639d66d5e904a11dbc02746d1ce25029e53290cabf28ab"
    assert trie_root({b"foo": b"bar", b"food": b"bass"}).hex() == \
        "17beaa1648bafa633cda809c90c04af50fc8aed3cb40d16efbddee6fdf63c4c3"
    assert trie_root({b"be": b"e", b"dog": b"puppy", b"bed": b"d"}).hex() == \
        "3f67c7a47520f79faa29255d2d3c084a7a6df0453116ed7232ff10277a8be68b"
    assert EMPTY_ROOT.hex() == "56e81f171bcc55a6ff8345e692c0f86e5b48e01b996cadc001622fb5e363b421"


if __name__ == "__main__":
    self_check()
    print("ok")
