"""Values that encode themselves, storages of several kinds, views of proofs."""
from hypothesis import strategies as st

import gens
import refs
from lib import must


class Obj:
    """A value with its own encoding, as extended tries accept them."""

    def __init__(self, payload):
        self.payload = payload

    def encode_rlp(self):
        return refs.rlp([b"obj", self.payload])

    @staticmethod
    def decode_rlp(data):
        return Obj(refs.unrlp(data)[1])

    def __eq__(self, other):
        return type(other) is Obj and other.payload == self.payload

    def __hash__(self):
        return hash(self.payload)

    def __repr__(self):
        return "Obj(%r)" % (self.payload,)


class Slotted:
    """The same with a payload kept apart from the encoding and falsy."""

    __slots__ = ("body",)

    def __init__(self, body):
        self.body = body

    def encode_rlp(self):
        return self.body

    def decode_rlp(self, data):
        return Slotted(data)

    def __reduce__(self):
        return Slotted, (self.body,)

    def __len__(self):
        return 0

    def __eq__(self, other):
        return type(other) is Slotted and other.body == self.body

    def __hash__(self):
        return hash(self.body)

    def __repr__(self):
        return "Slotted(%r)" % (self.body,)


def proof(payload):
    """An object of the library that encodes itself, always the same."""
    from pymt.proof import Proof

    return must(Proof.decode_rlp, refs.rlp([b"MT-POI", b"2026-01-02 03:04:05", payload, b"00" * 32,
                                            [[b"left", payload[:8].hex().encode()]] * (len(payload) % 3)]))


KINDS = {"b": bytes, "a": bytearray, "o": Obj, "s": Slotted, "p": proof}


def value(spec):
    """["b"|"a"|"o"|"s"|"p", payload] -> the value."""
    return KINDS[spec[0]](spec[1])


def spec(v):
    """The spec of a value."""
    if isinstance(v, (bytes, bytearray)):
        return ["b" if isinstance(v, bytes) else "a", bytes(v)]
    for kind, name in (("o", "payload"), ("s", "body")):
        if isinstance(v, KINDS[kind]):
            return [kind, getattr(v, name)]
    return ["p", v.target_key]


def encoding(v):
    return bytes(v) if isinstance(v, (bytes, bytearray)) else v.encode_rlp()


def data_specs():
    payload = st.one_of(gens.values(), gens.values(), st.just(b""))
    return st.one_of(
        payload.map(lambda p: ["b", p]),
        payload.map(lambda p: ["b", p]),
        payload.map(lambda p: ["a", p]),
        payload.map(lambda p: ["o", p]),
        payload.map(lambda p: ["s", p]),
        payload.map(lambda p: ["p", p]),
    )


def ref_root(model, secure):
    """Root of the extended trie of {key: value}."""
    return refs.trie_root(gens.inner(
        {k: refs.data_reference(k, encoding(v)) for k, v in model.items()}, secure))


def proof_fields(p):
    return (p.type, p.target_key, p.trie_root, p.proof)


# ------------------------------------------------------------------- storages
class ItemStore:
    """Only what a trie asks for: reading and writing of items. Values are
    handed out as fresh copies if wanted."""

    def __init__(self, fresh=False):
        self._d = {}
        self._fresh = fresh

    def __getitem__(self, key):
        v = self._d[bytes(key)]
        return bytes(bytearray(v)) if self._fresh else v

    def __setitem__(self, key, value):
        self._d[bytes(key)] = bytes(value)


class DocStore:
    """The methods that the documentation of the extended trie lists, and no
    other. (Without __iter__ Python would fall back to item reads by number, so
    iterating has to be refused in words.)"""

    def __init__(self):
        self._d = {}

    def __getitem__(self, key):
        return self._d[key]

    def __setitem__(self, key, value):
        self._d[key] = value

    def __delitem__(self, key):
        del self._d[key]

    def __contains__(self, key):
        return key in self._d

    def __len__(self):
        return len(self._d)

    def keys(self):
        return list(self._d)

    __iter__ = None


class RecordingStore:
    """Notes every write that is not addressed by the hash of its bytes, that
    alters an entry, and every removal."""

    def __init__(self):
        self._d = {}
        self.bad = []
        self.writes = 0

    def __getitem__(self, key):
        return self._d[key]

    def __setitem__(self, key, value):
        self.writes += 1
        if not isinstance(value, (bytes, bytearray)):
            self.bad.append("a %s was stored" % type(value).__name__)
        elif refs.keccak(bytes(value)) != bytes(key):
            self.bad.append("entry %s... is not addressed by its hash" % bytes(key).hex()[:16])
        elif key in self._d and self._d[key] != value:
            self.bad.append("entry %s... was altered" % bytes(key).hex()[:16])
        self._d[key] = value

    def __delitem__(self, key):
        self.bad.append("entry %s... was removed" % bytes(key).hex()[:16])
        del self._d[key]

    def pop(self, key, *default):
        self.bad.append("entry %s... was popped" % bytes(key).hex()[:16])
        return self._d.pop(key, *default)

    def clear(self):
        self.bad.append("the storage was cleared")
        self._d.clear()

    def get(self, key, default=None):
        return self._d.get(key, default)

    def __contains__(self, key):
        return key in self._d

    def __len__(self):
        return len(self._d)

    def __iter__(self):
        return iter(self._d)

    def keys(self):
        return self._d.keys()

    def values(self):
        return self._d.values()

    def items(self):
        return self._d.items()


class StorageFault(Exception):
    pass


class OSFault(StorageFault, OSError):
    pass


class KeyFault(StorageFault, KeyError):
    pass


class ValueFault(StorageFault, ValueError):
    pass


class TypeFault(StorageFault, TypeError):
    pass


class TimeoutFault(StorageFault, TimeoutError):
    pass


class StopFault(BaseException):
    """Like an interrupt while the storage works."""


FAULTS = [StorageFault, OSFault, KeyFault, ValueFault, TypeFault, TimeoutFault, StopFault]


class FaultyStore:
    """Raises at the access number `at` (counted from arm()), before or, for
    writes of nodes, after it took effect."""

    def __init__(self, counter):
        self._d = {}
        self.counter = counter

    def _tick(self, what, late=None):
        c = self.counter
        if c.at is None:
            if late:
                late()
            return
        c.n += 1
        if c.n - 1 == c.at:
            c.fired = what
            if late and c.late:
                late()
            raise c.fault
        if late:
            late()

    def __getitem__(self, key):
        self._tick("read")
        return self._d[key]

    def __setitem__(self, key, value):
        self._tick("write", lambda: self._d.__setitem__(key, value))

    def __delitem__(self, key):
        self._tick("removal")
        del self._d[key]

    def __contains__(self, key):
        self._tick("membership")
        return key in self._d

    def __len__(self):
        self._tick("length")
        return len(self._d)

    def __iter__(self):
        self._tick("iteration")
        return iter(list(self._d))

    def keys(self):
        self._tick("keys")
        return list(self._d)

    def values(self):
        self._tick("values")
        return list(self._d.values())

    def items(self):
        self._tick("items")
        return list(self._d.items())

    def get(self, key, default=None):
        self._tick("read")
        return self._d.get(key, default)

    def pop(self, key, *default):
        self._tick("removal")
        return self._d.pop(key, *default)


class FaultyData(FaultyStore):
    """A data storage: what failed did not happen."""

    def __setitem__(self, key, value):
        self._tick("data write")
        self._d[key] = value


class Counter:
    def __init__(self):
        self.at = None
        self.n = 0
        self.late = False
        self.fired = None
        self.fault = None

    def arm(self, at, late, kind=StorageFault):
        self.at, self.late, self.n, self.fired = at, late, 0, None
        self.fault = kind("storage failed at access %d" % at)

    def disarm(self):
        self.at = None
