"""C50: key classes have to be complete and keep to their role."""
from hypothesis import strategies as st

import keys
from engine import Campaign, Enumeration
from lib import ensure, same
from pymt import base
from pymt.keypairs import RsaAuthKeyPair, RsaEncKeyPair, RsaKeyPair

RULE = (
    "Classes are put together from the abstract key pair and key ring classes by generated choices: which operations "
    "they define, at which level of a chain of derived classes or mix-in classes, and as what (method, property, class "
    "or static method). An object can be made exactly if every operation of the interface (listed in the check) is "
    "defined somewhere; it then has the operations given to it and is an instance of its abstract class, and no "
    "abstract class itself can be made into an object. Objects of the library's own key pair classes (and of classes "
    "derived from them) are checked against their abstract classes and use or refuse every operation of either role. "
    "Complete enumeration of the classes that lack one "
    "or two operations. Non-trivial: an operation was left out, or they were spread over at least two classes."
)
ASSUMPTIONS = []
COMMON = ["__str__", "__repr__", "__hash__", "__eq__", "generate_keypair", "sign", "signature_valid", "encrypt",
          "decrypt", "from_key_file", "to_key_file", "from_key_string", "to_key_string"]
PAIR = COMMON + ["public_key_string", "public_key", "nickname"]
BASES = {"AbstractKeyPair": PAIR, "AbstractAuthKeyPair": PAIR, "AbstractEncKeyPair": PAIR,
         "AbstractKeyRing": COMMON, "AbstractAuthKeyRing": COMMON, "AbstractEncKeyRing": COMMON}
PROPS = ("public_key_string", "public_key", "nickname")
HASH_EQ = ("__hash__", "__eq__")


def definition(name, mark, form):
    if name == "__eq__":
        return lambda self, other: self is other
    if name == "__hash__":
        return lambda self: mark
    if name in ("__str__", "__repr__"):
        return lambda self: "text %d" % mark
    if name in PROPS:
        return property(lambda self: mark) if form != 1 else mark
    return [lambda self, *a: mark, classmethod(lambda cls, *a: mark), staticmethod(lambda *a: mark)][form % 3]


def check(case, ctx):
    abstract = getattr(base, case["base"])
    ops = BASES[case["base"]]
    levels = [{} for _ in range(case["levels"])]
    marks = {}
    missing = [ops[i % len(ops)] for i in case["without"]]
    # A class that defines __eq__ alone has no hash, in any Python program.
    if "__hash__" in missing and "__eq__" not in missing or "__eq__" in missing and "__hash__" not in missing:
        missing = [m for m in missing if m not in HASH_EQ]
    for i, op in enumerate(ops):
        if op in missing:
            continue
        at = 0 if op in HASH_EQ else case["at"][i % len(case["at"])] % len(levels)
        marks[op] = 7 + i
        levels[at][op] = definition(op, 7 + i, case["forms"][i % len(case["forms"])])
    if case["mixins"]:
        parts = [type("Part%d" % i, (), d) for i, d in enumerate(levels)]
        cls = type("Made", tuple(parts) + (abstract,), {})
    else:
        cls = abstract
        for i, d in enumerate(levels):
            cls = type("Level%d" % i, (cls,), d)
    ctx.tag(case["base"], "mix-ins" if case["mixins"] else "chain", "incomplete" if missing else "complete")
    ctx.nt(missing or len(levels) > 1)
    # Mix-ins without the operation inherit object's own of these.
    inherited = {"__str__", "__repr__", "__hash__", "__eq__"} if case["mixins"] else set()
    lacking = [m for m in missing if m not in inherited]
    try:
        obj = cls()
    except TypeError as e:
        ensure(missing, "a class of %s with every operation cannot be made: %s", case["base"], e)
        return
    ensure(not lacking, "a class of %s without %s can be made", case["base"], lacking)
    ensure(isinstance(obj, abstract), "not an instance of %s", case["base"])
    for op, mark in marks.items():
        if op in ("__str__", "__repr__"):
            same((str if op == "__str__" else repr)(obj), "text %d" % mark, op)
        elif op == "__hash__":
            same(hash(obj), mark, op)
        elif op == "__eq__":
            ensure(obj == obj and not obj == object(), "equality of a derived class")
        elif op in PROPS:
            same(getattr(obj, op), mark, op)
        else:
            same(getattr(obj, op)(), mark, op)


def role(case, ctx):
    which = case["which"]
    cls = {"RsaKeyPair": RsaKeyPair, "RsaAuthKeyPair": RsaAuthKeyPair, "RsaEncKeyPair": RsaEncKeyPair}[which]
    for i in range(case["derived"]):
        cls = type("Derived%d" % i, (cls,), {})
    p = keys.pair_of(cls, case["key"], "name")
    want = {"RsaKeyPair": (True, False, False), "RsaAuthKeyPair": (True, True, False),
            "RsaEncKeyPair": (True, False, True)}[which]
    same(tuple(isinstance(p, c) for c in (base.AbstractKeyPair, base.AbstractAuthKeyPair, base.AbstractEncKeyPair)),
         want, "abstract classes of " + which)
    same(tuple(isinstance(p, c) for c in (base.AbstractKeyRing, base.AbstractAuthKeyRing, base.AbstractEncKeyRing)),
         (False, False, False), "key rings among the classes of " + which)
    for name in BASES:
        try:
            getattr(base, name)()
        except TypeError:
            pass
        else:
            ensure(False, "%s can be made into an object", name)
    ctx.tag(which)
    ctx.nt(True)
    # The role stays with derived classes, and importing makes objects of the class asked.
    other, text = keys.pair("all", 1 + case["key"]), b"text of the message"
    calls = {"sign": lambda: other.signature_valid(text, p.sign(text), p.public_key),
             "signature_valid": lambda: p.signature_valid(text, other.sign(text), other.public_key),
             "encrypt": lambda: other.decrypt(p.encrypt(text, other.public_key), p.public_key) == text,
             "decrypt": lambda: p.decrypt(other.encrypt(text, p.public_key), other.public_key) == text}
    refused = {"RsaKeyPair": [], "RsaAuthKeyPair": ["encrypt", "decrypt"],
               "RsaEncKeyPair": ["sign", "signature_valid"]}[which]
    for name, call in calls.items():
        try:
            got = call()
        except NotImplementedError:
            got = "refused"
        same(got, "refused" if name in refused else True, "%s of a class derived from %s" % (name, which))
    back = cls.from_key_string(p.to_key_string("secret"), "secret")
    ensure(type(back) is cls and back == p and hash(back) == hash(p), "a class derived from %s changes", which)


def lacking(tier):
    for b, ops in BASES.items():
        yield {"base": b, "levels": 1, "without": [], "at": [0], "forms": [0], "mixins": False}
        for i in range(len(ops)):
            for j in range(i, len(ops)):
                for mixins in (False, True):
                    yield {"base": b, "levels": 1 + (i + j) % 3, "without": [i, j], "at": [i, j, i + j],
                           "forms": [i, j], "mixins": mixins}


def roles(tier):
    for which in ("RsaKeyPair", "RsaAuthKeyPair", "RsaEncKeyPair"):
        for derived in range(4):
            for key in range(3):
                yield {"which": which, "derived": derived, "key": key}


@st.composite
def cases(draw):
    few = st.lists(st.integers(0, 15), min_size=1, max_size=16)
    return {"base": draw(st.sampled_from(sorted(BASES))), "levels": draw(st.integers(1, 5)),
            "without": draw(st.lists(st.integers(0, 15), max_size=draw(st.sampled_from([0, 1, 3, 16])))),
            "at": draw(few), "forms": draw(st.lists(st.integers(0, 2), min_size=1, max_size=16)),
            "mixins": draw(st.booleans())}


CAMPAIGNS = [
    Enumeration("lacking", lacking, check),
    Enumeration("roles", roles, role),
    Campaign("classes", lambda tier: cases(), check, 3000, 60000),
]
