"""Key pairs in use get new keys and new names: what they did before keeps
belonging to the old keys, and what they do now to the new ones."""
from hypothesis import strategies as st

import keys
from lib import attempt, ensure, must, refuses, same

RULE = (
    " A campaign of its own takes one or two pairs through a generated sequence of uses, new keys (also back to former "
    "ones) and new nicknames; after every step everything made so far is judged by the keys and names of the moment."
)

POOL = [0, 1, 2, 3]
NICKS = ["Anna", "Bert", "a longer name", ""]


def programs(kinds):
    step = st.one_of(
        st.tuples(st.just("keys"), st.integers(0, 3), st.integers(0, 1)),
        st.tuples(st.just("keys"), st.integers(0, 3), st.integers(0, 1)),
        st.tuples(st.just("name"), st.integers(0, 3), st.integers(0, 1)),
        st.tuples(st.just("use"), st.integers(0, 3), st.integers(0, 1)))
    return st.fixed_dictionaries({
        "kinds": st.tuples(st.sampled_from(kinds), st.sampled_from(kinds)).map(list),
        "start": st.tuples(st.sampled_from(POOL), st.sampled_from(POOL)).map(list),
        "m": st.binary(max_size=30), "steps": st.lists(step.map(list), min_size=2, max_size=6)})


def walk(c, ctx):
    """Yields the two pairs, their names and what came last."""
    pairs = [keys.pair(k, i, "Anna") for k, i in zip(c["kinds"], c["start"])]
    nicks = ["Anna", "Anna"]
    yield pairs, nicks, "at the start"
    for n, (op, i, who) in enumerate(c["steps"]):
        if op == "keys":
            before = pairs[who].public_key
            keys.rekey(pairs[who], POOL[i])
            ctx.nt(pairs[who].public_key != before)
        elif op == "name":
            nicks[who] = NICKS[i]
            pairs[who].nickname = NICKS[i]
        yield pairs, nicks, "after step %d (%s of pair %d)" % (n, op, who)


def check_signing(c, ctx):
    made = []
    for (a, b), _, what in walk(c, ctx):
        for n, x in enumerate((a, b)):
            m = c["m"] + b"%d" % (len(made) % 3)
            pub = must(lambda: x.public_key)
            s = must(x.sign, m, what="signing " + what)
            ensure(keys.reference_verify(pub, m, s), "the signature of pair %d %s is not one of its key", n, what)
            same(must(x.sign, m), s, "signature made again " + what)
            made.append((m, s))
        for m, s in made[-8:]:
            for n, x in enumerate((a, b)):
                pub = x.public_key
                good = keys.reference_verify(pub, m, s)
                same(must(x.signature_valid, m, s), good, "verdict of pair %d, key implied, %s" % (n, what))
                for y in (a, b):
                    same(must(y.signature_valid, m, s, pub), good, "verdict on the key of pair %d %s" % (n, what))
                ctx.count("verdicts")


def check_envelopes(c, ctx):
    made, pubs = [], []
    for (a, b), _, what in walk(c, ctx):
        for x, y in ((a, b), (b, a)):
            m = c["m"] + b"%d" % len(made)
            made.append((m, must(x.encrypt, m, y.public_key, what="encrypting " + what), x.public_key, y.public_key))
        pubs = list(dict.fromkeys(pubs + [a.public_key, b.public_key]))
        for m, e, sender, receiver in made[-6:]:
            for n, x in enumerate((a, b)):
                for p in pubs:
                    ok, got = attempt(x.decrypt, e, p)
                    if x.public_key == receiver and p == sender:
                        same((ok, got), (True, m), "message opened by pair %d %s" % (n, what))
                    else:
                        ensure(not ok, "pair %d opened an envelope %s that is for %s: %r", n, what,
                               "another key" if x.public_key != receiver else "it, under another sender's key", got)
                ctx.count("openings")


def check_exports(c, ctx):
    from props.c25 import quick_derivation
    with quick_derivation():
        made = []
        for (a, b), nicks, what in walk(c, ctx):
            for n, x in enumerate((a, b)):
                same(must(lambda: x.nickname), nicks[n], "nickname of pair %d %s" % (n, what))
                p = "pass%d" % n
                made.append((must(x.to_key_string, p, what="exporting " + what), p, type(x), nicks[n], x.public_key))
            for text, p, cls, nick, pub in made[-4:]:
                got = must(cls.from_key_string, text, p, what="importing " + what)
                same((type(got), got.nickname, got.public_key), (cls, nick, pub), "an export imported " + what)
                refuses(cls.from_key_string, text, p + "x", what="importing with another passphrase " + what)
                for n, x in enumerate((a, b)):
                    if type(x) is cls:
                        same(got == x, nick == nicks[n] and pub == x.public_key, "equality with pair %d %s" % (n, what))
                ctx.count("imports")


def check_equality(c, ctx):
    for (a, b), nicks, what in walk(c, ctx):
        pubs = [a.public_key, b.public_key]
        alike = pubs[0] == pubs[1] and nicks[0] == nicks[1]
        if type(a) is type(b):
            same(must(lambda: a == b), alike, "equality " + what)
        e = must(lambda: a == b)
        same((must(lambda: b == a), must(lambda: a != b)), (e, not e), "equality, turned round and not, " + what)
        if e:
            same(hash(a), hash(b), "hashes of equal pairs " + what)
        for n, x in enumerate((a, b)):
            if pubs[n] in keys.PUBLIC:
                f = keys.pair_of(type(x), keys.PUBLIC.index(pubs[n]), nicks[n])
                ensure(f == x and x == f and not f != x, "pair %d is not equal to one made anew %s", n, what)
                same(hash(x), hash(f), "hash of pair %d and of one made anew %s" % (n, what))
                ensure(x in {f} and f in {x}, "pair %d and one made anew are not found in sets %s", n, what)
                g = keys.pair_of(type(x), keys.PUBLIC.index(pubs[n]), nicks[n] + "!")
                ensure(g != x and not x == g, "pair %d is equal to one of another name %s", n, what)
        ctx.count("comparisons")


def check_texts(c, ctx):
    seen = []
    for pairs, nicks, what in walk(c, ctx):
        for n, x in enumerate(pairs):
            s, r = must(str, x), must(repr, x)
            pub = x.public_key_string
            same(pub, x.public_key.decode(), "public key as text " + what)
            for label, t in (("short", s), ("long", r)):
                ensure(type(x).__name__ in t, "the %s text form %s does not name the class: %s", label, what, t)
                ensure(nicks[n] in t, "the %s text form %s does not give the nickname %r: %s", label, what, nicks[n], t)
            ensure(pub in r or repr(pub)[1:-1] in r, "the long text form %s does not give the public key: %s", what, r)
            for p in seen:
                if p != pub:
                    ensure(p not in r and repr(p)[1:-1] not in r, "the long text form %s gives another public key", what)
            if x.public_key in keys.PUBLIC:
                f = keys.pair_of(type(x), keys.PUBLIC.index(x.public_key), nicks[n])
                same((must(str, f), must(repr, f)), (s, r), "text forms of an equal pair made anew " + what)
            seen.append(pub)
            ctx.count("texts")
