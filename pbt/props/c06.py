"""C06: no inclusion proof verifies for a key that is not there."""
import gens
import refs
from engine import Campaign, Enumeration
from lib import ensure, must, attempt, short
from props import again, attack, large, longs
from pymt.empt import RootEMPT
from pymt.mpt import MPT
from pymt.proof import Proof

RULE = (
    "Genuine inclusion proofs, of the trie or of one a few operations away, with up to four mutations: "
    "nodes dropped, repeated, reordered, replaced by other genuine nodes or by forged ones made for the "
    "target, bytes flipped, cut or added, another target (prefixes, extensions, near misses, absent "
    "keys), another claimed root, spliced paths. Accepted ones have to have a stored target (by the "
    "model), the root of the trie and every hash-referenced node of the target's path (by the reference "
    "trie). Non-trivial: at least one mutation with effect, or a proof of another root. The enumeration "
    "takes every set of up to three keys of a universe of nine, every choice of the trie's own nodes and "
    "every target of the universe."
) + large.RULE + again.RULE + longs.RULE
ASSUMPTIONS = ["Nobody finds Keccak-256 collisions."]


def verdict(v, proof):
    ok, got = attempt(v.verify_proof_of_inclusion, proof)
    return ok and bool(got)  # exceptions are the matter of C09


def check_attack(case, ctx):
    proof, trie, contents, done, foreign = attack.forge(case, False)
    ctx.nt(done > 0 or bool(foreign))
    ctx.tag("foreign or old root" if foreign else "own root")
    if not contents:
        return
    for which in (0, 1):
        got = verdict(attack.verifier_of(trie, case["secure"], which), proof)
        ctx.tag("accepted" if got else "rejected")
        if proof.target_key not in contents:
            ctx.tag("target absent")
        if got:
            why = attack.why_not_inclusion(proof, trie, contents)
            ensure(why is None, "an inclusion proof verified although %s", why)


def check_small(case, ctx):
    t, model = gens.build(MPT, case)
    v = RootEMPT(t.root())
    ctx.nt(len(model) > 1)
    others = [u for u in gens.UNIVERSE]
    for target in others:
        for nodes in attack.node_sets(model, target):
            p = Proof(target, t.root_hash(), nodes, b"MPT-POI")
            ctx.count("verifications")
            got = verdict(v, p)
            if got:
                ctx.count("accepted")
                why = attack.why_not_inclusion(p, t, model)
                ensure(why is None, "an inclusion proof verified although %s", why)


CAMPAIGNS = [
    Enumeration("long values", longs.cases, longs.check_forged),
    Enumeration("small-sets", lambda tier: gens.small_contents(most=3 if tier == "quick" else 4), check_small),
    Campaign("attack", lambda tier: attack.attacks(), check_attack, 4000, 300000),
    Campaign("scale", lambda tier: gens.scale(200), lambda case, ctx: large.check_forged(case, ctx, False), 24, 1200),
    Campaign("again", lambda tier: again.programs(("mpt", "mpt", "sparse", "empt")),
             lambda case, ctx: again.check_old_proofs(case, ctx, True), 1200, 24000),
]
