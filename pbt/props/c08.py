"""C08: no exclusion proof verifies for a key that is there."""
import gens
import refs
from engine import Campaign, Enumeration
from lib import attempt, ensure
from props import again, attack, large
from pymt.empt import RootEMPT
from pymt.mpt import MPT
from pymt.proof import Proof

RULE = (
    "Exclusion proofs put together from the path of a target in the trie or in one a few operations "
    "away, with up to four mutations as in C06 (targets include all stored keys, with the closing leaf "
    "made to fit). Accepted ones have to have an absent target (by the model), the root of the trie, "
    "every hash-referenced node of the target's path and no node off it (by the reference trie). "
    "Non-trivial: at least one mutation with effect, or a proof of another root. The enumeration takes "
    "every set of up to three keys of a universe of nine, every choice of the trie's own nodes, every "
    "target of the universe and every closing leaf that fits a suffix of it."
) + large.RULE + again.RULE
ASSUMPTIONS = ["Nobody finds Keccak-256 collisions."]


def verdict(v, proof):
    ok, got = attempt(v.verify_proof_of_exclusion, proof)
    return ok and bool(got)  # exceptions are the matter of C09


def check_attack(case, ctx):
    proof, trie, contents, done, foreign = attack.forge(case, True)
    ctx.nt(done > 0 or bool(foreign))
    ctx.tag("foreign or old root" if foreign else "own root")
    if not contents:
        return
    for which in (0, 1):
        got = verdict(attack.verifier_of(trie, case["secure"], which), proof)
        ctx.tag("accepted" if got else "rejected")
        if proof.target_key in contents:
            ctx.tag("target stored")
        if got:
            why = attack.why_not_exclusion(proof, trie, contents)
            ensure(why is None, "an exclusion proof verified although %s", why)


def check_small(case, ctx):
    t, model = gens.build(MPT, case)
    v = RootEMPT(t.root())
    ctx.nt(len(model) > 1)
    for target in gens.UNIVERSE:
        nib = refs.nibbles(target)
        ends = [refs.rlp([refs.hp(nib[d:], True), b"null"]) for d in range(len(nib) + 1)]
        for nodes in attack.node_sets(model, target):
            for end in ends:
                p = Proof(target, t.root_hash(), nodes + (end,), b"MPT-POE")
                ctx.count("verifications")
                if verdict(v, p):
                    ctx.count("accepted")
                    why = attack.why_not_exclusion(p, t, model)
                    ensure(why is None, "an exclusion proof verified although %s", why)


CAMPAIGNS = [
    Enumeration("small-sets", lambda tier: gens.small_contents(most=2 if tier == "quick" else 4), check_small),
    Campaign("attack", lambda tier: attack.attacks(), check_attack, 6000, 300000),
    Campaign("scale", lambda tier: gens.scale(200), lambda case, ctx: large.check_forged(case, ctx, True), 16, 1200),
    Campaign("again", lambda tier: again.programs(("mpt", "mpt", "sparse", "empt")),
             lambda case, ctx: again.check_old_proofs(case, ctx, False), 1200, 24000),
]
