"""C07: every absent key has a verifiable exclusion proof."""
import gens
from engine import Campaign, Enumeration
from props import again, c05, endurance, large

RULE = (
    "For generated contents (as in C05) an exclusion proof is made for absent keys: everything asked "
    "about (pool, empty key, all prefixes, extensions and one-nibble changes of stored keys, up to 40 "
    "per case) and verified by the trie, sparse and reloaded copies and verifiers that know only the "
    "root; for stored keys it has to be refused. Non-trivial: at least two stored keys and one absent "
    "key. The enumeration takes every set of up to three (thorough: four) keys of a universe of nine."
) + large.RULE + endurance.RULE + again.RULE
ASSUMPTIONS = c05.ASSUMPTIONS


def check_contents(case, ctx):
    c05.check_proofs(case, ctx, False, probe_limit=30)


def check_small(case, ctx):
    c05.check_proofs(case, ctx, False, universe=gens.UNIVERSE)


def check_extended(case, ctx):
    c05.check_extended(case, ctx, False)


CAMPAIGNS = [
    Enumeration("small-sets", lambda tier: gens.small_contents(most=3 if tier == "quick" else 4), check_small),
    Campaign("contents", lambda tier: gens.contents(1, 12), check_contents, 520, 36000),
    Campaign("extended", lambda tier: c05.extended(), check_extended, 140, 9000),
    Campaign("scale", lambda tier: gens.scale(200), lambda case, ctx: large.check_proofs(case, ctx, False), 32, 900),
    Enumeration("endurance", endurance.tries, endurance.check_exclusion),
    Campaign("again", lambda tier: again.programs(("mpt", "mpt", "sparse", "empt")),
             lambda case, ctx: again.check_proofs(case, ctx, False), 1200, 18000),
]
