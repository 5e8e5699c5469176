#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M = "model-based stateful property testing"
D = "differential property testing against an independent reference"
A = "mutation fuzzing with an independent verdict oracle"
R = "round-trip property testing"
T = {
    "C01": (M + " against a dictionary, with complete small scopes",
            "oracle is a Python dictionary; assumes byte keys and non-empty byte values"),
    "C02": (D + " implementation of the Ethereum root, with complete small scopes",
            "trusts refs.trie_root, itself checked against the published Ethereum vectors at every start"),
    "C03": (M + " over a recording storage, every published root reopened",
            "oracle is the list of models at each root; assumes the storage keeps what it is given"),
    "C04": ("exhaustive fault injection at every storage access of generated operations on generated tries",
            "every access of each explored operation is failed in turn; the tries and operations are sampled; single faults"),
    "C05": ("property testing of generated proofs with independent verifiers and complete small scopes",
            "verifiers include the trie, reloaded and root-only ones; keys and contents are sampled beyond the enumerated scope"),
    "C06": (A + " (model and reference trie), with complete small scopes",
            "soundness is sampled; the claim rests on Keccak collision resistance as the statement says"),
    "C07": ("property testing of generated exclusion proofs with independent verifiers and complete small scopes",
            "as C05, absent keys near every stored key"),
    "C08": (A + " (model and reference trie), with complete small scopes",
            "as C06 for exclusion proofs"),
    "C09": ("structure-aware fuzzing of proof nodes with a verdict-or-documented-error oracle",
            "nesting up to thousands of levels, inputs up to some hundred KB"),
    "C10": (R + " inside generated histories, copy and original run on side by side",
            "oracle is a dictionary and the reference root"),
    "C11": (M + " of the mapping interface against a dictionary",
            "values are bytes, bytearrays and two kinds of self-encoding objects"),
    "C12": (M + " with injected tampering of the data storage",
            "tampering changes values behind stored keys; the trie storage is honest"),
    "C13": (M + " with derived views in lockstep",
            "views are derived at sampled moments and compared with the model of that moment"),
    "C14": (M + " with rebuilds and losses of trie nodes",
            "the data storage is honest; values are of the kinds the trie accepts"),
    "C15": (M + " over several objects, every other object observed after each operation",
            "objects are given different storages unless made without any; each case in its own process"),
    "C16": (D + " Merkle root, with every leaf count enumerated up to a limit",
            "oracle is an independent fold over hashlib and Keccak"),
    "C17": ("property testing of generated Merkle proofs with every leaf count enumerated up to a limit",
            "oracle is an independent fold over hashlib and Keccak"),
    "C18": (A + " (independent fold)",
            "known finding D26 (inner nodes pass as leaves) is recognised by an exact test and listed; every other forgery is reported"),
    "C19": (R + " of proofs through JSON and RLP", "text that JSON cannot hold may be refused, never altered"),
    "C20": (M + " of nibble paths against tuples, with all short pairs enumerated", "oracle is a tuple of nibbles"),
    "C21": ("round-trip and differential property testing of the node codec, all short strings enumerated",
            "trusts an independent reader and writer of the format in refs.py"),
    "C22": ("round-trip and corruption fuzzing against an independent decoder", "trusts the independent RLP in refs.py"),
    "C23": (D + " PKCS#1 v1.5 verification",
            "nine fixed RSA keys of 1024 to 2048 bits; no claim about the strength of RSA"),
    "C24": ("round-trip and tampering property testing of envelopes",
            "fixed RSA keys; known finding D25 (signature covers the ciphertext only) is shown by its own demonstration and listed"),
    "C25": (R + " of exported keys under near-miss passphrases",
            "most cases run with the iteration count of the key derivation in pycryptodome turned down (it is part of the export), some at full cost"),
    "C26": ("round-trip and tampering property testing of password encryption", "passwords are any text that has an encoding"),
    "C27": (D + " Keccak sponge and hashlib, every length up to 600 enumerated", "trusts hashlib for SHA-2"),
    "C28": ("mutation fuzzing of keys, differential against loading them with pycryptodome",
            "trusts pycryptodome's key reader as the meaning of a valid key"),
    "C29": ("metamorphic property testing of equality and hashing over pairs of generated objects",
            "equality is required for equal contents, separation for different ones as the statement says"),
    "C30": ("enumeration of wrongly typed arguments on every entry point, repeated inside generated histories",
            "the table of entry points and types is written by hand from the documentation"),
    "C31": (M + " in lockstep over storages of different kinds with reopening",
            "storages keep what they are given"),
    "C32": (R + " of time stamps over generated zones, statistical enumeration of identifiers",
            "instants of years 1001 to 9998; identifiers are sampled by the thousand"),
    "C33": (M + " of a scratch directory next to a name-resolving model",
            "regular files, directories and symbolic links; names without ./ only in absolute form"),
    "C34": (M + " of key pairs, and complete lists of lengths, classes and curves with really generated keys",
            "keys come from the system's randomness, so a run repeats the cases but not the keys; freshness is judged "
            "within a run and between forked processes"),
    "C35": (M + " of looking at proofs from every source",
            "oracle is the set of fields at the start and what the proof was made of"),
    "C36": (M + " of several tries over one storage, with small complete interleavings",
            "oracle is one dictionary and reference root per trie; rebuilding, which empties the node storage, is left out"),
    "C37": (D + " of the Merkle tree, histories and judged proofs",
            "trusts refs.merkle_root and hashlib"),
    "C38": ("generated programs in threads under generated deterministic schedules, differential against each alone",
            "switches at lines and bytecode instructions of the library, not inside its dependencies"),
    "C39": ("generated programs in differently configured processes, differential between them",
            "four configurations of one Python version"),
    "C40": (D + " on the complete storage, with nodes taken away singly, by path and at random",
            "missing nodes only, no altered ones; sets of missing nodes are sampled beyond single ones"),
    "C41": ("property testing of text forms and errors with a search for secrets",
            "fixed RSA keys; secrets are looked for in plain, hexadecimal, decimal and base64 form"),
    "C42": ("exhaustive interruption at every executed line of generated operations on generated objects",
            "single interruptions at line granularity; long operations are sampled at every n-th line"),
    "C43": (D + " of the trie and its walk through the nodes, item by item",
            "trusts the reference trie (checked against published vectors)"),
    "C44": ("stateful property testing over storages that note every access, against the reference walk",
            "the reference walk reads the stored nodes; a fourfold number of accesses is tolerated"),
    "C45": ("stateful property testing of sets of copies against one model each",
            "storages of copied tries are dictionaries"),
    "C46": ("stateful property testing with callers that overwrite arguments and results, against the reference model",
            "values of extended tries, data of paths and reference lists of branches are shared by design"),
    "C47": ("differential testing against an independent reader and writer of every layout, and committed samples",
            "pycryptodome's protection of exported private keys is trusted"),
    "C48": ("mutation fuzzing of encodings (structure-aware and bytes), with an independent reader and the models as oracles",
            "no Keccak-256 collisions"),
    "C49": ("differential testing of tries with missing nodes against the error classes expected, and a client that fetches nodes on demand",
            "node storages raise key errors as dictionaries do"),
    "C50": ("generated classes against a list of the interface (complete enumeration of small omissions and random ones)",
            "the interface is the list of operations the abstract classes had when the check was written"),
}
BOUND = ("Searches a fixed, seeded number of generated cases (counts in the evidence); absence of violations is "
         "evidence over what was explored, no proof. ")
checks = []
for line in open(os.path.join(HERE, "properties.jsonl")):
    pid = json.loads(line)["id"]
    tech, note = T[pid]
    checks.append({
        "property": pid,
        "quick_cmd": "./check %s" % pid,
        "thorough_cmd": "./check %s --tier thorough" % pid,
        "evidence_file": "evidence/%s.json" % pid,
        "technique": tech,
        "level": "fault_enumeration" if pid in ("C04", "C42") else "exploration",
        "level_note": BOUND + note[0].upper() + note[1:] + ".",
    })
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump({
        "version": 1,
        "setup_cmd": "/opt/venv/bin/python -B pbt/refs.py",
        "hooks": {"guard": "none", "enable": "no hooks: the checks use public interfaces only", "source_commits": []},
        "checks": checks,
        "not_applicable": [],
        "notes": "Each check replays the saved cases in corpus/<id>, searches, shrinks any failure and writes it to "
                 "replays/<id>; './check <id> --replay FILE' runs such a file again.",
    }, f, indent=1)
    f.write("\n")
print(len(checks))
