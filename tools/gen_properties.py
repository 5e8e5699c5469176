#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the list lives here because JSON lines are hard to edit)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files,
                  "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                  "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                  "observe_at": list(observe), "hook_needed": None}})
M="src/pymt/mpt.py"; E="src/pymt/empt.py"; N="src/pymt/utils/node.py"; NP="src/pymt/utils/nibble_path.py"
PR="src/pymt/proof.py"; MT="src/pymt/mt.py"; MK="src/pymt/merkletools.py"; K="src/pymt/keypairs.py"; U="src/pymt/utils/utils.py"; H="src/pymt/utils/hash.py"

prop("C01","Patricia trie behaves as an exact key-value map",
 "After any sequence of writes and deletions (byte-string keys of any length including empty, non-empty values, plain or secure key-hashing mode), looking up a stored key returns exactly the value last written to it and membership is true for exactly the stored keys. Looking up or deleting any other key, including prefixes, extensions and near misses of stored keys, raises a lookup error (one of the library's own, a key error or, for an empty trie, a value error), returns no value and changes nothing. Method and operator syntax agree.",
 ["histories","inputs","configurations"],"every history of update/delete over every set of byte-string keys and non-empty values, in both modes",
 "The tests use about ten fixed words and one seeded random batch; which node splits, merges and path ends occur depends on the joint shape of the key set and on history.",
 [M,NP,N],[("MPT._get/_update/_delete/_contains","src/pymt/mpt.py"),("NibblePath.starts_with/common_prefix/consume/combine","src/pymt/utils/nibble_path.py")],
 [("_root","reference of the current root node (inline encoding or hash)","MPT"),("_storage","node store keyed by hash","MPT")],
 ["MPT.get","MPT.contains","MPT.delete","MPT.__getitem__"])
prop("C02","Root hash is the canonical Ethereum root of the contents",
 "At every point of every history the trie's root hash equals the Merkle-Patricia root that the Ethereum yellow paper defines for its current contents (for the Keccak-256 hashed keys in secure mode). It therefore depends only on the contents and not on the order, overwrites or deletions that led to them, and an empty or emptied trie has the well-known empty root.",
 ["histories","inputs","configurations"],"every set of key/non-empty-value pairs and every history that produces it",
 "A handful of published vectors fix a few roots; canonical form after deletions and at the 32-byte inline boundary depends on combinations the vectors do not reach.",
 [M,N,NP],[("inline-or-hash node references","Node.into_reference"),("branch collapse on delete","MPT._delete, MPT._build_new_node_from_last_branch"),("hex-prefix encoding","NibblePath.encode")],
 [("_root","root reference","MPT")],["MPT.root_hash"])
prop("C03","Every root ever published stays readable",
 "Every root the trie has ever returned can be opened over the same storage later and yields exactly the contents the trie had when it returned it, however the trie was changed since. The storage only grows: every stored entry is addressed by the Keccak-256 hash of its bytes and is never altered or removed by trie operations.",
 ["histories"],"every history, every intermediate root of it",
 "One test reopens one old root after two changes.",
 [M],[("content-addressed node writes","MPT._store_node"),("root passed to constructor","MPT.__init__")],[("_storage","append-only node store","MPT")],["MPT(storage, root)"])
prop("C04","A failing storage never corrupts the trie",
 "If a storage raises during any operation on a plain or extended trie other than rebuilding or clearing, at whatever access, the error reaches the caller and the trie still has exactly the root and contents (for an extended trie also the stored data) it had before the operation. Once the storage works again the same operation succeeds with its normal result.",
 ["fault_sequences","histories","crash_points"],"every history, every operation in it, every access (read, write, removal) of the node or data storage at which the storage can fail",
 "No test uses a failing storage; the claim quantifies over the position of the fault inside an operation.",
 [M],[("root replaced only after all nodes are stored","MPT.update, MPT.delete")],[("_root","root reference","MPT")],["MPT.update","MPT.delete","MPT.get"])
prop("C05","Every stored key has a verifiable inclusion proof",
 "For every trie of any contents and mode and every key stored in it, an inclusion proof can be produced and verifies against that trie, against a sparse copy, against a serialised and reloaded copy and against a verifier that knows only the root. Asking for an inclusion proof of a key that is not stored raises an error.",
 ["inputs","histories","configurations"],"every contents, every stored and every absent key, every verifier kind",
 "Tests check four keys of one trie; proofs that cross inline nodes, extensions, branch values or a short root are not reached.",
 [M,E,PR],[("MPT.get_proof_of_inclusion","src/pymt/mpt.py"),("MPT.verify_proof_of_inclusion","src/pymt/mpt.py"),("RootEMPT.verify_proof_of_inclusion","src/pymt/empt.py")],
 [],["verify_proof_of_inclusion"])
prop("C06","No inclusion proof verifies for a key that is not there",
 "Verification of an inclusion proof returns true only if the proof's target key is stored in the trie whose root is being verified against and the proof's claimed root is that root. In particular it never returns true for absent keys (prefixes and extensions of stored keys included), for proofs taken from a different or older root, or for proofs from which hash-referenced nodes on the path were removed or altered.",
 ["inputs","histories"],"every contents, every target key, every proof built from genuine, foreign, mutated, removed, reordered or invented nodes",
 "Tests only check that a genuine proof stops verifying after one insert or delete.",
 [M,PR],[("MPT.verify_proof_of_inclusion / _verify_proof_of_inclusion","src/pymt/mpt.py")],[],["verify_proof_of_inclusion"])
prop("C07","Every absent key has a verifiable exclusion proof",
 "For every non-empty trie and every key not stored in it, including prefixes, extensions and near misses of stored keys, an exclusion proof can be produced and verifies against that trie, a sparse copy, a reloaded copy and a root-only verifier. Asking for an exclusion proof of a stored key raises an error.",
 ["inputs","histories","configurations"],"every non-empty contents, every absent key, every verifier kind",
 "Tests use a few absent words whose search always ends in one of the easy places.",
 [M,E,PR],[("MPT.get_proof_of_exclusion","src/pymt/mpt.py"),("MPT.verify_proof_of_exclusion","src/pymt/mpt.py")],[],["verify_proof_of_exclusion"])
prop("C08","No exclusion proof verifies for a key that is there",
 "Verification of an exclusion proof returns true only if the proof's target key is absent from the trie whose root is being verified against and the proof's claimed root is that root. In particular it never returns true for a stored key, whatever genuine nodes of the trie are included, left out, repeated or replaced, nor for proofs taken from a different root or with unneeded nodes or missing nodes.",
 ["inputs","histories"],"every contents, every target key, every proof built from genuine, foreign, mutated, removed or invented nodes",
 "Tests only check that genuine proofs stop verifying after the trie changed; no test tries to forge one.",
 [M,PR],[("MPT.verify_proof_of_exclusion / _verify_proof_of_exclusion","src/pymt/mpt.py")],[],["verify_proof_of_exclusion"])
prop("C09","Verifying an untrusted trie proof always gives a verdict",
 "Verifying any proof object of the matching kind against a non-empty trie, whatever bytes its target key, claimed root and proof nodes contain and however many nodes there are, terminates with true or false and leaves the verifying trie unchanged. Only a proof of the wrong kind (type error) or an empty verifying trie (value error) is reported by an exception.",
 ["inputs"],"every target key, claimed root and tuple of byte strings offered as proof nodes",
 "No test passes a malformed proof.",
 [M,N,PR],[("Node.decode","src/pymt/utils/node.py"),("verify_proof_of_inclusion / verify_proof_of_exclusion","src/pymt/mpt.py")],[],["verify_proof_of_inclusion","verify_proof_of_exclusion"])
prop("C10","Serialising and reloading a trie preserves it",
 "For every history, encoding a trie to bytes and decoding it (plain, sparse or root-only form) gives a trie with the same root, mode, contents, membership answers and proofs; this includes empty, emptied and single short-entry tries. Continuing with the same operations on original and copy keeps their roots equal, and changing one does not affect the other.",
 ["histories","inputs","configurations"],"every history, both modes, all three trie forms, every continuation",
 "Tests reload five fixed tries and compare a few values.",
 [M,E,N],[("MPT.encode/MPT.decode","src/pymt/mpt.py"),("SparseEMPT.encode_rlp, RootEMPT.encode_rlp","src/pymt/empt.py")],[],["MPT.decode","SparseEMPT.decode_rlp","RootEMPT.decode_rlp"])
prop("C11","Extended trie is a faithful mutable mapping",
 "Under every sequence of mapping operations (set, get, delete, membership, length, iteration, items, pop, popitem, setdefault, clear, equality) with byte keys and values that are bytes, bytearrays or objects that can encode themselves, the extended trie answers as a plain dictionary would; reading or deleting an absent key raises an error and changes nothing. Its trie root after each step equals the canonical root over one data reference per entry, and the reference returned for a key is the one for the stored value.",
 ["histories","inputs","configurations"],"every sequence of mapping operations, all value kinds, both modes",
 "Tests run a few fixed sequences; most mapping operations and bytearray values are never used.",
 [E],[("EMPT over MutableMapping","src/pymt/empt.py"),("DataReference","src/pymt/empt.py")],[("_data_storage","values","EMPT"),("_trie","references","EMPT")],["EMPT"])
prop("C12","Reading never returns data that was tampered with",
 "Whenever the value held in the data storage for a key differs (in its encoding) from the value last written through the extended trie, reading that key raises an invalid-reference error and never returns the altered value, while untouched keys still read normally. Restoring the original value makes the key readable again.",
 ["inputs","histories","fault_sequences"],"every history, every altered, swapped, truncated or substituted stored value",
 "No test ever alters the data storage.",
 [E],[("reference comparison on read","EMPT.get"),("keccak over key and data","DataReference")],[("_data_storage","values","EMPT")],["EMPT.get"])
prop("C13","Full, sparse and root-only views agree and are isolated",
 "A sparse trie fed the same operations as a full trie has the same root, membership, references and proofs at each step (it accepts the same values), and a sparse or root-only view derived from either has the root and mode of its source at that moment. Later changes to the source do not change a derived view, changes to a sparse view do not change the source, and each view verifies exactly the proofs valid for its own root.",
 ["histories","configurations"],"every history, every moment at which a view is derived, every later change on either side",
 "Tests compare one root right after derivation.",
 [E],[("EMPT.get_sparse_trie/get_root_trie","src/pymt/empt.py"),("SparseEMPT.get_root_trie","src/pymt/empt.py")],[],["SparseEMPT","RootEMPT"])
prop("C14","Rebuilding the trie from the data reproduces it",
 "Rebuilding an extended trie from its data storage at any point of any history succeeds and leaves the same root hash, contents, references and provability as before for every value kind and both modes. After entries of the data storage were replaced, added or removed, rebuilding yields the trie of the data as it is then (till then an added entry is neither a member nor readable), and after the trie nodes were lost rebuilding restores them.",
 ["histories","fault_sequences","configurations"],"every history, every value kind, intact, replaced or lost nodes",
 "The rebuild operation is not tested at all.",
 [E],[("EMPT.build_trie","src/pymt/empt.py")],[],["EMPT.build_trie"])
prop("C15","Separate tries never share state",
 "Operations on one trie or Merkle tree object never change the contents, length, iteration or root of any other object unless the caller passed both of them the same storage. This includes tries created without naming a storage: each starts empty.",
 ["histories","configurations"],"every interleaving of operations on several objects created with default or explicit storages",
 "Every test creates one object with explicit storages.",
 [E,M,MK],[("constructor defaults","EMPT.__init__, SparseEMPT.__init__"),("reset_tree","src/pymt/merkletools.py")],[],["EMPT()","SparseEMPT()","MerkleTree()"])
prop("C16","Merkle root is the reference root of the current leaves",
 "For every leaf list, hash type and mode, the Merkle root equals the root a reference computation gives (pairs hashed left to right, an odd last node promoted unchanged, leaves hashed first in secure mode), and leaf access, count and order reflect the additions. After further additions or a reset the tree never serves the root or a proof of the earlier leaf list as current, and any change, swap, insertion or removal of leaves changes the root (in the unhashed mode, as long as the leaves have one length other than that of a digest).",
 ["inputs","histories","configurations"],"every list of leaves, all supported hash types, both modes, every interleaving of put, put_list, make_tree, reset and root queries",
 "Two fixed roots are tested, with sha256 and unhashed leaves only.",
 [MK,MT],[("MerkleTools.make_tree/_calculate_next_level","src/pymt/merkletools.py"),("is_ready","MerkleTools.add_leaf")],[("leaves/levels/is_ready","tree state","MerkleTools")],["get_merkle_root"])
prop("C17","Every Merkle tree leaf has a verifiable inclusion proof",
 "For every built Merkle tree (every leaf count, hash type and mode, duplicates allowed) and every leaf value put into it, an inclusion proof is produced and verifies both against that tree and against an equal tree built independently, and its siblings fold to the root under the reference rule. Asking for a proof of a value that was not put, or before the tree is built, raises an error.",
 ["inputs","configurations"],"every leaf list, every leaf, all hash types, both modes",
 "One proof of one five-leaf unhashed tree is verified in the tests.",
 [MK,MT],[("MerkleTools.get_proof_of_inclusion","src/pymt/merkletools.py"),("MerkleTree.verify_proof_of_inclusion","src/pymt/mt.py")],[],["MerkleTree.verify_proof_of_inclusion"])
prop("C18","No Merkle proof verifies for a value that was not put",
 "Merkle tree verification returns true only if the proof's siblings, in order and on their stated sides, fold from the (mode-dependent) leaf hash of the target to the proof's claimed root and that root is the verifying tree's root. Proofs with a changed target, sibling, side, order, length or root, from another tree, or for a value that is not a leaf, are rejected, and a proof made of pairs of byte strings always gets an answer, never an exception.",
 ["inputs","configurations"],"every tree, every genuine proof and every alteration of it",
 "Tests check one proof against two differently built trees.",
 [MK,MT],[("MerkleTools.verify_proof_of_inclusion","src/pymt/merkletools.py"),("MerkleTree.verify_proof_of_inclusion","src/pymt/mt.py")],[],["verify_proof_of_inclusion"])
prop("C19","Proof objects survive serialisation",
 "Every Merkle tree proof, for target keys of arbitrary bytes, survives encoding to JSON and to RLP: the decoded proof equals the original, has the same fields (type, time stamp, target, root, proof items) and the same verification verdict. Proof kinds whose serialisation is not supported are refused with an error rather than encoded wrongly.",
 ["inputs","configurations"],"every proof produced by a Merkle tree and every flat proof of byte strings, JSON and RLP",
 "The round trip is tested on one hand-made proof that no tree produces.",
 [PR],[("Proof.encode_json/decode_json/encode_rlp/decode_rlp","src/pymt/proof.py")],[],["Proof.decode_json","Proof.decode_rlp"])
prop("C20","Nibble paths obey sequence semantics",
 "A nibble path over any bytes and offset behaves as the sequence of its nibbles: length, indexing, equality, prefix test, common prefix, consuming and combining agree with the same operations on that sequence, and only consuming changes a path. Hex-prefix encoding is the Ethereum one and decoding it gives back the same nibbles and leaf flag; printing a path never fails.",
 ["inputs"],"every byte string, every offset within it, every pair of paths",
 "Tests use two-byte paths at offsets 0, 1 and 3.",
 [NP],[("NibblePath","src/pymt/utils/nibble_path.py")],[("_data/_offset","bytes and nibble offset","NibblePath")],["NibblePath"])
prop("C21","Trie nodes round-trip through their encoding",
 "Every leaf, extension and branch node encodes to the RLP structure the Ethereum format prescribes and decodes back to a node of the same kind with the same path, value and child references, inline children included (encoded or decoded without data, with all but the value); a node whose path, value or references were replaced encodes to what it holds now. A node's reference is its encoding when that is shorter than 32 bytes and the Keccak-256 hash of it otherwise, and bytes that are not a well-formed node are rejected with an error, never decoded into one.",
 ["inputs"],"every path, value, set of child references (empty, inline, hash) and every byte string offered for decoding",
 "Tests round-trip a few hand-made nodes; the 31/32/33-byte boundary and malformed inputs are not covered.",
 [N,NP],[("Node.decode, Leaf/Extension/Branch.encode, Node.into_reference","src/pymt/utils/node.py")],[],["Node.decode","Node.into_reference"])
prop("C22","Data references round-trip and detect corruption",
 "A data reference for any key and data encodes and decodes to an equal reference with the same key, data and hash, and its hash is the Keccak-256 of key followed by data. Decoding bytes in which one of marker, key, data and hash was altered, or which are no reference at all, raises an error; references for one key with different data are never equal.",
 ["inputs"],"every key, data and alteration of an encoded reference",
 "Tests encode one reference and never corrupt one.",
 [E],[("DataReference.encode/decode","src/pymt/empt.py")],[],["DataReference.decode"])
prop("C23","Signatures verify for exactly the signed data and key",
 "A signature made by a key pair verifies for that data under that public key (explicitly given or implied, and from any other key pair object given the public key), is a standard PKCS#1 v1.5 SHA-256 signature, and is deterministic. With any altered data, altered signature or a different public key verification returns false without raising, and under bytes that are no public key nothing ever verifies.",
 ["inputs","configurations"],"every message, several keys and key sizes, every alteration of message, signature or key",
 "One message is signed in the tests and no invalid signature is ever presented.",
 [K],[("RsaKeyPair.sign/signature_valid","src/pymt/keypairs.py")],[],["signature_valid"])
prop("C24","Encrypted messages reach only the receiver, unaltered",
 "A message of any content and length encrypted for a receiver decrypts, given the sender's public key, to exactly that message with the receiver's key, for general and encryption-only key pairs alike; encrypting never yields the same envelope twice nor shows the message. Decryption raises and returns nothing if the receiver key or sender key is wrong (keys a pair had before count as wrong) or any part of the envelope was altered or exchanged with another envelope's, and signing-only and encryption-only key pairs refuse the operations outside their role.",
 ["inputs","configurations"],"every message, sender, receiver, key-pair role and alteration of the envelope",
 "One message is round-tripped and one wrong key tried.",
 [K],[("RsaKeyPair.encrypt/decrypt","src/pymt/keypairs.py"),("RsaAuthKeyPair/RsaEncKeyPair","src/pymt/keypairs.py")],[],["decrypt"])
prop("C25","Exported keys import unchanged and only with the passphrase",
 "For every key pair, nickname and non-empty Latin-1 passphrase, exporting to a string or a file and importing it with the same passphrase gives an equal key pair of the importing class that signs and decrypts as the original did. Importing with any other passphrase (trailing NUL characters aside, which the standard key derivation ignores) or from a missing file raises, and the exported text reveals the private key to nobody without the passphrase.",
 ["inputs","configurations"],"every nickname, passphrase, key and both export forms",
 "One nickname and one passphrase are tested, and never a wrong passphrase.",
 [K],[("to_key_string/from_key_string/to_key_file/from_key_file","src/pymt/keypairs.py")],[],["from_key_string","from_key_file"])
prop("C26","Password encryption round-trips and detects tampering",
 "Data of any content and length encrypted under any password (any text that has an encoding) decrypts under the same password to exactly the same data, and encrypting twice gives different outputs that differ from the data. Decrypting with another password, or after any byte of the output was changed, removed or added, raises and returns nothing.",
 ["inputs"],"every data, password and alteration",
 "One message and one password are tested and nothing is ever altered.",
 [U],[("Utils.encrypt/decrypt","src/pymt/utils/utils.py")],[],["Utils.decrypt"])
prop("C27","Hash helpers compute the standard digests",
 "For every input the Keccak helpers return Keccak-256 (original padding) of the data, or of the concatenation of the listed parts, and the SHA helpers return SHA-256 or SHA-512, as raw digest, lower-case hex bytes or updatable hash object as requested. Unsupported hash types are rejected.",
 ["inputs"],"every byte string and list of byte strings, all output forms",
 "One string is hashed in the tests, and the Keccak helpers are never compared with an independent implementation.",
 [H,U],[("keccak_hash/keccak_hash_list","src/pymt/utils/hash.py"),("Utils.hash_data/sha256/sha512","src/pymt/utils/utils.py")],[],["keccak_hash","Utils.hash_data"])
prop("C28","RSA key checking classifies every input",
 "For every byte string, key checking says true for a public key only if it is an importable RSA public key and for a private key only if it is an importable RSA private key, and says false for everything else, including malformed, truncated or empty input and keys of the other kind. It raises only when asked to, and then only for input that cannot be loaded, and always a key error.",
 ["inputs","configurations"],"every byte string, both key kinds, both reporting modes, PEM and DER forms and their corruptions",
 "One valid key and one fixed invalid string are tested.",
 [U],[("Utils.rsa_key_valid","src/pymt/utils/utils.py")],[],["Utils.rsa_key_valid"])
prop("C29","Equality and hashing are consistent for all value-like objects",
 "Hashing and comparing never fail for non-empty plain tries, built Merkle trees, proofs, data references and key pairs, equality is reflexive and symmetric, equal objects have equal hashes, and comparing with an unrelated object is false. Two plain tries are equal exactly when their root hashes are, two Merkle trees when their roots are, two proofs when all fields are, two key pairs of one class when public key and nickname are.",
 ["inputs","histories"],"every pair of objects of each kind, equal, nearly equal and different",
 "Only proof equality and one data reference comparison are tested.",
 [M,MK,PR,E,K],[("__eq__/__hash__","MPT, MerkleTools, Proof, DataReference, RsaKeyPair")],[],["==","hash()"])
prop("C30","Wrongly typed input is refused without effect",
 "Extended, sparse and Merkle trees, proofs, data references, nodes, key pairs and the hashing and encryption helpers refuse keys, values, proofs, passwords, signatures or hash types of the wrong type with the documented error (type error, value error or not-implemented error). The refused call has no effect on contents, roots or length.",
 ["inputs","histories"],"every argument position that documents a type, every wrongly typed value, at every point of a history",
 "Two such refusals are tested.",
 [E,MT,PR,N,K,U],[("isinstance guards","all public entry points")],[],["TypeError/ValueError/NotImplementedError"])
prop("C31","Any storage with the documented interface gives the same results",
 "A trie over a storage that offers only item reads and item writes, and an extended trie over storages that offer only the documented methods, behave identically (roots, values, membership, proofs, iteration, rebuild) to ones over plain dictionaries, also when the storage returns fresh copies or is reopened between operations from the last root.",
 ["configurations","histories"],"every history, every storage offering the documented methods, reopening at every point",
 "All tests use plain dictionaries that live as long as the trie.",
 [M,E],[("storage access","MPT._get_node/_store_node, EMPT")],[],["MPT(storage)","EMPT(trie_storage, data_storage)"])
prop("C32","Time stamps and identifiers are well formed",
 "A time stamp string produced at any moment and in any time zone parses back to the same instant to the second, its bytes form is the same text, the stamp as an object is that instant, and the parser reads the documented format back for every time-zone-aware instant with a four-digit year. Identifiers are 32 lower-case hexadecimal characters, in text and bytes form, and never repeat.",
 ["inputs","configurations"],"every instant and time zone, every number of generated identifiers",
 "Tests only check the Python type of the result and never parse one.",
 [U],[("get_timestamp_string/from_timstamp_string/get_id","src/pymt/utils/utils.py")],[],["Utils.from_timstamp_string"])
prop("C33","File and directory checks tell what is there",
 "For every name, absolute or starting with ./ (and then relative to the working directory of that moment), the file check is true exactly if the name leads to a regular file and the directory check exactly if it leads to a directory. For text that cannot be a name (empty, too long, with NUL or lone surrogate characters) both are false; asking never raises for any text and never makes, changes or removes anything.",
 ["inputs","histories"],"every tree of files, directories and links, every working directory, every name and spelling, after every change",
 "One existing and one missing name are tested.",
 [U],[("file_exists/dir_exists","src/pymt/utils/utils.py")],[],["Utils.file_exists","Utils.dir_exists"])
prop("C34","Generated keys are fresh, of the requested kind, and stay",
 "Generating a key pair gives an RSA key of exactly the requested length (4096 bits by default) that was never generated before in any process, works for the role of its class, and replaces only that pair's previous key; between generations neither reading, using, renaming nor any attempt to set or delete key or nickname changes it. Without a nickname a pair gets a unique 32-digit identifier, and the key helpers return fresh private PEM keys: RSA with 2048 bits, elliptic-curve keys on the requested documented curve, others refused.",
 ["inputs","histories","configurations"],"every length, class, nickname, curve, number of generations and history of uses",
 "The tests generate a few default keys and never compare two, measure one or try to replace one.",
 [K,U],[("RsaKeyPair.generate_keypair and key properties","src/pymt/keypairs.py"),("generate_rsa_keypair/generate_ecc_key","src/pymt/utils/utils.py")],
 [("_key_pair","the pair's key","RsaKeyPair")],["generate_keypair","public_key","Utils.generate_ecc_key"])
prop("C35","A proof presents exactly what it was made of",
 "Every proof, however it came about, presents its type, time stamp, target key, root and items unchanged through its attributes, dictionary form, items and every iteration over it, also through several iterations at once and while it is otherwise used. Its time stamp is the moment of making, its fields cannot be assigned, and reading, changing what was read, comparing, hashing, encoding or verifying never changes it.",
 ["inputs","histories"],"every proof of tries and Merkle trees and every hand-made or decoded one, every sequence of ways of looking at it",
 "The attributes of one hand-made proof are tested and no proof is ever iterated.",
 [PR],[("Proof.__dict__/items/__iter__","src/pymt/proof.py")],[("_type/_timestamp/_target_key/_root_hash/_proof","the fields","Proof")],["Proof.items","Proof.__iter__"])
prop("C36","Tries sharing one node storage do not disturb each other",
 "Any number of tries (plain, secure, sparse, extended with data storages of their own) may work over one node storage: under every interleaving of operations other than rebuilding, each has exactly its own contents, membership, proofs and canonical root. A trie opened at the current or any earlier root of another one continues independently of it, and opening an extended trie without a root over a node storage that holds anything is refused.",
 ["histories","configurations"],"every interleaving of operations on every set of tries over one storage, forks at every root included",
 "No test uses one storage for two tries that both change.",
 [M,E],[("content-addressed node writes","MPT._store_node"),("root passed to constructors","src/pymt/mpt.py, src/pymt/empt.py")],[("_storage","shared node store","MPT")],["MPT(storage, root)","EMPT(storage, data, root)"])
prop("C37","The Merkle tools follow the reference rule when used directly",
 "For every sequence of additions, builds and resets, every supported hash type in any letter case and both modes, the exported Merkle tools give leaves, root and inclusion proofs in hexadecimal exactly as the reference rule does for the current leaves, and refuse root and proofs while the tree is not built for them. Verifying a proof given as sides and siblings is true exactly if it folds from the given leaf hash to the given root, and unknown hash types are refused.",
 ["inputs","histories","configurations"],"every leaf list, history, hash type, mode, leaf, proof and alteration of it",
 "The class is exported but the tests only use it through the Merkle tree.",
 [MK],[("MerkleTools","src/pymt/merkletools.py")],[("leaves/levels/is_ready","tree state","MerkleTools")],["MerkleTools.get_merkle_root","MerkleTools.verify_proof_of_inclusion"])
prop("C38","Separate objects can be used in parallel threads",
 "Operations on separate tries, Merkle trees, proofs, nodes, paths and key pairs and the hashing and encryption helpers may run in any number of threads of one process at the same time. Under every interleaving each gives exactly the results it gives when run alone.",
 ["schedules","histories"],"every set of programs that share no object and every interleaving of their steps",
 "All tests run in one thread; a scratch value kept at a class or module shows only under a particular switch of threads.",
 [M,E,N,NP,MK,PR,K,U,H],[("absence of state outside objects","all modules")],[],["MPT","EMPT","MerkleTree","NibblePath","keccak_hash"])
prop("C39","Results do not depend on the process",
 "The same operations give the same roots, node and trie encodings, proofs, references, digests, deterministic signatures, hash values, verdicts, iteration orders and errors in every process, whatever its hash seed, optimisation level (assertions removed or not), locale, time zone, working directory or umask. What one process serialises, exports, signs or encrypts every other reads back as the same.",
 ["configurations","histories"],"every program of operations, every environment of the process",
 "The tests run once, in one environment, with assertions on.",
 [M,E,N,NP,MK,MT,PR,K,U,H],[("content-determined results","all modules")],[],["root_hash","encode","hash()"])
prop("C40","An incomplete node storage never leads to a wrong answer",
 "If any nodes of a plain, sparse or extended trie are missing from its node storage, every lookup, membership test, write, deletion and proof either gives exactly what it gives on the complete storage (resulting root included) or raises and leaves the root alone, and it works again once the nodes are back. Reads, writes and proofs for a key succeed whenever the nodes on the path of that key are there, and verifying proofs needs no stored node.",
 ["fault_sequences","inputs","configurations"],"every contents, every set of missing nodes, every operation and key",
 "No test takes a node away; whether an operation needs, skips or misreads a missing node depends on the joint shape of contents, key and loss.",
 [M,E],[("MPT._get_node","src/pymt/mpt.py"),("path walks","MPT._get/_contains/_update/_delete")],[("_storage","node store keyed by hash","MPT")],["MPT.get","MPT.contains","MPT.update","MPT.delete"])
prop("C41","Text forms show the object and never a secret",
 "The text forms (str, repr and formatting) of every trie, proof, node, path, reference, Merkle tree and key pair can be taken at any moment and change nothing; a proof's shows all its fields, a path's its bytes in hexadecimal, a key pair's its class and present nickname (the long form also its present public key), a Merkle tree's whether it is built, and equally made trees show alike. Neither they nor any error raised by a key pair ever contain its private key, a passphrase or a message.",
 ["inputs","histories"],"every object in every state, every nickname, key, passphrase, message and failing operation",
 "Tests never look at a text form or at what an error says.",
 [K,PR,NP,MK,M,E,N],[("__str__/__repr__","all classes"),("error messages","src/pymt/keypairs.py")],[],["str()","repr()","exceptions"])
prop("C42","An interrupted operation leaves the object before or after it",
 "If an operation on a plain, sparse or extended trie other than rebuilding or clearing is interrupted between any two lines of the library (as by a keyboard interrupt), the trie has exactly the root, contents and stored data of before or of after that operation, and the operation can be repeated. A Merkle tree that is interrupted has the leaves of before or after (or those of a list put so far), reports no root or proof but that of its leaves, and can be built.",
 ["crash_points","histories"],"every history, every operation, every line at which it can be interrupted",
 "No test interrupts anything; the claim quantifies over the point of interruption.",
 [M,E,MK],[("root replaced in one assignment at the end","MPT.update, MPT.delete"),("trie set back when storing data fails","EMPT.update, EMPT.delete"),("ready mark set last, and taken away first","MerkleTools.make_tree, MerkleTools.add_leaf, MerkleTools.reset_tree")],[("_root","root reference","MPT"),("is_ready","tree built for its leaves","MerkleTools")],["MPT.update","EMPT.delete","MerkleTree.make_tree"])
prop("C43","Trie proofs hold exactly the nodes on the way of their key",
 "An inclusion proof of a plain, sparse or extended trie holds exactly the encoded nodes on the way from the root to the key, each once and in that order, nodes embedded in others included; an exclusion proof holds those to where the way ends, followed by the leaf of the rest of the key with the value null. Its target is the key (its Keccak-256 hash in secure mode) and its claimed root that of the trie. It therefore depends on the contents and the key only, not on the history, the kind of the trie or a reload.",
 ["inputs","histories","configurations"],"every contents, every history leading to it, every stored and absent key",
 "Tests only verify proofs, with the library itself; a proof with spare, repeated or reordered nodes may still verify there.",
 [M,E,PR],[("MPT._get_proof_of_inclusion","src/pymt/mpt.py"),("MPT._get_proof_of_exclusion","src/pymt/mpt.py")],[],["get_proof_of_inclusion","get_proof_of_exclusion","Proof.proof"])
prop("C44","Operations touch only the nodes on the way of their key",
 "A lookup, membership test or proof reads no stored node but those on the way from the root to the key and writes none; a write or deletion reads besides only the node that takes the place of its parent, and the number of accesses depends on the length of that way, not on the number of entries. Opening a trie at a root, asking for its root, taking a root-only view and verifying a proof touch no stored node, and an operation of an extended trie touches the data of its own key only.",
 ["histories","inputs","configurations"],"every history and contents, every key and operation other than rebuilding, clearing, encoding and copying",
 "No test looks at the accesses to a storage; whether an operation strays from the way of its key shows in no result.",
 [M,E],[("path walks","MPT._get/_contains/_update/_delete"),("MPT._get_node/_store_node","src/pymt/mpt.py")],[("_storage","node store","MPT")],["storage __getitem__/__setitem__"])
prop("C45","Copies show the same and go their own way",
 "A deep or pickled copy of a plain, sparse, extended or root-only trie, Merkle tree, proof, node, path or data reference, made at any moment, shows the same contents, fields, root, proofs and verdicts as the original at that moment. Afterwards no operation on one of the two (or on a copy of a copy) changes the other.",
 ["histories","configurations"],"every history, every moment of copying, every way of copying",
 "No test copies anything.",
 [M,E,MK,MT,PR,N,NP],[("fields held by the object itself","all classes"),("Proof.__getstate__/__setstate__","src/pymt/proof.py")],[],["copy.deepcopy","pickle"])
prop("C46","Arguments stay as they are and results belong to the caller",
 "No operation of plain and sparse tries, Merkle trees and tools, nodes, paths and the Keccak helpers changes what it is given, storages aside (byte arrays, lists, dictionaries, proofs, paths). Overwriting such an argument after the call, or what a call returned, changes no trie or Merkle tree: root, contents, leaves, proofs and verdicts stay those of what was given at the time. Views of an extended trie turned into lists belong to the caller likewise.",
 ["histories","inputs"],"every history, every mutable argument and result, every later alteration by the caller",
 "Tests hand over literals that nobody alters and look at each result once.",
 [M,E,MK,MT,N,NP,H],[("leaves copied","MerkleTools.add_leaf"),("nodes stored encoded","MPT._store_node")],[],["MPT.update","MerkleTools.add_leaf","MerkleTools.get_proof_of_inclusion"])
prop("C47","Stored and exchanged forms keep their layout",
 "What the library writes has a fixed layout: tries, data references and Merkle proofs are RLP lists (proofs also JSON objects), encrypted messages and exported keys are JSON objects with hexadecimal fields (OAEP session key, EAX nonce, tag and ciphertext, PKCS#1 signature of the ciphertext; encrypted private key), and password encryption is nonce, tag and EAX ciphertext under the SHA-256 digest of the password. An independent reader of that layout finds exactly the content in whatever the library writes. The library reads whatever an independent writer of that layout makes, and what earlier versions wrote.",
 ["inputs","histories"],"every trie, reference, proof, message, password and key, every order of nodes and fields",
 "Round trips of one version with itself hold as well when both sides change; tests compare no encoding with a fixed one.",
 [M,E,PR,K,U],[("trie list","MPT.encode"),("envelope fields","RsaKeyPair.encrypt"),("password layout","Utils.encrypt")],[],["MPT.encode","MPT.decode","Proof.encode_rlp","Proof.encode_json","RsaKeyPair.encrypt","RsaKeyPair.decrypt","RsaKeyPair.to_key_string","Utils.encrypt"])
prop("C48","Altered or foreign encodings are never misread",
 "Decoding any bytes or text as a trie (plain, sparse or root-only), a Merkle proof or an exported key ends with an error or an object that shows exactly what is written there (root and mode, fields, nickname). A trie read from altered bytes answers every lookup, membership test and proof request as the trie whose root it carries does, or raises, and verifies the proofs of that trie. An altered exported key never gives another key.",
 ["inputs"],"every alteration of every encoding, and arbitrary bytes and text",
 "Tests decode what was just encoded, unaltered.",
 [M,E,PR,K],[("nodes addressed by their hash","MPT.decode"),("proof fields","Proof.decode_rlp")],[],["MPT.decode","SparseEMPT.decode_rlp","RootEMPT.decode_rlp","Proof.decode_rlp","Proof.decode_json","RsaKeyPair.from_key_string"])
prop("C49","Errors tell an absent key from a missing node",
 "What a non-empty plain, sparse or extended trie refuses because the key is absent (for exclusion proofs: present) raises one of the library's own errors and never a key error, except that looking up an absent key in an extended trie raises a key error naming the key. What fails because a node is not in the node storage raises a key error naming that node, the first missing one on the way of the key (for deletions possibly the neighbour that is needed). A caller who gets the named node and repeats therefore reaches the result the complete trie gives.",
 ["inputs","fault_sequences","configurations"],"every contents, every set of missing nodes, every key, every operation",
 "Tests look at a few errors of complete tries; which node is missed depends on the shape of the trie and the losses.",
 [M,E,"src/pymt/utils/exceptions.py"],[("nodes are read from the storage by their reference","MPT._get_node"),("errors of the library","pymt.utils.exceptions")],[],["MPT.get","MPT.update","MPT.delete","MPT.contains","MPT.get_proof_of_inclusion","MPT.get_proof_of_exclusion","SparseEMPT.get_reference"])
prop("C50","Key classes must be complete and keep to their role",
 "A class derived from one of the abstract key pair or key ring classes, directly, through further classes or with mix-ins, can be made into objects exactly if every operation of the interface is defined; the abstract classes themselves cannot. Every key pair of the library's classes, and of classes derived from them, is an instance of the abstract class of its role and not of the other role's. It performs the operations of its role, refuses those of the other with a not-implemented error, and is imported as the class asked for.",
 ["configurations","inputs"],"every way to put a class together, every class of the library and every depth of derivation",
 "No test derives a class.",
 ["src/pymt/base.py",K],[("abstract methods","_BaseAbstractKeyPair, _BaseAbstractKeyRing"),("refused operations","RsaAuthKeyPair, RsaEncKeyPair")],[],["AbstractKeyPair","AbstractKeyRing","RsaAuthKeyPair","RsaEncKeyPair"])
if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for p in P: f.write(json.dumps(p) + "\n")
    print(len(P))
