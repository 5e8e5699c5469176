From 26894f0ca6aa340ce1e670163b50165131e639fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:49 +0000
Subject: [PATCH 01/38] fix: contains reports absent keys that run past a
 branch holding a value

With do and dog stored, a key such as do\x01 ends in an empty slot of the
branch that holds the value of do; contains returned True for it and no
proof of exclusion could be made. The branch value belongs to the key only
when its path is used up.
---
 src/pymt/mpt.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pymt/mpt.py b/src/pymt/mpt.py
index ac276a5..e08e80f 100644
--- a/src/pymt/mpt.py
+++ b/src/pymt/mpt.py
@@ -210,7 +210,7 @@ class MPT:
 
         # If the node is a branch check if it has a value
         if isinstance(node, Branch):
-            if node.data != None and node.data != b"":
+            if len(path) == 0 and node.data != None and node.data != b"":
                 return True
             else:
                 return False
@@ -404,7 +404,7 @@ class MPT:
         # If the node is a branch check if i thas a value
         # Can be None or b'' (b'' is used when trie is in secure mode)
         if isinstance(node, Branch):
-            if node.data != None and node.data != b"":
+            if len(path) == 0 and node.data != None and node.data != b"":
                 raise PoeError("This should never happen")
 
         # If the node is a leaf the key is in the trie
-- 
2.43.0


From 1512a33d9ce3458bd2ec272c91db17112c4aa660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:03 +0000
Subject: [PATCH 02/38] fix: get returns the value of another key for a prefix
 of it

When the path of the key was used up, get took whatever node it had
reached: the value of a longer key at a leaf, an AttributeError at an
extension and an empty value at a branch without one.
---
 src/pymt/mpt.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/pymt/mpt.py b/src/pymt/mpt.py
index e08e80f..005bd91 100644
--- a/src/pymt/mpt.py
+++ b/src/pymt/mpt.py
@@ -588,9 +588,10 @@ class MPT:
         """
         node = self._get_node(node_ref)
 
-        # If path is empty, our travel is over. Main `get` method
-        # will check if this node has a value.
-        if len(path) == 0:
+        # If path is empty, our travel is over if this branch has a value.
+        if len(path) == 0 and type(node) is Branch:
+            if len(node.data) == 0:
+                raise KeyNotFoundError("The branch holds no value for the search key.")
             return node
 
         if type(node) is Leaf:
-- 
2.43.0


From 2b241a1070fd3489f7bfccbccaf20886f09e220f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:16 +0000
Subject: [PATCH 03/38] fix: deleting a key that ends at a branch without value
 fails an assertion

The BranchPathError meant for this case directly follows the assertion.
---
 src/pymt/mpt.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/pymt/mpt.py b/src/pymt/mpt.py
index 005bd91..e702b31 100644
--- a/src/pymt/mpt.py
+++ b/src/pymt/mpt.py
@@ -1347,10 +1347,6 @@ class MPT:
             idx = None
             info = None
 
-            assert (
-                len(path) != 0 or len(node.data) != 0
-            ), "Empty path or empty branch node in _delete"
-
             # Decide if we need to remove value of this node or go deeper.
             if len(path) == 0 and len(node.data) == 0:
                 # This branch node has no value thus we can't delete it.
-- 
2.43.0


From ffd7f902474adbe8dc2b0ddd0ead1136563edbc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:26 +0000
Subject: [PATCH 04/38] fix: hashing or comparing tries always raises
 ValueError

The raw digest was parsed as a hexadecimal number.
---
 src/pymt/mpt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymt/mpt.py b/src/pymt/mpt.py
index e702b31..4932f9f 100644
--- a/src/pymt/mpt.py
+++ b/src/pymt/mpt.py
@@ -98,7 +98,7 @@ class MPT:
         self.delete(encoded_key)
 
     def __hash__(self) -> int:
-        return int(keccak_hash(self._root), 16)
+        return int.from_bytes(self.root_hash(), "big")
 
     def __eq__(self, other: "MPT") -> bool:
         if not isinstance(other, MPT):
-- 
2.43.0


From 39ebddcea859f44415744ff221253e4160070bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:36 +0000
Subject: [PATCH 05/38] fix: a trie emptied by deletions cannot be encoded or
 reopened

Its root became None, which encode cannot serialise and with which an EMPT
cannot be opened over the storage; a new trie has the empty hash as root.
---
 src/pymt/mpt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymt/mpt.py b/src/pymt/mpt.py
index 4932f9f..16ef1be 100644
--- a/src/pymt/mpt.py
+++ b/src/pymt/mpt.py
@@ -261,7 +261,7 @@ class MPT:
 
         if action == MPT._DeleteAction.DELETED:
             # Trie is empty
-            self._root = None
+            self._root = Node.EMPTY_HASH
         elif action == MPT._DeleteAction.UPDATED:
             new_root = info
             self._root = new_root
-- 
2.43.0


From 493a435ed4dab832a8d86a93ff493c7eb8bae308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:49 +0000
Subject: [PATCH 06/38] fix: proof of inclusion is generated for absent
 prefixes of stored keys

The node reached when the path was used up was taken for the node of the
key, whatever its own path or value.
---
 src/pymt/mpt.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pymt/mpt.py b/src/pymt/mpt.py
index 16ef1be..ac78397 100644
--- a/src/pymt/mpt.py
+++ b/src/pymt/mpt.py
@@ -706,9 +706,11 @@ class MPT:
 
         # print(type(node))
 
-        if len(path) == 0:
+        if len(path) == 0 and isinstance(node, Branch):
             # If path is empty, we've found the node.
-            # The node doesnt have to be a leaf.
+            # The node doesnt have to be a leaf, but it must hold a value.
+            if len(node.data) == 0:
+                raise PoiError("The branch holds no value for the search key.")
             proof.append(node.encode())
             return proof
 
-- 
2.43.0


From d18507754755e401e98f99fc518d4c288c858efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:38 +0000
Subject: [PATCH 07/38] fix: malformed nodes crash the node decoder or decode
 into broken nodes

Node.decode asserted the number of items, accepted strings of that length,
lists in place of paths and values, undefined path flags, non-zero path
padding and references that are neither a hash nor an inline node. It now
raises InvalidNodeError for all of these.
---
 src/pymt/utils/node.py | 57 +++++++++++++++++++++++++++++++++++++++---
 1 file changed, 54 insertions(+), 3 deletions(-)

diff --git a/src/pymt/utils/node.py b/src/pymt/utils/node.py
index c427ee4..2906137 100644
--- a/src/pymt/utils/node.py
+++ b/src/pymt/utils/node.py
@@ -1,6 +1,7 @@
 import rlp
 from .nibble_path import NibblePath
 from .hash import keccak_hash
+from .exceptions import InvalidNodeError
 from typing import List, Union, Tuple, Optional
 
 
@@ -74,6 +75,13 @@ class Node:
         -------
         Node
             Decoded node.
+
+        Raises
+        ------
+        DecodingError
+            DecodingError is raised if the data is not valid RLP.
+        InvalidNodeError
+            InvalidNodeError is raised if the data is not a well-formed node.
         """
         if not isinstance(encoded_data, (bytes, bytearray)):
             raise TypeError(
@@ -86,9 +94,11 @@ class Node:
                 "Include data must be bool, not {}".format(type(include_data))
             )
 
-        data = rlp.decode(encoded_data)
-
-        assert len(data) == 17 or len(data) == 2  # TODO #1 throw exception
+        try:
+            data = rlp.decode(encoded_data)
+            Node._check_structure(data)
+        except RecursionError:
+            raise InvalidNodeError("The encoded data is nested too deep for a node")
 
         if len(data) == 17:
             # Its a branch node
@@ -117,6 +127,47 @@ class Node:
             ref = _prepare_reference_for_usage(data[1])
             return Extension(path, ref)
 
+    @staticmethod
+    def _check_structure(data: Union[list, bytes]) -> ...:
+        """
+        Check that RLP-decoded data has the structure of a node.
+
+        Parameters
+        ----------
+        data : list
+            RLP-decoded node.
+
+        Raises
+        ------
+        InvalidNodeError
+            InvalidNodeError is raised if the data is not a well-formed node.
+        """
+        if not isinstance(data, list) or len(data) not in (2, 17):
+            raise InvalidNodeError("A node must be a list of 2 or 17 items")
+
+        if len(data) == 17:
+            references, value = [ref for ref in data[:16] if ref != b""], data[16]
+        else:
+            path = data[0]
+            if isinstance(path, list) or len(path) == 0 or path[0] > 0x3F:
+                raise InvalidNodeError("The path of the node is invalid")
+            if not path[0] & NibblePath.ODD_FLAG and path[0] & 0x0F:
+                raise InvalidNodeError("The padding of the path is not zero")
+            if path[0] & NibblePath.LEAF_FLAG:
+                references, value = [], data[1]
+            else:
+                references, value = [data[1]], b""
+
+        if isinstance(value, list):
+            raise InvalidNodeError("The value of a node must be bytes")
+        for ref in references:
+            if isinstance(ref, list):
+                if len(rlp.encode(ref)) >= 32:
+                    raise InvalidNodeError("An inline node must be below 32 bytes")
+                Node._check_structure(ref)
+            elif len(ref) != 32:
+                raise InvalidNodeError("A node reference must be 32 bytes long")
+
     @staticmethod
     def into_reference(node: "Node") -> bytes:
         """
-- 
2.43.0


From c0ee2302263ad2ebccab106ba7b17f61ce985e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:22 +0000
Subject: [PATCH 08/38] fix: inclusion proofs verify for absent prefixes of
 stored keys

A proof that ends at a leaf with more path or at a branch without a value
was accepted; one that leaves the path of an extension or ends in an empty
branch slot raised instead of being rejected.
---
 src/pymt/mpt.py | 24 +++++-------------------
 1 file changed, 5 insertions(+), 19 deletions(-)

diff --git a/src/pymt/mpt.py b/src/pymt/mpt.py
index ac78397..003455b 100644
--- a/src/pymt/mpt.py
+++ b/src/pymt/mpt.py
@@ -801,17 +801,9 @@ class MPT:
 
         # If path is empty, our travel is over. Main `get` method
         # will check if this node has a value.
-        if len(path) == 0:
-            # check extension and node, leaf already handeled
-            if isinstance(node, Extension):
-                return False
-            if isinstance(node, Branch):
-                # Check if the branch has data
-                if node.data != None:
-                    return True
-                else:
-                    return False
-            return True
+        if len(path) == 0 and isinstance(node, Branch):
+            # Check if the branch has data
+            return len(node.data) != 0
 
         if type(node) is Leaf:
             # If we've found a leaf, it's either the leaf we're
@@ -829,10 +821,7 @@ class MPT:
                     node.next_ref, rest_path, proof_storage
                 )
             else:
-                raise ExtensionPathError(
-                    "Something wrong with the path in the extension."
-                    " Extension path: {}, search path: {}".format(node.path, path)
-                )
+                return False
 
         elif type(node) is Branch:
             # If we've found a branch node, go to the appropriate branch.
@@ -842,10 +831,7 @@ class MPT:
                     branch, path.consume(1), proof_storage
                 )
             else:
-                raise BranchPathError(
-                    "Branch slot is empty."
-                    " Branch: {}, search path: {}".format(node.branches, path)
-                )
+                return False
 
         raise InvalidNodeError("Unknown node type {}".format(node))
 
-- 
2.43.0


From 09d2587641ac962bed049dc47acb665fff346ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:32 +0000
Subject: [PATCH 09/38] fix: inclusion proofs of tries with a short root never
 verify

get_proof_of_inclusion puts root() into the proof, which is the node itself
when it is shorter than 32 bytes, but it was compared with root_hash().
---
 src/pymt/mpt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymt/mpt.py b/src/pymt/mpt.py
index 003455b..688b37f 100644
--- a/src/pymt/mpt.py
+++ b/src/pymt/mpt.py
@@ -355,7 +355,7 @@ class MPT:
             self._root, NibblePath(proof.target_key), proof_storage
         )
         # Check if the current trie hash is the sam as the proof root
-        if valid and self.root_hash() == proof.trie_root:
+        if valid and proof.trie_root in (self.root(), self.root_hash()):
             return True
         else:
             return False
-- 
2.43.0


From de65312a5ed78ecbaf98cfc8975c2ab948e1797d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:46 +0000
Subject: [PATCH 10/38] fix: verifying an empty or malformed inclusion proof
 raises

A proof without nodes failed with an IndexError and one with a malformed
node with whatever the node decoder raised; both are invalid proofs.
---
 src/pymt/mpt.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pymt/mpt.py b/src/pymt/mpt.py
index 688b37f..6bd1d93 100644
--- a/src/pymt/mpt.py
+++ b/src/pymt/mpt.py
@@ -338,7 +338,7 @@ class MPT:
             raise ValueError("Cannot verify a proof for empty trie.")
 
         # Compare the root hashes
-        if self.root_hash() != keccak_hash(proof.proof[0]):
+        if not proof.proof or self.root_hash() != keccak_hash(proof.proof[0]):
             return False
 
         # Recreate a partial trie from the proof and walk down from root to taget
@@ -349,7 +349,7 @@ class MPT:
                 proof_storage[Node.into_reference(Node.decode(encoded_node))] = (
                     encoded_node
                 )
-            except rlp.DecodingError:
+            except (rlp.DecodingError, InvalidNodeError):
                 return False
         valid = self._verify_proof_of_inclusion(
             self._root, NibblePath(proof.target_key), proof_storage
-- 
2.43.0


From 0253a78d5599126f1d3c14cbb2ba59b5604877b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:31 +0000
Subject: [PATCH 11/38] fix: exclusion proofs that end at an extension lack
 that extension

The node that shows the key to be absent is part of the proof. Without it
the proof fails when the extension is the root and otherwise only passes
because missing nodes are not noticed.
---
 src/pymt/mpt.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pymt/mpt.py b/src/pymt/mpt.py
index 6bd1d93..d49505f 100644
--- a/src/pymt/mpt.py
+++ b/src/pymt/mpt.py
@@ -886,6 +886,7 @@ class MPT:
                 proof.append(node.encode())
                 return self._get_proof_of_exclusion(node.next_ref, rest_path, proof)
             else:
+                proof.append(node.encode())
                 return node, proof
 
         elif type(node) is Branch:
-- 
2.43.0


From 0c29c3195a91574a6a5feab6be3fe53bf70b61d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:56 +0000
Subject: [PATCH 12/38] fix: exclusion proofs verify for keys that are stored

The last node was compared with the whole path instead of the rest of it, a
branch value was never taken into account, a proof was accepted when nodes
were missing from it, and its claimed root was not checked.
---
 src/pymt/mpt.py | 30 ++++++++++++------------------
 1 file changed, 12 insertions(+), 18 deletions(-)

diff --git a/src/pymt/mpt.py b/src/pymt/mpt.py
index d49505f..8762b9d 100644
--- a/src/pymt/mpt.py
+++ b/src/pymt/mpt.py
@@ -465,28 +465,29 @@ class MPT:
             # print(type(encoded_node))
             proof_storage[Node.into_reference(Node.decode(encoded_node))] = encoded_node
 
+        path = NibblePath(proof.target_key)
         node, keys_left = self._verify_proof_of_exclusion(
-            self.root(), NibblePath(proof.target_key), proof_storage
+            self.root(), path, proof_storage
         )
 
-        # There should be no keys left in the proof
-        if len(keys_left.keys()) != 0:
+        # There should be no nodes missing and no keys left in the proof
+        if node is None or len(keys_left.keys()) != 0:
             return False
 
-        # Check if the result node is valid
+        # Check if the result node is valid, path is the rest of the path now
         # If the node is a branch check if it has a value
         if isinstance(node, Branch):
-            if node.data == None:
+            if len(path) == 0 and len(node.data) != 0:
                 return False
 
         # If the node is a leaf the key is in the trie
 
         if isinstance(node, Leaf):
-            if node.path == NibblePath(proof.target_key):
+            if node.path == path:
                 return False
 
-        # Proof passed
-        return True
+        # Check if the current trie hash is the same as the proof root
+        return proof.trie_root in (self.root(), self.root_hash())
 
     # CODEC
     def encode(self) -> bytes:
@@ -946,12 +947,8 @@ class MPT:
                 try:
                     raw_node = proof_storage[node_ref]
                 except KeyError:
-                    # TODO: Figure out in wich cases this shouldnt be True
-                    # I still dont really trust this statement,
-                    # but it is necessary for the tests to pass
-                    # By checking the proof_dict at the end of the function
-                    # there should be 1 node left in the dict, the null leaf
-                    return True, proof_storage
+                    # The proof is incomplete
+                    return None, proof_storage
             else:
                 raw_node = node_ref
             node = Node.decode(raw_node)
@@ -960,10 +957,7 @@ class MPT:
 
         # Remove the used reference and node from the dictionary
         if proof_storage.pop(node_ref, None) == None:
-            raise PoeError(
-                "The proof storage returned a node with value None,"
-                " this should not be possible."
-            )
+            return None, proof_storage
 
         # If path is empty, our travel is over. Main `get` method
         # will check if this node has a value.
-- 
2.43.0


From 0927b88c59a6a5644be96b832b5ed037b5089997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:16 +0000
Subject: [PATCH 13/38] fix: verifying an empty or malformed exclusion proof
 raises

A proof without nodes, with malformed nodes or with an extension for its
last node raised an error, and nodes that are repeated or a null leaf with
another path were not noticed. All of these are invalid proofs.
---
 src/pymt/mpt.py | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/src/pymt/mpt.py b/src/pymt/mpt.py
index 8762b9d..7b97a7b 100644
--- a/src/pymt/mpt.py
+++ b/src/pymt/mpt.py
@@ -452,18 +452,25 @@ class MPT:
             raise ValueError("Cannot verify a proof for empty trie")
 
         # Compare the root hashes
-        if self.root_hash() != keccak_hash(proof.proof[0]):
-            return False
-
-        if Node.decode(proof.proof[-1]).data != b"null":
+        if not proof.proof or self.root_hash() != keccak_hash(proof.proof[0]):
             return False
 
         # Recreate a partial trie from the proof and walk down from root to taget
         # node.
         proof_storage = {}
-        for encoded_node in proof.proof[:-1]:  # Exclude the null leaf.
-            # print(type(encoded_node))
-            proof_storage[Node.into_reference(Node.decode(encoded_node))] = encoded_node
+        try:
+            null_leaf = Node.decode(proof.proof[-1])
+            for encoded_node in proof.proof[:-1]:  # Exclude the null leaf.
+                # print(type(encoded_node))
+                proof_storage[Node.into_reference(Node.decode(encoded_node))] = (
+                    encoded_node
+                )
+        except (rlp.DecodingError, InvalidNodeError):
+            return False
+
+        # Every node should be in the proof once
+        if len(proof_storage) != len(proof.proof) - 1:
+            return False
 
         path = NibblePath(proof.target_key)
         node, keys_left = self._verify_proof_of_exclusion(
@@ -486,6 +493,12 @@ class MPT:
             if node.path == path:
                 return False
 
+        # The null leaf should stand in the place of the key
+        if not isinstance(null_leaf, Leaf) or null_leaf.data != b"null":
+            return False
+        if null_leaf.path != path:
+            return False
+
         # Check if the current trie hash is the same as the proof root
         return proof.trie_root in (self.root(), self.root_hash())
 
-- 
2.43.0


From 5199efe93a88ae1454a4631e31cfcb3d1e2b22b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:43 +0000
Subject: [PATCH 14/38] fix: proofs of secure Merkle trees never verify

The leaves of a secure tree are hashes of the values, so the target has to
be hashed before the siblings are folded into it.
---
 src/pymt/mt.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pymt/mt.py b/src/pymt/mt.py
index d9bbe08..fea509a 100644
--- a/src/pymt/mt.py
+++ b/src/pymt/mt.py
@@ -153,6 +153,8 @@ class MerkleTree(MerkleTools):
 
         merkle_root = bytes.fromhex(proof.trie_root.decode())
         target_hash = proof.target_key
+        if self.secure:
+            target_hash = self.hash_function(target_hash).digest()
 
         try:
             valid = super().verify_proof_of_inclusion(
-- 
2.43.0


From d9e93f6bffc1e3ffeb429200f5c55f245fc3f031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:01 +0000
Subject: [PATCH 15/38] fix: verifying a malformed Merkle proof raises

An unknown side and a root or sibling that is no hexadecimal text raised a
KeyError or ValueError, while the proof is just invalid.
---
 src/pymt/mt.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/pymt/mt.py b/src/pymt/mt.py
index fea509a..353f607 100644
--- a/src/pymt/mt.py
+++ b/src/pymt/mt.py
@@ -147,20 +147,20 @@ class MerkleTree(MerkleTools):
         """
         if not isinstance(proof, Proof):
             raise TypeError("`proof` must be a Proof object not {}".format(type(proof)))
-        str_proof = []
-        for p in proof.proof:
-            str_proof.append({p[0].decode(): p[1].decode()})
-
-        merkle_root = bytes.fromhex(proof.trie_root.decode())
         target_hash = proof.target_key
         if self.secure:
             target_hash = self.hash_function(target_hash).digest()
 
         try:
+            str_proof = []
+            for p in proof.proof:
+                str_proof.append({p[0].decode(): p[1].decode()})
+
+            merkle_root = bytes.fromhex(proof.trie_root.decode())
             valid = super().verify_proof_of_inclusion(
                 str_proof, merkle_root=merkle_root, target_hash=target_hash
             )
-        except ValueError:
+        except (ValueError, KeyError):
             return False
 
         # Compare the proof hash to the current root hash
-- 
2.43.0


From a1a85f694183654cb0be9a0f2101723e40224c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:11 +0000
Subject: [PATCH 16/38] fix: a Merkle tree serves its old root and proofs after
 leaves were added

---
 src/pymt/merkletools.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pymt/merkletools.py b/src/pymt/merkletools.py
index 5fb1904..03bc587 100644
--- a/src/pymt/merkletools.py
+++ b/src/pymt/merkletools.py
@@ -113,6 +113,7 @@ class MerkleTools(object):
         else:
             value = bytearray(value)
         self.leaves.append(value)
+        self.is_ready = False
 
     def get_leaf(self, index: int) -> str:
         """
-- 
2.43.0


From 6c4cd8be3c057fe2482c3fd8b6cfdbf3de67a541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:35 +0000
Subject: [PATCH 17/38] fix: comparing Merkle trees with other objects fails or
 is true

Comparing with an unhashable object such as a list raised a TypeError, an
object with the same hash was equal, and so were trees of which the roots
differ in leading zero bytes; hashing a tree of one empty leaf failed.
---
 src/pymt/merkletools.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/pymt/merkletools.py b/src/pymt/merkletools.py
index 03bc587..9bbee7b 100644
--- a/src/pymt/merkletools.py
+++ b/src/pymt/merkletools.py
@@ -62,11 +62,17 @@ class MerkleTools(object):
 
     def __hash__(self) -> int:
         """Get the hash of the Merkle tree."""
-        return int(self.get_merkle_root(), 16)
+        return int(self.get_merkle_root() or "0", 16)
 
     def __eq__(self, other: "MerkleTools") -> bool:
         """Check if two Merkle trees are equal."""
-        return self.__hash__() == other.__hash__()
+        if not isinstance(other, MerkleTools):
+            return False
+        # The hash does not show leading zeros of the root
+        return (
+            len(self.get_merkle_root()) == len(other.get_merkle_root())
+            and self.__hash__() == other.__hash__()
+        )
 
     def __repr__(self) -> str:
         """Get the string representation of the Merkle tree."""
-- 
2.43.0


From 531eae3027bc0559397eced95f6fffcb82010b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:42 +0000
Subject: [PATCH 18/38] fix: hashing a key pair raises TypeError

__hash__ returned bytes instead of an integer.
---
 src/pymt/keypairs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymt/keypairs.py b/src/pymt/keypairs.py
index afbcd57..8f830cb 100755
--- a/src/pymt/keypairs.py
+++ b/src/pymt/keypairs.py
@@ -57,7 +57,7 @@ class RsaKeyPair(AbstractKeyPair):
         return f"RsaKeyPair(nickname={self._nickname}, public_key={self.public_key_string})"
 
     def __hash__(self) -> int:
-        return Utils.hash_data(self.public_key)
+        return int(Utils.hash_data(self.public_key), 16)
 
     def __eq__(self, other: Any) -> bool:
         if isinstance(other, self.__class__):
-- 
2.43.0


From 72b26e840e3ea1a4c84dfed5427f12d171df5755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:07 +0000
Subject: [PATCH 19/38] fix: encryption keypairs can neither encrypt nor
 decrypt

The envelope is signed and checked with the public sign methods, which an
encryption keypair refuses.
---
 src/pymt/keypairs.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/pymt/keypairs.py b/src/pymt/keypairs.py
index 8f830cb..4066365 100755
--- a/src/pymt/keypairs.py
+++ b/src/pymt/keypairs.py
@@ -218,13 +218,14 @@ class RsaKeyPair(AbstractKeyPair):
         cipher_aes = AES.new(session_key, AES.MODE_EAX)
         ciphertext, tag = cipher_aes.encrypt_and_digest(data)
 
+        # Encryption keypairs cannot sign on their own
         encrypted_data = json.dumps(
             {
                 "enc_session_key": enc_session_key.hex(),
                 "nonce": cipher_aes.nonce.hex(),
                 "tag": tag.hex(),
                 "ciphertext": ciphertext.hex(),
-                "signature": self.sign(ciphertext).hex(),
+                "signature": RsaKeyPair.sign(self, ciphertext).hex(),
             }
         ).encode("utf-8")
 
@@ -265,7 +266,10 @@ class RsaKeyPair(AbstractKeyPair):
         ciphertext = bytes.fromhex(data["ciphertext"])
         signature = bytes.fromhex(data["signature"])
 
-        if not self.signature_valid(ciphertext, signature, sender_public_key):
+        # Encryption keypairs cannot verify signatures on their own
+        if not RsaKeyPair.signature_valid(
+            self, ciphertext, signature, sender_public_key
+        ):
             raise ValueError("Invalid signature.")
 
         cipher_rsa = PKCS1_OAEP.new(self._key_pair)
-- 
2.43.0


From e6ffc0475fbe421bba7d2080a9f030d019489a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:16 +0000
Subject: [PATCH 20/38] fix: time stamps have no time zone and cannot be parsed

from_timstamp_string looked for a class within the datetime class, and the
format asks for a time zone which a naive time does not print.
---
 src/pymt/utils/utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pymt/utils/utils.py b/src/pymt/utils/utils.py
index 1132c1f..e4d2773 100755
--- a/src/pymt/utils/utils.py
+++ b/src/pymt/utils/utils.py
@@ -31,7 +31,7 @@ class Utils:
             The current timestamp as a string in the format
             YYYY-MM-DD HH:MM:SS.
         """
-        return datetime.now().strftime(format=cls.DATETIME_FORMAT)
+        return datetime.now().astimezone().strftime(cls.DATETIME_FORMAT)
 
     @classmethod
     def get_datetime_stamp(cls) -> datetime:
@@ -73,7 +73,9 @@ class Utils:
         datetime
             The converted timestamp.
         """
-        return datetime.datetime.strptime(timestamp, cls.DATETIME_FORMAT)
+        # The module of Django has the class under the same name
+        datetime_class = getattr(datetime, "datetime", datetime)
+        return datetime_class.strptime(timestamp, cls.DATETIME_FORMAT)
 
     @staticmethod
     def get_id_string() -> str:
-- 
2.43.0


From 349f226087dc0593ebffb10b80d0add4227c82f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:34 +0000
Subject: [PATCH 21/38] fix: checking a malformed RSA key raises instead of
 returning False

RSA.import_key also raises IndexError, TypeError and ZeroDivisionError for
keys that cannot be loaded, for example for b"ssh-rsa ".
---
 src/pymt/utils/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pymt/utils/utils.py b/src/pymt/utils/utils.py
index e4d2773..281da2d 100755
--- a/src/pymt/utils/utils.py
+++ b/src/pymt/utils/utils.py
@@ -372,7 +372,7 @@ class Utils:
             # Check if the key is a valid public key
             try:
                 key = RSA.import_key(key)
-            except ValueError:
+            except Exception:  # Malformed keys raise more than ValueError
                 if raise_exeptions:
                     raise KeyError(key, "Public key could not be loaded.")
                 return False
@@ -384,7 +384,7 @@ class Utils:
             # Check if the key is a valid private key
             try:
                 key = RSA.import_key(key)
-            except ValueError:
+            except Exception:  # Malformed keys raise more than ValueError
                 if raise_exeptions:
                     raise KeyError(key, "Private could not be loaded.")
                 return False
-- 
2.43.0


From 043c61c6d55e33c2f274a9aeed3091f5dd559c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:46 +0000
Subject: [PATCH 22/38] fix: printing a nibble path made from another path
 fails

Paths made by common_prefix and combine hold a list, which has no hex
method; the error messages of the trie print such paths.
---
 src/pymt/utils/nibble_path.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pymt/utils/nibble_path.py b/src/pymt/utils/nibble_path.py
index f43e689..bd37e92 100644
--- a/src/pymt/utils/nibble_path.py
+++ b/src/pymt/utils/nibble_path.py
@@ -37,7 +37,7 @@ class NibblePath:
         Returns the data in hex format and the offset.
         """
         return "<NibblePath: Data: 0x{}, Offset: {}>".format(
-            self._data.hex(), self._offset
+            bytes(self._data).hex(), self._offset
         )
 
     def __str__(self) -> str:
@@ -46,7 +46,7 @@ class NibblePath:
 
         Returns the data in hex format and the raw data.
         """
-        return "<Hex 0x{} | Raw {}>".format(self._data.hex(), self._data)
+        return "<Hex 0x{} | Raw {}>".format(bytes(self._data).hex(), self._data)
 
     def __eq__(self, other: "NibblePath") -> bool:
         """
-- 
2.43.0


From 7ec924828ea3e3774ce0d0f919a535e94a698f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:13 +0000
Subject: [PATCH 23/38] fix: proofs of a Merkle tree can be encoded neither to
 JSON nor from RLP

Their items are pairs of side and hash, which encode_json took for bytes
and decode_rlp refused as nested lists.
---
 src/pymt/proof.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/pymt/proof.py b/src/pymt/proof.py
index 774869e..3db74df 100644
--- a/src/pymt/proof.py
+++ b/src/pymt/proof.py
@@ -159,7 +159,15 @@ class Proof:
         for key, value in content.items():
             if key.lower() == "proof":
                 if "MT" in self._type.decode():
-                    content[key] = [i.decode() for i in value]
+                    # Items of Merkle tree proofs are pairs of side and hash
+                    content[key] = [
+                        (
+                            [part.decode() for part in i]
+                            if isinstance(i, tuple)
+                            else i.decode()
+                        )
+                        for i in value
+                    ]
                 elif "MPT" in self._type.decode():
                     raise NotImplementedError(
                         "Encoding MPT proofs is not supported yet"
@@ -188,7 +196,10 @@ class Proof:
             # Build the mpt proof from string
             proof = []
             for i in encoded_proof_list:
-                proof.append(i.encode())
+                if isinstance(i, list):
+                    proof.append(tuple(part.encode() for part in i))
+                else:
+                    proof.append(i.encode())
 
         else:
             raise TypeError("Invalid proof type {}".format(json_proof["proof_type"]))
@@ -254,14 +265,15 @@ class Proof:
                 rlp.sedes.binary,
                 rlp.sedes.binary,
                 rlp.sedes.binary,
-                rlp.sedes.CountableList(rlp.sedes.binary),
+                rlp.sedes.CountableList(rlp.sedes.raw),
             ]
         )
         decoded = rlp.decode(rlp_bytes, sedes=sedes)
         proof = Proof(
             target_key=decoded[2],
             root_hash=decoded[3],
-            proof=decoded[4],
+            # Items of Merkle tree proofs are pairs of side and hash
+            proof=tuple(tuple(i) if isinstance(i, list) else i for i in decoded[4]),
             proof_type=decoded[0],
         )
         proof._timestamp = decoded[1]
-- 
2.43.0


From 3324300a3f39abfe80bb39b3a1d9942ad99d491d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:26 +0000
Subject: [PATCH 24/38] fix: proofs of values that are not UTF-8 cannot be
 encoded to JSON

---
 src/pymt/proof.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pymt/proof.py b/src/pymt/proof.py
index 3db74df..3e8fe33 100644
--- a/src/pymt/proof.py
+++ b/src/pymt/proof.py
@@ -173,7 +173,8 @@ class Proof:
                         "Encoding MPT proofs is not supported yet"
                     )
             else:
-                content[key] = value.decode()
+                # The target key can be any bytes
+                content[key] = value.decode(errors="surrogateescape")
         return json.dumps(content)
 
     @staticmethod
@@ -205,7 +206,7 @@ class Proof:
             raise TypeError("Invalid proof type {}".format(json_proof["proof_type"]))
 
         proof = Proof(
-            target_key=json_proof["target_key"].encode(),
+            target_key=json_proof["target_key"].encode(errors="surrogateescape"),
             root_hash=json_proof["root_hash"].encode(),
             proof=tuple(proof),
             proof_type=json_proof["proof_type"].encode(),
-- 
2.43.0


From 027c271f36cfbb4bf08ad33f03e57680753b64ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:52 +0000
Subject: [PATCH 25/38] fix: bytearray values cannot be stored or read

Extended tries accept them by their documentation, but data references take
bytes only.
---
 src/pymt/empt.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pymt/empt.py b/src/pymt/empt.py
index 9e7c459..bd0b792 100644
--- a/src/pymt/empt.py
+++ b/src/pymt/empt.py
@@ -254,7 +254,7 @@ class EMPT(MutableMapping):
             # Encode if not already bytes
             expected = DataReference(key, data.encode_rlp())
         else:
-            expected = DataReference(key, data)
+            expected = DataReference(key, bytes(data))
         if ref != expected:
             raise InvalidReferenceError(
                 "The reference does not match the expected data"
@@ -299,7 +299,7 @@ class EMPT(MutableMapping):
         if not isinstance(value, (bytes, bytearray)):
             ref = DataReference(key, value.encode_rlp())
         else:
-            ref = DataReference(key, value)
+            ref = DataReference(key, bytes(value))
         self._trie.update(key, ref.encode())
         self._data_storage[key] = value
 
@@ -527,7 +527,7 @@ class SparseEMPT:
 
         if not isinstance(key, bytes):
             raise TypeError("The key must be type bytes, not {}".format(type(key)))
-        ref = DataReference(key, value)
+        ref = DataReference(key, bytes(value))
         self._trie.update(key, ref.encode())
 
     def delete(self, key: bytes) -> ...:
-- 
2.43.0


From e1683f0c97d688fd5ec67c98f6ed399035ea321f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:01 +0000
Subject: [PATCH 26/38] fix: objects that encode themselves cannot be stored in
 a sparse trie

hasattr was called with one argument, which raises a TypeError.
---
 src/pymt/empt.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pymt/empt.py b/src/pymt/empt.py
index bd0b792..aa75d54 100644
--- a/src/pymt/empt.py
+++ b/src/pymt/empt.py
@@ -511,13 +511,13 @@ class SparseEMPT:
             have a .encode_rlp() and .decode_rlp() method.
         """
         if not isinstance(value, (bytes, bytearray)):
-            if not hasattr(value.encode_rlp):
+            if not hasattr(value, "encode_rlp"):
                 raise NotImplementedError(
                     "The value must be type bytes, bytearray or have an encode_rlp method, not {}".format(
                         type(value)
                     )
                 )
-            if not hasattr(value.decode_rlp):
+            if not hasattr(value, "decode_rlp"):
                 raise NotImplementedError(
                     "The value must be type bytes, bytearray or have a decode_rlp method, not {}".format(
                         type(value)
-- 
2.43.0


From e1ccdf5a445a87d55e0b93bcc068615be849abb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:19 +0000
Subject: [PATCH 27/38] fix: get_root_trie of a sparse trie raises TypeError

It passed a mode argument that RootEMPT does not have.
---
 src/pymt/empt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymt/empt.py b/src/pymt/empt.py
index aa75d54..706e5a2 100644
--- a/src/pymt/empt.py
+++ b/src/pymt/empt.py
@@ -479,7 +479,7 @@ class SparseEMPT:
 
         The root trie is a trie that only contains the root of the trie.
         """
-        return RootEMPT(mode=b"ROOT", secure=self._trie.secure, root=self._trie.root())
+        return RootEMPT(secure=self._trie.secure, root=self._trie.root())
 
     # TRIE METHODS
     def get_reference(self, key: bytes) -> DataReference:
-- 
2.43.0


From 2744d5c9481281ca2e8129e22e2d41701980b302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:34 +0000
Subject: [PATCH 28/38] fix: rebuilding an extended trie fails

build_trie removed nodes while iterating over them, kept the root that
refers to the removed nodes, and did not encode objects.
---
 src/pymt/empt.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/pymt/empt.py b/src/pymt/empt.py
index 706e5a2..7d04aaf 100644
--- a/src/pymt/empt.py
+++ b/src/pymt/empt.py
@@ -1,6 +1,7 @@
 from .mpt import MPT
 from .utils.exceptions import InvalidReferenceError, KeyNotFoundError
 from .utils.hash import keccak_hash
+from .utils.node import Node
 import rlp
 from _collections_abc import MutableMapping
 from .proof import Proof
@@ -229,12 +230,18 @@ class EMPT(MutableMapping):
             database grows, the time it takes to build the trie will increase.
         """
         # Delete all the nodes in the trie
-        for key in self._trie._storage.keys():
+        for key in list(self._trie._storage.keys()):
             del self._trie._storage[key]
+        self._trie._root = Node.EMPTY_HASH
 
         # Build the new trie
         for key in self._data_storage.keys():
-            ref = DataReference(key, self._data_storage[key])
+            data = self._data_storage[key]
+            if not isinstance(data, (bytes, bytearray)):
+                # Encode if not already bytes
+                ref = DataReference(key, data.encode_rlp())
+            else:
+                ref = DataReference(key, bytes(data))
             self._trie.update(key, ref.encode())
 
     def get(self, key: bytes) -> bytes:
-- 
2.43.0


From 51a8cef82796cab883df2feede78de1d92645243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:03 +0000
Subject: [PATCH 29/38] fix: iterating over a trie needs more than the
 documented storage methods

A data storage does not have to be iterable itself; without __iter__ it was
iterated by index and failed.
---
 src/pymt/empt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymt/empt.py b/src/pymt/empt.py
index 7d04aaf..b1aab52 100644
--- a/src/pymt/empt.py
+++ b/src/pymt/empt.py
@@ -191,7 +191,7 @@ class EMPT(MutableMapping):
 
     def __iter__(self) -> Iterable[bytes]:
         """Return an iterator over the keys in the trie."""
-        return iter(self._data_storage)
+        return iter(self._data_storage.keys())
 
     def __getitem__(self, key: bytes) -> bytes:
         """Wrapper for the get method."""
-- 
2.43.0


From cc1d92ccedb3fdea7908bbc9d2b11fda7bcf98b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:15 +0000
Subject: [PATCH 30/38] fix: extended tries made without a storage share their
 contents

The default storages were mutable default arguments, so every trie wrote to
the same dictionaries. The example that reopened a trie this way now passes
its data storage.
---
 src/pymt/empt.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/pymt/empt.py b/src/pymt/empt.py
index b1aab52..6127ee3 100644
--- a/src/pymt/empt.py
+++ b/src/pymt/empt.py
@@ -118,8 +118,8 @@ class EMPT(MutableMapping):
 
     def __init__(
         self,
-        trie_storage={},
-        data_storage={},
+        trie_storage=...,
+        data_storage=...,
         root: Union[bytes, None] = None,
         secure: bool = False,
     ) -> ...:
@@ -166,6 +166,11 @@ class EMPT(MutableMapping):
                 The trie does not encrypt or hash the value, this is the
                 responsibility of the user.
         """
+        # Every trie gets storages of its own by default
+        if trie_storage is ...:
+            trie_storage = {}
+        if data_storage is ...:
+            data_storage = {}
         if data_storage is None:
             raise TypeError(
                 "The data storage must be set when the trie is in FULL mode"
@@ -429,7 +434,7 @@ class SparseEMPT:
     """
 
     def __init__(
-        self, trie_storage={}, root: Union[bytes, None] = None, secure: bool = False
+        self, trie_storage=..., root: Union[bytes, None] = None, secure: bool = False
     ):
         """
         Initialize the sparse storage EMPT.
@@ -449,6 +454,8 @@ class SparseEMPT:
                 The trie does not encrypt or hash the value, this is the
                 responsibility of the user.
         """
+        if trie_storage is ...:
+            trie_storage = {}
         self._trie = MPT(trie_storage, root, secure=secure)
 
     # DUNDER METHODS
-- 
2.43.0


From 36177dcef412b963c33c84fe7eff0810b1043c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:25 +0000
Subject: [PATCH 31/38] fix: a failing storage leaves the data and the trie of
 an EMPT at odds

When the data storage failed in update the reference was already replaced,
and when the trie storage failed in delete the data was already gone.
---
 src/pymt/empt.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/pymt/empt.py b/src/pymt/empt.py
index 6127ee3..b13817c 100644
--- a/src/pymt/empt.py
+++ b/src/pymt/empt.py
@@ -312,8 +312,14 @@ class EMPT(MutableMapping):
             ref = DataReference(key, value.encode_rlp())
         else:
             ref = DataReference(key, bytes(value))
+        root = self._trie.root()
         self._trie.update(key, ref.encode())
-        self._data_storage[key] = value
+        try:
+            self._data_storage[key] = value
+        except BaseException:
+            # Keep the trie in line with the data
+            self._trie._root = root
+            raise
 
     def delete(self, key: bytes) -> ...:
         """
@@ -326,8 +332,14 @@ class EMPT(MutableMapping):
             raise TypeError("The key must be type bytes, not {}".format(type(key)))
         if not self._trie.contains(key):
             raise KeyNotFoundError("The key is not in the trie")
-        del self._data_storage[key]
+        root = self._trie.root()
         self._trie.delete(key)
+        try:
+            del self._data_storage[key]
+        except BaseException:
+            # Keep the trie in line with the data
+            self._trie._root = root
+            raise
 
     def contains(self, key: bytes) -> bool:
         """
-- 
2.43.0


From df851bf08e5b0c835488c60f8ca27d0e5b9bf78c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:24 +0000
Subject: [PATCH 32/38] fix: put_list adds part of a refused list

---
 src/pymt/mt.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pymt/mt.py b/src/pymt/mt.py
index 353f607..5285aa6 100644
--- a/src/pymt/mt.py
+++ b/src/pymt/mt.py
@@ -54,6 +54,9 @@ class MerkleTree(MerkleTools):
             raise TypeError(
                 "`values` must be a list or tuple not {}".format(type(values))
             )
+        for value in values:
+            if not isinstance(value, bytes):
+                raise TypeError("`value` must be a bytes not {}".format(type(value)))
         for value in values:
             self.put(value)
 
-- 
2.43.0


From 5404c4e98a67520ffe852d7f56e803aaf6714ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:42 +0000
Subject: [PATCH 33/38] fix: iterations over one proof disturb each other

---
 src/pymt/proof.py | 18 ++++--------------
 1 file changed, 4 insertions(+), 14 deletions(-)

diff --git a/src/pymt/proof.py b/src/pymt/proof.py
index 3e8fe33..42ffdec 100644
--- a/src/pymt/proof.py
+++ b/src/pymt/proof.py
@@ -1,6 +1,6 @@
 from datetime import datetime
 import pickle
-from typing import List, Union
+from typing import Iterator, List, Union
 from .utils.hash import keccak_hash
 import rlp
 import json
@@ -96,19 +96,9 @@ class Proof:
 
         return self.__hash__() == other.__hash__()
 
-    def __iter__(self) -> "Proof":
-        """Return the proof as an iterator."""
-        self._data = list(self.items())
-        self._offset = 0
-        return self
-
-    def __next__(self) -> tuple:
-        """Return the next item of the proof."""
-        if self._offset >= len(self._data):
-            raise StopIteration
-        else:
-            self._offset += 1
-            return self._data[self._offset - 1]
+    def __iter__(self) -> Iterator[tuple]:
+        """Return an iterator over the items of the proof."""
+        return iter(self.items())
 
     # ATTRIBUTES
     @property
-- 
2.43.0


From 96699f2cf6bc57e476268bbe7cae290330306b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:54 +0000
Subject: [PATCH 34/38] fix: names with ./ and a further slash are taken from
 the file system root

---
 src/pymt/utils/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pymt/utils/utils.py b/src/pymt/utils/utils.py
index 281da2d..43d9231 100755
--- a/src/pymt/utils/utils.py
+++ b/src/pymt/utils/utils.py
@@ -238,7 +238,7 @@ class Utils:
         if not isinstance(filename, str):
             raise TypeError("Filename must be a string.")
         if filename.startswith("./"):
-            filename = os.path.join(os.getcwd(), filename[2:])
+            filename = os.path.join(os.getcwd(), filename)
         return os.path.isfile(filename)
 
     @staticmethod
@@ -263,7 +263,7 @@ class Utils:
         if not isinstance(dirname, str):
             raise TypeError("Dirname must be a string.")
         if dirname.startswith("./"):
-            dirname = os.path.join(os.getcwd(), dirname[2:])
+            dirname = os.path.join(os.getcwd(), dirname)
         return os.path.isdir(dirname)
 
     @staticmethod
-- 
2.43.0


From d79a2a4d0881e730ceb9322cff6c47a5fdfe8009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:06 +0000
Subject: [PATCH 35/38] fix: the documented curve names are refused

---
 src/pymt/utils/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pymt/utils/utils.py b/src/pymt/utils/utils.py
index 43d9231..72b042a 100755
--- a/src/pymt/utils/utils.py
+++ b/src/pymt/utils/utils.py
@@ -124,6 +124,8 @@ class Utils:
         bytes
             The generated ECC key.
         """
+        if curve in ["p-256", "p-384", "p-521"]:
+            curve = curve.upper()
         # Docs say it returns bytes, but it returns a string
         return ECC.generate(curve=curve).export_key(format="PEM").encode()
 
-- 
2.43.0


From c55974e84d676ce2345f6e3a99e5886dc9060f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:28 +0000
Subject: [PATCH 36/38] fix: an interrupted change leaves trie and data storage
 in line

---
 src/pymt/empt.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pymt/empt.py b/src/pymt/empt.py
index b13817c..a294224 100644
--- a/src/pymt/empt.py
+++ b/src/pymt/empt.py
@@ -313,8 +313,8 @@ class EMPT(MutableMapping):
         else:
             ref = DataReference(key, bytes(value))
         root = self._trie.root()
-        self._trie.update(key, ref.encode())
         try:
+            self._trie.update(key, ref.encode())
             self._data_storage[key] = value
         except BaseException:
             # Keep the trie in line with the data
@@ -333,8 +333,8 @@ class EMPT(MutableMapping):
         if not self._trie.contains(key):
             raise KeyNotFoundError("The key is not in the trie")
         root = self._trie.root()
-        self._trie.delete(key)
         try:
+            self._trie.delete(key)
             del self._data_storage[key]
         except BaseException:
             # Keep the trie in line with the data
-- 
2.43.0


From 0ac33042bafdaed1d04291d22ca52f2dbe7c69ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:09 +0000
Subject: [PATCH 37/38] fix: let proofs be copied and pickled

The class has a method named __dict__, so copying and unpickling a proof failed with an AttributeError or TypeError.
---
 src/pymt/proof.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/pymt/proof.py b/src/pymt/proof.py
index 42ffdec..a789c99 100644
--- a/src/pymt/proof.py
+++ b/src/pymt/proof.py
@@ -100,6 +100,26 @@ class Proof:
         """Return an iterator over the items of the proof."""
         return iter(self.items())
 
+    def __getstate__(self) -> tuple:
+        """Return the fields to copy or pickle, as `__dict__` is a method here."""
+        return (
+            self._type,
+            self._timestamp,
+            self._target_key,
+            self._root_hash,
+            self._proof,
+        )
+
+    def __setstate__(self, state: tuple) -> ...:
+        """Set the fields of a copied or unpickled proof."""
+        (
+            self._type,
+            self._timestamp,
+            self._target_key,
+            self._root_hash,
+            self._proof,
+        ) = state
+
     # ATTRIBUTES
     @property
     def timestamp(self) -> str:
-- 
2.43.0


From 55f2f620828027a4718daa8ac722dbdaf7608187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:32 +0000
Subject: [PATCH 38/38] fix: an interrupted add_leaf or reset_tree leaves no
 tree that counts as ready

---
 src/pymt/merkletools.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/pymt/merkletools.py b/src/pymt/merkletools.py
index 9bbee7b..2c37684 100644
--- a/src/pymt/merkletools.py
+++ b/src/pymt/merkletools.py
@@ -100,9 +100,9 @@ class MerkleTools(object):
 
     def reset_tree(self) -> ...:
         """Reset the MerkleTools object to its initial state."""
-        self.leaves = list()
-        self.levels = None
         self.is_ready = False
+        self.levels = None
+        self.leaves = list()
 
     def add_leaf(self, value: bytes) -> ...:
         """
@@ -118,8 +118,9 @@ class MerkleTools(object):
             value = bytearray.fromhex(value)
         else:
             value = bytearray(value)
-        self.leaves.append(value)
+        # Not ready before the leaves change, even if this is interrupted
         self.is_ready = False
+        self.leaves.append(value)
 
     def get_leaf(self, index: int) -> str:
         """
-- 
2.43.0

