#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script only because JSON lines are unpleasant to edit)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe, hook_needed=None)))

TREE, CACHE, NT, IT, RS, DEF, PR, ICS, NP = ("src/tree.rs", "src/tree_cache.rs", "src/node_type.rs", "src/iterator.rs", "src/restore.rs",
    "src/types/proof/definition.rs", "src/types/proof.rs", "src/tree/ics23_impl.rs", "src/types/nibble/nibble_path.rs")

p("C01", "Versioned reads return exactly what the history wrote",
  "After any sequence of committed updates (insertions, overwrites, deletions, in any grouping into consecutive versions), reading a key at a version, with or without a proof, returns the value of the last update to that key at or before that version, and nothing if there is none or it was a deletion. Values are returned byte for byte, the empty value being a value and not an absence.",
  ["histories", "inputs"], "every history of insertions, overwrites and deletions over every set of 256-bit keys, every value, every version, every query key",
  "Tests read back a few random keys; the answer depends on the shape of the tree (shared prefixes up to 63 nibbles, splits, collapses after deletion), on which version last touched a key, and on values such as the empty one.",
  [TREE, CACHE, NT, "src/mock.rs"], [("insertion and deletion walk the nibble path, splitting and collapsing nodes", TREE+" insert_at, insert_at_internal_node, insert_at_leaf_node"), ("pending nodes and values of a multi-version update", CACHE)],
  ["get", "get_with_proof", "get_with_exclusion_proof"], [("node and value batch", "what one update adds to storage", "src/writer.rs")])
p("C02", "The root hash is a function of the live key-value set alone",
  "The root hash of a version equals the sparse Merkle root of the key-value pairs live at that version: a lone leaf stands for its whole subtree, an empty subtree is the fixed placeholder, leaves and inner nodes are hashed with their domain-separation prefixes, and children are ordered by key bits from the most significant. It does not depend on the order or grouping of the updates, on intermediate values, on deleted keys or on version numbers.",
  ["histories", "inputs"], "every key set, every pair of histories leading to it (order, batching, deletions and re-insertions, version numbers)",
  "Tests compare a handful of vectors and random sets with shallow collisions; the root must be canonical for all shapes, in particular after deletions that collapse chains of nodes and for keys that diverge only in the last nibble.",
  [TREE, NT, PR], [("node hash", NT+" InternalNode::hash, merkle_hash"), ("collapse of single-leaf subtrees after deletion", TREE+" insert_at_internal_node"), ("leaf and inner hash formats", PR)],
  ["root hash returned by updates", "get_root_hash"])
p("C03", "Every read comes with a proof that verifies against the version's root",
  "For every version and every key, present or absent, the proof returned with the read verifies against that version's root hash for exactly the value (or absence) returned. Reading with a proof and reading without one agree.",
  ["histories", "inputs"], "every tree reachable by updates, every version, every query key present or absent",
  "Tests check proofs for random keys, whose paths share few bits; a proof must verify for all 256 depths, all 16 children, both halves at each of the four levels inside a node, and neighbours that are leaves, empty or internal.",
  [TREE, NT, DEF], [("sibling collection", NT+" get_only_child_with_siblings"), ("proof verification", DEF+" SparseMerkleProof::verify")], ["get_with_proof", "SparseMerkleProof::verify"])
p("C04", "No membership or non-membership proof verifies for a false claim",
  "For a fixed root hash of a key-value set, no proof whatsoever, however constructed, verifies for a key with a value it does not have, for the absence of a key that is present, or for the presence of a key that is absent. Whatever the root, a proof that verifies presence holds the leaf of exactly that key and value, and one that verifies absence holds no leaf, or that of another key lying in the subtree where the key would be. This holds under collision resistance of the hash function.",
  ["inputs"], "every tree, every key and claimed value, every proof byte string that decodes",
  "An adversary chooses the proof; tests only flip a few parts of honest proofs.",
  [DEF, PR], [("path recomputation and non-existence prefix check", DEF+" SparseMerkleProof::verify, root_hash"), ("domain separation of leaves and inner nodes", PR)], ["SparseMerkleProof::verify", "verify_existence", "verify_nonexistence"])
p("C05", "Updates with a proof equal updates without, and their proof verifies",
  "Updating with a proof yields the same root hashes and the same storage changes as updating without one, and the returned proof verifies the transition from the old root to the new root for the same list of changes, including overwrites, deletions of absent keys and several changes to one key.",
  ["histories", "inputs"], "every tree, every list of insertions, overwrites and deletions, of one or several versions",
  "The proof is a chain of per-change proofs over intermediate trees whose shapes (split, collapse, empty tree) depend on every earlier change; tests cover random lists with almost no shared prefixes and few deletions.",
  [TREE, NT, DEF], [("proof-producing insertion", TREE+" put_value_sets_with_proof, insert_at*"), ("siblings from cached nodes", NT+" get_child_with_siblings"), ("transition verification", DEF+" UpdateMerkleProof::verify_update")], ["put_value_set_with_proof", "put_value_sets_with_proof", "UpdateMerkleProof::verify_update"])
p("C06", "No update proof verifies for a transition that did not happen",
  "For a fixed old root hash of a key-value set and a fixed list of changes, no update proof whatsoever verifies for any new root other than the root of the changed set. In particular a change cannot be skipped, a deletion of a present key cannot be passed off as a deletion of an absent one, and keys outside the list cannot be altered.",
  ["inputs"], "every tree, every list of changes, every claimed new root, every proof byte string that decodes",
  "The adversary chooses proof and claimed root; tests only try a few wrong roots with honest proofs.",
  [DEF], [("replay of one change on a proof", DEF+" check_compute_new_root"), ("chaining of roots", DEF+" verify_update")], ["UpdateMerkleProof::verify_update"])
p("C07", "A committed version never changes",
  "Committing later versions never changes what any earlier version reports: its root hash, the values and absences read at it, their proofs and its leaf count stay the same, byte for byte. An update only adds storage entries: it never overwrites or needs to modify a stored one.",
  ["histories", "inputs"], "every history, every earlier version, every query at it",
  "Sharing of subtrees between versions goes wrong only for particular sequences (collapse, re-insertion into a collapsed place, no-op updates, several versions in one batch) that random tests rarely line up with a check of all old versions.",
  [TREE, CACHE], [("versioned node keys", "src/node_type.rs NodeKey"), ("staging of changed nodes", CACHE)], ["get_root_hash", "get", "get_with_proof", "get_leaf_count", "node batch keys"])
p("C08", "Pruning what was reported stale is safe and leaves nothing behind",
  "Removing every node reported stale at or before a version leaves that version and all later ones fully readable and provable with unchanged results. What then remains is exactly the nodes reachable from those versions, every reported node exists when it is reported, and none is reported twice.",
  ["histories", "inputs"], "every history in any grouping, every pruning point",
  "Whether a node is still shared depends on the whole history; a wrongly reported or forgotten node shows only for particular sequences of splits, collapses, no-op versions and emptied trees combined with a particular pruning point.",
  [CACHE, TREE, "src/mock.rs", "src/writer.rs"], [("stale node recording", CACHE+" delete_node, freeze"), ("pruning", "src/mock.rs purge_stale_nodes")], ["stale node index batch", "purge_stale_nodes", "num_nodes"])
p("C09", "Leaf counts and node statistics are exact",
  "The leaf count of a version is the number of live keys at it. The statistics returned for each version of an update are the exact numbers of nodes and leaves that version adds to storage and makes stale.",
  ["histories", "inputs"], "every history in any grouping",
  "Counts are maintained incrementally along splits, collapses and overwrites; tests check a few fixed sequences.",
  [CACHE, NT, TREE], [("leaf count in child records", NT+" NodeType, leaf_count"), ("statistics", CACHE+" freeze")], ["get_leaf_count", "node_stats"])
p("C10", "All ways of batching the same updates give the same result",
  "Applying several versions in one call gives the same root hashes, nodes, values and stale nodes as committing them one call at a time; insertion of a whole set at once through the batch interface gives the same as inserting its elements one by one, in any order. When a key appears more than once in one version, the last occurrence wins.",
  ["histories", "inputs"], "every sequence of change sets, every order within a set, every grouping into calls",
  "Different code paths (recursive batch insertion, one-by-one insertion, frozen versus stored nodes) must agree for all shapes; tests compare them on a few random sets.",
  [TREE, CACHE], [("batch insertion", TREE+" batch_insert_at, batch_create_subtree*"), ("one-by-one insertion", TREE+" put"), ("frozen nodes of earlier versions in the batch", CACHE)], ["put_value_set", "put_value_sets", "batch_put_value_sets"])
p("C11", "Every committed version exists, even when it changes nothing",
  "After any update call, each version it covered has a root that can be queried, also when its change set is empty, deletes only absent keys, re-inserts equal values, or empties the tree, and also as the first version of an empty store or as version 0 on top of a tree stored at the pre-genesis version (2^64 - 1). A version never committed is reported as missing by queries of its root hash, leaf count, proofs, range proofs and iteration; these never answer from another version.",
  ["histories", "inputs"], "every change set including empty and no-op ones, at every first version, on empty and non-empty stores",
  "The no-op path depends on the combination of empty change sets, emptied trees and version numbers.",
  [CACHE, TREE], [("copying of the root for unchanged versions", CACHE+" freeze"), ("start from an empty store", CACHE+" new")], ["get_root_hash", "get_root_hash_option", "get_with_proof"])
p("C12", "Iteration yields exactly the live pairs from the start point in key order",
  "Iterating a version from a starting key yields exactly the live pairs at that version whose key is not less than the starting key, each once, in ascending key order with the right value. Iterating from an index yields exactly the pairs after skipping that many.",
  ["histories", "inputs"], "every tree, every starting key (present, absent, between any two keys, below or above all), every index",
  "The start position is found by a walk with many cases (missing child to the left or right, leaf smaller or greater, end of a node); tests start at sampled keys of small trees.",
  [IT, NT], [("positioning and stack maintenance", IT+" new, new_by_index, cleanup_stack"), ("child bitmaps", NT+" generate_bitmaps")], ["JellyfishMerkleIterator::new", "JellyfishMerkleIterator::new_by_index"])
p("C13", "Absence proofs by neighbours name the true adjacent keys",
  "Asking for an exclusion proof of an absent key in a non-empty tree returns verifying inclusion proofs of the greatest live key below it and the least live key above it, in the form (leftmost, middle, rightmost) that matches which of them exist; for a present key it returns its value and a verifying proof.",
  ["histories", "inputs"], "every non-empty tree, every query key",
  "Finding the neighbours needs a different walk for each relation between the query and the tree; tests use small trees and sampled queries.",
  [TREE], [("neighbour search", TREE+" get_bounding_path, search_closest_extreme_node, get_extreme_key_hash")], ["get_with_exclusion_proof"])
p("C14", "ICS23 proofs verify under the published proof specification",
  "For every key, the ICS23 proof returned verifies with the standard ICS23 verifier under the tree's published specification against the version's root hash: as an existence proof of exactly the stored value when the key is present, as a non-existence proof of the key when it is absent from a non-empty tree (values being non-empty, as the ICS23 verifier demands). The same proof does not verify for a different value or for the opposite claim, and no made-up ICS23 proof verifies under that specification for a pair that is not in the tree or for the absence of a key that is.",
  ["histories", "inputs"], "every tree, every key with a stored preimage",
  "The verifier checks paths bit by bit against the specification (padding, prefix lengths, left/right neighbour structure); errors show for particular positions of neighbours and particular depths.",
  [ICS, TREE], [("conversion of proofs to ICS23 form", ICS), ("specification", ICS+" ics23_spec")], ["get_with_ics23_proof", "ics23 verify_membership / verify_non_membership"])
p("C15", "Range proofs verify exactly the leftmost part of the key set",
  "The range proof for a present key, combined with the left siblings of that key's path, verifies against the root hash; it fails against any other root, for another last leaf, or with other left siblings. Its right siblings are exactly those to the right of the key's path.",
  ["inputs", "histories"], "every tree, every present key, every alteration of root, leaf or siblings",
  "The interleaving of left and right siblings follows the key bits; tests use few random keys.",
  [TREE, DEF], [("range proof construction", TREE+" get_range_proof"), ("range proof verification", DEF+" SparseMerkleRangeProof::verify")], ["get_range_proof", "SparseMerkleRangeProof::verify"])
p("C16", "A restored tree equals the original for every chunking",
  "Feeding a version's live pairs in key order with their range proofs into a restore, cut into chunks in any way, succeeds and yields a store that answers every read, proof, iteration and leaf count at that version with the same root hash as the original, and takes further updates like it. This includes the empty tree, and the overwriting constructor on a store that holds something else.",
  ["inputs", "configurations"], "every key set, every partition into chunks, every target version",
  "Partial nodes on the right edge are frozen incrementally; the result depends on where chunks end relative to shared prefixes.",
  [RS, IT, TREE], [("incremental construction", RS+" add_one, insert_at_leaf, freeze"), ("chunk verification", RS+" verify"), ("completion", RS+" finish_impl")], ["StateSnapshotReceiver::add_chunk", "finish", "reads of the restored store"])
p("C17", "A restore accepts only data that belongs to the expected root",
  "A restore rejects, with an error and without writing anything, every chunk that contains a wrong value, a key that is not in the tree, a gap, keys out of order, or that comes with a proof not matching the expected root: whatever it has written is the beginning of the tree's pairs. A restore that finishes successfully has produced a tree with exactly the expected root hash, also on a store that holds another tree or the remains of another restore.",
  ["inputs", "fault_sequences"], "every chunk content and proof an untrusted sender can supply, at every point of a restore, including a premature end",
  "The sender is untrusted; tests only feed honest chunks.",
  [RS, DEF], [("chunk verification before writing", RS+" add_chunk_impl, verify"), ("completion", RS+" finish_impl")], ["add_chunk", "finish", "write_node_batch calls"])
p("C18", "An interrupted restore can be resumed from any write",
  "If a restore stops after any of its writes to storage before it is complete, or because a write fails, a new restore on the same store, fed the remaining pairs after the greatest stored leaf in any chunking, completes and yields the same tree as an uninterrupted restore.",
  ["crash_points", "inputs", "configurations"], "every key set, every chunking before and after, every write after which the process stops",
  "The state of a resumed restore is recomputed from stored nodes; whether it is right depends on which nodes were already frozen at the crash point.",
  [RS], [("recovery of partial nodes", RS+" recover_partial_nodes"), ("deferred write of the last leaf", RS+" freeze_previous_leaf")], ["JellyfishMerkleRestore::new", "reads of the restored store"])
p("C19", "Encodings round-trip, are unambiguous, and decoding never panics",
  "Encoding and decoding any node key, node, proof, hash or update batch gives back an equal object with equal behaviour, different objects have different encodings, and decoding an arbitrary byte string never panics: it reports an error or yields an object whose encoding is exactly the bytes read.",
  ["inputs"], "every node, key, proof and batch; every byte string up to the stated length given to the decoders",
  "Tests round-trip random well-formed objects; decoders also face corrupted or hostile input.",
  [NT, NP, DEF, "src/writer.rs", PR], [("derived and custom encoders", NT), ("nibble path decoding with padding check", NP)], ["borsh encodings of public storage and proof types"])
p("C20", "Storage failures surface as errors and never as wrong answers",
  "If the storage backend fails at any access during a read, proof, iteration, update or the resumption of a restore, or reports a needed node below the root, or the value or key preimage belonging to a proof or an iteration, as missing, the operation does not report a result that differs from the correct one. Queries of the root hash, leaf count or proofs at versions whose root is absent report an error.",
  ["fault_sequences", "histories"], "every operation, every single storage access failing or coming back empty",
  "Tests run on stores that never fail.",
  [TREE, CACHE, IT, "src/reader.rs"], [("error propagation from the reader", "src/reader.rs, src/tree.rs")], ["all public reads and updates over a failing reader"])
p("C21", "The bundled in-memory store answers like the log of what it was given",
  "After any batches written, the in-memory store returns for each node key the node written and nothing for others, for each key and version the value of the greatest version not above it, and as rightmost leaf the stored leaf with the greatest key. Pruning removes exactly the nodes reported stale at or before the given version. Merged batches have the effect of writing them one after another.",
  ["histories", "inputs"], "every history of update batches, every query, every pruning point",
  "The store is the backend of every test, so that its errors and the tree's can hide each other; ordering of versions and pruning boundaries are sampled only.",
  ["src/mock.rs", "src/writer.rs", "src/reader.rs"], [("nodes, value history and stale nodes", "src/mock.rs write_node_batch, put_value, purge_stale_nodes"), ("merging of batches", "src/writer.rs NodeBatch::merge, extend")], ["MockTreeStore", "NodeBatch::merge"])
p("C22", "Stored nodes are well-formed and consistent with each other",
  "Every node a committed version leads to is stored under the nibble path of its keys; each inner node has at least two children or one inner child, and its child records give for each existing child the version it is stored at, its hash, kind and leaf count; its own leaf count, bitmaps and hash follow from them. The leaves below a root are exactly the live keys with the hashes of their values. An update stores exactly one value entry per changed key and version, the last one given.",
  ["histories", "inputs"], "every history in any grouping, every committed version",
  "Backends, restores and later updates rely on every stored record, also those no read of the moment touches; a wrong child record shows only when a later operation uses it.",
  [NT, TREE, CACHE], [("inner nodes and child records", NT+" InternalNode, Children, Child"), ("writing of changed paths", TREE+" insert_at*, batch_*")], ["TreeUpdateBatch", "Node", "NodeKey", "NibblePath"])
p("C23", "Proof verification never panics on untrusted input",
  "Verifying any decodable proof (membership, update or range) for any key, value, root and change list returns success or an error; it never panics, overflows or runs without end, however many siblings or entries the proof contains.",
  ["inputs"], "every proof byte string that decodes, in particular too many, too few or misplaced siblings, for every key, value and root",
  "Length arithmetic in the verifiers fails only for sibling counts an honest prover never produces.",
  [DEF], [("sibling count and prefix arithmetic", DEF+" verify, check_compute_new_root, root_hash, SparseMerkleRangeProof::verify")], ["verify", "verify_existence", "verify_nonexistence", "verify_update", "SparseMerkleRangeProof::verify"])
p("C24", "Appending to the latest version equals having written both sets at once",
  "With the migration interface, appending changes to the already committed latest version, when it succeeds, gives the root hash, readable values, verifying proofs and leaf count of that version with both change sets applied in order, leaving earlier versions unchanged and the version safe to prune up to. Appending to a version above the latest is refused.",
  ["histories", "inputs"], "every tree with a non-empty latest version, every appended change set",
  "The interface rewrites nodes in place at an existing version, a path with its own storage effects that one test touches.",
  [TREE, CACHE], [("in-place append", TREE+" append_value_set"), ("overwriting cache", CACHE+" new_overwrite")], ["append_value_set"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
ids = [x["id"] for x in P]; assert len(set(ids)) == len(ids)
for x in P: assert len(x["title"]) <= 80, x["title"]
