"""Which harness entries decide which property, and within what bounds."""
B = {
    "sweep": "3 keys around a divergence nibble depth in {0,1,2,3,15,32,62,63} (the third at, just above or just below it), every nibble of the second key; 10 operations in 6 versions from 2^32-2, one call per version",
    "sweep1": "the same history computed by one call covering all 6 versions",
    "sweepall": "the sweep history at all 64 nibble depths",
    "wide": "3 keys with every combination of nibbles at depth 0; 5 operations in 2 versions from 0",
    "wide1": "3 keys with every combination of nibbles at depth 1, below a common first nibble",
    "gap": "3 keys, the second parting from the first at any nibble depth d, the third at depth 0, d/2, d-2 or 63-d: all put, one deleted, put again while another goes, the last changed (chains of every length collapse and grow back); 4 versions from 254",
    "pair": "2 keys, the second entirely symbolic from nibble 58 on (every divergence depth and nibble there); 3 versions from 5; on the crate's own in-memory store (C08, C10: on the recording store)",
    "hist": "any subset of 3 keys (4 arrangements) at version 0 or at an arbitrary 64-bit version, then any 2 operations (put or delete of any of the 3 keys) cut into versions in any way, committed call by call (from 0) or in one call (from the symbolic version)",
    "histall": "as hist, with 3 sibling positions, all 4 combinations of first version and number of calls, and possibly an empty last version",
    "crowd": "8 to 16 keys in 5 arrangements (a full node at nibble depth 0 or 3, two levels, the least and greatest keys, one key per bit of a byte), a run of them (5 lengths, 3 starts) deleted in a second version, one put again or a key with one arbitrary nibble put in a third",
    "crowdall": "as crowd, with 7 lengths, 4 starts and keys with an arbitrary nibble at depth 0, 1 or 63",
    "mass": "1100 keys, most below one child of the root; 8 deleted and 8 overwritten in a second version, one key with an arbitrary nibble at depth 1 put in a third (iteration, neighbours and pruning checked at some of the keys)",
    "long": "260 versions in one call from one of 6 first versions (0, 100, around 2^16, 2^32, 2^63 and near the end), 260 operations in one of them",
    "apis": "committed by the batch interface (insertions only) or by updates with proof: 3 keys or one of them (3 arrangements) at version 0 or 2^32-1, then any 2 operations in a second version and any insertion in a third, one call per version or all in one",
    "apione": "as apis, with one operation in the second version",
    "genesis": "a tree of 1 to 3 keys (3 arrangements) restored at the pre-genesis version 2^64-1, on which version 0 (and 1) is put: no change, or any 2 operations, by plain calls or the batch interface; one call or two",
    "big": "values of 255, 256, 4097, 65535, 65536 or 70000 bytes, symbolic at the ends and around 2^8 and 2^16: written, overwritten by one of the same length and deleted, by plain calls, the batch interface or updates with proof; call by call or in one call",
    "query": "5 arrangements of 3 keys, none or any one of them deleted in a second version; asked about: a key with one arbitrary nibble at, above or below a divergence point and an ending like a live key's, all zeros or all ones",
}
VALS = "values of 0, 1, 2, 32, 40, 64 and 300 symbolic bytes"

def std(c, quick=("wide", "sweep", "gap", "pair", "hist", "crowd", "mass", "long", "big", "genesis", "apis"), thorough=("wide", "wide1", "gap", "pair", "sweepall", "sweep1", "crowdall", "histall", "mass", "long", "big", "genesis", "apis"), more_q=(), more_t=(), reach={}):
    if c in ("C03", "C12", "C13", "C15"):
        quick = tuple("apione" if n == "apis" else n for n in quick)
    def mk(names, more):
        if c == "C21":
            # the bundled store keeps values in version order, which the pre-genesis version is not in
            names = [n for n in names if n != "genesis"]
        return [(f"{c.lower()}_{n}", dict(bounds=B[n], reach=reach.get(n, 1))) for n in names] + list(more)
    return dict(entries=dict(quick=mk(quick, more_q), thorough=mk(thorough, list(more_q) + list(more_t))),
                bounds=VALS + "; " + "; ".join(dict.fromkeys(B[n] for n in quick)))

def own(bounds, quick, thorough=None, assume=()):
    """quick/thorough: (entry, bounds of the entry, reach mask)"""
    f = lambda es: [(e[0], dict(bounds=e[1], reach=e[2] if len(e) > 2 else 1)) for e in es]
    return dict(bounds=bounds, entries=dict(quick=f(quick), thorough=f(quick if thorough is None else thorough)), assume=list(assume))

H14 = lambda *n: [(f"c14_{x}", B[x] + "; asked at every version (long: at 9 of them) once all are written, no empty values") for x in n]
Q = lambda c: [(f"{c.lower()}_query", dict(bounds=B["query"]))]
SMALL = "trees of 0 to 3 keys that part at bits 0 to 3; any claim; any leaf (every byte of its key and value hash symbolic); up to 2 siblings of any kinds with every byte symbolic"
TREE = "the same trees; a leaf for the asked key, none, or one with first and last byte of its key symbolic; up to 4 siblings"
DEEP = "2 keys that part at nibble 1, 16 or 63; proofs with one sibling fewer than, exactly as many as or one more than the true one, one of them of any kind with symbolic contents; any leaf for either key or a key symbolic around the divergence point"
SHAPE = "any root; 0 to 256 siblings, the lowest of any kind; no leaf, one for the key, or one that parts from it at, just above or just below the level of the proof"
COUNT = "the same trees; 0 to 2 updates with another number of proofs (0 to 2), each with up to 1 sibling and any leaf; any new root"
BIGV = "a value of 256, 4097, 65536 or 70000 bytes in the tree and a claimed one of the same or another length, symbolic at the ends and around 2^8 and 2^16; any leaf, up to 1 sibling"
MASS = "521 keys, one of them with an arbitrary nibble at depth 1"
VIRT = "a tree of 2 or 3 known leaves and up to 3 subtrees that are not stored, one of them of any number of leaves from 2 to 2^59, the others of about 2^33"
RESTORED = "any non-empty subset of 4 keys in 5 arrangements, arbitrary 64-bit target version"

CHECKS = {
    "C01": std("C01", more_q=Q("C01")),
    "C02": std("C02"),
    "C03": std("C03", more_q=Q("C03")),
    "C04": own("; ".join([SMALL, TREE, DEEP, SHAPE, BIGV]),
        [("c04_small", SMALL, 3), ("c04_tree", TREE, 3), ("c04_deep", DEEP, 3), ("c04_shape", SHAPE, 3), ("c04_big", BIGV, 3)],
        [("c04_small", SMALL, 3), ("c04_shape", SHAPE, 3), ("c04_big", BIGV, 3), ("c04_tree", TREE, 3), ("c04_deepall", DEEP + " (also nibbles 2 and 5, two altered siblings)", 3)]),
    "C05": std("C05"),
    "C06": own("; ".join([SMALL, TREE, "two updates with up to 1 sibling each", DEEP]) + "; any claimed new root",
        [("c06_small", SMALL + "; any single update, any new root", 3), ("c06_tree", TREE + "; any single update, any new root", 3),
         ("c06_two", "the same trees; two updates, the proof of each with up to 1 sibling; any new root", 3), ("c06_count", COUNT, 3), ("c06_big", BIGV + "; any new root", 3), ("c06_deep", DEEP, 3)],
        [("c06_small", SMALL, 3), ("c06_tree", TREE, 3), ("c06_two", "two updates", 3), ("c06_count", COUNT, 3), ("c06_big", BIGV + "; any new root", 3), ("c06_deepall", DEEP + " (also nibbles 2 and 5, two altered siblings)", 3)]),
    "C07": std("C07"),
    "C08": std("C08"),
    "C09": std("C09", more_q=[("c09_virtual", dict(bounds=VIRT + "; any 2 operations on any of 8 keys (live, absent, splitting a leaf, in an empty place), in one version, two, or two calls"))]),
    "C10": std("C10"),
    "C11": std("C11"),
    "C12": std("C12", more_q=Q("C12") + [("c12_virtual", dict(bounds=VIRT + "; each of the parts perhaps missing; iteration from any 64-bit index", reach=3))]),
    "C13": std("C13", more_q=Q("C13")),
    "C14": own("3 keys with every combination of nibbles at depth 0 or 1, and 3 keys that part at nibble depths up to 63; answers of one or two versions; values of 1, 2 and 40 symbolic bytes; and the histories of the other properties, asked at every version once all are written",
        [("c14_top", "3 keys with every combination of nibbles at depth 0 or 1; 2 versions; wrong values, wrong keys and the wrong kind of answer are rejected"),
         ("c14_chain", "2 keys that part at nibble 1, 2, 7, 14 or 15, a third above or at it; 2 versions"),
         ("c14_deep", "2 keys that part at nibble 16, 17, 40 or 63"),
         ("c14_forge", "trees of 0 to 3 keys that part at bits 0 to 3; an existence proof with any of 11 leaf operations (true, other prefixes, other hashes) and up to 2 steps, or the true one and up to 2 steps of 9 kinds (lengths of prefix and suffix), every byte of prefix and suffix symbolic; claimed: any key, key hashes, leaf nodes in place of key and value; any value", 3),
         ("c14_absent3", "the same trees; a non-existence proof of any key, up to two neighbours claimed, each with up to 3 steps of both kinds with every byte symbolic", 3),
         ("c14_crowd", "8 to 16 keys in 5 arrangements, a run of them deleted; asked about least, greatest and deleted keys and one with an arbitrary nibble at depth 0, 1 or 63")] + H14("sweep", "gap", "query", "hist", "big", "genesis", "apis", "long"),
        [("c14_top", "3 keys, depth 0 or 1"), ("c14_crowdall", "many keys"), ("c14_top4", "4 keys with every combination of nibbles at depth 0 or 1"), ("c14_chain", "chains"), ("c14_deep", "deep chains"), ("c14_forge", "trees of 0 to 3 keys that part at bits 0 to 3; an existence proof with any of 11 leaf operations (true, other prefixes, other hashes) and up to 2 steps, or the true one and up to 2 steps of 9 kinds (lengths of prefix and suffix), every byte of prefix and suffix symbolic; claimed: any key, key hashes, leaf nodes in place of key and value; any value", 3),
         ("c14_absent3", "the same trees; a non-existence proof of any key, up to two neighbours claimed, each with up to 3 steps of both kinds with every byte symbolic", 3)] + H14("sweepall", "gap", "query", "histall", "big", "genesis", "apis", "long", "mass"),
        ["the verifier is the ics23 crate 0.11.3 with SHA-256 replaced by the ideal hash; application keys are modelled by known preimages of arbitrary key hashes",
         "answers that involve empty values are not judged: the ics23 verifier rejects every proof with an empty value"]),
    "C15": std("C15", more_q=Q("C15") + [
            ("c15_forge", dict(bounds="trees of 0 to 3 keys that part at bits 0 to 3; any last leaf (every byte symbolic), up to 2 left siblings, up to 2 right siblings of any kinds, every byte symbolic", reach=3)),
            ("c15_forge4", dict(bounds="the same trees; a last leaf for any of 6 keys, up to 4 left and 4 right siblings", reach=3))], reach={"sweep": 3}),
    "C16": own(RESTORED + "; every partition into chunks",
        [("c16_main", RESTORED + "; every partition into chunks, resuming and overwriting constructors"), ("c16_empty", "the empty tree"),
         ("c16_five", "any non-empty subset of 5 keys in 5 arrangements; every partition"),
         ("c16_crowd", "8 to 16 keys in 5 arrangements, a run of them deleted before, in chunks of 1, 2, 3, 5 or all pairs"),
         ("c16_mass", MASS + ", restored in chunks of 100, 256 or all pairs"), ("c16_big", "3 keys, values of up to 70001 bytes", 3),
         ("c16_over", "any non-empty subset of 4 keys, every partition, by the overwriting constructor on a store that holds a tree of another subset (two versions, pruned or not) or what is left of an interrupted restore of it")]),
    "C17": own("5 trees of 1 to 4 keys, any honest prefix restored first, perhaps interrupted and resumed, then one chunk of 1 or 2 pairs (or two chunks of one) with arbitrary values, right, absent, repeated or misordered keys, with a true proof for any key or an arbitrary one with up to 2 siblings, then an attempt to finish",
        [("c17_main", "one bad chunk of 1 or 2 pairs; proofs with up to 2 arbitrary siblings", 7), ("c17_resumed", "the restore is interrupted after the honest prefix and taken up again; then one bad chunk of 1 or 2 pairs; proofs with up to 1 arbitrary sibling", 7), ("c17_two", "two chunks of one pair; proofs with up to 1 arbitrary sibling", 7),
         ("c17_other", "a restore of any non-empty subset of 4 keys on a store that holds a tree of another subset (two versions, pruned or not) or what is left of an interrupted restore of it, at another version or the same; fed all pairs or those after the greatest stored leaf", 15),
         ("c17_big", "3 keys, values of up to 70001 bytes, one of them perhaps replaced by one of the same length, a byte shorter or longer", 3)]),
    "C18": own(RESTORED + "; every chunking before and after, every write (also failing) after which the restore stops; two interruptions with 3 keys",
        [("c18_main", RESTORED + "; one interruption"), ("c18_virtual", "resumed after a part of any number of leaves from 2 to 2^59"), ("c18_twice", "any non-empty subset of 3 keys; two interruptions"),
         ("c18_crowd", "8 to 16 keys in 5 arrangements; chunks of 1, 2, 3, 5 or all pairs; one interruption at one of 5 places"),
         ("c18_mass", MASS + "; stopped after 0 to 2 chunks of 70, 257 or 300 pairs, resumed with chunks of 100, 256 or all")],
        [("c18_mass", MASS), ("c18_virtual", "resumed after a part of any number of leaves from 2 to 2^59"), ("c18_five", "any non-empty subset of 5 keys; one interruption"), ("c18_crowdall", "the same with more deletions before and sizes"), ("c18_twice4", "4 keys; two interruptions")]),
    "C19": own("all objects that occur in the sweep and hist histories (with symbolic values, versions and hashes); arbitrary contents, wrong tags, wrong lengths and truncations of every encoding; every byte string of up to 7 bytes",
        [("c19_sweep", B["sweep"]), ("c19_hist", "as hist with 1 operation"), ("c19_distinct", "pairs of node keys with 0, 1, 2, 5, 63 or 64 symbolic nibbles and symbolic versions, of nodes, of proofs"),
         ("c19_garbage", "every encoding with symbolic contents, every invalid tag, four values of every length field, cut short or extended", 3), ("c19_serde", "the serde (bincode) encodings of the same objects with symbolic contents, every tag, length fields altered, cut short or extended", 3), ("c19_short", "every byte string of up to 7 bytes, for every type", 3)]),
    "C20": own("4 arrangements of 3 keys, one possibly deleted; 13 public operations and the resumption of a restore; a failure (one-off, permanent, or an entry, value or key preimage missing) at any of the first 10 reads, in the deep arrangement also at 11 later ones up to the 70th",
        [("c20_main", "every operation, every failing read among the first 10 (deep trees: up to the 70th)", 7),
         ("c20_restore", "a restore of any non-empty subset of 4 keys in 5 arrangements, stopped anywhere and taken up again with a one-off or permanent failure of one of its first 12 reads", 7)]),
    "C21": std("C21", more_q=[("c21_api", dict(bounds="two batches of 1 or 2 entries (values, deletions or nodes; 2 keys, 2 paths, 2 versions from an arbitrary one), written, merged or extended; asked at an arbitrary version; any of the nodes stale since any of 2 versions, pruned at an arbitrary version; leaves put singly", reach=7))],
        more_t=[("c21_api3", dict(bounds="the same with three batches", reach=7))]),
    "C22": std("C22"),
    "C23": own("0 to 300 siblings around the limits, a leaf that agrees with the key in any number of bits of its first byte or parts at one of several later places, any root",
        [("c23_read", "0, 1, 3, 4, 5, 8, 255, 256 or 257 siblings; first of any kind"), ("c23_update", "the same; 0, 1 or 2 updates with 1 or 2 proofs"),
         ("c23_range", "0 to 300 right siblings with 0 to 257 left siblings")],
        [("c23_readall", "14 numbers of siblings up to 300, first and last of any kind, leaves parting at any byte"), ("c23_updateall", "the same for updates"), ("c23_range", "range proofs")]),
    "C24": own("3 keys in 4 arrangements, latest version 0 or arbitrary, one earlier version or none; one append of 1 to 3 operations or two appends of 1 or 2; appends to 3 versions that were never written",
        [("c24_one", "one append of 2 operations, then pruning and a further version", 3), ("c24_two", "two appends of 1 operation", 3), ("c24_three", "one append of 3 operations", 3),
         ("c24_mock", "one append of 2 operations on the crate's own in-memory store", 3), ("c24_mocktwo", "two appends of 1 operation on it", 3), ("c24_mass", "about 340 changes appended to a version of 200 keys, one of them with an arbitrary nibble at depth 1", 3)],
        [("c24_one", "one append of 2 operations", 3), ("c24_mass", "hundreds of changes", 3), ("c24_more", "two appends of 2 operations", 3), ("c24_three", "one append of 3 operations", 3), ("c24_mock", "on the in-memory store", 3), ("c24_mocktwo", "two appends on it", 3)]),
}
NA = {}
