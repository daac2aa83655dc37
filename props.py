"""Texts of the properties; `python3 props.py` writes properties.jsonl and MANIFEST.json from them and specs.py."""
import json, os
from specs import PROPS
V = os.path.dirname(os.path.abspath(__file__))
INP, SCH, HIST, CONF = "inputs", "schedules", "histories", "configurations"
P = []
def prop(id, title, statement, over, q, why, files, mech, state=None, observe=None, note=None, tech=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": q}, why_tests_cant=why,
                  anchors={"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech],
                           **({"state": [{"name": a, "meaning": m, "where": b} for a, m, b in state]} if state else {}),
                           **({"observe_at": observe} if observe else {})}, _note=note, _tech=tech))
SEQ = "property-based testing: generated operation histories against a reference model, shrunk replays, under AddressSanitizer"
FUN = "property-based testing: generated inputs, reference definitions and round trips as oracle, shrunk replays, under AddressSanitizer"
CON = "property-based testing of concurrent histories: generated operation lists and generated schedules (every memory access a scheduling point), linearizability oracle"
NSEQ = "Sampled exploration: holds on every generated history of this run; nothing beyond them is claimed."
NCON = "Sampled schedules: sequentially consistent interleavings at memory-access granularity, plus a share of free-running parallel cases on the hardware memory model."

prop("A01", "ART-OLC point operations behave like an ordered map",
 "For any prefix-free set of byte-string keys, storing a record for a key makes a lookup of exactly that key return that record (the latest one stored), removing the record of a key makes only that key absent, and a lookup of any key never stored finds nothing. This holds through every node growth, shrink, split and merge the history causes.",
 [HIST, INP], "all sequences of insert (as upsert), lookup and remove over fixed-length 8-byte keys and zero-terminated string keys up to 255 bytes",
 "the shipped test inserts and reads three integer sequences; node types, stored-prefix overflow, path splitting and merging depend on the key set and on the removal order",
 ["ARTOLC/Tree.cpp", "ARTOLC/N.cpp", "ARTOLC/N4.cpp", "ARTOLC/N16.cpp", "ARTOLC/N48.cpp", "ARTOLC/N256.cpp"],
 [("adaptive node grow/shrink and path compression", "ARTOLC/Tree.cpp insert/remove, ARTOLC/N.cpp insertAndUnlock/removeAndUnlock")], tech=SEQ)
prop("A02", "ART-OLC range lookup returns exactly the keys in the range, in order",
 "A range lookup from a start key (inclusive) to an end key (exclusive) returns the records of exactly the stored keys in that range, in ascending key order, up to the size of the result buffer. When the buffer fills up it reports a continuation key from which the next call carries on without losing or repeating a record.",
 [HIST, INP], "all stored key sets, start and end keys (stored or not, shorter, equal, outside) and buffer sizes",
 "no shipped test calls the range lookup at all",
 ["ARTOLC/Tree.cpp"], [("range traversal by start/end prefix comparison", "ARTOLC/Tree.cpp lookupRange, checkPrefixCompare, checkPrefixEquals")], tech=SEQ)
prop("A03", "ART-OLC point operations are linearizable under concurrency",
 "For any interleaving of concurrent inserts, lookups and removes by several threads, every operation takes effect atomically at one moment between its call and its return: no stored key is lost, no removed key comes back, no lookup returns a record never stored for its key. No interleaving makes the index crash, read reclaimed memory or stop making progress.",
 [SCH, HIST], "all schedules of 2 to 6 threads running generated operation lists on shared keys",
 "the shipped test only runs disjoint or read-only phases; lost updates need one thread to be paused between two particular accesses",
 ["ARTOLC/Tree.cpp", "ARTOLC/N.cpp", "ARTOLC/Epoche.cpp"], [("optimistic lock coupling with version validation", "ARTOLC/N.cpp readLockOrRestart/checkOrRestart/upgradeToWriteLockOrRestart"), ("epoch-based reclamation", "ARTOLC/Epoche.cpp")], tech=CON, note=NCON)
prop("O01", "OptiQL ART point operations behave like an ordered map",
 "Insert succeeds exactly when the key is absent, update exactly when it is present, remove exactly when the key holds the given record; lookup returns the latest record of exactly that key. Repeated updates of a hot key, which restructure the tree to move contention to a deeper node, never change any answer.",
 [HIST, INP], "all sequences of insert, update, lookup and remove over fixed-length and zero-terminated keys, including long runs of updates of one key",
 "the shipped test covers one integer sequence without removal; hot-key expansion triggers after thousands of updates and only then meets removal and insertion",
 ["OptiQL/Tree.cpp", "OptiQL/N.cpp"], [("upsert/update/remove with contention expansion", "OptiQL/Tree.cpp insert, update, tryExpand, remove")], tech=SEQ)
prop("O02", "OptiQL ART range lookups return exactly the keys in range, in order",
 "A range lookup between two keys, or from a start key with a count limit, returns the records of exactly the stored keys in that range in ascending order, truncated only by the limit, and reports correctly whether more remain.",
 [HIST, INP], "all stored key sets, bounds (stored or not) and limits",
 "no shipped test calls either range lookup",
 ["OptiQL/Tree.cpp"], [("range traversal", "OptiQL/Tree.cpp lookupRange (both overloads)")], tech=SEQ)
prop("O03", "OptiQL ART point operations are linearizable under concurrency",
 "For any interleaving of concurrent inserts, updates, lookups and removes, each operation's result is what some sequential order consistent with real time would give. No interleaving crashes the index, loses a key or stops progress.",
 [SCH, HIST], "all schedules of 2 to 6 threads running generated operation lists on shared keys",
 "the shipped test inserts disjoint keys and then reads them",
 ["OptiQL/Tree.cpp", "OptiQL/N.cpp", "OptiQL/latches/OMCSImpl.h"], [("optimistic queuing-lock coupling", "OptiQL/N.h lock wrappers, OptiQL/latches/OMCSImpl.h")], tech=CON, note=NCON)

prop("L01", "B-Link tree point operations behave like an ordered map",
 "Insert succeeds exactly when the key is absent and leaves an existing entry untouched, update succeeds exactly when the key is present, and a search (latched or unlatched) finds exactly the stored keys with their latest values. This holds for every node size and split threshold and both latch types, through all splits and height changes.",
 [HIST, INP, CONF], "all sequences of insert, update and search over integer and string keys, for all leaf and inner node sizes and split thresholds",
 "the shipped example loads one sequence with one node size; split points, separator keys and high keys depend on the order of insertion and on node size",
 ["BLinkTree/b_link_tree.h", "BLinkTree/b_link_node.h"], [("split, high key and separator insertion", "BLinkTree/b_link_tree.h Insert*, BLinkTree/b_link_node.h Split/Insert")], tech=SEQ)
prop("L02", "B-Link tree scans return exactly the keys in range, in order",
 "A scan from a start key with a count limit, a scan over a half-open key range and a full leaf traversal return exactly the stored entries they cover, each once, in ascending key order with their latest values.",
 [HIST, INP, CONF], "all stored key sets, start and end keys (stored or not) and limits, for all node sizes",
 "no shipped test checks what a scan returns",
 ["BLinkTree/b_link_tree.h", "BLinkTree/b_link_node.h"], [("leaf chain traversal", "BLinkTree/b_link_tree.h ScanFixed, ScanRange, ScanLeaf")], tech=SEQ)
prop("L03", "B-Link tree operations are linearizable under concurrency",
 "For any interleaving of concurrent inserts, updates, searches and scans, every point operation takes effect atomically between its call and return, and every scan returns sorted, duplicate-free entries including all keys present throughout it. No interleaving crashes or deadlocks the tree.",
 [SCH, HIST], "all schedules of 2 to 6 threads running generated operation lists on shared keys, for small and large nodes and both latch types",
 "the example never lets a search meet a half-finished split on purpose; the window in which a key has moved right but its separator is not yet posted is a few instructions",
 ["BLinkTree/b_link_tree.h", "BLinkTree/b_link_node.h", "BLinkTree/latch.h"], [("move-right through link pointers and latch coupling on ascent", "BLinkTree/b_link_tree.h")], tech=CON, note=NCON)
prop("T01", "OLC B-tree insert, lookup and scan behave like an ordered map",
 "Inserting a key (new or stored before) makes a lookup of exactly that key return the latest value, a lookup of any other key reports absence, and a scan returns the values of the keys from the start key upward in ascending key order, without gap or repetition, never more than asked. Both leaf layouts behave the same for every key and value size.",
 [HIST, INP, CONF], "all sequences of insert, lookup and scan over integer and wide keys, narrow and wide values, both leaf layouts",
 "the shipped example checks that stored keys are found for a few integer sequences; splits of inner nodes, descending and repeated insertion and scans are not checked",
 ["BTreeOLC/BTreeOLC.h", "BTreeOLC/BTreeOLC_child_layout.h"], [("eager splits and lower-bound search", "BTreeOLC insert, split, lowerBound"), ("scan within a leaf", "BTreeOLC scan")], tech=SEQ)
prop("T02", "OLC B-tree operations are linearizable under concurrency",
 "For any interleaving of concurrent inserts, lookups and scans on either leaf layout, every insert and lookup takes effect atomically between its call and return, and no reader sees a value never stored, a torn value or a lost key. No interleaving crashes the tree or stops progress.",
 [SCH, HIST], "all schedules of 2 to 6 threads running generated operation lists on shared keys",
 "the shipped example lets threads insert disjoint ranges; races between a root or inner split and a reader span a handful of accesses",
 ["BTreeOLC/BTreeOLC.h", "BTreeOLC/BTreeOLC_child_layout.h"], [("optimistic lock coupling", "BTreeOLC OptLock, insert, lookup, scan")], tech=CON, note=NCON)
prop("G01", "Google btree map and set behave like an ordered unique container",
 "Every operation of the map and set (insert with or without hint, indexing, erase by key, iterator or range, find, count, bounds, copy, assignment, swap, comparison) has the effect and result an ordered associative container promises. Iteration visits the elements in order in both directions, the iterator an erase returns points to the next element, and every element and node is released exactly once.",
 [HIST, INP, CONF], "all operation histories for integer, string and wide keys, ascending and descending comparators, and all node sizes",
 "the shipped example only inserts 1000 strings and finds them; rebalancing and merging depend on node occupancy around the erased element",
 ["GoogleBTree/btree.h", "GoogleBTree/btree_map.h", "GoogleBTree/btree_container.h"], [("rebalance, split, merge", "GoogleBTree/btree.h rebalance_or_split, try_merge_or_rebalance, erase")], tech=SEQ)
prop("G02", "Google btree multimap and multiset behave like an ordered multi-container",
 "Inserting never replaces an element and places it between the smaller and the larger keys; count, equal_range and the bounds cover exactly the elements of a key; erasing a key removes all of them, erasing an iterator or range exactly those designated. The other elements keep their order, and every element and node is released exactly once.",
 [HIST, INP, CONF], "all operation histories with arbitrarily many equal keys, for integer, string and wide keys, both comparators and all node sizes",
 "no shipped test uses the multi containers; runs of equal keys that straddle nodes are the hard case",
 ["GoogleBTree/btree.h", "GoogleBTree/btree_container.h"], [("insertion among equal keys and erase across nodes", "GoogleBTree/btree.h insert_multi, erase_multi, erase(range)")], tech=SEQ)
prop("H01", "HOT point operations behave like an ordered map",
 "Upsert stores a record and hands back exactly the record it replaced, or nothing when the key was absent; insert stores a record only when the key is absent and says so; a lookup of any key returns the record stored last for exactly that key, or nothing. The HotTree wrapper over integer and string keys gives the same answers.",
 [HIST, INP], "all sequences of upsert, insert and lookup over 64-bit integer keys and zero-terminated string keys up to 254 bytes, from the empty index on",
 "the shipped test stores one integer sequence; which node layout (single or multi mask, 8/16/32-bit partial keys) and which split is taken depends on the bits in which the stored keys differ",
 ["HOT/include/hot/rowex/HOTRowex.hpp", "HOT/include/hot/rowex/HOTRowexNode.hpp", "HOT/include/hot/commons/SparsePartialKeys.hpp", "HOT/hot.h"],
 [("discriminative-bit nodes, partial keys, split and pull-up", "HOTRowex insertForStackRange, split, integrateAndSplit; HOTRowexNode addEntry"), ("bit extraction", "commons/SingleMaskPartialKeyMapping.hpp, MultiMaskPartialKeyMapping.hpp")], tech=SEQ)
prop("H02", "HOT iterators, bounds and scans follow key order",
 "Iterating from begin visits every stored record once in ascending key order; lower_bound and upper_bound designate the first record with a key not below, respectively above, the given one, find designates the record of the key or the end, and scan the record a given number of steps further. The statistics count every stored record.",
 [HIST, INP], "all stored key sets and search keys (stored or not), scans of any length",
 "the shipped test never iterates; bounds of absent keys need the mismatching bit to be located in the right node",
 ["HOT/include/hot/rowex/HOTRowexIterator.hpp", "HOT/include/hot/rowex/HOTRowex.hpp"], [("bound search by mismatching bit, buffered refill", "HOTRowexSynchronizedIterator fillBufferForBoundWithByteKey, fillBuffer")], tech=SEQ)
prop("H03", "HOT operations are linearizable under concurrency",
 "For any interleaving of concurrent upserts, inserts, lookups and scans, every point operation takes effect atomically between its call and return (an upsert hands back exactly the record it replaced), and every scan returns records in ascending order from its start key, including all keys present throughout it. No interleaving crashes the index, reads reclaimed nodes or stops progress.",
 [SCH, HIST], "all schedules of 2 to 6 threads running generated operation lists on shared keys",
 "the shipped test inserts disjoint keys and then reads them; the check of a locked path against concurrent replacement matters only when a thread is paused between reading a path and locking it",
 ["HOT/include/hot/rowex/HOTRowex.hpp", "HOT/include/hot/rowex/HOTRowexInsertStack.hpp", "HOT/include/hot/rowex/HOTRowexIterator.hpp", "HOT/include/hot/rowex/EpochBasedMemoryReclamationStrategy.hpp"],
 [("path locking and consistency check", "HOTRowexInsertStack tryLock, isConsistent"), ("copy-on-write nodes, obsolete marks, epoch reclamation", "HOTRowexInsertStackEntry markAsObsolete, EpochBasedMemoryReclamationStrategy")], tech=CON, note=NCON)
prop("W01", "Wormhole point operations behave like an ordered map",
 "For byte-string keys of any content and length, put stores or replaces, get, probe and in-place operations see exactly the value stored last for exactly that key, del removes only that key, and merge applies its function to the current value atomically, creating, replacing or deleting as the function asks. The safe, unsafe and hash-less (whunsafe) interfaces give the same answers; clean empties the index.",
 [HIST, INP], "all sequences of put, get, probe, del, delete-range, merge, inplace read/write and clean over generated byte strings (empty, embedded zeros, long shared prefixes) and leaf-splitting/merging runs",
 "the shipped tests use random integer keys without comparing contents; anchors, leaf splits and merges depend on the bytes at which neighbouring keys differ",
 ["wormhole/wh.c", "wormhole/kv.c"], [("leaf split and merge with anchor construction", "wormhole/wh.c wormhole_split_leaf, wormhole_meta_merge"), ("hash-sorted leaf lookups", "wormhole/wh.c wormleaf_match_hs, wormleaf_sort")], tech=SEQ)
prop("W02", "Wormhole iterators and range deletion follow key order",
 "Seek puts the iterator on the first key not below the given one, next/skip step through every stored key once in ascending byte order, peek and the in-place access show the record there, and park/seek resume. Deleting a range removes exactly the keys in [start, end) and reports how many; an empty or inverted range removes nothing.",
 [HIST, INP], "all stored key sets, seek keys and range bounds (stored or not, equal, inverted, open-ended) interleaved with updates",
 "no shipped test checks iteration order or range deletion; leaves sort lazily, so an iterator depends on the history of updates in its leaf",
 ["wormhole/wh.c"], [("lazily sorted leaves and leaf-to-leaf walking", "wormhole/wh.c wormhole_iter_seek, wormhole_iter_fix, wormhole_iter_skip1"), ("range deletion", "wormhole/wh.c whsafe_delr, whunsafe_delr")], tech=SEQ)
prop("W03", "Wormhole operations are linearizable under concurrency",
 "For any interleaving of concurrent puts, gets, deletes, merges and iterations by several threads, each point operation takes effect atomically between its call and return, each iteration sees ascending keys including all that are present throughout. No interleaving crashes, reads reclaimed memory or stops making progress.",
 [SCH, HIST], "all schedules of 2 to 6 threads running generated operation lists on shared keys, with leaf splits and merges",
 "the shipped stress tests compare no results; a reader that meets a leaf being split has to notice the version change in a window of a few instructions",
 ["wormhole/wh.c", "wormhole/lib.c"], [("double meta tables with versions and QSBR", "wormhole/wh.c wormhole_jump_leaf_read, wormhole_meta_lock, wormhole_split_insert; lib.c qsbr_wait")], tech=CON, note=NCON)
prop("W04", "Wormhole helper library: records, encodings, sorts and bit tricks are exact",
 "Key comparisons and matches agree with byte-wise order in every representation, duplicating a record preserves what it claims to hold, encodings decode to what was encoded, checksums match their definition in every variant, sorting orders, prefix lengths and bit operations match their definitions, and number/string conversions are exact. No helper reads or writes outside the buffers it is given.",
 [INP], "all records, byte strings, 32/64-bit words, arrays and token strings of every small length and alignment",
 "the shipped tests never call most helpers directly; lengths around vector widths and growth steps are where they differ",
 ["wormhole/kv.c", "wormhole/lib.c"], [("records and key views", "wormhole/kv.c"), ("vi128, kv128, crc32c, strings, sorting", "wormhole/kv.c, wormhole/lib.c")],
 tech="property-based testing: generated inputs, reference definitions and round trips as oracle, shrunk replays, under AddressSanitizer")
LCK = "property-based testing of concurrent histories: generated acquisition lists and generated schedules (every memory access a scheduling point), ghost state and protected data as oracle"
prop("W05", "Wormhole's locks exclude, admit and hand over correctly",
 "A write hold of the reader-writer lock excludes every other hold, read holds share, turning a write hold into a read hold keeps writers out without a gap; the spinlock and the mutex admit one holder. A try operation fails only when a conflicting holder or requester exists, and once everybody has released, the lock is free. Every blocking request is granted eventually.",
 [SCH, HIST], "all schedules of 2 to 6 threads making generated acquisitions of every kind on one to three locks, nested or not",
 "the shipped tests use the locks only inside the index; a lost bit or a missing wait shows only when a reader or writer is paused inside the acquisition",
 ["wormhole/lib.c"], [("reader count and writer bit in one word", "wormhole/lib.c rwlock_*"), ("spinlock, mutex", "wormhole/lib.c spinlock_*, mutex_*")], tech=LCK, note=NCON)
prop("W06", "Wormhole's reclamation and slab allocator never hand out what is in use",
 "qsbr_wait returns only after every registered, unparked reference has announced the new version, so an object retired after it is in nobody's hands, whatever registrations, parkings and re-registrations go on meanwhile; it never waits for references that are gone. The slab hands out aligned, non-overlapping objects, each to one owner at a time, and counts them exactly, in its unsafe and thread-safe use.",
 [SCH, HIST], "all schedules of 2 to 6 threads that use, announce, park, register again and replace a versioned object, or allocate and free slab objects",
 "the shipped tests register once per thread and never check what was reclaimed; the windows are a few instructions wide",
 ["wormhole/lib.c"], [("quiescent-state reclamation", "wormhole/lib.c qsbr_*"), ("lock-free free list with sequence numbers", "wormhole/lib.c slab_*, astk_*")], tech=LCK, note=NCON)
prop("L04", "B-link tree latches exclude and admit correctly",
 "An exclusive hold of either latch excludes every other hold, shared holds share, no update made under an exclusive hold is lost, and every request is granted once the conflicting holds end, for every configuration of the spinning latch's limits.",
 [SCH, HIST, CONF], "all schedules of 2 to 6 threads making generated acquisitions on one to three latches, nested or not, all limit settings",
 "no shipped test exercises the latches apart from the tree, where an exclusion failure is rarely visible",
 ["BLinkTree/latch.h"], [("reader count and writer bit", "BLinkTree/latch.h RSpinSharedLatch")], tech=LCK, note=NCON)
prop("O04", "OptiQL's latches exclude, queue and validate correctly",
 "In every latch of the family (MCS, OptiQL with queue nodes by address or id, with opportunistic reads, the reader-writer variants) an exclusive hold excludes every other hold, shared holds share, an optimistic read that validates saw one consistent state that was current during the read, an upgrade succeeds only if nothing changed since the version was read, no update is lost and every request is granted eventually.",
 [SCH, HIST, CONF], "all schedules of 2 to 6 threads making generated acquisitions and optimistic reads on one to three locks, nested or not, for eight latch configurations",
 "the shipped test exercises one latch through the tree; hand-over between queue nodes has windows of single instructions",
 ["OptiQL/latches/OMCSImpl.h", "OptiQL/latches/OMCS.h", "OptiQL/latches/OMCSOffset.h", "OptiQL/latches/MCS.h", "OptiQL/latches/MCSRW.h", "OptiQL/latches/STDRW.h"], [("queue hand-over with versions", "OMCSImpl.h lock, unlock, try_lock, validate_read"), ("reader-writer queue", "MCSRW.h read_lock, read_unlock, lock, unlock")], tech=LCK, note=NCON)
prop("M01", "MassTree is a map under any sequential history",
 "For every history of stores, inserts, updates, removals, abandoned insertions and lookups over keys of up to 255 bytes (NUL bytes included), every outcome and value equals an ordered map's, whatever layers the keys share, for every lookup path (table get, unlocked and locked cursor) and node width. An insertion given up with finish(0) leaves the stored keys unchanged; the value seen when removing is the stored one; memory is reclaimed without touching what is in use.",
 [HIST, INP], "all operation histories and key sets, with shared prefixes over several 8-byte layers, keys that are prefixes of others, node splits, removals of nodes and of whole layers with reclamation",
 "the shipped tests insert a few fixed patterns and look them up; layers and their removal depend on which 8-byte slices keys share",
 ["MassTree/masstree_insert.hh", "MassTree/masstree_remove.hh", "MassTree/masstree_get.hh"], [("layer creation", "masstree_insert.hh make_new_layer"), ("splits", "masstree_split.hh split_into"), ("layer and node removal", "masstree_remove.hh gc_layer, remove_leaf"), ("suffix storage", "masstree_struct.hh assign_ksuf, stringbag.hh")], tech=SEQ)
prop("M02", "MassTree scans visit exactly the keys in order, forward and backward",
 "A scan from any start key (stored or not, inclusive or exclusive) visits each stored key on its side of the start once, in ascending byte order forward and descending order backward, with the stored value, until the visitor stops it; it returns the number visited.",
 [HIST, INP], "all stored key sets over several layers, start keys and limits, both directions and both start modes, after any history",
 "the shipped scan test runs on fixed key lists; stepping into and out of layers depends on the start key's slices against the stored ones",
 ["MassTree/masstree_scan.hh"], [("layer stepping", "masstree_scan.hh find_initial, find_next, find_retry"), ("reverse scan helper", "masstree_scan.hh reverse_scan_helper")], tech=SEQ)
prop("M03", "MassTree operations are linearizable under concurrency",
 "For any interleaving of concurrent stores, inserts, updates, removals, abandoned insertions, lookups and scans in both directions, with the reclamation epoch advancing at any point, each point operation takes effect atomically between its call and return, scans are ordered and include all that is present throughout. No interleaving crashes, reads reclaimed nodes or stops making progress.",
 [SCH, HIST], "all schedules of 2 to 6 threads running generated operation lists on shared keys, splitting, creating and removing layers, with a timer thread advancing epochs",
 "the shipped tests run multi-threaded with threads mostly on keys of their own and check final counts; version checks guard windows of a few instructions",
 ["MassTree/masstree_get.hh", "MassTree/masstree_insert.hh", "MassTree/masstree_remove.hh", "MassTree/masstree_scan.hh", "MassTree/kvthread.cc", "MassTree/kvthread.hh"], [("optimistic reading", "nodeversion.hh, masstree_get.hh find_unlocked, masstree_struct.hh reach_leaf"), ("epoch reclamation", "kvthread.cc hard_rcu_quiesce, kvthread.hh rcu_start")], tech=CON, note=NCON)
prop("M04", "JSON parsing, printing and editing follow the document model",
 "Reading any text, whole or fed in any pieces, accepts exactly the strict JSON texts and yields the document they denote; a rejected text leaves the value unchanged. Printing any document in any format gives a valid text that reads back as the same document (doubles to the printed precision). Editing a document (set, erase, insert, resize, merge, nested and copied parts) changes exactly that document: copies sharing storage with it keep their value.",
 [INP, HIST], "all texts made of JSON tokens and damaged tokens, at every splitting into pieces; all editing sequences over four documents that share parts",
 "jsontest has about a hundred fixed expressions, most parsed in one piece; escapes, surrogates, chunk boundaries and number limits form a large space",
 ["MassTree/json.cc", "MassTree/json.hh", "MassTree/straccum.cc", "MassTree/string.cc"], [("streaming parser", "json.cc Json::streaming_parser"), ("copy-on-write arrays and objects", "json.hh uniqueify_array, uniqueify_object")], tech=FUN)
prop("M05", "Msgpack writing and reading invert each other on any byte stream",
 "What the writers produce, the readers give back unchanged, whatever the types, sizes and nesting, and the writers use the smallest form of their type. The streaming parser, fed a byte stream in any pieces, accepts exactly the supported messages, stops exactly at the end of the value, waits when a message is cut short and refuses the rest without reading outside its input; results taken from it stay as they are when it is used again. Skipping a value moves past exactly that value.",
 [INP, HIST], "all documents and primitive sequences in every valid encoding, all damaged byte strings, at every splitting into pieces",
 "msgpacktest decodes some forty fixed messages; width limits, splits inside headers and malformed lengths are hardly touched",
 ["MassTree/msgpack.hh", "MassTree/msgpack.cc"], [("streaming parser states", "msgpack.cc streaming_parser::consume"), ("smallest-form writers", "msgpack.hh format::write_*")], tech=FUN)
prop("M06", "MassTree strings keep their value; searches and encodings are exact",
 "A string keeps its value whatever is done to strings sharing its storage, to the accumulator it came from or was handed to, or with its own characters as argument; it is equal to, orders and hashes like its characters. Searches, glob matching, natural ordering, trimming, number formatting, and the hex, base64, URI, JSON, UTF-8, CESU-8, UTF-16 and Windows-1252 conversions follow their definitions and stay inside the string.",
 [HIST, INP], "all sequences of string and accumulator operations over shared storage; all strings, patterns and positions",
 "jsontest and unit-mt check a few dozen fixed strings; sharing with spare room behind the text is what makes an append overwrite another string",
 ["MassTree/string.cc", "MassTree/string.hh", "MassTree/string_base.hh", "MassTree/straccum.cc", "MassTree/straccum.hh"], [("shared memos with a dirty mark", "string.cc String::append_uninitialized"), ("memory handed between accumulator and string", "straccum.cc take_string, transfer_from")], tech=FUN)
prop("S01", "STX B+ tree map and set behave like a sorted map",
 "For every history of inserts (plain, hinted, ranges, operator[]), erases by key and by iterator, bulk loads, copies, assignments, swaps and clears of btree_map and btree_set, with any slot counts (four or more per node), key and value types and orders, results, sizes, lookups, bounds, comparisons and iteration in both directions (forward, reverse, const, and converted into each other) equal those of a sorted map; the tree's own verify() never complains; every stored value is destroyed exactly once.",
 [HIST, INP, CONF], "all operation histories over dense and sparse keys, slot counts from 4 to default, searches linear and binary, owning values, stateful orders",
 "the shipped tests insert random numbers with a few slot counts and erase them all; erasing by iterator, hints, copies and leaf-boundary iterators see few shapes",
 ["STX/tlx/tlx/container/btree.hpp", "STX/tlx/tlx/container/btree_map.hpp", "STX/tlx/tlx/container/btree_set.hpp"], [("splits, borrowing and merging of nodes", "btree.hpp insert_descend, erase_one_descend, erase_iter_descend"), ("bulk loading", "btree.hpp bulk_load"), ("iterators", "btree.hpp iterator, reverse_iterator")], tech=SEQ)
prop("S02", "STX B+ tree multimap and multiset keep every duplicate",
 "For every history as in S01 over btree_multimap and btree_multiset, each key is stored as often as it was inserted and not erased: count, equal_range, bounds, find, erase of one or of all, erase through an iterator (which removes exactly the element it stands on) and iteration equal those of a sorted sequence with duplicates, also where a run of equal keys spans many leaves.",
 [HIST, INP, CONF], "all operation histories with few keys and many duplicates, slot counts from 4 to default",
 "the shipped multi tests use random keys with short runs; runs longer than several leaves make separator keys equal and searches ambiguous",
 ["STX/tlx/tlx/container/btree.hpp", "STX/tlx/tlx/container/btree_multimap.hpp", "STX/tlx/tlx/container/btree_multiset.hpp"], [("descending into the right one of several equal children", "btree.hpp erase_iter_descend, equal_range")], tech=SEQ)
prop("S03", "tlx heaps and loser trees deliver elements in order",
 "For every history of its operations each tlx priority queue - d-ary heap, addressable d-ary integer heap with priority updates and removals, monotone radix heap for every key width and signedness, loser trees of all kinds - contains exactly the elements put in and not taken out, and always gives one that is smallest under its order (loser trees: in stable kinds the one of the lowest source among equals); membership, priorities, sizes, clearing, copies, moves and swapping out of buckets agree with a plain list.",
 [HIST, INP, CONF], "all operation histories, arities 1 to 8, key types from 8 to 64 bits and strings, radixes, external priorities that change, sources running out",
 "no shipped test that builds here uses these containers",
 ["STX/tlx/tlx/container/d_ary_heap.hpp", "STX/tlx/tlx/container/d_ary_addressable_int_heap.hpp", "STX/tlx/tlx/container/radix_heap.hpp", "STX/tlx/tlx/container/loser_tree.hpp"], [("sifting", "d_ary_heap.hpp sift_up, sift_down"), ("bucket computation", "radix_heap.hpp BucketComputation"), ("replaying after delete_min_insert", "loser_tree.hpp")], tech=SEQ)
prop("S04", "tlx ring buffer, LRU cache, splay tree, vector and view follow their models",
 "For every history, RingBuffer behaves like a bounded deque, LruCacheSet and LruCacheMap like a map with a recency list (pop gives the least recently used), the splay tree, set and multiset like an ordered (multi)set, SimpleVector like a fixed array, and StringView like the text it views (searching, comparing, slicing; NUL and high bytes included); contained objects are constructed and destroyed exactly once.",
 [HIST, INP], "all operation histories with owning elements, wrap-around positions, duplicates, aliasing arguments; all texts and positions for views",
 "no shipped test that builds here uses these containers",
 ["STX/tlx/tlx/container/ring_buffer.hpp", "STX/tlx/tlx/container/lru_cache.hpp", "STX/tlx/tlx/container/splay_tree.hpp", "STX/tlx/tlx/container/simple_vector.hpp", "STX/tlx/tlx/container/string_view.hpp"], [("wrap-around", "ring_buffer.hpp begin_, end_, mask_"), ("recency list", "lru_cache.hpp touch, pop"), ("splaying", "splay_tree.hpp splay, splay_erase")], tech=SEQ)
prop("S05", "tlx merging, splitting and sorting give the sorted, stable result",
 "Merging any number of sorted sequences up to any size no greater than the total, by any of the algorithms, with or without sentinels, sequentially or by any number of threads with either splitting, gives the smallest elements in order (in the stable forms with equal elements in the order of sequence and position), advances each sequence by what was taken from it, and destroys every temporary; splitting finds the stable rank boundaries; parallel_mergesort and every sorting network sort; exclusive_scan, is_sorted_cmp, merge_combine and the bipartition shuffle follow their definitions.",
 [INP, CONF], "all sets of up to twenty sequences with ties and empty ones, all sizes, algorithms, splittings, 1 to 8 threads; 0-1 inputs of networks up to sixteen elements",
 "no shipped test that builds here uses these algorithms",
 ["STX/tlx/tlx/algorithm/multiway_merge.hpp", "STX/tlx/tlx/algorithm/parallel_multiway_merge.hpp", "STX/tlx/tlx/algorithm/multisequence_partition.hpp", "STX/tlx/tlx/algorithm/multisequence_selection.hpp", "STX/tlx/tlx/sort/parallel_mergesort.hpp", "STX/tlx/tlx/sort/networks/best.hpp"], [("three- and four-way state machines", "multiway_merge.hpp multiway_merge_3_variant, multiway_merge_4_variant"), ("exact splitting", "multisequence_partition.hpp"), ("chunks per thread", "parallel_multiway_merge.hpp")], tech=FUN)
prop("S06", "tlx digests, bit tricks, encodings and statistics follow their definitions",
 "MD5, SHA-1, SHA-256 and SHA-512 digests do not depend on how the input is cut into pieces and equal an independent implementation, as do SipHash, djb2 and sdbm; hexdump/parse_hexdump, base64 encode/decode and bitdump invert or match their definitions and refuse damaged text; powers of two, ctz/ffs/clz/popcount/rol/ror/bswap, div_ceil, round_up, abs_diff, sgn and integer logarithms are exact for every width; Aggregate and PolynomialRegression results agree with direct computation however they are combined.",
 [INP, CONF], "all byte strings with all splittings, all integers of 8 to 64 bits with their edges, all sample sets and ways to combine them",
 "no shipped test that builds here uses these functions",
 ["STX/tlx/tlx/digest/md5.cpp", "STX/tlx/tlx/digest/sha1.cpp", "STX/tlx/tlx/digest/sha256.cpp", "STX/tlx/tlx/digest/sha512.cpp", "STX/tlx/tlx/siphash.hpp", "STX/tlx/tlx/string/hexdump.cpp", "STX/tlx/tlx/string/base64.cpp", "STX/tlx/tlx/math/aggregate.hpp", "STX/tlx/tlx/math/polynomial_regression.hpp"], [("block buffering across calls", "digest/*.cpp process"), ("combining moments", "math/aggregate.hpp operator +=")], tech=FUN)
prop("S07", "tlx string sorters sort every string set, with exact common prefixes",
 "sort_strings, sort_strings_parallel and their common-prefix forms, and every sorter behind them (radix sorts, multikey quicksort, insertion sort, parallel sample sort with any parameters), put any set of C strings, std::strings, owned strings or suffixes into byte-wise order, as a permutation of what was given, give for each string the length of the prefix it shares with its predecessor, keep to their arrays under any memory limit, and touch nothing after they have returned.",
 [INP, CONF, SCH], "all string sets with shared prefixes, prefixes of each other, equal strings and high bytes, up to 80000 strings; memory limits; all algorithms, parallel steps made small so that they nest",
 "no shipped test that builds here uses the sorters",
 ["STX/tlx/tlx/sort/strings.hpp", "STX/tlx/tlx/sort/strings_parallel.hpp", "STX/tlx/tlx/sort/strings/radix_sort.hpp", "STX/tlx/tlx/sort/strings/multikey_quicksort.hpp", "STX/tlx/tlx/sort/strings/insertion_sort.hpp", "STX/tlx/tlx/sort/strings/parallel_sample_sort.hpp", "STX/tlx/tlx/sort/strings/sample_sort_tools.hpp"], [("shadow array flips", "strings/string_ptr.hpp flip, copy_back"), ("work sharing and last notification", "strings/parallel_sample_sort.hpp substep_notify_done"), ("splitter trees", "strings/sample_sort_tools.hpp")], tech=FUN)
prop("S08", "tlx string utilities compute what they document, for every string",
 "Splitting at characters, strings, words or quotes and joining again are each other's opposite and keep to the limits given; the case-insensitive comparisons are one consistent order, equal on strings that differ in case only and strcmp's on ASCII, in every overload; trimming, erasing, replacing, searching, padding, wrapping, escaping, parsing of URIs, form data and sizes with units, variable expansion, edit distances, line reading and printf formatting give what their definitions say and touch nothing outside the strings given.",
 [INP], "all strings over generated alphabets (separators, white space, both cases, escapes, high bytes and, where allowed, NULs) up to 300 characters, with arguments that overlap, repeat or prefix each other; all overloads; limits from none to zero",
 "no shipped test that builds here uses them; what fails are separators at the very end, overlapping matches, prefixes, empty fields and results at the size of an internal buffer",
 ["STX/tlx/tlx/string/split.hpp", "STX/tlx/tlx/string/split_quoted.hpp", "STX/tlx/tlx/string/join_quoted.hpp", "STX/tlx/tlx/string/compare_icase.hpp", "STX/tlx/tlx/string/less_icase.hpp", "STX/tlx/tlx/string/trim.hpp", "STX/tlx/tlx/string/replace.hpp", "STX/tlx/tlx/string/levenshtein.hpp", "STX/tlx/tlx/string/parse_uri_form_data.hpp", "STX/tlx/tlx/string/parse_si_iec_units.hpp", "STX/tlx/tlx/string/appendline.hpp", "STX/tlx/tlx/string/expand_environment_variables.hpp"], [("separator scan", "string/split.cpp"), ("overloads for C strings", "string/equal_icase.cpp, compare_icase.cpp"), ("growing reads", "string/appendline.cpp"), ("second pass over arguments", "string/ssprintf.cpp")], tech=FUN)
prop("F01", "FBTree with integer keys behaves like an ordered map",
 "For signed and unsigned 32- and 64-bit keys over their whole range, upsert stores or replaces, update replaces only what is there, remove takes out exactly its key, and lookup finds exactly the pair stored last; each modification hands back the very pair it replaced or removed, or none. This holds through any growth, shrinking, merging of nodes and change of the tree's height, and in every node-size and feature-count configuration.",
 [HIST, INP], "all sequences of upsert, update, remove and lookup over generated integers (dense, sparse, sharing any bytes, at the ends of the range), growing and draining trees in any order; configurations of 16, 32 and 64 slots and 1, 4 and 8 features; fingerprints colliding by any degree",
 "no shipped test of this tree is built; features, prefixes and separators depend on the bytes at which the keys of a node differ, and merges on the order of removal",
 ["FBTree/fbtree.h", "FBTree/inode.h", "FBTree/lnode.h", "FBTree/constant.h"], [("feature comparison and prefix of inner nodes", "FBTree/inode.h to_next, content_rebuild, key_insert, key_remove"), ("merges across a parent's border", "FBTree/inode.h bound_remove, FBTree/fbtree.h remove"), ("fingerprinted leaves", "FBTree/lnode.h upsert, merge")], tech=SEQ)
prop("F02", "FBTree with string keys behaves like an ordered map",
 "For byte strings of any content and length (empty, embedded zeros, prefixes of each other, sharing prefixes longer than a node can embed), given as strings, std::strings or pointer and length, upsert stores or replaces, update replaces only what is there, remove takes out exactly its key, and lookup finds exactly the pair stored last; each modification hands back the pair it replaced or removed. This holds through any growth, shrinking and merging, with anchors kept in the leaves or in extents.",
 [HIST, INP], "all sequences of upsert, update, remove and lookup over generated byte strings up to 700 bytes, growing and draining trees in any order; configurations of 16, 32 and 64 slots, 1 to 8 features, with and without extents",
 "no shipped test of this tree is built; anchors, prefixes, features and the suffix search each matter only for particular sets of neighbouring keys",
 ["FBTree/fbtree.h", "FBTree/inode.h", "FBTree/lnode.h"], [("prefix, features and suffix search", "FBTree/inode.h InnerNode<String>::to_next, prefix_compare, suffix_bs, content_rebuild"), ("extents of anchors", "FBTree/inode.h Extent, make_anchor, ruin_anchor, extent_resize"), ("merges across a parent's border", "FBTree/inode.h bound_remove, anchor_update")], tech=SEQ)
prop("F03", "FBTree iteration and bounds follow key order",
 "lower_bound gives the first pair not below its key and upper_bound the first above it, begin the first of all; advancing visits every later pair exactly once in ascending key order and then reaches the end. This holds for integer and string trees after any history of updates, which leave leaves unsorted, emptied or merged, and reading changes nothing.",
 [HIST, INP], "all histories as for the point operations, with bounded and full scans from stored and absent keys in between",
 "no shipped test iterates over this tree; a leaf is sorted only when a scan meets it, so what a scan sees depends on everything done to the leaf before",
 ["FBTree/fbtree.h", "FBTree/lnode.h"], [("lazy sorting and bounds in a leaf", "FBTree/lnode.h kv_sort, bound, access"), ("stepping between leaves", "FBTree/fbtree.h bound, iterator::advance")], tech=SEQ)
prop("F04", "FBTree operations are linearizable under concurrency",
 "For any interleaving of concurrent upserts, updates, removals, lookups and scans, with replaced pairs retired through the epoch, each point operation takes effect atomically between its call and return and hands back the pair it replaced, scans are ordered and include all that is present throughout. No interleaving crashes, reads reclaimed memory or stops making progress.",
 [SCH, HIST], "all schedules of 2 to 6 threads running generated operation lists on shared keys, splitting and merging leaves and inner nodes, with integer and string keys",
 "no shipped test runs this tree; its optimistic reads validate versions of a leaf and of its parent across windows of a few instructions",
 ["FBTree/fbtree.h", "FBTree/lnode.h", "FBTree/inode.h", "FBTree/control.h"], [("version checks of leaf and parent", "FBTree/lnode.h to_sibling, FBTree/control.h end_read"), ("hand-over-hand upward propagation", "FBTree/fbtree.h upsert, remove"), ("scans across changing leaves", "FBTree/fbtree.h iterator::advance, bound")], tech=CON, note=NCON)
prop("X01", "FAST lookups give the values around any query",
 "A FAST tree built from any non-empty, strictly ascending array of 32- or 64-bit keys and their values answers every query with the value of the last key not above it (zero below all) and the value of the key after that (the largest integer above all), whatever the number of keys, by the vectorised and the plain search and by the reference search of the crate; it keeps copies of its input and reads nothing outside its own pages.",
 [INP, CONF], "all strictly ascending key arrays: any count (crowding around page and layer sizes), dense to spread over the whole range, starting at zero and ending at the largest integer; all queries; both key widths; both search kernels",
 "no shipped test of this component builds here; each answer depends on page borders, padding of last pages and the number of layers, and neighbours may lie in another page",
 ["FAST/fast64/src/lib.rs", "FAST/fast64/c/lookup.c", "FAST/fast64.h"], [("layers and padding", "FAST/fast64/src/lib.rs layout, build_internal_layer"), ("descent and neighbours across pages", "FAST/fast64/c/lookup.c fast_lookup64, fast_lookup32")], tech=FUN)
prop("M07", "Masstree wrapper: upsert and search linearize, values safe under a guard",
 "Through the Masstree wrapper class, with keys given as C strings, as pointer and length or as std::string, every concurrent upsert and search takes effect atomically between its call and return; an upsert says whether its key was new, a search finds exactly the latest pointer stored for its key. A value pointer obtained inside an epoch guard stays readable until that guard ends although other threads replace it and have it retired.",
 [SCH, HIST], "all schedules of 2 to 6 threads running generated upserts and searches over shared keys in every key form, replaced values being retired through the wrapper",
 "no shipped test runs the wrapper; whether a replaced value is reclaimed too early depends on how the epochs of two threads interleave",
 ["MassTree/MassTreeWrapper.h"], [("epoch guard", "MassTree/MassTreeWrapper.h MassEpochGuard"), ("upsert and lookup through cursors", "MassTree/MassTreeWrapper.h upsert, search")], tech=CON, note=NCON)
prop("W07", "WormHole wrapper class: typed keys, linearizable point operations",
 "Through the WormHole class, a pointer stored under a byte-string, a 32-bit or a 64-bit integer key is found again under that key by every thread with a reference of its own; an integer key is the same key as its big-endian bytes, so that keys come in numeric order. Under any interleaving of concurrent upserts, removals and lookups each takes effect atomically between its call and return.",
 [SCH, HIST, INP], "all schedules of several threads running generated operations through the class over shared keys in all key forms, each thread with its own reference, and the final content read back through the C interface",
 "no shipped test runs this class; per-thread references, byte order and value copies are only exercised by mixing key forms and threads",
 ["wormhole/wormhole.h"], [("typed keys and per-thread references", "wormhole/wormhole.h class WormHole")], tech=CON, note=NCON)
# MORE

def main():
    ids = [p["id"] for p in P]; assert len(set(ids)) == len(ids)
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P: f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}) + "\n")
    checks = []
    for p in P:
        if p["id"] not in PROPS: continue
        checks.append({"property": p["id"], "quick_cmd": "python3 run.py %s quick" % p["id"], "thorough_cmd": "python3 run.py %s thorough" % p["id"],
                       "evidence_file": "evidence/%s.json" % p["id"], "technique": p["_tech"] or SEQ, "level": "exploration", "level_note": p["_note"] or NSEQ})
    na = [{"property": k, "reason": r} for k, r in NA.items()]
    for p in P: assert p["id"] in PROPS or p["id"] in NA, p["id"]
    for k in PROPS: assert k in ids, k
    json.dump({"version": 1, "setup_cmd": "python3 -c \"import specs\" && g++ --version", "checks": checks, "not_applicable": na,
               "notes": "Every check compiles what it needs from /repo's working tree (nothing built earlier is needed) and runs a fixed number of generated cases from VERIF_SEED. run.py --replay FILE re-runs a saved failing case."},
              open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
NA = {}
if __name__ == "__main__":
    main()
