"""The property list (source of properties.jsonl)."""


def P(id, title, statement, over, text, why, files, mech, observe, state=()):
    return {
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
        "anchors": {
            "files": files, "mechanism": [{"name": a, "where": b} for a, b in mech], "observe_at": observe,
            "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state], "hook_needed": None,
        },
    }


HIST = ["inputs", "histories"]
MAPQ = "every history of operations on any number of maps, for every key type with a total order (keys that compare equal may be distinguishable), every borrowed key type, every value"
MAPWHY = "the tests run a few fixed sequences over small integers, and one random sequence compared by length and lookups only; they do not see entry identity, every tree shape, partial iteration or every boundary key"

LIST = [
    P("P01", "AvlMap and AvlSet behave as an ordered map and set",
      "After any sequence of operations an AvlMap (AvlSet) holds exactly the entries last inserted and not removed: insert and remove return the previous entry (key and value) or None, and get, get_mut, contains, floor (greatest key <= k), ceil (least key >= k), min, max, indexing and len answer accordingly. "
      "iter, iter_mut and into_iter yield every entry exactly once in strictly increasing key order, writes through get_mut, index_mut and iter_mut change exactly the addressed value, and no operation panics except indexing with a missing key.",
      HIST, MAPQ, MAPWHY,
      ["src/avl_tree/map.rs", "src/avl_tree/set.rs", "src/avl_tree/tree.rs", "src/avl_tree/node.rs"],
      [("binary search tree insert/remove/get/floor/ceil", "src/avl_tree/tree.rs"), ("map facade and iterators", "src/avl_tree/map.rs")],
      ["return values and iteration of AvlMap/AvlSet"],
      [("tree", "entries in key order, in-order traversal", "src/avl_tree/map.rs"), ("len", "number of entries", "src/avl_tree/map.rs")]),
    P("P02", "The AVL tree stays balanced",
      "After any sequence of insertions and removals, the sub-tree heights of every node of an AvlMap or AvlSet differ by at most one, so that a lookup among n entries visits at most 1.4405 log2(n + 2) of them.",
      HIST, "every history of insertions and removals, every key order",
      "the tests observe only contents, never the shape: an unbalanced tree passes all of them",
      ["src/avl_tree/tree.rs", "src/avl_tree/node.rs"],
      [("balance, rotate_left, rotate_right, remove_min", "src/avl_tree/tree.rs, src/avl_tree/node.rs")],
      ["keys compared during a lookup"],
      [("height", "height of the sub-tree", "src/avl_tree/node.rs")]),
    P("P03", "RedBlackMap and RedBlackSet behave as an ordered map and set",
      "After any sequence of operations a RedBlackMap (RedBlackSet) holds exactly the entries last inserted and not removed: insert and remove return the previous entry (key and value) or None, and get, get_mut, contains, floor (greatest key <= k), ceil (least key >= k), min, max, indexing and len answer accordingly. "
      "iter, iter_mut and into_iter yield every entry exactly once in strictly increasing key order, writes through get_mut, index_mut and iter_mut change exactly the addressed value, and no operation panics except indexing with a missing key.",
      HIST, MAPQ, MAPWHY,
      ["src/red_black_tree/map.rs", "src/red_black_tree/set.rs", "src/red_black_tree/tree.rs", "src/red_black_tree/node.rs"],
      [("binary search tree insert/remove/get/floor/ceil", "src/red_black_tree/tree.rs"), ("map facade and iterators", "src/red_black_tree/map.rs")],
      ["return values and iteration of RedBlackMap/RedBlackSet"],
      [("tree", "entries in key order, in-order traversal", "src/red_black_tree/map.rs"), ("len", "number of entries", "src/red_black_tree/map.rs")]),
    P("P04", "The red-black tree stays balanced",
      "After any sequence of insertions and removals, the tree under a RedBlackMap or RedBlackSet is a left-leaning red-black tree (black root, no red node with a red child or with a red right child, every path from the root with the same number of black nodes), so that a lookup among n entries visits at most 2 log2(n + 1) of them.",
      HIST, "every history of insertions and removals, every key order",
      "the tests observe only contents, never the shape: an unbalanced tree passes all of them",
      ["src/red_black_tree/tree.rs", "src/red_black_tree/node.rs"],
      [("balance, shift_left, shift_right, rotations, colour flips", "src/red_black_tree/node.rs"), ("insert, remove, remove_min, fix_root", "src/red_black_tree/tree.rs")],
      ["keys compared during a lookup"],
      [("color", "colour of the link from the parent", "src/red_black_tree/node.rs")]),
    P("P05", "SplayMap and SplaySet behave as an ordered map and set",
      "After any sequence of operations a SplayMap (SplaySet) holds exactly the entries last inserted and not removed: insert and remove return the previous entry (key and value) or None, and get, get_mut, contains, floor (greatest key <= k), ceil (least key >= k), min, max, indexing and len answer accordingly. "
      "iter, iter_mut and into_iter yield every entry exactly once in strictly increasing key order, writes through get_mut, index_mut and iter_mut change exactly the addressed value, and no operation panics except indexing with a missing key.",
      HIST, MAPQ, MAPWHY,
      ["src/splay_tree/map.rs", "src/splay_tree/set.rs", "src/splay_tree/tree.rs", "src/splay_tree/node.rs"],
      [("top-down splay, insert, remove, get/floor/ceil", "src/splay_tree/tree.rs"), ("map facade and iterators", "src/splay_tree/map.rs")],
      ["return values and iteration of SplayMap/SplaySet"],
      [("tree", "entries in key order, in-order traversal", "src/splay_tree/map.rs"), ("len", "number of entries", "src/splay_tree/map.rs")]),
    P("P06", "TreapMap and TreapSet behave as an ordered map and set",
      "After any sequence of operations, whatever priorities are drawn, a TreapMap (TreapSet) holds exactly the entries last inserted and not removed: insert and remove return the previous entry (key and value) or None, and get, get_mut, contains, floor (greatest key <= k), ceil (least key >= k), min, max, indexing and len answer accordingly. "
      "iter, iter_mut and into_iter yield every entry exactly once in strictly increasing key order, writes through get_mut, index_mut and iter_mut change exactly the addressed value, and no operation panics except indexing with a missing key.",
      HIST, MAPQ + ", every sequence of random priorities", MAPWHY,
      ["src/treap/map.rs", "src/treap/set.rs", "src/treap/tree.rs", "src/treap/node.rs"],
      [("split, merge, insert, remove, get/floor/ceil", "src/treap/tree.rs"), ("map facade and iterators", "src/treap/map.rs")],
      ["return values and iteration of TreapMap/TreapSet"],
      [("tree", "entries in key order, in-order traversal", "src/treap/map.rs"), ("len", "size of the sub-tree, in every node", "src/treap/node.rs")]),
    P("P07", "Treap set operations and split_off are exact",
      "union(l, r) and l + r hold the keys of either map with l's entry where both have the key; intersection holds l's entries whose key is in r; difference and l - r hold l's entries whose key is not in r; symmetric_difference holds the entries whose key is in exactly one map. "
      "split_off(k, inclusive) leaves the entries with key < k (<= k if inclusive) and returns all others. Every result is again a map for which all of P06 holds, with the correct len. The same holds for TreapSet.",
      HIST, "every pair of maps or sets however built, every overlap of their keys, every sequence of random priorities, every key and both values of inclusive",
      "the tests combine one pair of three-element maps with at most one shared key; the recursion, its swapped flag and the duplicate handling depend on the random priorities of both trees",
      ["src/treap/map.rs", "src/treap/set.rs", "src/treap/tree.rs"],
      [("union, intersection, difference with swapped/symmetric flags", "src/treap/tree.rs"), ("split, merge", "src/treap/tree.rs")],
      ["contents and len of the results"],
      [("tree", "entries in key order, in-order traversal", "src/treap/map.rs")]),
    P("P09", "Every treap keeps its heap order",
      "After any sequence of insertions, removals, splits and set operations, no node of a TreapMap or TreapSet has a greater priority than its parent, so that with independent random priorities the shape is that of a random binary search tree and lookups, insertions and removals take O(log n) expected steps, as documented.",
      HIST, "every history of operations, every sequence of random priorities",
      "the tests observe only contents, never the shape: a treap that ignores its priorities passes all of them",
      ["src/treap/tree.rs", "src/treap/map.rs", "src/treap/set.rs"],
      [("insert, merge, union, intersection, difference compare priorities", "src/treap/tree.rs")],
      ["keys compared during a lookup"],
      [("priority", "random priority of the node", "src/treap/node.rs")]),
    P("P08", "TreapList behaves as a sequence",
      "After any sequence of operations, whatever priorities are drawn, a TreapList is the sequence its operations spell: insert(i) for every i <= len puts the value before position i, remove(i), pop_front and pop_back take out exactly the value at that position, push_front and push_back add at the ends, get, get_mut and indexing find the value at every position (get and get_mut answer None for every other index), "
      "l + r is the concatenation, len is the number of values, and iter, iter_mut and into_iter yield them in order, once each. The nodes stay in heap order of their priorities, which makes all of these O(log n) expected.",
      HIST, "every history of operations on any number of lists, every index including usize::MAX, every sequence of random priorities",
      "the tests run a few fixed sequences; which split and merge paths are taken depends on the priorities, and the sizes kept in the nodes are only observable through later positions",
      ["src/treap/list.rs", "src/treap/implicit_tree.rs", "src/treap/node.rs"],
      [("split, merge, insert, remove, get by implicit key", "src/treap/implicit_tree.rs"), ("list facade and iterators", "src/treap/list.rs")],
      ["return values and iteration of TreapList"],
      [("len", "size of the sub-tree, in every node", "src/treap/node.rs")]),
    P("P10", "TypedArena entries stay valid until freed",
      "For every chunk size > 0 and every sequence of operations: allocate returns an entry that is not live and stores the value there; until it is freed, get, get_mut and indexing with the entry reach that value and only writes through the entry change it, whatever else is allocated or freed; free returns the value, and afterwards get and get_mut answer None until allocate hands the entry out again. "
      "Freed places are used again before the arena grows, and no chunk ever exceeds its initial capacity, so no object is moved by growth.",
      HIST, "every history of allocate, free, get, get_mut and index, every chunk size, every value type",
      "the tests allocate and free one or two objects; the free list is threaded through the chunks and only histories with several frees and reuses exercise it",
      ["src/arena.rs"],
      [("free list through vacant blocks", "src/arena.rs"), ("chunk growth", "src/arena.rs")],
      ["values seen through live entries, entries returned by allocate"],
      [("head", "first block of the free list", "src/arena.rs"), ("size, capacity", "live objects, places", "src/arena.rs")]),
    P("P11", "RadixMap and RadixSet behave as a map and set ordered lexicographically",
      "After any sequence of operations a RadixMap (RadixSet) holds exactly the byte-string keys last inserted and not removed: insert and remove return the previous entry (key and value) or None, get, get_mut, contains, indexing and len answer accordingly, and min and max return the least and greatest key. "
      "iter, iter_mut and into_iter yield every entry exactly once in lexicographic order of the bytes (a prefix first), writes through get_mut, index_mut and iter_mut change exactly the addressed value, and no operation panics except indexing with a missing key. Below the root every tree node stores a value or has at least two children (the tree stays compressed).",
      HIST, "every history of operations on any number of maps, every byte string as key (the empty one, every byte value, keys that are prefixes of each other), every value",
      "the tests run a few fixed sequences over short ASCII keys; splitting, merging and sibling order depend on how all stored keys share prefixes, and a tree emptied and reused is never tested",
      ["src/radix/map.rs", "src/radix/set.rs", "src/radix/tree.rs", "src/radix/node.rs"],
      [("insert and remove with split and merge of compressed nodes", "src/radix/tree.rs, src/radix/node.rs"), ("map facade and iterators with a shared key prefix", "src/radix/map.rs")],
      ["return values and iteration of RadixMap/RadixSet"],
      [("root", "tree of compressed nodes: key bytes, value, children as a list of siblings sorted by first byte", "src/radix/map.rs"), ("len", "number of entries", "src/radix/map.rs")]),
    P("P12", "get_longest_prefix returns exactly the keys that share the longest prefix",
      "For a RadixMap or RadixSet and any query, get_longest_prefix returns exactly the stored keys that share as many leading bytes with the query as any stored key does, in lexicographic order. If no stored key shares a byte with a non-empty query the answer holds only the empty key, if it is stored; for the empty query it is all keys.",
      HIST, "every history of operations, every query",
      "the tests ask a handful of queries of maps with at most four keys; which branch answers depends on where the query leaves the tree",
      ["src/radix/tree.rs", "src/radix/node.rs", "src/radix/map.rs", "src/radix/set.rs"],
      [("get_longest_prefix, push_all_children", "src/radix/tree.rs, src/radix/node.rs")],
      ["the returned keys"],
      [("root", "tree of compressed nodes", "src/radix/map.rs")]),
    P("P13", "SkipMap and SkipSet behave as an ordered map and set",
      "After any sequence of operations, whatever tower heights are drawn, a SkipMap (SkipSet) holds exactly the entries last inserted and not removed: insert and remove return the previous entry (key and value) or None, and get, get_mut, contains, floor (greatest key <= k), ceil (least key >= k), min, max, indexing and len answer accordingly. "
      "iter, iter_mut and into_iter yield every entry exactly once in strictly increasing key order, writes through get_mut, index_mut and iter_mut change exactly the addressed value, and no operation panics except indexing with a missing key. Only live nodes and links they have are ever accessed, and every node is released, and every key and value dropped or handed out, exactly once (also when an into_iter is dropped half way).",
      HIST, MAPQ + ", every sequence of random tower heights", MAPWHY + "; the linked towers are reached through raw pointers, so that a wrong link is a memory error that a test need not notice",
      ["src/skiplist/map.rs", "src/skiplist/set.rs"],
      [("search from the top level down, insert and remove with relinking of every level of a tower", "src/skiplist/map.rs"), ("iterators along level 0, release of nodes", "src/skiplist/map.rs")],
      ["return values and iteration of SkipMap/SkipSet, drops of keys and values"],
      [("head, links", "towers: link l of a node leads to the next node higher than l", "src/skiplist/map.rs"), ("len", "number of entries", "src/skiplist/map.rs")]),
    P("P14", "Skip list set operations are exact",
      "union(l, r) and l + r hold the keys of either map with l's entry where both have the key; intersection holds l's entries whose key is in r; difference and l - r hold l's entries whose key is not in r; symmetric_difference holds the entries whose key is in exactly one map. "
      "Every result is again a map for which all of P13 holds, with the correct len, and nodes that are not in the result are released exactly once. The same holds for SkipSet.",
      HIST, "every pair of maps or sets however built, every overlap of their keys, every sequence of random tower heights",
      "the tests combine one pair of small maps; nodes are moved between lists and relinked through raw pointers, and which links matter depends on the tower heights of both",
      ["src/skiplist/map.rs", "src/skiplist/set.rs"],
      [("union, intersection, map_difference: merge of two lists, relinking every level", "src/skiplist/map.rs")],
      ["contents and len of the results, drops of keys and values"],
      [("head, links", "towers: link l of a node leads to the next node higher than l", "src/skiplist/map.rs")]),
    P("P15", "SkipList behaves as a sequence",
      "After any sequence of operations, whatever tower heights are drawn, a SkipList is the sequence its operations spell: insert(i) for every i <= len puts the value before position i, remove(i), pop_front and pop_back take out exactly the value at that position, push_front and push_back add at the ends, get, get_mut and indexing find the value at every position (get and get_mut answer None for every other index), "
      "l + r is the concatenation, len is the number of values, and iter, iter_mut and into_iter yield them in order, once each. Every value is dropped exactly once, and the operations never reach memory outside live nodes.",
      HIST, "every history of operations on any number of lists, every index including usize::MAX, every sequence of random tower heights",
      "the tests run a few fixed sequences; every level keeps its own distances, so a wrong one shows only at later positions behind towers of a particular height, and memory errors need not show at all",
      ["src/skiplist/list.rs"],
      [("insert, remove: relink every level and adjust the distances", "src/skiplist/list.rs"), ("get, get_mut: walk by distance", "src/skiplist/list.rs"), ("+ swaps the links of the last node of every level with the other head's", "src/skiplist/list.rs")],
      ["return values and iteration of SkipList, drops of values"],
      [("links", "link l of a node leads to the next node higher than l, or to the end, and holds the number of positions between", "src/skiplist/list.rs"), ("len", "number of values", "src/skiplist/list.rs")]),
    P("P16", "BpMap behaves as an ordered map, also after it is opened again",
      "After any sequence of operations a BpMap holds exactly the entries last inserted and not removed, whatever the degrees of its nodes: insert returns the previous entry (key and value) or None, remove returns the removed entry or None, and get, contains_key, min, max, len and is_empty answer accordingly; clear empties it. "
      "iter_mut yields every entry exactly once in strictly increasing key order. A map that was closed and is opened from its file again is the same map. No operation panics or fails except insert with a key or value larger than the sizes given on creation, and only through errors of the device.",
      HIST, "every history of operations, including closing and opening, every key type with a total order and every value type whose serialization round-trips, leaf degree >= 1, internal degree >= 2 (all at most 4096); excluded: I/O errors and crashes",
      "the tests run one fixed sequence of inserts and one of removes per degree; which nodes split, borrow from a neighbour or merge depends on the degrees and on the whole history, and a wrong separator shows only in lookups that pass it",
      ["src/bp_tree/map.rs", "src/bp_tree/node.rs", "src/bp_tree/pager.rs"],
      [("insert: descent, leaf insert, splits up to a new root", "src/bp_tree/map.rs, src/bp_tree/node.rs"), ("remove: borrowing from and merging with neighbours, up to the root", "src/bp_tree/map.rs, src/bp_tree/node.rs"), ("search by separators, iteration along the leaves", "src/bp_tree/map.rs, src/bp_tree/node.rs")],
      ["return values and iteration of BpMap, before and after it is opened again"],
      [("pager", "pages of the file, read and written as nodes", "src/bp_tree/map.rs"), ("metadata.len, root_page", "number of entries, page of the root", "src/bp_tree/pager.rs")]),
    P("P17", "Every B+ tree page holds its node, and freed pages are used again",
      "For every BpMap whose keys and values keep to the sizes given on creation and whose degrees respect the documented limits: a node always fits in the page set aside for it in the file, so that writing one page never changes another one or the header; a page read is the node last written to it, also after the file was closed and opened again, and the header then gives back the root, the number of entries and the list of free pages. "
      "A freed page is handed out again, once, before the file grows; a new page is taken from the free list or else added at the end of the file.",
      HIST, "every history of page writes, allocations and frees, every key and value type whose serialization round-trips, leaf degree >= 1, internal degree >= 2 (all at most 4096); excluded: I/O errors and crashes",
      "the tests store a few integers with sizes that leave slack in every page; a page that is too small for a full node of some type, or a free list that loses a page, shows only in later, larger histories",
      ["src/bp_tree/pager.rs", "src/bp_tree/node.rs"],
      [("size of a node from degrees and sizes", "src/bp_tree/node.rs get_max_size"), ("allocate_node, deallocate_node: free list through the pages", "src/bp_tree/pager.rs"), ("offset of a page, header", "src/bp_tree/pager.rs")],
      ["contents of a BpMap, before and after it is opened again", "size of its file"],
      [("metadata", "header: sizes, degrees, len, pages, root page, first free page", "src/bp_tree/pager.rs"), ("db_file", "the pages behind the header", "src/bp_tree/pager.rs")]),
    P("P19", "An SSTable holds exactly the entries it was built from",
      "An SSTable that was built by appending entries (values or tombstones) in strictly increasing key order and then flushed and opened, by its builder or from its directory at any later time, holds exactly these entries, however many there are and however large they are: get finds the entry of every appended key and nothing for any other key, the data iterator yields every entry once in order, and the summary gives their number, the number of tombstones, the range of keys and the range of logical times. "
      "merge_ranges and is_intersecting are the hull and the overlap of closed key ranges, and of two values the one with the later logical time comes first. None of these operations fails or panics unless the device or a serializer does.",
      HIST, "every sequence of entries with increasing keys, every number of entries per index block, every key type with a total order, every key and value type whose serialization round-trips; excluded: I/O errors and crashes",
      "the tests flush tables of a few integers, all entries of one size; the three-level lookup (summary, index block, record) goes wrong at block boundaries and with particular keys only, and a wrong range or count shows only in later compactions",
      ["src/lsm_tree/sstable.rs"],
      [("append and flush: records, index blocks, summary and Bloom filter", "src/lsm_tree/sstable.rs SSTableBuilder"), ("get: filter, range, summary, index block, record", "src/lsm_tree/sstable.rs SSTable"), ("data iterator", "src/lsm_tree/sstable.rs SSTableDataIter")],
      ["lookups and iteration of an LsmMap that was flushed, before and after it is opened again"],
      [("data_stream, index_stream", "records of length and encoded entry; records of blocks of keys and offsets", "src/lsm_tree/sstable.rs"), ("summary", "counts, ranges, first key and offset of every index block", "src/lsm_tree/sstable.rs")]),
]
NOT_APPLICABLE = {}
