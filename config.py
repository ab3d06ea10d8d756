"""What decides each property: overlays (specs/<name>.vs), bounded stand-in targets, clause tags."""
# functions of the treap that only the set operations use
ALG_OUT = r"^(?!.*(union|intersection|difference|split_off|add|sub)$)"
PROPS = {
    "P01": dict(
        specs=["avl"], targets=["avl-map", "avl-set"], level="proof",
        note="every function of avl_tree (tree, node, map, set, iterators) under contract, all obligations discharged for all inputs; &map IntoIterator glue and the panic of a missing index only by the bounded stand-in",
    ),
    "P02": dict(
        specs=["avl"], targets=["avl-path"], level="proof", tags=["bal"], only_tags=True,
        note="the balance invariant is a postcondition of every tree function and a lemma gives the height bound; one comparison per visited node is read off the recursive contracts' measure",
        fns=r"avl_tree::(tree|node)::|map::AvlMap::(insert|remove|clear|new|get_mut)|overlay",
    ),
    "P03": dict(
        specs=["rb"], targets=["rb-map", "rb-set"], level="proof",
        note="every function of red_black_tree (tree, node, map, set, iterators) under contract, all obligations discharged for all inputs; &map IntoIterator glue and the panic of a missing index only by the bounded stand-in",
    ),
    "P04": dict(
        specs=["rb"], targets=["rb-path"], level="proof", tags=["rbal"], only_tags=True,
        note="the left-leaning red-black invariant is a postcondition of every tree function and a lemma gives the height bound; one comparison per visited node is read off the recursive contracts' measure",
        fns=r"red_black_tree::(tree|node)::|map::RedBlackMap::(insert|remove|clear|new|get_mut)|overlay",
    ),
    "P05": dict(
        specs=["splay"], targets=["splay-map", "splay-set"], level="proof",
        note="every function of splay_tree (tree, node, map, set, iterators) under contract, all obligations discharged for all inputs; &map IntoIterator glue and the panic of a missing index only by the bounded stand-in",
    ),
    "P06": dict(
        specs=["treap"], targets=["treap-map", "treap-set"], level="proof",
        note="every function of treap's tree, node, map and set (iterators included) under contract, all obligations discharged for all inputs and all priorities; &map IntoIterator glue and the panic of a missing index only by the bounded stand-in",
        fns=ALG_OUT, tags=["bal"],
    ),
    "P07": dict(
        specs=["treap"], targets=["treap-alg-map", "treap-alg-set", "treap-split-map", "treap-split-set"], level="proof",
        note="union, intersection, difference, symmetric difference, + and -, split_off (tree, map and set level) and the merge and split under them are under contract, all obligations discharged for all inputs and all priorities",
        fns=r"(union|intersection|difference|split_off|merge|split|add|sub|update|new)$|overlay",
    ),
    "P09": dict(
        specs=["treap"], targets=["treap-path"], level="proof", tags=["heap", "bal"], only_tags=True,
        note="heap order is a pre- and postcondition of every tree function for all priorities; that random priorities then give logarithmic expected depth is a theorem about treaps, not about this code, and is not re-proved",
        fns=r"treap::(tree|node)::|map::TreapMap::|overlay",
    ),
    "P08": dict(
        specs=["treaplist"], targets=["treap-list"], level="proof", tags=["heap", "bal"],
        note="every function of TreapList and of the implicit treap under it (iterators and + included) is under contract, all obligations discharged for all inputs and all priorities; &list IntoIterator glue and the panic of an index out of range only by the bounded stand-in",
    ),
    "P10": dict(
        specs=["arena"], targets=["arena"], level="proof",
        note="every function of TypedArena is under contract with the free list as data-structure invariant; the documented panics of free and indexing only by the bounded stand-in",
    ),
    "P11": dict(
        specs=["radix"], targets=["radix-map", "radix-set"], level="proof",
        note="every function of the radix tree (tree, node, map, set, iterators) is under contract, all obligations discharged for all inputs; &map IntoIterator glue and the panic of a missing index only by the bounded stand-in",
        fns=r"^(?!.*(get_longest_prefix|push_all_children)).*$",
    ),
    "P12": dict(
        specs=["radix"], targets=["radix-map", "radix-set"], level="proof",
        note="get_longest_prefix (tree, map and set level) and the enumeration under it are under contract, with the invariant that every other tree function keeps",
        fns=r"(get_longest_prefix|push_all_children|push_all_children_inner|Node::get)$|overlay",
    ),
    "P13": dict(
        specs=["skipmap"], targets=["skip-map", "skip-set"], level="proof",
        note="every function of SkipMap and SkipSet except the raw allocation and link arithmetic under Node (allocate, deallocate, get_layout, get_pointer: assumed) is under contract, raw pointers read as addresses into an explicit heap of nodes; &map IntoIterator glue and the panic of a missing index only by the bounded stand-in",
        fns=r"^(?!.*(union|intersection|difference|add|sub)$)",
    ),
    "P14": dict(
        specs=["skipmap"], targets=["skip-alg-map", "skip-alg-set"], level="proof",
        note="union, intersection, difference, symmetric difference, + and - (map and set level) are under contract with a merge specification, raw pointers read as addresses into an explicit heap of nodes (allocation and link arithmetic under Node assumed)",
        fns=r"(union|intersection|difference|add|sub|Node::new|Node::free)$|overlay",
    ),
    "P15": dict(
        specs=["sklist"], targets=["skip-list"], level="proof",
        note="every function of SkipList (iterators and + included) except the raw allocation and link arithmetic under Node (allocate, deallocate, get_layout, get_pointer: assumed) is under contract, raw pointers read as addresses into an explicit heap of nodes; &list IntoIterator glue and the panic of an index out of range only by the bounded stand-in",
    ),
    "P16": dict(
        specs=["bpmap"], targets=["bp-map"], level="proof",
        note="every function of BpMap and of the B+ tree nodes and pager under it is under contract (insert with splits, remove with borrowing and merging, the iterator along the leaves), all obligations discharged for all inputs against a model of the file (an array of bytes with a position, assumed) and of the encoding (bincode lengths and round trip, assumed); failing calls of the device are excluded; fewer than usize::MAX entries",
    ),
    "P17": dict(
        specs=["bp"], targets=["bp-pages"], level="proof",
        note="every function of the pager and of the B+ tree nodes is under contract against a model of the file (an array of bytes with a position, assumed) and of the encoding (bincode lengths and round trip, assumed): every node fits its page, pages and header are disjoint, and what was written is read again, also by open; failing calls of the device are excluded",
        fns=r"pager::|get_(max_size|payload_size|constant_size|degree)|Node::new|overlay",
    ),
    "P19": dict(
        specs=["sst"], targets=["lsm-size-tiered", "lsm-leveled"], level="proof",
        note="every function of the SSTable builder, table and data iterator is under contract (except the random choice of a directory name and serde glue), all obligations discharged for all inputs against a model of files written once (assumed) and of the encoding (bincode lengths and round trip, assumed); failing calls of the device are excluded",
    ),
}
