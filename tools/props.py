ASSUME = [
    "the SSA form golang.org/x/tools/go/ssa builds from /repo's source has the semantics of the compiled program",
    "the engine's models of the standard library (os, syscall, sync, math, unsafe, math/rand) match it; explored paths and every counterexample are replayed natively",
    "floating point: comparisons, negation and conversions are exact IEEE 754; rounded arithmetic is an uninterpreted function with lemmas unless a harness asks for exact semantics; a candidate counterexample is decided again with exact semantics and on the real code",
    "little endian amd64 memory layout",
    "cvc5 1.1.2 / z3 answers are correct",
]
NA = {}
P = []
def prop(**k): P.append(k)

ND = "arbitrary split decisions (every side of every item, every margin) and arbitrary distances replace the metric's arithmetic unless the real metric is named"

prop(id="C01", title="Items are stored and kept exactly as they were added",
  statement="""A vector read back for an id equals, bit for bit, the vector added last under that id. This holds for every order of
  additions (with gaps and repeated ids), after storage growth, after building, saving, loading and after closing other indexes, and for every
  float bit pattern. Adding never changes the caller's slice nor keeps a reference to it.""",
  over=["inputs", "histories", "configurations"],
  text="all vectors (every bit pattern incl. NaN, infinities, -0), all sequences of additions within the bound, every stage of the life cycle, both metrics, 32 and 64 bit types, both storage allocators",
  tests="The tests add random vectors once in ascending order and never read them back bit for bit after growth, building or loading.",
  files=["index/annoyindex.go", "index/annoyindex_io.go", "distance/angular/node.go", "distance/dotproduct/node.go", "index/memory/gc_index_build_allocator.go"],
  mech=[("AddItem, GetItem, allocateSize", "index/annoyindex.go"), ("SetVector, GetVector", "distance/angular/node.go"), ("Reallocate", "index/memory/gc_index_build_allocator.go")],
  bounds="any bit patterns as elements (2..5 per vector, up to 47 for 3 items); up to 4 additions in any order of ids 0..5, up to 20 in ascending order, gaps up to 130; 1..3 trees; scale: 150 items in a row and ids up to 1700.",
  outside="more items or elements; ids beyond 130; memory exhaustion.",
  check={})

prop(id="C02", title="A built forest holds every item exactly once in every tree",
  statement="""After building N trees over a set of items, the index consists of exactly N acyclic trees, each holding every added item exactly once
  and nothing else. Inner nodes have two non-empty sides and record how many items lie below them; each root records the number of items. No node is
  shared by two trees, and the last N nodes of the saved file are copies of the roots.""",
  over=["inputs", "configurations"],
  text="every possible outcome of every split decision (including hyperplanes that put all items on one side and the randomised fallback), all item counts and numbers of trees within the bound",
  tests="The tests only look at the recall of a search on random data; a lost, duplicated or wrongly counted item goes unnoticed.",
  files=["index/annoyindex.go", "index/annoyindex_io.go", "utils/node.go"],
  mech=[("makeTree, splitImbalance, ThreadBuild, Build", "index/annoyindex.go"), ("CopyNode", "utils/node.go")],
  bounds="4..12 items in one tree, 1..4 items in 2..3 trees, all outcomes of the first 9..12 side decisions; 24 items with the real metric; scale: 128..300 given items, equal ones and lopsided splits among them.",
  outside="larger forests; side decisions after the first 9..12 alternate.",
  check={})

prop(id="C03", title="Every search result is well formed and its distances are true",
  statement="""A search never returns more results than asked for, returns only ids that were added and each at most once, and returns as many distances
  as ids, in ascending order. Each distance equals the distance between the query and the returned item. This holds for every forest, query, result count
  and search budget.""",
  over=["inputs", "configurations"],
  text="all split outcomes, margins, distances (with ties), result counts and budgets within the bound; ids with gaps; before and after saving; real angular metric with arbitrary query",
  tests="The tests compare the set of returned ids for random data with a brute force scan with tolerance; order, duplicates and distances are not checked.",
  files=["index/annoyindex_search.go", "sort/partial_sort.go", "sort/sort.go", "distance/angular/distance.go"],
  mech=[("GetNnsByVector, GetNnsByItem", "index/annoyindex_search.go"), ("PartialSortSlice", "sort/partial_sort.go")],
  bounds="1..4 items (7 ids with gaps, 9 with the real metric), 1..2 trees, k 0..10, budgets -1..1000; ; scale: 150 given items in 4 trees."+ND+".",
  outside="more items; more trees; other vector lengths.",
  check={})

prop(id="C04", title="An exhaustive search returns exactly the nearest neighbours",
  statement="""A search whose budget is large enough to inspect every item returns exactly min(k, number of items) items, and no item left out is
  nearer than any returned one. This holds whatever the trees look like, for built and for loaded indexes.""",
  over=["inputs", "configurations"],
  text="every tree shape, every order (with ties) of the distances, every k within the bound, also for more than 20 candidates (the second selection algorithm)",
  tests="The tests measure recall on random data and accept missing neighbours; they cannot tell a lost item from an approximate answer.",
  files=["index/annoyindex_search.go", "index/annoyindex.go", "sort/partial_sort.go", "sort/priority_queue.go"],
  mech=[("GetNnsByVector", "index/annoyindex_search.go"), ("PartialSortSlice", "sort/partial_sort.go"), ("makeTree", "index/annoyindex.go")],
  bounds="1..5 items with arbitrary distances in 1..3 trees; 24 items with two arbitrary distances; 14 items with the real metric; k 0..n+1; scale: 150 items, one arbitrary distance.",
  outside="more items with arbitrary distances.",
  check={"files": ["c04.go", "c05.go"]})

prop(id="C05", title="A limited search inspects the most promising parts of the trees first",
  statement="""A search with a limited budget descends best-first: it continues with the node whose worst margin towards the query so far is the largest, until
  the budget of items has been inspected or nothing is left, and returns the nearest of the inspected items. Without a budget, the budget is the number of results times
  the number of trees. An indexed item that is searched for finds itself.""",
  over=["inputs", "configurations"],
  text="all tree shapes, margins, budgets and k within the bound, arbitrary queries against trees of the angular metric",
  tests="The tests accept any recall above a threshold; following the wrong branch lowers the recall without failing them.",
  files=["index/annoyindex_search.go", "sort/priority_queue.go", "distance/angular/distance.go"],
  mech=[("GetNnsByVector", "index/annoyindex_search.go"), ("PQDistance, PQInitialValue", "distance/angular/distance.go"), ("PriorityQueue", "sort/priority_queue.go")],
  bounds="4..6 items, 1..2 trees, budgets -1..n, k 1..4, any margins (no two nodes equally promising; 5..7 items in one tree of up to four levels with ties); arbitrary query of two elements against a tree of the real metric over 6 items; 12 items looked up by themselves; scale: 130 items in one tree, one arbitrary margin.",
  outside="ties between equally promising nodes (order unspecified); larger forests.",
  check={})

prop(id="C06", title="Searches are memory safe for every query, count, budget and context",
  statement="""A search never reads or writes memory outside of the index and never crashes, whatever finite result count, budget, query values (including NaN and infinities) and context it is given; contexts of
  other indexes or created before building are accepted. A query of the wrong length is rejected and leaves the index usable. An empty index yields no results.""",
  over=["inputs", "configurations"],
  text="all k and budgets (negative, zero, huge), all bit patterns of queries and items, contexts of other indexes, built and loaded indexes",
  tests="The tests use one context per index, small positive counts and random finite vectors; out-of-bounds reads through unsafe pointers do not fail a test.",
  files=["index/annoyindex_search.go", "sort/partial_sort.go", "vector/dot.go", "distance/angular/node.go"],
  mech=[("GetNnsByVector, CreateContext", "index/annoyindex_search.go"), ("DotUnsafe", "vector/dot.go"), ("GetChildren", "distance/angular/node.go")],
  bounds="1..5 items (25 on the path for many candidates), 1..2 trees, k -2..2^40, budgets -3..2^62, query lengths 0..7; scale: 150 given items.",
  outside="k times the number of trees beyond 2^62; item ids that were never added; corrupt files.",
  check={"opts": {"C06Bits": ":t=100"}})

prop(id="C07", title="Searching only reads, and its answer depends only on index and query",
  statement="""Searching, reading items and measuring distances change neither the index, nor its file, nor the caller's query, nor earlier results. A used context gives the same
  answer as a fresh one, searching by item equals searching by that item's vector, and a saved index answers like the loaded one. Searching draws no random numbers.""",
  over=["inputs", "histories"],
  text="all read-only operations in memory that is write protected, arbitrary queries, distances, splits; contexts used for any search before",
  tests="The tests never compare two searches on the same index or inspect the index after a search.",
  files=["index/annoyindex_search.go", "index/annoyindex_io.go"],
  mech=[("GetNnsByVector, BatchContext", "index/annoyindex_search.go"), ("SetVector", "distance/angular/node.go")],
  bounds="1..6 items, 1..2 trees, k 1..4, budgets -1..10; one or two searches before; scale: 180 given items.",
  outside="longer histories of a context; concurrent searches (C11).",
  check={"files": ["c07.go"]})

prop(id="C08", title="Saving and loading preserves the index",
  statement="""Loading a saved file yields an index with the same items, the same trees and the same answers, by either file allocator, and saving a loaded index writes the
  same file again. An index object can switch between files and come back; indexes that have loaded the same file are independent, also when one of them is
  closed, reloaded or when another index is saved over that file.""",
  over=["inputs", "histories", "configurations"],
  text="all tree shapes and distances within the bound, 1..3 trees, both allocators on either side, both metrics, 32 and 64 bit types, any interleaving of the listed life cycle steps",
  tests="The tests load only the file they have just saved, by one allocator, and check recall.",
  files=["index/annoyindex_io.go", "index/annoyindex.go", "index/memory/index_allocator_mmap.go", "index/memory/index_allocator_gcmem.go"],
  mech=[("Save, Load", "index/annoyindex_io.go"), ("root copies", "index/annoyindex.go"), ("Open, Close", "index/memory/index_allocator_mmap.go")],
  bounds="1..5 items with arbitrary distances and splits (9 with real metrics), 1..3 trees, built by one worker; scale: 200 given items.",
  outside="truncated or corrupt files; multi-worker builds and trees that are single leaves may load a duplicate root (harmless to results).",
  check={"files": ["c08.go", "c07.go", "c05.go"]})

prop(id="C09", title="Failing saves and loads are reported and lose nothing",
  statement="""When a save or load fails (disk full after any number of bytes, unwritable path, missing or malformed file), an error is returned, no file handle or mapping
  leaks, and after a failed save the index still answers as before and can be saved again. After a failed load the index can be used anew. Every handle and mapping is
  released when the index is closed.""",
  over=["fault_sequences", "histories", "inputs"],
  text="the disk filling up after every possible number of bytes, unwritable places, files of any size that is no whole number of nodes, both allocators, repeated close",
  tests="No test makes a file operation fail or counts open files.",
  files=["index/annoyindex_io.go", "index/memory/index_allocator_mmap.go", "index/memory/index_allocator_gcmem.go"],
  mech=[("Save, Load", "index/annoyindex_io.go"), ("Open, Close", "index/memory/index_allocator_mmap.go")],
  bounds="1..4 items, file sizes up to 160 bytes with every limit, 0..3 reloads; scale: a file of more than one page.",
  outside="errors of close and of unmapping; crashes in the middle of a save.",
  check={"files": ["c09.go", "c08.go", "c07.go", "c05.go"]})

prop(id="C10", title="The angular distance measures the angle, symmetrically and without NaN",
  statement="""The angular distance of two vectors is the square root of 2-2cos of their angle (up to rounding), sqrt(2) if either is zero; it is symmetric, never negative
  and never NaN for finite vectors whose norms neither overflow nor vanish. Cached norms make no difference, and the index reports these distances for its items.
  Normalising keeps the order of distances.""",
  over=["inputs"],
  text="all pairs of vectors of up to 4 elements of moderate magnitude (symmetry: all finite), items added, built and loaded",
  tests="One test computes one distance of two given vectors.",
  files=["distance/angular/distance.go", "distance/angular/node.go", "vector/dot.go", "index/annoyindex_search.go"],
  mech=[("Distance, NormalizedDistance, InitNode", "distance/angular/distance.go"), ("DotUnsafe", "vector/dot.go"), ("GetDistance", "index/annoyindex_search.go")],
  bounds="vectors of 1..4 elements (up to 47 with one arbitrary element at any place) that are 0 or of magnitude 2^-10..2^10; the value is proved equal to the textbook evaluation order and otherwise checked within 0.1 %.",
  outside="overflowing or vanishing norms; longer vectors; rounding error of other evaluation orders below the tolerance.",
  check={"files": ["c10.go", "c08.go", "c07.go", "c05.go"], "opts": {"C10NoNaN": ":exp=1:s=z3", "C10Monotone": ":exp=1"}})

prop(id="C11", title="Building and searching are free of data races",
  statement="""Several workers may build one index, with any storage that grows while they build, and any number of goroutines may search, look up items and create contexts
  on a built or loaded index at the same time, each with its own context, without a data race and with the same answers as alone. Different indexes share no mutable state.""",
  over=["schedules", "configurations"],
  text="all reorderings of the memory accesses of a run that its synchronisation permits; preemptions at synchronisation operations; both metrics, real and growing allocators",
  tests="The tests are not run with a race detector, and one run shows one schedule; a race rarely changes a recall figure.",
  files=["index/annoyindex.go", "index/annoyindex_search.go", "index/policy/index_policy_multi.go", "index/memory/gc_index_build_allocator.go"],
  mech=[("ThreadBuild, makeTree, allocateSize", "index/annoyindex.go"), ("GetNnsByVector, CreateContext", "index/annoyindex_search.go"), ("Build", "index/policy/index_policy_multi.go")],
  bounds="2..3 workers or goroutines, 2..4 items, 2..3 trees; conflicting accesses of explored runs ordered by SMT.",
  outside="races reachable only through a control flow no explored run takes; searches sharing one context; adding items concurrently.",
  technique="symbolic execution of the Go SSA of /repo with SMT-decided predictive race analysis (reordering of accesses as an SMT query)",
  check={"files": ["c11.go", "c07.go", "c08.go", "c05.go", "util_conc.go"], "race": True})

prop(id="C12", title="A build by several workers yields a complete forest on every schedule",
  statement="""However the workers of a build interleave, the result is a forest of exactly the number of trees asked for, each holding every item exactly once; no node is lost, shared
  or overwritten, the build terminates, and it returns only after all workers are done. The trees are shared out completely for any number of workers. Without a number of trees, building stops at
  about twice as many nodes as items.""",
  over=["schedules", "inputs", "configurations"],
  text="all schedules with the given number of preemptions at synchronisation operations, all numbers of workers and trees within the bound, arbitrary splits",
  tests="The tests build with one schedule; a lost node or tree only lowers the recall.",
  files=["index/annoyindex.go", "index/policy/index_policy_multi.go", "index/policy/index_policy_single.go"],
  mech=[("ThreadBuild, makeTree, Build", "index/annoyindex.go"), ("Build", "index/policy/index_policy_multi.go")],
  bounds="1..4 items, 1..4 trees, 1..3 workers (policy alone: up to 8), 1..3 preemptions (thorough: up to 4); scale: 20 trees and 8 workers on one schedule.",
  outside="more preemptions; preemption between two unsynchronised accesses (covered by C11).",
  technique="symbolic execution of the Go SSA of /repo on all schedules within a preemption bound, assertions decided by SMT",
  check={"files": ["c12.go", "util_conc.go"]})

prop(id="C13", title="Builds are reproducible: same items, seed and trees, same index",
  statement="""Building twice from the same items, seed, number of trees and workers yields the same trees, byte for byte with one worker; several workers yield the same trees on every schedule.
  Every worker draws from a generator of its own, whose seed follows from the index's seed.""",
  over=["inputs", "schedules"],
  text="all sequences of draws of the generators, all items within the bound, all schedules within the preemption bound; default configurations with the real generators and metric",
  tests="No test builds twice and compares.",
  files=["index/annoyindex.go", "index/policy/index_policy_multi.go", "random/kiss32random.go", "builder/index.go"],
  mech=[("ThreadBuild, makeTree", "index/annoyindex.go"), ("CloneAndReset", "random/kiss32random.go")],
  bounds="2..6 items, 1..3 trees, 1..3 workers, up to 2 preemptions; scale: 120 given items.",
  outside="other machines or Go versions; the order of trees of several workers.",
  check={"files": ["c13.go", "c08.go", "c07.go", "c05.go", "util_conc.go"]})

prop(id="C14", title="Random generators are deterministic, independent and cover both sides",
  statement="""The KISS generators draw the published sequence for every seed. Any generator draws the same numbers from the same seed again, after reset and in a clone,
  clones are independent of their origin, an index drawn lies below its bound and a side is zero or one, following the draw. Different seeds give different sequences.""",
  over=["inputs", "histories"],
  text="all seeds, all bounds, any draws before a reset or clone",
  tests="There are no tests of the generators.",
  files=["random/kiss32random.go", "random/kiss64random.go", "random/gorand.go"],
  mech=[("Next, NextIndex, NextSide, SetSeed, CloneAndReset", "random/kiss32random.go"), ("Next", "random/kiss64random.go"), ("GoRandom", "random/gorand.go")],
  bounds="the first 3..6 draws of every seed, the first thousand of given seeds.",
  outside="statistical quality; the sequence of the standard library's generator.",
  check={"files": ["c14.go"]})

prop(id="C15", title="Sorting and partial sorting return sorted permutations of their range",
  statement="""Partial sorting puts the smallest pairs of a range, in ascending order, at its beginning, keeps every pair of the range and touches nothing else. Sorting puts all elements in ascending order and
  keeps each of them. Undefined keys (NaN) lose nothing and crash nothing.""",
  over=["inputs"],
  text="all keys (with ties), all ranges within the bound, both selection algorithms, all sorters, 32 and 64 bit",
  tests="The tests sort a few fixed and random slices, from the start.",
  files=["sort/partial_sort.go", "sort/sort.go"],
  mech=[("PartialSortSlice, PartialSortSlice2, heap", "sort/partial_sort.go"), ("Sorters", "sort/sort.go")],
  bounds="up to 5 arbitrary keys (6 thorough), 2..3 arbitrary keys among up to 40 given ones, all ranges; scale: 260 pairs, one arbitrary key.",
  outside="the third party library behind the parallel sorter (modelled by its contract); longer arbitrary slices.",
  check={"files": ["c15.go"]})

prop(id="C16", title="The priority queue yields its pairs in order and loses none",
  statement="""A queue yields, of all pairs pushed and not yet popped, always the first one: that with the smallest first component, among equal ones that with the smallest second component.
  It reports its length, whether it is empty and its top accordingly, for every order of pushing and popping. Nothing is lost, changed or duplicated, not even pairs with undefined keys (NaN).""",
  over=["inputs", "histories"],
  text="all keys (with ties, infinities) and ids, all sequences of operations within the bound, several types",
  tests="One test pushes a few fixed pairs and pops them.",
  files=["sort/priority_queue.go", "interfaces/sorter.go"],
  mech=[("PriorityQueue", "sort/priority_queue.go"), ("Pair, Pairs", "interfaces/sorter.go")],
  bounds="up to 4 arbitrary pairs; all sequences of 6 (thorough: 8) pushes and pops of at most 4 pairs; 2 arbitrary pairs among up to 27 given ones; scale: 300 pairs, one arbitrary key.",
  outside="longer arbitrary queues.",
  check={"files": ["c16.go", "c15.go"]})

prop(id="C17", title="Every node has its own place within the storage, also beyond 4 GiB",
  statement="""The node with id i begins i node sizes behind the start of the storage, for every id and vector length, also beyond 4 GiB. Writing any part of a node changes no other node and no part of the same node
  that is in use at the same time, and reading it back yields what has been written. Adding an item enlarges the storage so that the item lies within it, and not every time; a large file is loaded to its end.""",
  over=["inputs", "configurations"],
  text="all 32 bit ids, vector lengths up to 2^20, both metrics, 32 and 64 bit types; sizes of several GiB by means of storage that only keeps the books",
  tests="The tests use indexes of a few megabytes; an overflow of a size or offset only shows beyond 4 GiB.",
  files=["distance/angular/distance.go", "distance/angular/node.go", "distance/dotproduct/distance.go", "distance/dotproduct/node.go", "index/annoyindex.go", "index/annoyindex_io.go"],
  mech=[("MapNodeToMemory, NodeSize, MaxNumChildren", "distance/angular/distance.go"), ("node accessors", "distance/angular/node.go"), ("allocateSize", "index/annoyindex.go"), ("Load", "index/annoyindex_io.go")],
  bounds="8 vector lengths from 1 to 2^20-1, all 32 bit ids; contents of nodes of 1..9 elements; 2 additions of arbitrary ids; files of 4 to 10 GiB.",
  outside="ids beyond 32 bits; the greatest id 2^32-1; saving more than 4 GiB.",
  check={"files": ["c17.go"]})

prop(id="C18", title="An index only does what its state of life allows, and can be used anew",
  statement="""Vectors of another length are refused, and so are adding to or building a loaded index and building one twice; only a built index can be saved, and only an existing, well formed file loaded.
  Refused calls change nothing. After saving, an index serves what it saved; after closing or a failed load it is like new: it finds nothing, holds no memory, file or mapping, and can be used again.""",
  over=["histories", "configurations"],
  text="every sequence of the listed operations within the bound, from a new, a built and a loaded index, both file allocators; the answers compared with a model after every step",
  tests="The tests follow one straight path: add, build, search, save.",
  files=["index/annoyindex.go", "index/annoyindex_io.go", "index/annoyindex_search.go"],
  mech=[("AddItem, Build, Close", "index/annoyindex.go"), ("Save, Load", "index/annoyindex_io.go")],
  bounds="8 operations, sequences of 4 from a new and 3 from a built or saved index of 1 or 5 items (thorough: 5 and 4).",
  outside="adding items to a built index that has not been saved (the library leaves this open); lookups of ids never added.",
  check={"files": ["c18.go", "c09.go", "c08.go", "c07.go", "c05.go"], "thorough_opts": {"C18BuiltDeep": ":t=200"}})

prop(id="C19", title="Allocators keep what has been written and know exactly the open files",
  statement="""Growing the memory of a build keeps every byte written and yields zeros beyond; asking for less changes nothing; two allocators never share memory. A file allocator yields each file's content and size, finds exactly
  the files that are open, the latest opening of each, and releases handle and mapping when closed, in any order and for several openings of one file. Files that cannot be opened leave no trace.""",
  over=["histories", "inputs", "configurations"],
  text="all sequences of sizes, all bytes, all sequences of opening, rewriting and closing two files within the bound, both file allocators",
  tests="The allocators are not tested on their own.",
  files=["index/memory/gc_index_build_allocator.go", "index/memory/index_allocator_gcmem.go", "index/memory/index_allocator_mmap.go"],
  mech=[("Reallocate, Free", "index/memory/gc_index_build_allocator.go"), ("Open, Get, Close", "index/memory/index_allocator_gcmem.go"), ("Open, Get, Close", "index/memory/index_allocator_mmap.go")],
  bounds="4 sizes up to 18 bytes (thorough: 5 up to 24); 4 (thorough: 6) operations on 2 files of up to 20 bytes; scale: sizes around pages up to 1 MiB.",
  outside="empty files; exhausted memory; files changed while they are mapped.",
  check={"files": ["c19.go", "c09.go", "c08.go", "c07.go", "c05.go"]})

prop(id="C20", title="Dot product indexes rank by dot product and keep the vectors",
  statement="""With the dot product metric the distance of two vectors is their negated dot product, symmetric, and an index reports dot products (up to rounding). An exhaustive search returns the items of the greatest dot products with the query, greatest first.
  Preparing a build gives each item an extra dimension that makes up for what it lacks in length to the longest item, and changes no vector.""",
  over=["inputs", "configurations"],
  text="all pairs of vectors of up to 4 elements and all sets of up to 3 items of moderate magnitude, arbitrary query; given sets of items with split trees, built and loaded",
  tests="One test checks one small example.",
  files=["distance/dotproduct/distance.go", "distance/dotproduct/node.go", "index/annoyindex_search.go"],
  mech=[("Distance, NormalizedDistance, PreProcess, Margin", "distance/dotproduct/distance.go"), ("GetNnsByVector", "index/annoyindex_search.go")],
  bounds="vectors of 1..4 elements of magnitude 2^-10..2^10 or 0, up to 47 elements with one arbitrary one at any place; 1..2 arbitrary items in searches (thorough: 3), 10 given ones; scale: 200 given items.",
  outside="overflow and underflow; search in split trees for arbitrary items; recall of limited searches.",
  check={"files": ["c20.go", "c10.go", "c08.go", "c07.go", "c05.go"], "thorough_opts": {"C20SearchDeep": ":t=250"}})

prop(id="C21", title="Items lie on the side of the hyperplane that their margin says",
  statement="""For both metrics the margin of a vector is its dot product with the hyperplane (up to rounding), its side is right for a positive, left for a negative margin, and drawn at random exactly when the margin is zero. The priority of a child is
  the smaller of its parent's priority and the margin towards its side, so that no child comes before its parent and a root before everything. None of this changes a vector or reads beyond it.""",
  over=["inputs"],
  text="all planes and vectors of up to 4 elements (sides: every bit pattern), all distances and margins but NaN, both metrics, 32 and 64 bit types, in guarded memory",
  tests="The tests do not look at sides, margins or priorities.",
  files=["distance/angular/distance.go", "distance/dotproduct/distance.go", "vector/dot.go"],
  mech=[("Margin, Side, PQDistance, PQInitialValue", "distance/angular/distance.go"), ("Margin, Side, PQDistance, PQInitialValue", "distance/dotproduct/distance.go")],
  bounds="vectors of 1..4 elements, up to 47 with one arbitrary one at any place.",
  outside="longer vectors.",
  check={"opts": {"C21Long": ":exp=1"}, "files": ["c21.go", "c20.go", "c10.go", "c08.go", "c07.go", "c05.go"]})

prop(id="C22", title="Splits separate opposite items, are normalised and change no item",
  statement="""Creating a split changes no item and of its node the vector only, whatever the items are and whichever are drawn; two different items are drawn first. The plane is normalised and half way between two centroids, so that groups of
  opposite items are separated with each first drawn item's group on its side. Equal items yield no plane that is not a number. Normalising divides a vector by its norm.""",
  over=["inputs", "schedules"],
  text="all items of 1..2 elements (every bit pattern) for memory safety and purity; all moderate items for the plane without movement; all draws of the first 2..4 indexes for given groups of items; both metrics",
  tests="The tests only see the recall of whole indexes.",
  files=["distance/two_means.go", "distance/angular/distance.go", "distance/dotproduct/distance.go"],
  mech=[("TwoMeans", "distance/two_means.go"), ("CreateSplit, Normalize", "distance/angular/distance.go"), ("CreateSplit, Normalize", "distance/dotproduct/distance.go")],
  bounds="2..3 arbitrary items of 1..2 elements with up to 3 arbitrary draws (later draws hit an item of no length); 2..6 given items with 3..4 arbitrary draws; scale: 201..300 given items.",
  outside="quality of splits beyond the listed groups; more arbitrary draws on arbitrary items.",
  check={"opts": {"C22Long": ":exp=1"}, "files": ["c22.go", "c21.go", "c20.go", "c10.go", "c08.go", "c07.go", "c05.go"]})

prop(id="C23", title="Vector functions, set intersection and node copies compute what they say",
  statement="""Dot products, norms, Euclidean (squared) and Manhattan distances are their mathematical sums up to rounding, for any length up to the vectors', and read nothing beyond. The intersection of two lists holds, in ascending order, exactly the
  common elements as often as both have them. Copying a node copies all of its bytes and no others; the absolute value, maximum and rounding are exact.""",
  over=["inputs"],
  text="all vectors of up to 4 elements of moderate magnitude (the two dot products: every bit pattern), all sets of up to 3 numbers (thorough: 4), all lists of up to 3 out of 3 values, all bytes of nodes",
  tests="These functions have no tests of their own.",
  files=["vector/dot.go", "vector/get_norm.go", "vector/euclidean_distance.go", "vector/manhattan_distance.go", "vector/abs.go", "utils/math.go", "utils/node.go"],
  mech=[("Dot, DotUnsafe", "vector/dot.go"), ("GetNorm", "vector/get_norm.go"), ("Intersection, Max, Round", "utils/math.go"), ("CopyNode", "utils/node.go")],
  bounds="vectors of up to 4 elements, up to 47 with one arbitrary one at any place (agreement of the dot products: 47 arbitrary ones); sets of up to 4 numbers; nodes of up to 6 elements; scale: up to 1000 elements, one arbitrary.",
  outside="overflow; rounding of given numbers only.",
  check={"files": ["c23.go", "c22.go", "c21.go", "c20.go", "c10.go", "c08.go", "c07.go", "c05.go"]})

prop(id="C24", title="Every configuration of the builder yields a working, independent index",
  statement="""Whatever options a builder is given (policy, file allocator, hint, generator, sorter, logging, element and id types), the index it builds adds, builds, searches, saves and loads correctly. Options that are not about content leave the trees
  and items as they are, the sorter given is used, and indexes of one builder share nothing: using or closing one leaves the others alone.""",
  over=["configurations", "inputs"],
  text="all combinations of options for all four type combinations; arbitrary items for the comparisons of plain and configured indexes and for two indexes of one builder",
  tests="The tests use one or two configurations.",
  files=["builder/index.go", "index/annoyindex.go", "interfaces/sorter.go"],
  mech=[("Build and options", "builder/index.go"), ("New", "index/annoyindex.go")],
  bounds="144 combinations times 4 types with 5..6 given items; 1..5 arbitrary items; scale: 200 items of 16 elements.",
  outside="quality of default generators; output of verbose logging.",
  check={"files": ["c24.go", "c10.go", "c08.go", "c07.go", "c05.go"]})
