#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script: one place to edit the statements)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=observe, hook_needed=None)))

IX, IO, SE = "index/annoyindex.go", "index/annoyindex_io.go", "index/annoyindex_search.go"
ANG, DOT, TM = "distance/angular/distance.go", "distance/dotproduct/distance.go", "distance/two_means.go"
ANGN, DOTN = "distance/angular/node.go", "distance/dotproduct/node.go"
MULTI, SINGLE = "index/policy/index_policy_multi.go", "index/policy/index_policy_single.go"
MMAP, GCM, GCB = "index/memory/index_allocator_mmap.go", "index/memory/index_allocator_gcmem.go", "index/memory/gc_index_build_allocator.go"
BLD = "builder/index.go"

p("C01", "Stored vectors are read back exactly",
  "Reading an item returns bit for bit the vector that was last added under that id, whatever the order and gaps of the ids, however often ids are overwritten and the storage grows, and whatever the vector length and the element and id types. Building, saving and loading the index, and searching it, leave every stored vector as it was, and the index keeps its own copy: changing the caller's slice after adding has no effect on it.",
  ["histories", "inputs", "configurations"],
  "every sequence of additions (new ids in any order, gaps, overwrites) followed by build, save, load and searches; every vector length, value, element type and id type",
  "the tests add three items in ascending order; overwriting, gaps, growth beyond the first allocations and reading back after a save and load are not sampled",
  [IX, GCB, ANGN, DOTN, "utils/node.go"],
  [("AddItem grows the storage, then writes the node", IX), ("geometric reallocation copies the old contents", GCB)],
  ["GetItem after each operation"], [("_nodes", "contiguous node storage", IX)])

p("C02", "Every tree partitions all items; exactly the requested trees are built",
  "After a build with T trees the index holds exactly T trees, each of which reaches every added item exactly once, reaches no id that was not added, and records in each inner node the number of items below it; splits have two non-empty sides and buckets respect the maximum size. The build terminates and the number of nodes stays linear in items times trees for every data set, including all-identical, collinear and zero vectors, and for every answer of the random generator.",
  ["inputs", "configurations", "histories"],
  "every item set (size, gaps in the ids, values, duplicates), vector length, metric, number of trees, seed and random generator behaviour",
  "no test looks at the trees; the few data sets used in tests search with so many trees that a lost or duplicated item goes unnoticed",
  [IX, TM, ANG, DOT],
  [("recursive split with randomised fallback for degenerate data", IX), ("roots copied to the end", IX)],
  ["the node array of the saved index, walked from the roots at its end"], [("_roots", "root of each tree", IX)])

p("C03", "Search answers are well formed, correctly measured and ordered",
  "Every search, by vector or by item, with any non-negative result count and any node budget (up to the largest int), returns at most the requested number of ids, all of them ids that were added, no id twice, as many distances as ids, each distance equal to the distance between the query and that item's stored vector up to rounding and never NaN, in order of increasing distance (decreasing dot product for the dot metric). Items at exactly the same reported raw distance, such as exact duplicates, are ordered by increasing id. The distance between two items agrees with what a search by one of them reports for the other, whichever way round it is asked.",
  ["inputs", "configurations"],
  "every index content, query vector, result count (0 to more than the number of items) and node budget",
  "the tests compare three fixed queries on a three-item index; gaps in ids, budgets, duplicates, large result counts and zero vectors are not sampled",
  [SE, ANG, DOT, "sort/partial_sort.go", "sort/sort.go"],
  [("candidates deduplicated by sorted id, ranked by partial sort", SE)],
  ["GetNnsByVector, GetNnsByItem, GetDistance"])

p("C04", "An unlimited node budget gives the exact nearest neighbours",
  "When the node budget is at least the number of trees times the number of items, a search returns exactly the k nearest items (all of them when k exceeds their number), as brute force over the stored vectors would, up to rounding of equal distances.",
  ["inputs", "configurations"],
  "every index content, metric, vector length, number of trees, seed, query and k",
  "exactness needs every branch of every tree to be reachable for every data set; tests check three queries",
  [SE, IX, "sort/partial_sort.go"],
  [("the queue is exhausted before the search stops", SE)], ["GetNnsByVector, GetNnsByItem against brute force"])

p("C05", "The default budget always fills the answer",
  "With the default node budget (-1) a search for k neighbours returns exactly min(k, number of items) items.",
  ["inputs", "configurations"],
  "every index content, metric, number of trees, seed, query and k",
  "whether duplicates of an item in several trees starve the answer depends on the shape of the trees; tests sample a few",
  [SE], [("budget is k times the number of trees, duplicates removed afterwards", SE)], ["length of the answer"])

p("C06", "An item's own vector finds that item, even with the smallest budget",
  "Searching with an item's own vector, with any positive node budget, considers that item, provided at least one tree separates the item strictly, that is, the item lies on no splitting plane above it in that tree. Hence with the angular metric the first result is that item or one that is equally close up to rounding, and with the dot product metric the item is in the answer when k is the number of items. With the angular metric, scaling the query by a positive power of two does not change the first result.",
  ["inputs", "configurations"],
  "every index content, metric, tree, seed, item and positive budget",
  "holds for most items even in a badly broken search order, because the tests inspect many more nodes than necessary",
  [SE, IX, ANG, DOT],
  [("best-first traversal ordered by margin", SE), ("items are assigned to sides by the margin that the search computes", IX)],
  ["first result with budgets 1, 2, ... for each item"])

p("C07", "More budget never hurts, and a smaller k gives a prefix",
  "For a fixed index, query and k, raising the node budget never makes the i-th returned distance worse and never returns fewer items. For a fixed budget, the answer for a smaller k is a prefix of the answer for a larger k, and searching by an item id equals searching by that item's vector.",
  ["inputs", "configurations"],
  "every pair of budgets and every pair of k, on every index and query",
  "a relation between all pairs of searches; tests run single searches",
  [SE, "sort/priority_queue.go"], [("deterministic traversal order independent of k and budget", SE)], ["answers of all budgets and all k"])

p("C08", "Saving and loading preserves the index exactly",
  "After saving, and after loading the file into the same or another index of the same shape with either file allocator, every stored vector, every item distance and every search (all k and all budgets) answers exactly as the built index did. Saving needs a built index that has at least one tree (an index without trees cannot be told from one with trees by its file, and is refused), and saving a loaded index again, under any name including the name it was loaded from, writes the same bytes.",
  ["inputs", "configurations", "histories", "schedules"],
  "every index content including zero, one or few items and gaps in the ids, number of trees, number of workers and completion order of the workers, allocator, and chain of saves and loads",
  "the file carries no header, hence items, nodes and roots are inferred from node contents on load; tests save one ordinary index",
  [IO, IX, MMAP, GCM],
  [("roots recognised from the end of the file", IO)], ["answers before Save, after Save, after Load by another index"])

p("C09", "A failed or interrupted save never harms an existing file",
  "If a save fails or the process dies at any point of it, the file of that name still holds either the complete old or the complete new index, and a failed save reports an error and leaves the index as it was (or, when only reading back the complete new file fails, empty). Saving over a file that this or another index has loaded leaves those indexes answering as before. A file that is replaced keeps its permissions. No other file is touched, whatever its name, and a save that returns leaves no further file behind; when saves under one name overlap, it holds one of the complete indexes.",
  ["crash_points", "fault_sequences", "histories"],
  "every system call of the save as crash point, every write failure position (disk full at each byte), unwritable targets, saves over loaded files, a save of another process at each system call, similarly named files",
  "tests only run the successful path",
  [IO], [("write to a temporary file, then rename", IO)], ["file contents and answers after each crash or fault"])

p("C10", "Loading something unusable fails cleanly",
  "Loading a file that is missing, empty, a directory, unreadable, truncated so that it is not a whole number of nodes, or of a different node size that does not divide it returns an error without panicking, leaks neither files nor mappings, and leaves the index able to load a good file afterwards.",
  ["inputs", "fault_sequences", "histories"],
  "every truncation length and every kind of bad path, for both allocators, before and after good loads",
  "tests never load a bad file",
  [IO, MMAP, GCM], [("size check against the node size", IO)], ["error value, later operations, open files and mappings"])

p("C11", "Parallel builds are free of races, deadlocks and lost trees",
  "With the multi-worker policy and any number of workers, under every interleaving of the workers, the build ends, no two workers access memory in conflict without synchronisation, and the index has exactly the requested trees, each reaching every item exactly once.",
  ["schedules", "configurations"],
  "every interleaving of the workers at their synchronisation points, with every item set, number of trees and workers, including growth of the shared storage while others read it",
  "the tests run whatever interleaving happens, without race detection, on data that hides a lost node",
  [MULTI, IX, GCB],
  [("three locks guard the node count, the node storage and the roots", MULTI)], ["happens-before monitor, deadlock monitor, forest walk"],
  [("nodesMutex", "storage may be reallocated", MULTI), ("nNodesMutex", "next free node", MULTI)])

p("C12", "The forest depends only on data, seed and configuration",
  "Two builds from the same items, seed, number of trees and number of workers give the same set of trees, whatever the scheduling, up to the numbering of the nodes and the order of the trees; with a single worker the saved files are byte for byte equal. Closing an index, adding the same items again and building again gives the same index as the first time.",
  ["schedules", "configurations", "histories"],
  "every interleaving of the workers; every item set, seed, number of trees and workers; every number of rebuilds",
  "one test run cannot compare interleavings; nothing compares two builds",
  [IX, MULTI, "random/kiss32random.go"],
  [("each worker derives its own generator from the seed and its number", IX)], ["canonical form of the forest per schedule; saved bytes"])

p("C13", "Concurrent searches do not disturb each other",
  "Goroutines that search the same built or loaded index at the same time, each with its own context, get exactly the answers they would get alone, without any conflicting memory access; the same holds for reading items and distances, and for creating contexts, alongside. Goroutines that build, save, load, search and close indexes of their own do not disturb each other either, even when the indexes come from the same builder and are open on the same file.",
  ["schedules", "inputs"],
  "every interleaving of two or three searching goroutines at the points where they touch the shared index, for every query",
  "tests search from one goroutine",
  [SE, ANG], [("all mutable search state lives in the context", SE)], ["answers and happens-before monitor per schedule"])

p("C14", "The lifecycle of an index is a well-defined state machine",
  "Adding to a built or loaded index, building twice, building a loaded index, adding or querying a vector of the wrong length, and saving an index that is not built are rejected by a panic or an error and change nothing. Closing is always possible and repeatable and returns the index to the empty state, from which it can be filled, built, saved, loaded and searched anew as if it were fresh; loading replaces whatever the index held, in any state.",
  ["histories"],
  "every sequence of add, overwrite, build, save, load (good and bad files), close and search operations",
  "tests follow one fixed order of operations per index",
  [IX, IO], [("flags for built and loaded", IX), ("Close resets all fields", IX)], ["outcome of each operation and full observation of the index after it"],
  [("indexBuilt, indexLoaded", "lifecycle state", IX)])

p("C15", "Closing releases everything, and nothing leaks",
  "After an index is closed, or has loaded another file, it holds no open file and no mapping of the previous file, and the file allocator no longer lists it; repeated load, save and close cycles do not accumulate open files or mappings, not even when some of the loads or saves fail.",
  ["histories", "fault_sequences"],
  "every sequence of load, save, failing load, failing save and close operations, with both allocators",
  "tests never look at descriptors or mappings",
  [IX, IO, MMAP, GCM], [("Close of the allocated index unmaps and closes", MMAP)], ["/proc/self/fd and /proc/self/maps; allocator lookups"])

p("C16", "Searches are pure and contexts can be reused",
  "A search changes neither the index nor the caller's query vector, and gives the same answer whenever it is repeated, with a fresh context or with one that served any other searches (of whatever k, budget and kind) on that index before. Returned slices belong to the caller: later searches with the same context do not change them.",
  ["histories", "inputs"],
  "every sequence of searches on one context, every query",
  "tests use each context for a handful of similar searches and never look at earlier answers again",
  [SE], [("scratch arrays in the context", SE)], ["answers, saved bytes and earlier result slices after each search"])

p("C17", "Indexes are independent of each other",
  "Operations on one index never influence another one, even when both were made by the same builder with the same settings, are open on the same file, or are filled, built, saved, loaded, searched and closed in any interleaving.",
  ["histories", "configurations"],
  "every interleaving of the operation sequences of two indexes, same builder or not, same file or not",
  "tests use one index at a time",
  [BLD, MMAP, GCM], [("each index has its own build memory", BLD)], ["each index's observations against the same operations run alone"])

p("C18", "Angular distance obeys its laws",
  "The angular distance of two vectors equals sqrt(2-2cos) of their angle up to rounding: it is symmetric, between 0 and 2 up to rounding, 0 up to rounding for parallel vectors, independent of the (positive) lengths of the vectors, sqrt(2) whenever one of them is zero, and never NaN. (Vectors whose squared lengths, or the product of them, overflow or underflow the element type are out of scope.)",
  ["inputs"],
  "every pair of vectors of every length and element type whose squared lengths multiply without overflow or underflow",
  "one distance is asserted by the tests",
  [ANG, "vector/dot.go"], [("norm cached in leaf nodes", ANG), ("clamped square root", ANG)], ["GetDistance and Distance/NormalizedDistance on nodes against a high-precision reference"])

p("C19", "The dot product metric ranks by dot product",
  "With the dot product metric the reported distance is the dot product of the query and the item up to rounding, a larger dot product ranks first, and an unlimited budget returns the k items with the largest dot products, also when norms differ, vectors are zero or products are negative.",
  ["inputs", "configurations"],
  "every item set, query, k, number of trees and seed",
  "the only test of this package uses an angular index",
  [DOT, DOTN, SE], [("negated dot product as internal distance", DOT)], ["answers against brute force"])

p("C20", "The priority queue is a priority queue",
  "For every sequence of pushes and pops the queue's top and the popped element are the smallest remaining pair, by priority and then by value, pops return exactly the pushed elements, and length and emptiness are right; top of an empty queue is nil.",
  ["histories"],
  "every sequence of push and pop operations, with equal priorities and equal elements",
  "one fixed sequence is tested",
  ["sort/priority_queue.go", "interfaces/sorter.go"], [("container/heap over pairs", "sort/priority_queue.go")], ["every operation's result against a multiset model"])

p("C21", "Sorting and partial sorting are correct permutations",
  "Each slice and pair sorting function leaves a permutation of its input in ascending order (pairs by first, then second). The partial sorts leave a permutation whose range from begin to middle holds the smallest elements of the range from begin to end in ascending order, and do not touch elements outside that range.",
  ["inputs"],
  "every input up to a length, including duplicates and all orders, every begin, middle and end, and lengths across the internal algorithm switches",
  "a few inputs are tested, none with a sub-range",
  ["sort/partial_sort.go", "sort/sort.go"], [("selection sort for small, full sort for larger ranges, heaps in the alternatives", "sort/partial_sort.go")], ["output against the specification of sorting"])

p("C22", "Random generators are deterministic, seedable and in range",
  "Equal seeds give equal sequences for every generator, the default seed applies when the seed is zero on construction, a clone restarts the sequence of the current seed whatever was drawn before, setting a seed makes the seed readable back and selects its sequence whatever was drawn before, and an index drawn below n lies in 0..n-1. At their native width the KISS generators produce the sequences of the published algorithms.",
  ["inputs", "histories"],
  "every seed, bound n and sequence of draw, reseed and clone operations",
  "no test exercises the generators",
  ["random/kiss32random.go", "random/kiss64random.go", "random/gorand.go"], [("KISS algorithm", "random/kiss32random.go")], ["every operation's result against an independent implementation"])

p("C23", "Tuning options do not change results",
  "The preallocation hint, verbose logging, the choice of file allocator, an equivalent user-supplied sorter, and the multi-worker policy with one worker instead of the single-worker policy do not change anything observable: saved files are byte for byte the same and all answers are equal.",
  ["configurations", "inputs"],
  "every combination of these options, on every item set, number of trees and seed",
  "tests use one combination each",
  [BLD, IX, IO, GCB, MULTI, SINGLE], [("options only select memory, output and sort implementation", BLD)], ["saved bytes and answers across all option combinations"])

p("C24", "Indexes beyond 4 GiB address their nodes correctly",
  "Node addresses, allocation sizes, hints, saving and loading are computed without overflow: an item whose node lies beyond 4 GiB is stored, read back, saved and loaded like any other and never aliases an item at a lower address, for both id types.",
  ["inputs", "configurations"],
  "every vector length and id whose product exceeds 32 bits",
  "needs more than 4 GiB of nodes; tests use kilobytes",
  [ANG, DOT, IX, IO], [("offsets computed in machine words", ANG)], ["GetItem around the 2 GiB, 4 GiB and 8 GiB boundaries; requested sizes; loads of sparse files"])

p("C25", "Memory allocators honour their contract",
  "The build allocator returns memory of at least the requested size that preserves all earlier contents and is zero where never written, for every sequence of sizes, and starts afresh after being freed. A file allocator gives exactly the size and contents of the file, finds the allocation by name while it is open and not after it is closed, and several files or allocations can be open at once and be closed in any order, repeatedly, without an error or effect on others.",
  ["histories", "inputs"],
  "every sequence of allocation sizes with writes and frees; every file size around zero, page and buffer boundaries; every order of open, lookup and close",
  "tests never use allocators directly and never shrink, free or reopen",
  [GCB, MMAP, GCM], [("copy on growth", GCB), ("mapping per opened file", MMAP)], ["memory contents against a byte-array model; Get, Size, Ptr"])

p("C26", "Requested trees are distributed over any number of workers",
  "For every number of trees and workers, including more workers than trees, a worker count of 0 (one worker) and of -1 (one per CPU), exactly the requested number of trees is built, with no two workers building from the same generator state; with -1 trees a build ends with at least one tree and at most a small multiple of the item memory.",
  ["configurations"],
  "every pair of tree and worker counts, both policies",
  "tests use two pairs",
  [MULTI, SINGLE, IX], [("floor((trees+worker)/workers) per worker", MULTI)], ["trees in the saved index; per-worker shares seen by a recording builder"])

p("C27", "Vector kernels compute what they say",
  "Dot, its unsafe variant, norm, its unsafe variant, squared Euclidean and Manhattan distance and absolute value agree with an exact computation up to rounding of their element type, use exactly the first n elements, do not modify their inputs, and give identical results in the safe and unsafe variants.",
  ["inputs"],
  "every pair of vectors and every length, element type and id type, including lengths shorter than the slices",
  "no test covers this package",
  ["vector/dot.go", "vector/get_norm.go", "vector/euclidean_distance.go", "vector/manhattan_distance.go", "vector/abs.go"],
  [("plain accumulation loops", "vector/dot.go")], ["results against exact arithmetic"])

p("C28", "Utilities and the precision tool keep their promises",
  "Intersection returns exactly the common elements of two sets of ids in ascending order, copying a node copies all of it and nothing else, rounding to places rounds half up, and Max returns the larger. The precision command creates, saves, verifies and queries an index for every combination of its options, exits successfully, reports for each number of neighbours a precision between 0 and 1 (1 when that number is the number of items and there are at least ten times as many items as trees), and removes its index file unless told to keep it.",
  ["inputs", "configurations"],
  "every pair of small id sets in every order, node sizes and contents, values and places; option combinations of the command",
  "no test covers these",
  ["utils/math.go", "utils/node.go", "utils/dump.go", "cmd/precision/main.go"],
  [("merge of two sorted slices", "utils/math.go")], ["results against reference implementations; the command's exit status, output and files"])

p("C29", "Custom distances, generators, sorters and policies plug in",
  "A user-supplied distance with its own maximum bucket size, priorities or margins, a user-supplied random generator, sorter, build policy or allocator that meets its interface's contract is used by the index throughout, and the guarantees on trees, search answers, saving and loading hold with it.",
  ["configurations", "inputs"],
  "every bucket size from 2 to the natural one, wrapped distance, adversarial but fair random generator, recording sorter, policy and allocator, on every item set",
  "tests only use the built-in ones",
  [IX, SE, "interfaces/distance.go", "interfaces/random.go", "interfaces/index_policy.go"],
  [("the index only goes through the interfaces", IX)], ["forest walk and answers with plugged-in components; balance of lock and unlock calls"])

p("C30", "Approximate answers have good recall",
  "On typical data the approximate search finds most of the true nearest neighbours with the default budget, and recall improves with more trees.",
  ["inputs"],
  "statistical, over data distributions and seeds",
  "the tests print precision figures without asserting them",
  [SE, TM], [("random projection forest", TM)], ["hit rate over many random queries"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
