#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in (state or [])],
                     mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=observe, hook_needed=None)))

IDX="index/annoyindex.go"; IO="index/annoyindex_io.go"; SE="index/annoyindex_search.go"
ANG="distance/angular/distance.go"; ANN="distance/angular/node.go"; DP="distance/dotproduct/distance.go"; DPN="distance/dotproduct/node.go"
TM="distance/two_means.go"; POLM="index/policy/index_policy_multi.go"; POLS="index/policy/index_policy_single.go"
GCB="index/memory/gc_index_build_allocator.go"; GCM="index/memory/index_allocator_gcmem.go"; MM="index/memory/index_allocator_mmap.go"
BLD="builder/index.go"

p("C01","A search with a full budget is exact nearest-neighbour search",
 "When the inspection budget is at least the number of trees times the number of items, a nearest-neighbour query returns exactly the numReturn closest added items under the index's metric (all of them when fewer exist), nearest first. This holds for every item set, query vector or query item, element and index type, metric and worker policy, on the freshly built index and after it is saved or loaded.",
 ["inputs","configurations"],"every item set (duplicates, gaps in ids, zero vectors, sizes around the bucket capacity), query, numReturn, tree count, float32/float64 x uint32/uint64, angular/dot product, built or loaded",
 "The tests query one 3-item index; a lost subtree, a dropped bucket entry or a truncated candidate list shows only on particular sizes, id layouts and tree counts.",
 [SE,IDX,IO,ANG,DP,"utils/node.go"],[("forest traversal collects every bucket","%s GetNnsByVector"%SE),("split partitions its items","%s makeTree"%IDX),("distance + partial sort of the candidates","%s GetNnsByVector"%SE)],
 ["return values of GetNnsByVector/GetNnsByItem against a brute-force float64 model"])

p("C02","Every answer is well formed: distinct real items, ordered, true distances",
 "Whatever the budget and numReturn, an answer has as many distances as ids and at most numReturn of them; its ids are pairwise distinct and all were added by the user (an id skipped in a gap never appears); entries are ordered nearest first, and each reported distance is the metric's value (never NaN) between the query and that very item.",
 ["inputs","configurations"],"every query, numReturn (0, 1, more than available), budget from 0 up, sparse ids, built or loaded index",
 "Tests look at ids of one full-budget answer and ignore the distances; wrong distances, duplicates across trees or phantom gap ids need partial budgets, many trees and sparse ids.",
 [SE,ANG,DP,"sort/partial_sort.go","sort/sort.go"],[("sort + deduplicate candidates","%s GetNnsByVector"%SE),("NormalizedDistance","%s"%ANG)],
 ["return values of GetNnsByVector/GetNnsByItem against the float64 metric of the added vectors"])

p("C03","The inspection budget is honoured and more budget never hurts",
 "Asked for all items with budget B on T trees, a query returns at least min(items, B/T) of them and fewer than B plus one bucket's capacity, so it inspects neither less nor much more than asked. Raising the budget never removes a candidate and never makes the i-th neighbour farther. A budget of -1 answers exactly as a budget of numReturn times the number of trees (however great numReturn), on a built and on a loaded index alike.",
 ["inputs","configurations"],"every index, query, numReturn and every pair of budgets, single and multi worker builds, before and after save/load",
 "No test passes any budget but -1 on a tiny index, where every budget is exhaustive.",
 [SE,IO],[("budget loop","%s GetNnsByVector"%SE),("one root per tree after load","%s Load"%IO)],
 ["answer sets of GetNnsByVector for increasing budgets; Distance evaluations seen by a plugged-in metric"])

p("C04","Search explores best-first, so small budgets find true neighbours",
 "Candidates are inspected in best-first order, where a subtree's priority is the smallest signed distance from the query to the splitting planes on its path from the root (positive on the query's own side) and whole trees start with the highest priority. Hence an indexed item is found again by its own vector with a budget of a few candidates per tree, and on clustered data a budget that is a small fraction of the index recalls most true neighbours.",
 ["inputs"],"every forest, query vector and budget; recall over families of clustered and uniform data sets of several dimensions",
 "The precision test computes recall but asserts nothing, and with 3 items every order visits everything.",
 [SE,ANG,DP,TM,"sort/priority_queue.go"],[("priority queue over subtrees","%s GetNnsByVector"%SE),("PQDistance/Margin","%s"%ANG),("two-means splits","%s"%TM)],
 ["answers under small budgets against an executable best-first model over the saved forest, and against brute force (recall)"])

p("C05","Saving and loading preserves every observable answer",
 "After an index is saved, and when the file is loaded into any other index of the same type and vector length by either index allocator, every stored vector, item distance and answer (any query, numReturn, budget) is the same as on the index before it was saved, and saving the loaded index again writes the same bytes.",
 ["inputs","configurations","histories"],"every item set (one item, fewer items than a bucket, sparse ids, split roots), tree count, worker count, type combination, mmap and heap allocator, repeated save/load chains",
 "TestPrecision reads back stored vectors after Save but never compares answers before and after, nor loads into another index; root detection breaks only for particular shapes (single item, single-node trees, interleaved workers).",
 [IO,"utils/node.go",MM,GCM],[("roots copied to the tail of the file","%s Build"%IDX),("root scan on load","%s Load"%IO)],
 ["GetItem, GetDistance, GetNnsBy* before Save / after Save / after Load, and file bytes"])

p("C06","Each tree of the saved forest partitions the items consistently",
 "In the saved index every tree contains every added item exactly once, every node's descendant count is the number of items below it (a root's also counts the gaps between ids), buckets never exceed capacity and no split leaves more than 99% of its items on one side. Every item below a split lies on the side of the stored splitting plane it is filed under (unless the plane is the all-zero one of a random split), and the index ends with one faithful copy of each root.",
 ["inputs","schedules","configurations"],"every item set, tree count, worker count and schedule, both metrics, all type combinations",
 "No test looks inside a tree; a misfiled item or truncated plane only lowers recall for some queries.",
 [IDX,"utils/node.go",ANN,DPN,ANG,DP,TM],[("makeTree splits and flips children","%s makeTree"%IDX),("node copy","utils/node.go CopyNode"),("root copies","%s Build"%IDX)],
 ["bytes of the saved file parsed by an independent reader"],
 [("node","descendant count, two children or norm or bucket, vector or plane","%s"%ANN)])

p("C07","Builds are reproducible and independent of scheduling",
 "With the same items, tree count, worker count and seed, a build always produces the same forest: byte-identical files for one worker, and for several workers the same set of trees and the same answers (save for the choice among candidates whose subtrees tie exactly) whatever the interleaving of the workers. Different workers do not build the same trees, and a different seed gives a different forest.",
 ["schedules","inputs","configurations"],"every interleaving of the workers' lock operations, GOMAXPROCS, worker counts, seeds and item sets large enough to split",
 "One build per test, output never compared with another build.",
 [IDX,POLM,"random/kiss32random.go","random/kiss64random.go"],[("per-worker generator cloned and reseeded","%s ThreadBuild"%IDX),("makeTree draws from the worker's generator","%s makeTree"%IDX)],
 ["saved bytes and canonical (numbering-free) form of the forest over many schedules"])

p("C08","Parallel builds are free of data races and lost updates",
 "Building with any number of workers has no data race, deadlock or lost node: under every schedule the result contains exactly the requested trees, each complete, even while the node memory is being grown and moved by other workers.",
 ["schedules"],"every interleaving of workers, worker counts 1..2xCPU, tree counts, with and without preallocation hint (growth during the build or not)",
 "TestPrecision builds with many workers but without the race detector, with a preallocation hint so that memory never moves, and checks none of the trees.",
 [IDX,POLM,GCB],[("node counter, node memory and root list locks","%s"%POLM),("allocateSize under the exclusive lock","%s allocateSize"%IDX)],
 ["Go race detector reports; forest parsed after each build; faults on retired memory"],
 [("node counter / node memory / roots","shared by all workers","%s AnnoyIndexImpl"%IDX)])

p("C09","Concurrent queries with separate contexts equal sequential ones",
 "Any number of goroutines querying one built or loaded index, each with its own context, get exactly the answers the same queries get one after the other, with no data race, for every mix of item and vector queries, distances and item reads.",
 ["schedules"],"every interleaving of readers, reader counts, query mixes, mmap/heap/in-memory indexes, answer sizes large enough for the parallel id sort",
 "No test queries from more than one goroutine.",
 [SE,IDX,"sort/sort.go",MM],[("all scratch state lives in the context","%s BatchContext"%SE)],
 ["answers per goroutine against a sequential oracle; Go race detector reports"])

p("C10","Items are stored bit-exactly, last write wins, gaps stay empty",
 "Reading item i at any time before or after build, save or load returns bit for bit the vector last added under i, for any order of adding, any ids (with gaps), repeated ids and any amount of storage growth; a gap below the highest id reads as the zero vector, and adding neither keeps a reference to the caller's slice nor changes it.",
 ["inputs","histories","configurations"],"every sequence of additions (ascending, descending, random, sparse, overwriting), vector lengths, hints and types, interleaved with reads, then build/save/load",
 "Tests add three items in order, or a thousand in order with a preallocation hint.",
 [IDX,GCB,ANN,DPN],[("allocateSize growth and copy","%s allocateSize"%IDX),("SetVector","%s"%ANN),("Reallocate","%s"%GCB)],
 ["GetItem against a map model"])

p("C11","Distances are the metric: symmetric, in range, zero on itself, no NaN",
 "The distance of two items of an angular index is sqrt(2-2cos(angle)) within rounding: symmetric, between 0 and 2, (near) zero for parallel vectors and never NaN, with sqrt(2) when a vector is zero. For a dot-product index it is their inner product. The same values are reported by queries and stay the same across build, save and load.",
 ["inputs","configurations"],"all finite vectors whose norm lies in a range where the squared norms do not overflow or underflow, all lengths, float32/float64 x uint32/uint64",
 "GetDistance is tested on one pair with a wrong expectation; NaN from rounding needs particular parallel vectors.",
 [ANG,DP,"vector/dot.go","vector/get_norm.go",SE],[("Distance/NormalizedDistance","%s"%ANG),("cached norm","%s InitNode"%ANG),("inner product","%s Distance"%DP)],
 ["GetDistance and query distances against float64 formulas"])

p("C12","Optional settings never change the result",
 "The preallocation hint, the index allocator (mmap or heap), the choice among the provided sorters, verbose logging, the worker policy when it uses one worker, and whether an index comes from the builder or the constructor change neither the saved bytes nor any answer.",
 ["configurations","inputs"],"every combination of the optional settings, hint sizes below/at/above need, item sets and queries",
 "Each test fixes one configuration; no two configurations are ever compared.",
 [BLD,IDX,IO,GCB,POLM,POLS,"sort/sort.go"],[("defaults and options","%s"%BLD),("hint","%s New"%IDX)],
 ["saved bytes and answers across configurations"])

p("C13","Misuse is refused and leaves the index intact",
 "Adding to a built or loaded index, building twice or building a loaded index, adding or querying a vector of the wrong length, adding an item whose id is too great for its index type or for memory to be addressed, and reading or querying an item id outside the index are refused with a recoverable panic; saving an unbuilt index is refused with an error and creates no file. A refused call changes nothing: later answers and saved bytes are as if it had not been made.",
 ["histories","inputs"],"every lifecycle state (empty, adding, built, saved, loaded, closed) crossed with every misuse, any number of times",
 "No test makes a wrong call.",
 [IDX,IO,SE],[("lifecycle flags","%s AddItem/Build"%IDX),("length and id checks","%s"%SE)],
 ["panic/error of the call, then state compared with a twin index that skipped it"])

p("C14","Close releases everything and the index can be used again",
 "Closing an index, at any point and any number of times, returns without error or panic and releases its file handle and mapping; afterwards queries find nothing, saving is refused without touching any file, and the index can be filled and built, or loaded, again and then behaves like a new one. Repeated load/close or save/load cycles leak neither descriptors nor mappings.",
 ["histories"],"every sequence of add/build/save/load/query/close",
 "Tests close once at the end and look at nothing afterwards.",
 [IDX,IO,MM,GCM,GCB],[("Close","%s Close"%IDX),("Munmap + file close","%s Close"%MM)],
 ["/proc/self/fd and /proc/self/maps; answers of the reused index against a fresh twin"])

p("C15","Loading a bad path or file fails with an error, not a crash",
 "Loading a missing, empty or unreadable path, a directory or a device, or a file whose size does not fit the index's nodes, or a load whose file operations (open, stat, read, map) fail, returns an error with either allocator: it never panics, leaks no descriptor or mapping, and leaves the index closed and able to load a good file or be built afresh.",
 ["inputs","fault_sequences","histories"],"every kind of bad path, every file size that is not a whole number of nodes, every failing file operation, both allocators, any previous state of the index",
 "No test loads anything that is not a file just written.",
 [IO,MM,GCM],[("error returns of Open","%s"%MM),("size check","%s Load"%IO)],
 ["error value, /proc/self/fd, behaviour of the next load"])

p("C16","Saving is safe: it never destroys a live index or a good file",
 "Saving to a path that this or another index currently has loaded (or mapped) works: the other index keeps answering from the old contents and the saver continues with the new. Saving over a file keeps its permissions, and a symbolic link at the path stays and leads to the new file. A save that fails (unwritable directory, a directory in the way, no space, any failing file operation) returns an error, leaves a whole file, old or new, at the path (the old one when writing failed), no other file behind, and the index still answering. No save touches any other file beside the target. A process killed at any moment of a save leaves the old file or the complete new file at the path, never a part.",
 ["histories","fault_sequences"],"every order of save/load over shared paths by several indexes, every failing target, write failure at any size limit, failing file operation and kill point within a save",
 "Tests save once to a fresh path.",
 [IO,MM],[("write then reload","%s Save"%IO)],
 ["answers of all live indexes and file bytes after each step, under injected write failures, failing system calls and kills"])

p("C17","The index never touches memory outside its own nodes",
 "No sequence of valid or refused calls reads or writes outside the node memory obtained from the allocators or uses memory an allocator has already replaced: additions, builds, searches with any budget and context, loads and distance computations stay in bounds even when that memory ends exactly at an unmapped page and every reallocation moves it.",
 ["inputs","histories","schedules"],"every API history over all type combinations, vector lengths and bucket capacities, with exact-fit guarded memory, always-moving reallocation and sanitizer builds",
 "The code is built on unsafe pointers; slack from 1.5x growth and page rounding hides out-of-bounds access in ordinary runs.",
 [IDX,SE,IO,ANN,DPN,"utils/node.go","vector/dot.go",GCB],[("node addressing","%s MapNodeToMemory"%ANG),("node copies","utils/node.go"),("search scratch buffers","%s"%SE)],
 ["faults on guard pages, AddressSanitizer and checkptr reports, canaries"])

p("C18","Indexes larger than 4 GiB work with 32-bit item ids",
 "An index whose node memory or file exceeds 4 GiB addresses every node correctly with 32-bit ids: items on both sides of the 4 GiB boundary read back exactly, searches return the right ones, and a file of that size loads completely.",
 ["inputs","configurations"],"every node size and item count whose product passes 2^31 and 2^32 bytes",
 "Tests use indexes of a few hundred kilobytes.",
 [ANG,DP,IDX,IO],[("byte offset of a node","%s MapNodeToMemory"%ANG),("sizes on allocate/save/load","%s"%IO)],
 ["GetItem/GetNns on sparse multi-GiB memory and sparse files"])

p("C19","Sorters, partial sorters and priority queue meet their contracts",
 "Every provided full sort orders its slice ascending (pairs by first, then second) and every partial sort leaves in [begin,middle) the smallest elements of [begin,end) in order, touching nothing outside [begin,end); all keep exactly the same elements. The priority queue always yields a smallest remaining pair and loses or invents none under any mix of pushes and pops. Lists of pairs compare, swap, find, grow and shrink as their methods say.",
 ["inputs","histories"],"all slices (sizes around the algorithm switch points, duplicates, sorted, reversed), all valid ranges, all push/pop histories",
 "Four fixed slices of at most six elements, always starting at 0.",
 ["sort/sort.go","sort/partial_sort.go","sort/priority_queue.go","interfaces/sorter.go"],[("PartialSortSlice/PartialSortSlice2","sort/partial_sort.go"),("heaps","sort/sort.go, sort/priority_queue.go")],
 ["slices after the call against a reference sort; queue against a multiset model"])

p("C20","Random generators: KISS sequences, reproducible and independent",
 "The 32- and 64-bit KISS generators emit exactly the KISS sequence of their seed; index draws are below n and, like sides, drawn fairly. Generators newly created or reseeded with equal seeds give equal streams, a clone restarts the stream of its seed and neither disturbs nor is disturbed by the original, and every provided generator (the Go-based one included) follows its seed.",
 ["inputs","histories"],"all seeds, all interleavings of draws, clones and reseeds on several generators",
 "Generators are only used as a source of test data.",
 ["random/kiss32random.go","random/kiss64random.go","random/gorand.go","interfaces/random.go"],[("Next/SetSeed/CloneAndReset","random/kiss32random.go")],
 ["drawn sequences against an independent KISS implementation"])

p("C21","Build yields exactly the requested trees and always terminates",
 "A build for T trees produces exactly T trees for every worker count: -1 (all CPUs), 0 (counts as one), 1, or more workers than trees. With T = -1 a single-worker build of a non-empty index adds trees exactly while the index holds fewer than twice as many nodes as items, and at least one. Building ends after a bounded amount of work for all data, including identical, zero, collinear and single-item sets.",
 ["inputs","configurations","schedules"],"all T and worker counts, policies, degenerate and random item sets",
 "Two tree counts are used and the number of trees is never looked at.",
 [POLM,POLS,IDX],[("tree quota per worker","%s Build"%POLM),("auto stop","%s ThreadBuild"%IDX),("random split fallback","%s makeTree"%IDX)],
 ["roots of the saved file; random draws and splits counted by plugged-in components"])

p("C22","Indexes are independent of one another",
 "Indexes alive at the same time, including several made by one builder or sharing an index allocator, do not influence each other: any interleaving of their operations, also from different goroutines, gives each index the answers it would give alone, and closing one leaves the others intact. Indexes that save at the same time, be it to the same path, each keep their own answers, and the file is one of theirs, whole.",
 ["histories","schedules"],"every interleaving of operations on several indexes over one builder, separate builders, shared allocators and the same file",
 "Every test has a single index.",
 [BLD,MM,GCM,IDX],[("per-index allocators","%s Build"%BLD),("allocator registries","%s"%MM)],
 ["answers and stored items of each index against a solo twin; race detector"])

p("C23","Numeric helpers compute what they name",
 "The dot products (checked and pointer based), norm, squared Euclidean and Manhattan distances, absolute value, maximum, rounding and sorted-intersection helpers equal their mathematical definitions within rounding for every input, use exactly the given number of leading elements, and modify no vector (intersection may reorder its arguments but keeps their elements).",
 ["inputs"],"all vectors and lengths, both float types, all id multisets",
 "No test calls them directly.",
 ["vector/dot.go","vector/get_norm.go","vector/euclidean_distance.go","vector/manhattan_distance.go","vector/abs.go","utils/math.go"],[("kernels","vector/"),("Intersection, Round, Max","utils/math.go")],
 ["return values against float64 formulas and multiset models"])

p("C24","The precision tool runs for every option and reports true precision",
 "The precision command completes for every valid combination of its options, reads back every stored vector, reports for each budget a precision between 0 and 1, the best attainable one when all items may be inspected, that is what the index really reaches, writes results.txt only with -file and leaves the index file behind only with -keep, in which case it is a loadable index of the requested items.",
 ["configurations"],"all option combinations, item counts and vector lengths including tiny ones",
 "The command has no test.",
 ["cmd/precision/main.go"],[("main","cmd/precision/main.go")],
 ["exit status, output, files in a scratch working directory"])

p("C25","Locks requested from the build policy protect every shared access",
 "During a build every lock taken from the policy is released by the same worker, no worker waits for another in a cycle, node memory is replaced only while the exclusive node lock is held and no one is inside a shared section, and shared nodes are read or written only inside a shared or exclusive section. So any policy that implements the locks correctly makes a parallel build correct.",
 ["schedules","configurations"],"all interleavings at lock operations, worker and tree counts, growth patterns, plugged-in policies",
 "Tests only use the two built-in policies and cannot see lock use.",
 [IDX,"interfaces/index_policy.go"],[("lock sections","%s makeTree/allocateSize/ThreadBuild"%IDX)],
 ["lock, reallocation and node-access events recorded by plugged-in policy, allocator and metric"])

p("C26","Contexts and answers carry nothing over between queries",
 "An answer depends only on the index and the query: reusing a context, for any history of earlier queries, gives the same answer as a new context, no call modifies the query vector, and earlier answers stay unchanged after later queries. A context made for one state or size of index never corrupts an answer of a query it is accepted for, no matter how many candidates it collects.",
 ["histories","inputs"],"all query histories on a context, budgets from tiny to exhaustive, tree counts, bucket capacities, contexts created before or after build and load",
 "Tests run at most three identical-size queries on a context.",
 [SE],[("scratch buffers of the context","%s BatchContext"%SE)],
 ["answers with reused versus new contexts; copies of earlier answers"])

p("C27","Custom metrics, generators, sorters, policies and allocators are honoured",
 "A user-supplied metric, random generator, sorter, worker policy, build allocator or index allocator that meets its interface is the only one used: searches are exact under the custom metric, ordering goes through the custom sorter, all build memory comes from and is returned to the custom allocator, files are opened and closed through the custom index allocator, and builds depend on randomness only through the custom generator.",
 ["configurations","inputs"],"all subsets of plugged-in components, metrics other than the built-in ones, node layouts of other sizes",
 "Tests use built-in components only.",
 ["interfaces/distance.go","interfaces/index_memory.go","interfaces/index_policy.go","interfaces/random.go","interfaces/sorter.go",IDX,SE,IO],[("all decisions go through the interfaces","%s"%IDX)],
 ["call records of instrumented components; answers against the custom metric's brute force"])

p("C28","Searching and reading never change the index, its file or the arguments",
 "Once an index is built, saved or loaded, queries, distances, item reads, new contexts and refused calls write neither to its nodes nor to its file, and no call writes to a vector it is given: all of it works on read-only node memory, with vectors in read-only memory, and for a user who may only read the index file and its directory. A file that is only read keeps its bytes, times, mode and identity and gets no files next to it.",
 ["inputs","histories","configurations"],"every index, query, item and state; plugged-in and provided allocators, also for a user without write permission",
 "A write of an equal or soon restored value shows in no answer of a sequential test, but tears concurrent queries and faults on mapped files; tests run with all permissions.",
 [SE,IDX,IO,MM,GCM],[("traversal and candidate collection","%s GetNnsByVector"%SE),("mapping flags","%s Open"%MM)],
 ["page protection of node, file and vector memory; bytes and file metadata before and after"])

p("C29","The file format is fixed: header-less nodes of a documented layout",
 "A saved index is the sequence of its nodes and nothing else: little-endian descendant count, two children (or the bucket's items, or an item's squared norm), with the dot product one extra factor, then the vector, naturally aligned, in a node size that follows from metric, types and vector length; items come first by id, then the nodes of the trees, then one copy of each root. Files written by earlier builds of the library load and give the recorded items and answers, and are saved again byte for byte.",
 ["inputs","configurations"],"every item set, type combination, metric, worker policy and vector length; a committed set of earlier files of every type combination",
 "Every test writes and reads with the same build, so a changed layout goes unnoticed until deployed files no longer load.",
 [ANN,DPN,ANG,DP,IDX,IO],[("node layout","%s"%ANN),("node size","%s Distance"%ANG),("order of nodes, root copies","%s Build"%IDX)],
 ["bytes of saved files against a reader of the documented layout; items and answers of recorded files"])

p("C30","Work and memory stay in proportion to data and budget",
 "Adding n items, in any order, reallocates the node memory O(log n) times and never takes more than a small constant factor more than the nodes need; a file holds at most two nodes per item and tree besides the items; a query visits no split twice, works out the distance of an item at most once and of fewer items than its budget plus one bucket, and with a reused context allocates memory by its budget and not by the size of the index; no goroutine outlives a build.",
 ["inputs","configurations"],"item sets up to tens of thousands, all tree counts, budgets, metrics, types and worker policies",
 "Tests measure no cost: linear instead of geometric growth or repeated distance computations still give right answers.",
 [IDX,SE,POLM],[("growth by a factor","%s allocateSize"%IDX),("deduplication before distances","%s GetNnsByVector"%SE),("workers joined","%s Build"%POLM)],
 ["Reallocate calls and sizes of a plugged-in allocator, calls of a plugged-in metric by node, allocation statistics, goroutine count, file size"])

p("C31","The forms of a query agree with one another",
 "For a fixed budget numReturn only truncates: asking for k returns the first k (or all, when fewer were found) of what asking for everything under that budget returns, never fewer. A query by item answers, up to exact ties, as the query by that item's stored vector, with explicit and with default budgets, and the distances it reports are those GetDistance gives in both directions. This holds on built, saved and loaded indexes.",
 ["inputs","configurations"],"every index, item, query, numReturn and budget from one candidate to exhaustive",
 "Tests ask each question once, in one form, under an exhaustive budget.",
 [SE],[("truncation after the partial sort","%s GetNnsByVector"%SE),("item queries","%s GetNnsByItem"%SE),("GetDistance","%s GetDistance"%SE)],
 ["pairs of answers of GetNnsByVector, GetNnsByItem and GetDistance to the same question"])

p("C32","The builder's options select what they name",
 "The single worker policy of the builder ignores the worker count and the multi worker policy gives each worker trees of its own, as with the constructor; a preallocation hint large enough for the nodes means that they never move; the mmap allocator maps the file read-only instead of copying it, while an index loaded by the memory allocator keeps no descriptor or mapping and survives any change of the file; and the library prints nothing unless verbose logging was chosen.",
 ["configurations","inputs"],"all options of the builder over item sets of thousands of items, tree and worker counts",
 "Tests pick one option each and look only at answers, which are the same for all of them.",
 [BLD,MM,GCM,GCB,POLM,POLS],[("option setters and defaults","%s"%BLD)],
 ["trees of saved files, addresses of items, /proc/self/maps, allocation statistics, standard output and error, answers after the file was overwritten"])

p("C33","The provided memory allocators meet their interfaces",
 "The build allocator keeps the contents up to the smaller of the old and new size on every reallocation, hands out memory that is zero where it was never handed out before and fully usable, can be freed any number of times and used again, and shares nothing with other allocators. Both index allocators give exactly the bytes and size of the opened file until it is closed, however often and by whomever the same file is opened or closed in between; only open files are found again, and the one opened last is, as long as it is open; closing twice is harmless, failed opens leave nothing, and all of it may happen in parallel.",
 ["histories","inputs","schedules"],"all histories of Reallocate and Free, of Open, Get and Close over several files of all sizes, sequential and parallel",
 "The allocators have no tests of their own; an index uses a few of these histories only.",
 [GCB,GCM,MM,"interfaces/index_memory.go"],[("Reallocate, Free","%s"%GCB),("Open, Get, Close","%s"%MM)],
 ["bytes of the memory handed out against a model; registry, descriptors and mappings; race detector and AddressSanitizer"])

p("C34","The provided worker policies distribute work and exclude as named",
 "The multi worker policy runs exactly the requested number of workers (all CPUs for -1, one for 0), numbered from 0 without gaps, hands out exactly the requested trees in shares that differ by at most one (or leaves the number open to all), and returns only when all are done. Its locks exclude: one holder of the counter lock, of the root lock and of the exclusive node lock, which also excludes all shared sections, while shared sections may overlap, nodes can be locked under the counter lock and different policies never block each other. The single worker policy hands everything to one worker and its locks never wait.",
 ["configurations","schedules"],"all tree and worker counts, random lock histories of several workers",
 "Tests only see the finished index of a lucky schedule.",
 [POLM,POLS,"interfaces/index_policy.go"],[("Build","%s"%POLM),("locks","%s"%POLM)],
 ["ThreadBuild calls recorded by a stand-in builder; overlap of lock sections; race detector"])

p("C35","The provided metrics and nodes meet their interfaces",
 "Nodes lie one node size apart inside their memory and each accessor reads what was last set without touching other fields or nodes: count, vector, two children, norm, or a bucket of up to the maximum number of children. Distances are symmetric and the metric's value, the margin is the signed offset from the plane, the side follows its sign and is drawn only when it is zero, priorities take the minimum with the margin on the side's own sign and trees start at infinity. Initializing and preprocessing change no vector, normalizing gives unit length (zero stays zero), and a split changes none of the given nodes, yields a unit or zero plane and tells well separated clusters apart.",
 ["inputs"],"all vector lengths, type combinations, both metrics, vectors of several families, random accessor histories",
 "The tests of the metrics check single distances and margins of tiny float32 vectors.",
 [ANG,ANN,DP,DPN,TM,"interfaces/distance.go","interfaces/node.go"],[("node accessors","%s"%ANN),("metric","%s"%ANG),("two means","%s"%TM)],
 ["return values and node bytes against float64 formulas and a model of each node"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for q in P:
        f.write(json.dumps(q) + "\n")
print(len(P))
