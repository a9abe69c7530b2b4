"""Per property: build modes (mode, shards, factor on the number of cases), evidence rule, what the
monitors must have observed (at least) for a quiet run to count."""
P8 = lambda f=1: ("plain", 8, f)
ENV = "item vectors and queries are finite and of ordinary magnitude; memory allocators hand out zeroed memory"
OTHER = "the oracle's own reader of the saved file knows the node layout (header, children or norm, vector)"
CONF = {
 "C01": dict(modes=[P8(8)],
   rule="random item sets (14 families x 8 id layouts, sizes around the bucket capacity, up to 4000), element/index type, metric, policy, tree count; each query judged against brute force on the index as built, saved and loaded by both allocators; non-trivial: the forest has splits and numReturn is below the item count; distinct by case, stage and query",
   must_see={"worlds of long vectors": 5, "worlds of many trees": 5, "worlds of more than 65533 items": 1, "queries built": 5000, "queries saved": 5000, "queries loaded (mmap)": 5000, "queries loaded (heap)": 5000}),
 "C02": dict(modes=[P8(12)],
   rule="random item sets and mixed queries (numReturn 0..more than items, budgets 0..full and -1); every answer entry judged; non-trivial: at least two results; distinct by case, stage and query",
   must_see={"worlds of long vectors": 5, "worlds of many trees": 5, "worlds of more than 65533 items": 1, "results judged": 100000, "answers on sets with gaps": 10000, "partial budget answers": 10000}),
 "C03": dict(modes=[P8(6)],
   rule="random item sets; 14 ascending budgets per query with bounds and monotonicity, and -1 against numReturn*trees; non-trivial: the answer lacks some item; distinct by case, stage, query and budget",
   must_see={"worlds of more than 65533 items": 1, "huge numbers of neighbours judged": 50000, "budgets judged": 100000, "budget steps that found more": 10000, "default budgets judged": 10000}),
 "C04": dict(modes=[P8(8)],
   rule="random item sets larger than a bucket; candidate sets compared with the best-first order computed from the saved file; recall floors on clustered data; non-trivial: the search was selective; distinct by case and query",
   must_see={"worlds of more than 65533 items": 1, "selective searches judged": 10000, "self queries judged": 2000, "recall tests": 10}, assumptions=[OTHER]),
 "C05": dict(modes=[P8(12)],
   rule="random item sets, types, metrics, policies; each index observed (items, distances, answers) before save, after save and loaded into other indexes by both allocators through a chain of saves; non-trivial: the forest has splits; distinct by case and stage",
   must_see={"worlds of long vectors": 5, "worlds of many trees": 5, "worlds of more than 65533 items": 1, "answers compared": 100000, "items compared": 100000, "round trips": 5000, "round trips of files above 1 MiB": 200}),
 "C06": dict(modes=[P8(10)],
   rule="random item sets built by single and multi worker policies; every node of every tree in the saved file judged by an independent reader; non-trivial: the forest has splits; distinct by case",
   must_see={"worlds of long vectors": 5, "worlds of many trees": 5, "worlds of more than 65533 items": 1, "nodes judged": 500000, "plane splits": 50000, "random splits": 50000, "root buckets": 1000, "item sides judged": 1000000}, assumptions=[OTHER]),
 "C07": dict(modes=[P8(4)],
   rule="same items, seed and worker count rebuilt under other random schedules of lock operations (token scheduler plugged in as policy) and on the real policy; bytes (one worker), set of trees and answers compared; other seeds and workers must differ; non-trivial: at least two different schedules ran; distinct by case and schedule",
   must_see={"multi worker rebuilds of large sets": 40, "single worker rebuilds of large sets": 60, "multi worker rebuilds": 5000, "single worker rebuilds": 2000, "schedule switches": 500000, "seed changes": 500, "seed changes with several workers": 300, "forests of pairwise different trees": 2000}, assumptions=[OTHER]),
 "C08": dict(modes=[P8(6), ("race", 8, 4)],
   rule="builds by 2..16 workers under random schedules with node memory that moves on every growth and revokes the old memory, and on the real policy (also under the Go race detector, with real growth); every forest judged whole; non-trivial: at least two workers shared the build; distinct by case and schedule",
   must_see={"real parallel builds of large sets": 20, "scheduled builds": 2000, "real parallel builds": 500, "node memory moves during builds": 2000, "lock waits": 10000}, assumptions=[OTHER]),
 "C09": dict(modes=[P8(6), ("race", 8, 5)],
   rule="2..32 goroutines, each with its own context, over built, saved and loaded indexes; every answer compared with the sequential one, also under the Go race detector; non-trivial: queries overlapped in time; distinct by case",
   must_see={"parallel queries judged": 50000, "cold parallel queries judged": 20000, "parallel queries with contexts of an empty index": 100, "stage built": 100, "stage loaded": 100, "stage saved": 100}),
 "C10": dict(modes=[P8(8)],
   rule="random histories of additions (any order, sparse, overwriting, bit patterns) interleaved with reads, then build, save, load; every read judged against a map model; non-trivial: gaps or overwrites occurred; distinct by case",
   must_see={"lives with ids of more than 16 bits": 5, "item reads judged": 1000000, "overwrites": 100000, "gap reads": 1000000, "life cycles": 2000, "bit pattern sets": 1000}),
 "C11": dict(modes=[P8(12)],
   rule="random vectors (parallel, opposite, zero, scaled 1e-12..1e12 ...); distances before and after build, save and load and in answers against float64 formulas with rounding bounds; non-trivial: distinct vectors; distinct by case, stage and pair",
   must_see={"distances judged filled": 100000, "distances judged built": 100000, "distances judged loaded (mmap)": 100000, "distances judged loaded (heap)": 100000, "query distances judged": 100000}),
 "C12": dict(modes=[P8(3)],
   rule="each item set built under all sampled combinations of the optional settings; saved bytes, items and answers compared with the reference configuration; non-trivial: the forest has splits; distinct by case and setting",
   must_see={"worlds of long vectors": 5, "worlds of many trees": 5, "settings compared": 10000, "answers compared": 100000}),
 "C13": dict(modes=[P8(8)],
   rule="every lifecycle state crossed with every misuse in random order and number; each call must be refused, then items, answers and bytes compared with a twin that skipped them; non-trivial: every judged refusal; distinct by case, state and misuse",
   must_see={"refused: AddItem of an id that can't be addressed": 1500, "refused: AddItem on a built index": 5000, "refused: Build on a built index": 5000, "refused: query of a wrong length": 5000, "refused: GetItem outside": 5000, "refused: Save of an unbuilt index": 500, "answers compared": 5000}),
 "C14": dict(modes=[P8(6)],
   rule="random lives (add, build, save, load, query, close in any order) with descriptor and mapping counts from /proc/self, then reuse compared with a fresh twin; non-trivial: the index was reused; distinct by case and state closed",
   must_see={"closes judged": 5000, "build memory returned": 2000, "leak cycles": 10000, "answers compared": 20000}),
 "C15": dict(modes=[P8(5)],
   rule="every kind of bad path or file size x allocator x previous state; error, no panic, no descriptor or mapping left; under ptrace every file system call of a load fails in turn; next load or build as good as new; non-trivial: every judged load; distinct by case",
   must_see={"failing file calls of Load judged": 200, "bad loads: missing file": 500, "bad loads: empty file": 500, "bad loads: directory": 500, "bad loads: cut within the last node": 500, "bad loads: one byte too long": 500, "answers compared": 20000}),
 "C16": dict(modes=[P8(8)],
   rule="random histories of saves and loads of several indexes over shared paths, with impossible targets, an unprivileged child in an unwritable directory and file size limits as write failures; a child process saving under ptrace is killed before, within and after every file system call, and every such call fails in turn with ENOSPC, EIO, EACCES ...; links and modes of replaced files; answers of all live indexes, bytes of all files and directory listings judged after each step; non-trivial: a failing or overlapping save; distinct by case",
   must_see={"crash points judged": 300, "files beside the saved one judged": 20000, "failing file calls of Save judged": 600, "large files under failing calls": 3, "saves over links and modes": 200, "saves over a loaded file": 1000, "saves over the own file": 1000, "saves to impossible targets": 1000, "saves without space": 500, "saves into an unwritable directory": 5}),
 "C17": dict(modes=[P8(10), ("asan", 8, 6), ("checkptr", 8, 10)],
   rule="random API histories on memory that ends at an unmapped page and moves on every growth (replaced memory is revoked), under AddressSanitizer and under checkptr; any fault or report is a violation; non-trivial: the history built an index; distinct by case",
   must_see={"worlds of long vectors": 5, "worlds of many trees": 5, "op AddItem (not addressable)": 500, "operations judged": 500000, "replaced memories revoked": 50000, "op GetNnsByVector": 100000}),
 "C18": dict(modes=[("plain", 4, 1)], rss_gb=9,
   rule="sparse memory and files beyond 4 GiB with 32-bit ids (large ids, long vectors): items on both sides read back, searched, saved and loaded; non-trivial: every search or read beyond 4 GiB; distinct by case and item",
   must_see={"items beyond 4 GiB": 20, "files beyond 4 GiB saved": 1, "files beyond 4 GiB loaded (mmap)": 1, "files beyond 4 GiB loaded (heap)": 1, "searches over splits beyond 4 GiB": 4, "node memories beyond 4 GiB moved": 1}),
 "C19": dict(modes=[P8(4)],
   rule="slices of many shapes and sizes (algorithm switch points, duplicates, sorted, reversed, millions), all kinds of ranges; result compared with the standard library's sort and a multiset; queue histories against a model; non-trivial: at least two different elements; distinct by input",
   must_see={"id sorts judged": 5000, "pair sorts judged": 5000, "partial sorts judged": 5000, "partial sorts of 5 million judged": 1, "queue pops judged": 100000, "pair list steps judged": 50000}),
 "C20": dict(modes=[P8(10)],
   rule="random interleavings of draws, clones and reseeds on several generators of every kind against an independent KISS implementation; fairness of sides and indexes by exact binomial bounds (error below 1e-12); non-trivial: every judged stream; distinct by case and stream",
   must_see={"KISS32 draws judged": 1000000, "KISS64 draws judged": 1000000, "clone draws judged": 1000000, "index draws judged": 1000000, "side draws judged": 10000000, "reseeded draws judged": 100000, "index draws beyond 32 bits judged": 50000}),
 "C21": dict(modes=[P8(12)],
   rule="all tree and worker counts (special ones included), both policies, degenerate and random item sets; roots counted in the saved file, draws and splits counted by plugged-in generator; non-trivial: more than one tree or worker; distinct by case",
   must_see={"automatic builds judged": 2000, "builds with an exact number of trees": 5000, "builds with more workers than trees": 2000, "builds with a special worker count": 1000}, assumptions=[OTHER]),
 "C22": dict(modes=[P8(5), ("race", 8, 3)],
   rule="several random lives on shared builders, index allocators and files, interleaved in one goroutine or run in parallel (also under the race detector); every observation compared with the same life run alone; non-trivial: at least two lives overlapped; distinct by case",
   must_see={"observations compared": 500000, "lives sharing an index allocator": 2000, "lives from one builder": 2000, "parallel lives": 2000, "saves at the same time": 2000, "saves to one path at the same time": 1000}),
 "C23": dict(modes=[P8(40)],
   rule="random vectors (lengths 0..2000, alignment offsets, magnitudes) and id multisets; results against compensated float64 sums with rounding bounds, argument bits compared after the call; non-trivial: length above 1; distinct by input",
   must_see={"Dot judged": 100000, "DotUnsafe judged": 100000, "GetNorm judged": 100000, "intersections judged": 50000, "roundings judged": 1000000}),
 "C24": dict(modes=[P8(1.5)], cli=True,
   rule="random valid option combinations of the command run as a process in a scratch directory; exit status, output, files and recomputed precision judged; non-trivial: precisions were printed; distinct by options",
   must_see={"runs": 100, "precisions recomputed": 50, "best precisions judged": 20}),
 "C25": dict(modes=[P8(16), ("race", 8, 3)],
   rule="builds under random schedules with a policy (in part one of its own for each worker), allocator and metric that record lock, reallocation and node access events; protocol automaton over each trace; parallel builds on the real policy under the Go race detector; non-trivial: at least two workers; distinct by case and trace",
   must_see={"lock operations judged": 1000000, "node accesses judged": 1000000, "reallocations judged": 10000, "builds with a policy of its own for each worker": 2000, "parallel builds of an automatic number of trees": 10}),
 "C26": dict(modes=[P8(8)],
   rule="random query histories on contexts made at different states and sizes; each answer compared with that of a new context, all kept answers and query vectors compared bit by bit at the end; non-trivial: the context had been used; distinct by case and query",
   must_see={"answers of reused contexts judged": 100000, "answers of foreign contexts judged": 100000, "kept answers judged": 100000}),
 "C27": dict(modes=[P8(12)],
   rule="all subsets of plugged-in recording components (metrics with other node layouts, scripted generators, sorters, policies, allocators); answers against brute force in the custom metric, call records against the contract; non-trivial: the component decided something; distinct by case and component",
   must_see={"custom metric searches judged": 20000, "custom sorter answers judged": 20000, "builds from a custom generator": 1000, "custom policies judged": 1000, "custom files judged": 5000, "custom allocations judged": 10000}),
 "C28": dict(modes=[P8(8)],
   rule="random indexes whose nodes are made read-only after the build, loaded into read-only memory and asked with vectors in read-only memory, queries mixed with refused calls; memory, file bytes and metadata compared; loads as an unprivileged user who may only read; any write faults; non-trivial: the forest has splits; distinct by case",
   must_see={"reads on a built index": 100000, "reads on a saved index": 100000, "reads on a mapped index": 100000, "reads on a heap index": 100000}),
 "C29": dict(modes=[P8(6)],
   rule="files of random indexes judged node by node by a reader of the documented layout that uses nothing of goannoy; 24 committed files of all type combinations loaded by both allocators and compared with their records; non-trivial: the forest has splits, or a committed file; distinct by case",
   must_see={"answers from files written earlier judged": 280, "files judged by the documented layout": 5000, "item headers judged": 300000}),
 "C30": dict(modes=[P8(4)],
   rule="random indexes up to 15000 items with plugged-in allocator and metric that count; reallocations, sizes, distances and splits per query and node, allocations, goroutines and file sizes against bounds; non-trivial: the forest has splits; distinct by case and query",
   must_see={"distances counted": 3000000, "splits counted": 1000000, "queries counted": 20000, "query allocations judged": 300, "large sets": 300, "growths judged": 40, "small and large indexes compared": 12}),
 "C31": dict(modes=[P8(4)],
   rule="each question asked in several forms (numReturn from 1 to all, by item and by vector, explicit and default budgets) on the index as built, saved and loaded by both allocators; non-trivial: at least two candidates; distinct by case, stage and question",
   must_see={"truncations judged": 500000, "item queries judged": 100000}),
 "C32": dict(modes=[P8(1)],
   rule="indexes of 1500 to 4500 items from all builder options; trees, item addresses, mappings, allocations, output and answers after overwriting the file judged; non-trivial: every judged case; distinct by case",
   must_see={"policies told apart": 200, "options given again": 300, "preallocations judged": 200, "large preallocations judged": 200, "small preallocations judged": 600, "large files judged": 60, "moves without a hint": 1000, "output judged": 400, "allocators told apart": 400}),
 "C33": dict(modes=[P8(2), ("race", 8, 0.25), ("asan", 8, 0.25)],
   rule="random histories of Reallocate, Free, Open, Get, Close and failed Open on the provided allocators, judged byte by byte against a model after each step, sequential and parallel, also under the race detector and AddressSanitizer; non-trivial: contents were to be kept, or a file opened; distinct by case and step",
   must_see={"reallocations": 50000, "opens": 40000, "files found again": 50000, "closes": 25000, "failed opens": 10000, "parallel opens": 50000}),
 "C34": dict(modes=[P8(20), ("race", 8, 8)],
   rule="tree and worker counts of all kinds with a stand-in builder that records its calls; random lock histories with overlap counters, also under the race detector; non-trivial: more than one worker; distinct by case and policy",
   must_see={"distributions judged": 30000, "lock sections judged": 1000000, "overlapping shared sections": 10000}),
 "C35": dict(modes=[P8(40), ("checkptr", 8, 4)],
   rule="random accessor histories on an array of nodes that ends at an unmapped page against a model of each; metric calls on random vectors against float64 formulas with rounding bounds; non-trivial: every judged case; distinct by case",
   must_see={"node states judged": 20000000, "writes to nodes judged byte by byte": 500000, "buckets judged": 200000, "margins judged": 2000000, "distances judged": 1000000, "drawn sides judged": 200000, "cluster splits judged": 10000, "split qualities judged": 60, "splits of few items judged": 20000, "normalizations judged": 50000}),
}
for _c in CONF.values():
    _c["assumptions"] = [ENV] + _c.get("assumptions", [])
