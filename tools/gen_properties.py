#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line). Edit here, not there."""
import json, os

P = []

def p(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
            "mechanism": [dict(zip(("name", "where"), m)) for m in mechanism],
            "observe_at": list(observe),
            "hook_needed": hook,
        },
    })

ALL = ["radix.go", "update.go", "delete.go", "utils.go", "unsafe.go", "allocator.go"]

p("C01", "Sequential histories behave like a map from keys to values",
  "After any sequence of completed inserts, updates and deletes over a prefix-free key set, looking up a stored key reports found together with the value most recently written for it, whatever other keys were added or removed in between. "
  "PrepareUpdate and PrepareDelete on a stored key report found with that same current value, and with no other operation in progress every Finalize succeeds.",
  ["histories", "inputs"], "every sequence of insert/update/delete over every prefix-free key set, through the tree or through a held allocator",
  "The tests insert one database and delete it once; they never interleave inserts, updates and deletes, never revisit a node after it was merged or split, and the one repeated insert/delete test is skipped for lack of its data file.",
  ALL, [("copy-on-write node transitions", "update.go Finalize"), ("merge on delete", "delete.go Finalize"), ("descent", "radix.go search")],
  [("root", "current root word", "radix.go Tree"), ("node/leaf words", "children, prefix and key byte packed in 64 bits", "utils.go")],
  ["Tree.Lookup", "Allocator.Lookup", "PrepareUpdate", "PrepareDelete", "Finalize"])

p("C02", "A key that is not stored is never reported as something else",
  "Looking up, updating or deleting any non-empty key that is not stored (including keys that are prefixes of stored keys, for lookups and deletes) reports either not found or the value of some key currently stored in the tree, never a value of a removed key, an overwritten value or a value never written. "
  "Such a probe never crashes and never changes the contents; a PrepareUpdate that reports not found is only ever given for a key that is not stored.",
  ["inputs", "histories"], "every probe key against every reachable tree",
  "Only two absent-key lookups occur in the tests; the space of probe keys relative to prefixes, sparse nodes, 256-way nodes and leaf roots is not sampled.",
  ALL, [("optimistic prefix skip with bounds checks", "radix.go search, delete.go prepare")], (), ["Tree.Lookup", "PrepareUpdate", "PrepareDelete"])

p("C03", "Keys of any length and any bytes are handled, however long their shared prefixes",
  "The tree stores, finds, orders, counts and deletes keys of any byte content whose shared prefixes have any length up to the size of a memory block, including lengths at every internal size boundary and fan-outs from 1 to 256 at every position; each operation gives the same results as for short keys. "
  "A shared prefix too large for a memory block is refused by a panic rather than by writing outside the tree's memory.",
  ["inputs"], "every prefix-free key set with shared prefixes up to the block size and any fan-out",
  "The longest prefix in the tests is 263 bytes with two keys; node size boundaries with long prefixes, splits inside long prefixes and merges back are not exercised.",
  ["unsafe.go", "update.go", "delete.go", "radix.go", "iterator.go", "counter.go", "allocator.go"],
  [("prefix length word for prefixes of 255 bytes and more", "unsafe.go storePrefix/appendPrefix"), ("prefix slot arithmetic", "every reader of a node")], (),
  ["all key operations"])

p("C04", "Values keep all of their 55 bits and nothing else",
  "A value written for a key is returned by every reading interface (lookup, prepare, iteration, minimum and maximum) reduced modulo 2^55, for every 64-bit value written. Updating a value never changes which keys are stored or their order.",
  ["inputs", "histories"], "every value and every kind of position a leaf can have in the tree",
  "The tests use small integers as values; the bits next to the tag bit and the truncated bits are never set.",
  ["utils.go", "update.go", "delete.go", "iterator.go", "radix.go"], [("leaf packing", "utils.go buildLeaf/updateLeafKey/getLeafValue")], (),
  ["Lookup", "UpdateOperation.Value", "DeleteOperation.Value", "Iterator.Value", "MinKey", "MaxKey"])

p("C05", "Concurrent operations are linearizable per key",
  "For every concurrent history of lookups, inserts, updates and deletes (each write being a PrepareUpdate or PrepareDelete that is finalized or aborted and retried on conflict), the results seen for each key are those of some sequential order of the operations that respects real time. "
  "An operation whose Finalize returned true takes effect exactly once and one whose Finalize returned false or that was aborted has no effect.",
  ["schedules", "histories"], "every interleaving of concurrent readers and writers",
  "The tests run disjoint key ranges in parallel phases (all inserts, then all lookups, then all deletes), so operations of different kinds never overlap and no schedule is controlled.",
  ["update.go", "delete.go", "locks.go", "radix.go"], [("generation locks", "locks.go"), ("generation validation on descent", "update.go prepareUpdate, delete.go prepare"), ("copy-on-write publication", "update.go/delete.go Finalize")],
  [("generation locks", "odd while locked, bumped by each write", "radix.go nodeBlock.locks"), ("rootLeafLock", "lock for leaf roots", "radix.go Tree")],
  ["Lookup", "PrepareUpdate/Finalize/Abort", "PrepareDelete/Finalize/Abort"], "yield points inside descent, locking and publication")

p("C06", "Prepare-then-Finalize is an atomic read-modify-write",
  "Between the Value reported by a prepare and a Finalize that returns true, no other write to that key takes effect: of several clients inserting the same absent key exactly one observes it absent, increments of a stored counter through prepare/finalize are never lost, and a value removed by deletes is removed by exactly one of them. "
  "At the end the tree holds exactly the keys that the successful operations add up to.",
  ["schedules", "histories"], "every set of clients hammering overlapping keys in parallel",
  "No test has two goroutines writing the same key, or neighbouring keys that force one node to be rebuilt under the other's operation.",
  ["update.go", "delete.go", "locks.go"], [("locks held from prepare to finalize", "update.go/delete.go"), ("compare-and-swap of leaves", "Finalize")], (),
  ["UpdateOperation.Value", "Finalize result", "final contents"])

p("C07", "Readers never observe recycled memory",
  "While nodes are continuously removed and their memory reused, a lookup, iteration, count or minimum/maximum search that runs concurrently never crashes, never returns a value that was not stored for that key space, and always finds keys that are present for the whole duration with the value they had all along. "
  "Memory that some operation in progress can still reach is not reused before that operation ends.",
  ["schedules", "histories"], "every interleaving of readers with writers that retire and reuse nodes, including readers suspended for arbitrarily long",
  "The tests never read while writing, so no reader ever meets a recycled node.",
  ["allocator.go", "epoch.go", "radix.go", "iterator.go", "counter.go"], [("epoch reservations", "allocator.go startOp/endOp, epoch.go minReservation"), ("age check before reuse", "allocator.go newNode")],
  [("globalEpoch", "advances every 1000 retirements", "epoch.go"), ("reservations", "epoch each operation in progress entered", "epoch.go"), ("recycler", "retired extents with their epoch", "allocator.go")],
  ["Lookup", "Iterator", "Count", "MinKey", "MaxKey"], "yield points inside readers; overwrite of extents at the moment they are reused")

p("C08", "Concurrent use is free of data races",
  "Any concurrent use of one tree through its documented interface (tree-level operations from any goroutine, each allocator, operation and iterator used by one goroutine at a time, statistics, counting, stopping and starting, persisting while stopped) contains no unsynchronised conflicting memory accesses, including first use right after creation.",
  ["schedules"], "every concurrent client program within the documented rules",
  "The suite is not run with the race detector and never mixes kinds of operations.",
  ["radix.go", "allocator.go", "epoch.go", "slots.go", "locks.go", "state.go", "stats.go", "admin.go"], [("atomics on shared words", "whole package"), ("allocator hand-over", "slots.go")], (),
  ["race detector reports"])

p("C09", "Iteration over a resting tree returns every matching key once, in order",
  "With no writes in progress, iterating with a prefix returns the values of exactly the stored keys that start with it, each once, in lexicographic key order, and then ends; an empty prefix matches every key. "
  "If no stored key has the prefix the iteration is empty, or returns one single stored value that the caller must reject by comparing keys.",
  ["inputs", "histories"], "every tree and every prefix, of any size relative to the iterator's internal batch",
  "The only executed test iterates a few dense or random integer sets with an empty prefix and checks the number of items, not their order or identity; all prefix iteration tests are skipped.",
  ["iterator.go", "radix.go"], [("prefetch batches and resume position", "iterator.go Next/storeResumePosition"), ("prefix descent", "radix.go partialSearch")],
  [("resumeAt", "where the next batch starts", "iterator.go")], ["Iterator.Next", "Iterator.Value"])

p("C10", "Iteration concurrent with writes misses no lasting key and keeps the order",
  "When inserts, updates and deletes happen during an iteration, the iteration still ends, every matching key present for the whole iteration is returned, and those lasting keys come in lexicographic order (a lasting key may be repeated only directly after itself, when deletions around it leave too little key information to tell it was already returned). "
  "Every other value returned belongs to a key stored at some moment during the iteration, and with no deletion during the iteration no lasting key is repeated.",
  ["schedules", "histories"], "every set of writes placed anywhere during an iteration, in particular between internal batches",
  "No test writes during an iteration.",
  ["iterator.go", "radix.go", "allocator.go"], [("resume by partial key", "iterator.go Next"), ("epoch held during a batch", "iterator.go Next")], (),
  ["Iterator.Next", "Iterator.Value"], "yield points inside the scan")

p("C11", "Minimum and maximum searches return the extreme stored key",
  "With no writes in progress, MinKey and MaxKey with a prefix return the value of the smallest and largest stored key that starts with it, and with an empty prefix those of the whole tree, reporting not found exactly when the tree is empty; after any history of deletions. "
  "If no stored key has the prefix they report not found or some stored value; under concurrent writes they return a value stored during the call and never one beyond a matching key that is present throughout.",
  ["inputs", "histories", "schedules"], "every tree reachable by inserts and deletes, every prefix, and concurrent writers",
  "One comparison min<max on insert-only integer trees is tested; deletions (which leave emptied nodes), prefixes and concurrency are not.",
  ["radix.go"], [("extreme descent", "radix.go MinKey/MaxKey"), ("prefix descent", "radix.go partialSearch")], (), ["MinKey", "MaxKey"])

p("C12", "Counts are exact when the tree is at rest",
  "With no operation in progress, Len equals the number of stored keys, Count with a prefix returns as many leaves as stored keys with that prefix (at most one if there are none), and both agree after any mix of successful, failed and aborted operations by any number of goroutines and allocators. "
  "The approximate statistics reach the exact number once all allocators have flushed their counters.",
  ["histories", "schedules", "inputs"], "every history of operations, spread over any allocators",
  "Len is compared after insert-only and after delete-everything phases only; prefix counting is not tested at all.",
  ["radix.go", "counter.go", "allocator.go", "update.go", "delete.go", "stats.go"], [("per-allocator item counters", "allocator.go itemCounter/FlushStats"), ("counting walk", "counter.go Count")],
  [("itemCounter", "unflushed balance, may be negative", "allocator.go"), ("liveObjects", "flushed total", "radix.go")], ["Len", "Count", "Counter", "Stats"])

p("C13", "Stop is a barrier: nothing runs between Stop and Start",
  "When Stop returns, no operation is in progress and none can begin until Start is called; operations waiting meanwhile then proceed, none lost. Stop and Start are idempotent, may be called concurrently with operations, with each other and with Len and the allocator listing, always return once the operations in progress end, and Len or a listing never starts a stopped tree or hands out an allocator that is in use.",
  ["schedules", "histories"], "every interleaving of Stop, Start, Len and allocator listings with each other and with operations",
  "Stop and Start are only reached through Len and Close, always from one goroutine with no operation in progress.",
  ["radix.go", "slots.go", "admin.go"], [("withdrawing all allocators", "radix.go Stop/Start/Len")],
  [("stopped", "whether all allocators are withdrawn", "radix.go")], ["Stop", "Start", "Len", "Admin allocators"])

p("C14", "An allocator has one holder at a time and always comes back",
  "A reserved allocator is never handed to a second holder before it is released, all configured allocators can be reserved at the same time, and a reservation request beyond that waits until one is released. "
  "Every tree-level operation gives its allocator back exactly once, on every path: found or not, finalized or aborted, successful or not.",
  ["schedules", "histories"], "every interleaving of reservations and releases and every outcome of every operation",
  "The pool is tested sequentially by one goroutine; return of allocators after each kind of operation outcome is not checked.",
  ["slots.go", "radix.go", "update.go", "delete.go", "counter.go", "iterator.go"], [("compare-and-swap per slot", "slots.go get/put"), ("release on completion", "Finalize/Abort")],
  [("slots", "0 free, 1 taken", "slots.go")], ["GetAllocator", "ReleaseAllocator", "tree-level operations"])

p("C15", "An aborted operation leaves no trace",
  "Aborting a prepared update or delete, at any kind of position in any tree, leaves contents, order, counts and shape unchanged and leaves nothing locked: any later operation on any key proceeds as if the aborted one had never been prepared.",
  ["inputs", "histories", "schedules"], "every prepared operation against every tree, alone and concurrently with other clients",
  "Abort is only reached in the tests for duplicate keys in a database that has none, so it is never executed.",
  ["update.go", "delete.go", "locks.go"], [("unlock on abort", "update.go Abort, delete.go Abort")], (), ["UpdateOperation.Abort", "DeleteOperation.Abort"])

p("C16", "Writing the state and loading it gives the same tree",
  "For every stopped tree, loading what WriteState wrote gives a tree with the same keys, values, order, counts and length, whatever the history, the number of memory blocks and of allocators, and however soon after the last write it was saved. "
  "WriteState reports the number of bytes it wrote and leaves the tree as it was, usable again after Start.",
  ["histories", "configurations", "schedules"], "every tree and every moment of saving it",
  "No test writes or loads a state.",
  ["state.go", "allocator.go", "radix.go", "unsafe.go"], [("metadata, allocator sections and compressed blocks", "state.go writeState/loadState"), ("block numbering", "radix.go blockAllocator")],
  [("nextFreeBlock", "number of blocks in use", "radix.go")], ["WriteState", "NewTreeFromState"])

p("C17", "Interrupted or failing saves and loads are reported, never half accepted",
  "Loading a state cut short at any byte, with a failing reader or written with another block size returns an error and no tree. Loading does not depend on how the reader splits the data. "
  "If the destination fails at any point WriteState returns an error, it always returns, and the tree remains intact.",
  ["crash_points", "fault_sequences"], "every cut point of every state, every failing read and every failing write",
  "No test writes or loads a state, let alone with faults.",
  ["state.go", "allocator.go"], [("section and block checks", "state.go loadState"), ("error propagation from the writer goroutine", "state.go writeState")], (), ["WriteState", "NewTreeFromState"])

p("C18", "Memory is recycled: repeated work does not grow the tree",
  "Repeating inserts, updates and deletes that keep returning to the same contents, through one allocator with no long-running reader, does not use ever more memory: after a warm-up the number of memory blocks stays constant. "
  "Memory retired by removing or replacing nodes of ordinary size becomes available again, and no extent is ever in use twice.",
  ["histories"], "every cyclic workload on nodes of ordinary size (up to 257 words)",
  "The only test that repeats inserts and deletes is skipped, and none looks at memory use.",
  ["allocator.go", "update.go", "delete.go", "epoch.go"], [("recycling lists with splitting", "allocator.go recycle/newNode"), ("retirement of replaced nodes", "update.go/delete.go Finalize")],
  [("recycler", "retired extents by size", "allocator.go")], ["Stats blocks_allocated", "Allocator state"])

p("C19", "Readers never wait for writers",
  "While any number of update and delete operations are prepared but not yet finalized or aborted, lookups, iterations, counts and minimum/maximum searches on any key complete in a bounded number of their own steps and see the state before those operations, as long as an allocator is free for them.",
  ["schedules", "histories"], "every set of pending operations against every tree",
  "No test reads while an operation is pending.",
  ["radix.go", "iterator.go", "counter.go", "locks.go"], [("readers take no locks", "radix.go search/partialSearch"), ("publication by a single atomic store", "Finalize")], (), ["Lookup", "Iterator", "Count", "MinKey", "MaxKey"], "step counter at reader yield points")

p("C20", "Writers always make progress",
  "No combination of concurrent operations blocks forever: whenever all other operations have ended, a prepare completes without restarting, and among concurrent clients whose operations each get finalized or aborted all of them finish. "
  "When nothing is in progress, nothing is left locked or reserved.",
  ["schedules"], "every interleaving of operations that each get finalized or aborted",
  "The parallel phases of the tests touch disjoint, mostly distant keys and would show a leaked lock only as a hang of the whole suite.",
  ["locks.go", "update.go", "delete.go", "slots.go"], [("try-lock with roll-back and restart", "locks.go"), ("root leaf lock", "locks.go lockLeafRoot")], (), ["PrepareUpdate", "PrepareDelete"], "restart counter at yield points; lock inspection at rest")

p("C21", "Results do not depend on configuration",
  "The same sequence of operations gives the same results for every number of allocators (one or many), for tree-level operations and for held allocators, and for every supported block size build.",
  ["configurations", "histories"], "every configuration, same history",
  "The tests run one configuration: as many allocators as processors, default block size.",
  ["blocksize.go", "blocksize8.go", "blocksize16.go", "radix.go", "allocator.go", "epoch.go"], [("block size constants", "blocksize*.go"), ("per-allocator arenas", "allocator.go")], (), ["all operations"])

p("C22", "Trees, operations, iterators and caller buffers are independent",
  "Operation, iterator and counter objects that were used before, on the same or another tree, behave exactly like new ones, and operations on one tree never affect another. "
  "The tree never modifies the key and prefix slices it is given, and does not depend on a key after the operation ends: callers may overwrite their buffers afterwards.",
  ["histories", "inputs"], "every order in which several trees, operations and iterators are used and reused",
  "Each test uses one tree and does not reuse an iterator; reuse of pooled operations is incidental and unchecked.",
  ["update.go", "delete.go", "iterator.go", "counter.go"], [("pools", "updateOperationPool, deleteOperationPool, iteratorPool"), ("re-initialisation", "prepareUpdate, prepare, Iterator.Reset, Counter.reset")], (), ["all operations", "Iterator.Reset", "Counter.Count"])

p("C23", "The tree stays compact: one node per branching point",
  "As long as no branching point has ever had 128 or more branches, the number of nodes, their sizes and their prefix lengths are those of the minimal prefix-compressed tree of the keys currently stored, whatever the history of inserts and deletes; a branching point with 128 or more branches is one 256-way node. "
  "Counters describe that structure exactly.",
  ["histories", "inputs"], "every history over every key set",
  "Node counts are only printed by the tests; shape after deletions is not looked at.",
  ["update.go", "delete.go", "counter.go"], [("split and merge", "update.go nodePrefixMiss, delete.go replaceNodeWithNode/replaceNodeWithLeaf")], (), ["Count", "Counter fields"])

p("C24", "Closing a tree ends its background work",
  "Close waits for operations in progress, ends the tree's background goroutine and leaves nothing running; a failed load leaves nothing running either. Creating, using, saving, loading and closing any number of trees does not accumulate goroutines, and a tree is fully usable the moment NewTree or NewTreeFromState returns.",
  ["histories", "schedules"], "every life cycle, including first use before the background goroutine has run",
  "Most tests never close their trees and none counts goroutines; first use of an empty tree always comes long after creation and starts with an insert.",
  ["radix.go", "state.go"], [("done channel", "radix.go Close/blockAllocator"), ("hand-over of blocks by channel", "radix.go blockAllocator")], (), ["NewTree", "NewTreeFromState", "Close", "goroutine count"])

p("C25", "Diagnostics only observe",
  "Statistics, administration commands with any arguments and operation descriptions never crash, never change contents, counts or the started/stopped state of the tree, and the figures they give agree with the tree: configured allocators, block size, blocks in use and, once flushed, the number of keys.",
  ["inputs", "histories"], "every command with every argument list against every tree at rest",
  "The tests print one report of one command and check nothing about it.",
  ["admin.go", "stats.go", "update.go", "delete.go"], [("argument validation", "admin.go Admin/debugPrintNode"), ("atomic reads of counters", "stats.go Stats")], (), ["Admin", "Stats", "UpdateOperation.String", "DeleteOperation.String"])

p("C26", "A loaded tree can be changed without damaging what was loaded",
  "After loading a saved state, inserts, updates and deletes behave as they would have on the original tree: memory handed out afterwards never overlaps memory holding loaded keys, recycled memory recorded in the state is reused, and further save/load cycles interleaved with changes keep all of this true.",
  ["histories", "configurations"], "every sequence of changes, saves and loads",
  "No test loads a state.",
  ["state.go", "allocator.go", "radix.go", "epoch.go"], [("restoring allocator positions and recycling lists", "allocator.go loadState"), ("restoring the epoch and block numbering", "state.go loadState, radix.go blockAllocator")], (), ["NewTreeFromState", "all operations"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
