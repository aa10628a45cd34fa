PAR = dict(phase='par', procs=2)
FREE_RULE = ' Free running cases are sets of goroutines without control over the schedule, perturbed at the instrumentation points; distinct by what the goroutines observed.'
check('C01', 'runtime monitoring: reference-map oracle over generated histories', SEQ_RULE,
      'Every operation of each history is compared to a map; lookups of touched and of all keys after operations; the inspector looks for overlapping memory.', [SEQ])
check('C02', 'runtime monitoring: reference-map oracle with absent-key probes', SEQ_RULE,
      'Probes with absent keys, prefixes, extensions and variations of stored keys; contents digest before and after.', [SEQ])
check('C03', 'runtime monitoring: reference-map oracle over enumerated key lengths, split points and fan-outs', SEQ_RULE + ' Key lengths, split points and fan-outs are enumerated, distinct by what was observed.',
      'All shared prefix lengths around the word, inline and block limits, all split points of them, all fan-outs 2..256, with the map, order and shape oracles.', [SEQ])
check('C04', 'runtime monitoring: reference-map oracle over bit patterns of values', 'One case is a small tree with values from bit patterns (single bits, runs, boundaries, tag look-alikes), distinct by the values and what was observed.',
      'Values read through every interface and again after state round trips are compared bit for bit.', [SEQ])
check('C05', 'runtime monitoring: controlled schedules, porcupine linearizability checker', COOP_RULE + FREE_RULE,
      'Histories of real executions under chosen schedules are checked for linearizability per key, and against the final state, shape and locks.', [SEQ, PAR])
check('C06', 'runtime monitoring: conservation oracles on read-modify-write, controlled schedules and stress', COOP_RULE + FREE_RULE,
      'Sums, exactly-once claims and versions are conserved by prepare/finalize cycles.', [SEQ, PAR])
check('C07', 'runtime monitoring: poisoned memory on reuse, version oracle for readers, controlled schedules and stress', COOP_RULE + FREE_RULE,
      'Memory is overwritten when it is used again; readers stopped at every point may only see what was stored during their call.', [SEQ, PAR])
check('C08', 'runtime monitoring: Go race detector over mixed concurrent workloads', 'One case is a set of goroutines using one tree (or several) through different parts of the interface in a build with the race detector, distinct by what the goroutines observed.',
      'The race detector watches all memory accesses of goroutines that the harness does not synchronise.', [dict(phase='race', procs=3)])
check('C09', 'runtime monitoring: ordered-set oracle for iterations', SEQ_RULE, 'Iterations with many prefixes at rest points of histories compared to the sorted model.', [SEQ])
check('C10', 'runtime monitoring: online iteration monitor (lasting keys, order, provenance), controlled schedules and stress', SEQ_RULE + ' ' + COOP_RULE + FREE_RULE,
      'Keys stored throughout an iteration are returned exactly in order, everything returned was stored at some time since it began.', [SEQ, PAR])
check('C11', 'runtime monitoring: ordered-set oracle, controlled schedules', SEQ_RULE + ' ' + COOP_RULE, 'Minimum and maximum compared to the model at rest, and bounded by lasting keys in concurrent schedules.', [SEQ])
check('C12', 'runtime monitoring: conservation of counts', SEQ_RULE + ' ' + COOP_RULE + FREE_RULE, 'Len, Count and statistics compared to the model at rest after sequential, scheduled and free running histories.', [SEQ, PAR])
check('C13', 'runtime monitoring: stop-barrier trace monitor, controlled schedules and stress', COOP_RULE + FREE_RULE,
      'Events of operations are ordered against Stop and Start; instrumentation points reached by anyone while the tree is stopped are violations.', [SEQ, PAR])
check('C14', 'runtime monitoring: ownership monitor on allocators, controlled schedules and stress', SEQ_RULE + ' ' + COOP_RULE + FREE_RULE,
      'Ownership of each allocator is tracked by compare-and-swap; after every outcome of every operation all allocators can be reserved.', [SEQ, PAR])
check('C15', 'runtime monitoring: before/after digests around aborted operations', SEQ_RULE + ' ' + COOP_RULE, 'Digest of contents, order, counts, shape and locks before and after aborted operations; schedules with aborts.', [SEQ])
check('C16', 'runtime monitoring: differential oracle across state round trips', SEQ_RULE + FREE_RULE,
      'The loaded tree is compared to the saved one and the model through every reading interface and then changed further.', [SEQ, PAR])
check('C17', 'runtime monitoring: fault injection into readers and writers of the state', 'One execution is a load of a state that was cut, damaged or delivered strangely, or a save to a failing writer; distinct by contents and position of the fault.',
      'All cuts of small states and sampled cuts of others, readers with short reads and errors, writers failing at every call.', [SEQ])
check('C18', 'runtime monitoring: memory use monitor over cyclic workloads', 'One case is a cyclic workload: a history that returns to the same contents in each cycle, distinct by keys and operations.',
      'Blocks allocated and fresh memory used after a warm-up; extents in use twice or lost.', [SEQ])
check('C19', 'runtime monitoring: step and wait counters of readers beside stopped writers', COOP_RULE,
      'Readers run to their end while all writers are stopped at any point and never continue; any wait of a reader is a violation.', [SEQ])
check('C20', 'runtime monitoring: progress monitor (waits, restarts, locks at rest), controlled schedules and stress', COOP_RULE + FREE_RULE,
      'All schedules end; afterwards all locks, reservations and allocators are free and operations neither wait nor restart.', [SEQ, PAR])
check('C21', 'runtime monitoring: differential oracle across configurations and builds', SEQ_RULE + ' Histories are repeated with other configurations and in builds with other block sizes, and everything observed must be equal.',
      'The same history is executed with different numbers of allocators, interfaces and block sizes, and compared to the map.', [dict(phase='seq', tags=['', 'blocksize8', 'blocksize16'], procs=3)], compare=['builds'])
check('C22', 'runtime monitoring: interference monitor over interleaved trees, operations, iterators and buffers', SEQ_RULE,
      'Histories of several trees, operations and iterators are interleaved, buffers overwritten; each must behave as its own model.', [SEQ])
check('C23', 'runtime monitoring: shape oracle (minimal compressed tree)', SEQ_RULE + ' ' + COOP_RULE, 'All counter fields compared to the minimal tree of the stored keys.', [SEQ])
check('C24', 'runtime monitoring: goroutine accounting over tree life cycles', 'One case is a life cycle of trees (create, use, load, stop, close), distinct by its steps.' + FREE_RULE,
      'Goroutines of the tree are counted before and after; closed trees release everything.', [SEQ, PAR])
check('C25', 'runtime monitoring: before/after digests around diagnostics', SEQ_RULE, 'All diagnostics are called at rest points; contents, order, counts, shape and saved bytes are compared before and after, output compared to the model.', [SEQ])
check('C26', 'runtime monitoring: differential oracle over save/load/change cycles', SEQ_RULE, 'Loaded trees are changed and saved again many times with the map, order, count, shape and overlap oracles.', [SEQ])
