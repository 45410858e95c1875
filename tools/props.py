AI = 'path-sensitive abstract interpretation of the IR (affine forms + bounds), contract per path'
P_('Q01', 'Memory quota is never exceeded and never drifts',
   'The amount a quota reports as used never exceeds its limit, whatever concurrent takes, returns and limit changes happen. '
   'Every successful take or return changes the used amount by exactly the requested size rounded up to the accounting unit, the returned value is that rounded size, and a refused request changes nothing and is refused only if it would not have fitted.',
   ['schedules', 'inputs'], 'all request sizes 0..SIZE_MAX, all limits, any interleaving of callers',
   'Tests take small sizes from one quota with a handful of thread timings; wrap-around sizes and lost updates need specific interleavings.',
   ['include/small/quota.h'], [('compare-and-swap on one packed word', 'include/small/quota.h:quota_use'), ('release/set loops', 'include/small/quota.h:quota_release')],
   AI + '; every atomic transition checked under arbitrary interference', 'Memory order is taken as sequentially consistent.')
P_('Q02', 'A leased quota holds what its lessee uses and returns everything else',
   'The quota leased to a user never exceeds what was taken from the source, and the taken amount always equals the net amount charged to the source. '
   'A refused lease changes nothing and is refused only after the source refused; ending a lease gives back exactly the leased size, and closing the lessor returns all unused quota to the source.',
   ['inputs', 'fault_sequences', 'histories'], 'all lease sizes and source refusals',
   'Tests lease a few fixed sizes; the retry and hand-back arithmetic depends on the remaining amounts.',
   ['include/small/quota_lessor.h'], [('halving retry loop', 'include/small/quota_lessor.h:quota_lease'), ('spare hand-back', 'include/small/quota_lessor.h:quota_end_lease')],
   AI + '; source-charge ledger', 'Sizes below 2^46.')
P_('B01', 'Static buffer reservations stay inside the buffer and never overlap live data',
   'A reservation from the per-thread static buffer lies entirely inside the buffer, has the requested alignment, and a request that cannot fit (however large) is refused. '
   'Successive allocations follow one another until the buffer wraps, and a refused request leaves the buffer as it was.',
   ['inputs', 'histories'], 'all sizes, alignments and buffer positions',
   'Tests reserve small sizes; overflowing sizes and alignment at the end of the buffer are not sampled.',
   ['include/small/static.h', 'small/static.c'], [('wrap-around cursor', 'include/small/static.h:static_reserve')],
   AI, '')
P_('L01', 'Lock-free stack neither loses nor duplicates elements nor suffers ABA',
   'Every push links the new element in front of exactly the stack it replaces, and every pop detaches exactly the top element it returns, under any interleaving. '
   'The stamp that protects against reuse of a top element changes on every push and is large enough never to spill into the address, and emptiness is reported exactly when no element is stacked.',
   ['schedules', 'histories'], 'all interleavings of push and pop by any number of threads',
   'The stress test samples timings; ABA needs a specific preemption between reading the top and swapping it.',
   ['include/small/lf_lifo.h'], [('address plus reuse counter in one word', 'include/small/lf_lifo.h:aba_value'), ('compare-and-swap loops', 'include/small/lf_lifo.h:lf_lifo_push')],
   AI + '; every compare-and-swap compared with the value it was computed from', 'Stamp wrap-around (2^16 pushes during one preemption) is outside the guarantee.')
P_('A01', 'Slab arena accounts for every slab and gives all memory back',
   'Each new slab is charged to the quota and counted exactly once, cached slabs are reused before more memory is taken and stay charged, and a refused or failed request leaves quota, counter and mappings as they were. '
   'A slab taken from the preallocated range lies wholly inside it and is the range just reserved; destruction unmaps the preallocation and every slab outside it exactly once.',
   ['schedules', 'fault_sequences', 'histories'], 'all interleavings of map/unmap, all failures of the system allocator and of the quota',
   'Tests do not make mmap fail and map few slabs; leaks on failure and double unmaps are not observable in them.',
   ['small/slab_arena.c', 'include/small/slab_arena.h'], [('quota charge before growth', 'small/slab_arena.c:slab_map'), ('rollback on mmap failure', 'small/slab_arena.c:slab_map'), ('drain on destroy', 'small/slab_arena.c:slab_arena_destroy')],
   AI + '; paired-effect (quota / counter / mapping) ledger', '')
P_('A02', 'Arena mappings are aligned, exact, and of the requested kind',
   'Every slab and the preallocation are aligned by the slab size, the slab size is a power of two not below the request, and the preallocation is a whole number of slabs covering the request up to the quota. '
   'Whatever address the system chooses, all surplus address space mapped for alignment is unmapped, nothing else is, and private and shared arenas are mapped as such.',
   ['inputs', 'configurations', 'fault_sequences'], 'all slab sizes, preallocation sizes, quotas, system-chosen addresses and mmap failures',
   'The kernel usually returns aligned addresses, so the trimming path is hardly ever taken in tests.',
   ['small/slab_arena.c'], [('over-map and trim', 'small/slab_arena.c:mmap_checked'), ('rounding of sizes', 'small/slab_arena.c:slab_arena_create')],
   AI + '; region tiling of mapped against kept plus unmapped ranges', '')
P_('C01', 'Slab cache: buddies tile their slab and statistics match the slabs held',
   'An ordered slab handed out has the size and alignment of its order and, together with the free remainders, exactly tiles the slab it was cut from; a returned slab is merged with its free buddies as far as possible and only with them. '
   'At every moment the totals and used counters equal the slabs held, per order and overall, and a refused request changes nothing. '
   'Memory is taken from the arena only when no free slab fits and given back when a second whole slab becomes free.',
   ['histories', 'inputs', 'fault_sequences'], 'all orders and positions inside a slab, all states of the buddy slabs and free lists, all slab sizes, arena failures',
   'Tests compare counters after a few random sequences; the per-order ledger and merge conditions depend on the exact split state.',
   ['small/slab_cache.c', 'include/small/slab_cache.h', 'include/small/slab_list.h'],
   [('split', 'small/slab_cache.c:slab_split'), ('merge', 'small/slab_cache.c:slab_merge'), ('statistics', 'small/slab_cache.c:slab_set_used')],
   AI + '; trace partitioning over (orders, order, position); tiling and ledger obligations',
   'Exhaustive for caches of up to 5 orders (thorough: 7) with symbolic slab size, and selected positions of the deepest (16 orders).')
P_('C02', 'Slab requests of any size get a sufficient slab, as small as allowed',
   'A request is served by the smallest slab order that holds it together with the slab header, or by a dedicated block of exactly that size when no order does; sizes that overflow are refused. '
   'The size announced in advance is the size delivered, a returned slab takes the route it came by, and the set of orders derived from the arena is consistent for every slab size.',
   ['inputs', 'configurations'], 'all request sizes 0..SIZE_MAX, all arena slab sizes and page sizes',
   'Tests sample sizes; boundary and overflowing sizes across arena geometries are not covered.',
   ['small/slab_cache.c', 'include/small/slab_cache.h'], [('order by highest bit', 'include/small/slab_cache.h:slab_order'), ('geometry', 'small/slab_cache.c:slab_cache_create')],
   AI, '')
P_('C03', 'Large slabs are charged, counted and freed exactly once',
   'A large slab is charged to the quota, registered and counted with its full size, or, if memory or quota is refused, nothing changes. '
   'Returning it reverses exactly that, and destroying the cache returns every remaining slab once: large ones to the system and the quota, others to the arena.',
   ['fault_sequences', 'inputs', 'histories'], 'all sizes, malloc and quota failures, any set of slabs at destruction',
   'Tests do not fail malloc and do not look at the quota after destruction with slabs outstanding.',
   ['small/slab_cache.c'], [('charge and rollback', 'small/slab_cache.c:slab_get_large'), ('teardown', 'small/slab_cache.c:slab_cache_destroy')],
   AI + '; quota / list / heap ledger', '')
P_('M01', 'Memory pool objects never overlap; freed ones are reused before new memory',
   'An object handed out lies wholly inside a slab of the pool, past the slab header, is not in use, and is taken from the most recently freed objects first, then from untouched space, so that a freed object can be handed out again exactly once. '
   'Every slab with room is available for allocation and no full one is, an empty slab is given back except for one kept in reserve, memory is requested only when no slab has room, and the statistics count exactly the objects and slabs held. A failed allocation changes nothing.',
   ['histories', 'inputs', 'fault_sequences'], 'all object sizes and slab fill levels, all positions of the slab in the tree and staging list, slab failures',
   'Tests allocate and free in a few random orders; which slab bookkeeping branch runs depends on the exact fill state of several slabs.',
   ['small/mempool.c', 'include/small/mempool.h'],
   [('slab lifecycle on free', 'small/mempool.c:mslab_free'), ('slab choice', 'small/mempool.c:mempool_alloc'), ('object take', 'small/mempool.c:mslab_alloc')],
   AI + '; typestate of slabs (hot tree / cold list / full / spare)', 'Tree and list operations are replaced by contracts.')
P_('M02', 'A memory pool packs objects exactly and returns every slab',
   'A new pool holds nothing, records the requested object size and cache, and its slab layout holds at least one object, packs the objects against the end of the slab without overlapping the header, and wastes no room for a whole object. '
   'Destroying a pool returns every slab it holds, including the reserve, exactly once, and the reported statistics are those of the pool.',
   ['inputs', 'configurations', 'histories'], 'all object sizes and slab orders, any set of slabs at destruction',
   'Tests use a few object sizes and destroy mostly empty pools.',
   ['small/mempool.c', 'include/small/mempool.h'], [('slab layout', 'small/mempool.c:mempool_create_with_order'), ('teardown', 'small/mempool.c:mempool_destroy')],
   AI, '')
P_('S01', 'Small allocator: every object goes to a sufficient pool and back to it',
   'An allocation within the class sizes is served by one pool that is available to the class and whose objects are at least as large; anything larger gets its own slab of sufficient size, and freeing with the same size returns the object to the very pool or slab it came from, before and after pools are activated or closed. '
   'The wasted bytes of a class equal the excess of the objects it has outstanding in other pools, a class gets its own pool only when it wastes too much, a pool is closed only when empty and memory is short, and out of memory is reported only after unused pools gave up their memory and the available pool refused again.',
   ['histories', 'inputs', 'fault_sequences'], 'all sizes, any waste counters, any pattern of available pools in a group, all outcomes of pool allocation',
   'Tests never run out of memory at the point where pools are being activated or closed, and do not check the waste accounting.',
   ['small/small.c', 'include/small/small.h'], [('activation', 'small/small.c:small_mempool_activate'), ('closing of sparse pools', 'small/small.c:small_mempool_deactivate'), ('pool choice', 'small/small.c:small_mempool_search')],
   AI + '; trace partitioning over groups and masks of available pools', 'Exhaustive over availability patterns of groups of up to 4 pools (thorough: more) plus edge patterns of the largest group.')
P_('S02', 'Small allocator pools partition the size classes and account completely',
   'After creation there is one pool per size class and no more, each class allocates from the smallest available pool of its group that fits, only the largest pool of each group is available at first, and the largest class holds the largest pooled size. '
   'Destruction destroys every pool once, and statistics visit every pool exactly once and add up.',
   ['configurations', 'inputs'], 'all allocation factors and granularities by way of every sequence of slab orders and class sizes they can yield; destruction in any state',
   'Tests create the allocator with a few factors.',
   ['small/small.c', 'include/small/small.h'], [('pool and group construction', 'small/small.c:small_alloc_create'), ('statistics iterator', 'small/small.c:mempool_iterator_next')],
   AI + '; loops followed path by path over patterns of slab orders', 'Patterns of up to a bounded number of pools; a pool in excess of the array is reported.')
P_('S03', 'Size classes: lookup by size and by index are inverse and monotone',
   'The class found for a size holds objects of at least that size while the next smaller class would not, class sizes are multiples of the granularity and grow strictly with the index, and the smallest class is the configured smallest allocation.',
   ['inputs', 'configurations'], 'all sizes up to 2^31, granularities and numbers of steps per doubling',
   'Tests walk a few configurations; errors sit at the boundaries between doublings.',
   ['include/small/small_class.h', 'small/small_class.c'], [('size to class', 'include/small/small_class.h:small_class_calc_offset_by_size'), ('class to size', 'include/small/small_class.h:small_class_calc_size_by_offset'), ('parameters', 'small/small_class.c:small_class_create')],
   AI + '; both maps are affine per step of a doubling, decided piece by piece', 'Quick: 20 configurations, thorough: 143; the floating-point choice of the number of steps is not covered.')
P_('R01', 'Region allocations are contiguous, inside their block and counted exactly',
   'A reservation or allocation lies inside the newest block directly after live data (with at most the alignment gap), honours the alignment, and never overlaps earlier data; sizes that overflow are refused. '
   'The usage of region and block grows by exactly the bytes and gap taken, the allocation callback is told exactly that, a reservation alone counts nothing, and a refused request changes nothing and is refused only when memory is.',
   ['inputs', 'histories', 'fault_sequences'], 'all sizes and alignments, any list of blocks and fill levels, slab failures',
   'Tests use small sizes and never fail; sizes above 4 GB and failure inside the callback interface are not covered.',
   ['include/small/region.h', 'small/region.c'], [('fast path', 'include/small/region.h:region_aligned_reserve'), ('new block', 'small/region.c:region_reserve_slow'), ('commit', 'include/small/region.h:region_alloc')],
   AI + '; usage ledger and containment', '')
P_('R02', 'Truncating a region frees exactly the data above the mark',
   'After truncation the region holds exactly the bytes up to the mark: blocks are removed only if they hold only data above it, each is unregistered and returned once, and the last block loses exactly what remained. '
   'Freeing returns every block, resetting empties every block and keeps them, and a truncation is announced once with the mark.',
   ['histories', 'inputs'], 'all lists of blocks with any fill levels (including empty blocks), all marks',
   'Tests truncate a few layouts; the mark falling on a block boundary or behind empty blocks is rarely sampled.',
   ['small/region.c', 'include/small/region.h'], [('walk from newest block', 'small/region.c:region_truncate'), ('free', 'small/region.c:region_free'), ('reset', 'include/small/region.h:region_reset')],
   AI + '; loop invariant between removed data and remaining mark', '')
P_('R03', 'Joining a region copies the last bytes in order without loss',
   'Joining the last bytes of a region yields them contiguous and in their original order: in place when they already are, otherwise in a fresh chunk that the copies of the blocks, newest first, fill exactly from its end to its start. '
   'A failed join changes nothing.',
   ['inputs', 'histories', 'fault_sequences'], 'all joined sizes, any list of blocks with any fill levels',
   'Tests join a few layouts.',
   ['small/region.c'], [('backward copy', 'small/region.c:region_join')],
   AI + '; tiling of the copies through the loop invariant', '')
P_('G01', 'Log region allocations are inside their slab, ordered and counted exactly',
   'A reservation or allocation lies inside the newest slab after all live data with at most the alignment gap, honours the alignment, and is refused only when memory is; sizes that overflow are refused. '
   'Usage grows by exactly the bytes and gap taken, the slab records the id last allocated, slab ids grow along the list also when the spare slab is reused, large slabs are charged to the quota, and a reservation or refused request counts nothing.',
   ['inputs', 'histories', 'fault_sequences'], 'all sizes, alignments and ids, any fill level of the newest slab, with and without a spare slab, failures of arena, quota and heap',
   'Tests use small sizes and never fail; sizes near SIZE_MAX and reuse of the spare slab between exports are not sampled.',
   ['include/small/lsregion.h', 'small/lsregion.c'],
   [('fast path', 'include/small/lsregion.h:lsregion_aligned_reserve'), ('new slab or spare slab', 'small/lsregion.c:lsregion_aligned_reserve_slow'), ('commit', 'include/small/lsregion.h:lsregion_aligned_alloc')],
   AI + '; usage ledger and containment', '')
P_('G02', 'Log region collection frees exactly the slabs at or below the given id',
   'Collection removes slabs from the oldest on, only those whose last allocation has an id not above the given one, and stops only at the first slab above it or when none is left. '
   'Each removed slab is unlinked once and either returned once by the way it was obtained, or kept as the single empty spare slab; usage and total shrink by exactly what was removed. Destruction returns every slab and the spare slab.',
   ['histories', 'inputs'], 'all lists of slabs with any ids, sizes and fill levels, all ids, with and without a spare slab',
   'Tests collect in a few layouts of ordinary and large slabs.',
   ['include/small/lsregion.h', 'small/lsregion.c'],
   [('walk from the oldest slab', 'include/small/lsregion.h:lsregion_gc'), ('teardown', 'include/small/lsregion.h:lsregion_destroy')],
   AI + '; loop ledger and typestate of each slab', '')
P_('G03', 'Log region export yields every unseen byte once and in order',
   'Exporting to an iovec array emits, from the oldest slab on, exactly the bytes not covered by the savepoint, never more blocks than there is room for, and skips only slabs without unseen data. '
   'The savepoint then covers exactly what was emitted, and the number of blocks and the id of the last one are returned.',
   ['histories', 'inputs'], 'all lists of slabs with any ids and fill levels, all savepoints, all vector sizes',
   'Tests export after a few allocation patterns; interleavings with collection and reuse of the spare slab are rare.',
   ['small/lsregion.c'], [('export loop', 'small/lsregion.c:lsregion_to_iovec')],
   AI + '; each iteration compared with the savepoint it started from', '')
P_('I01', 'Input buffer keeps unread data and grants real room when it grows or shrinks',
   'Memory granted by a reservation or allocation follows the unread data and lies inside the buffer for the whole requested size; sizes that overflow are refused. '
   'Whenever the buffer is compacted, enlarged or shrunk, exactly the unread bytes are at the new read position, the old memory is returned once and only after the copy, and the buffer spans its slab; a refused request changes nothing, the search for a capacity ends, and memory is requested only when the buffer is too small.',
   ['inputs', 'histories', 'fault_sequences'], 'all sizes, start capacities and buffer positions, with and without memory held, slab cache failures',
   'Tests use small sizes and never fail; overflowing sizes and overlapping compaction are not sampled.',
   ['include/small/ibuf.h', 'small/ibuf.c'],
   [('compaction or growth', 'small/ibuf.c:ibuf_reserve_slow'), ('shrink', 'small/ibuf.c:ibuf_shrink'), ('fast path', 'include/small/ibuf.h:ibuf_alloc')],
   AI + '; data movement matched against the unread range', 'Sizes held up to 2^46; start capacity positive.')
P_('I02', 'Input buffer positions move exactly as promised and memory is returned once',
   'Consuming, discarding, truncating and resetting move exactly the promised position by the promised amount and leave the memory alone. '
   'Creation and re-initialisation yield an empty buffer with the configured cache and capacity, and destruction or re-initialisation returns the memory exactly once.',
   ['inputs', 'histories'], 'all buffer positions and amounts, with and without memory held',
   'Tests check a few sequences; memory returned twice or not at all on re-initialisation is not observable there.',
   ['include/small/ibuf.h', 'small/ibuf.c'],
   [('positions', 'include/small/ibuf.h:ibuf_consume'), ('lifecycle', 'small/ibuf.c:ibuf_reinit')], AI, '')
P_('O01', 'Output buffer grants real room and keeps appended data where it is',
   'A reservation or allocation lies behind the data of the current vector, inside its memory; earlier vectors are untouched and only empty vectors get new memory, each owning one slab. '
   'The size and vector lengths grow by exactly the bytes allocated, an empty vector always follows the allocated ones, sizes that overflow are refused, and a request is refused only when memory or vectors run out and then loses no data.',
   ['inputs', 'histories', 'fault_sequences'], 'all sizes, every position of the current vector with any number of allocated vectors behind it, all fill levels, slab cache failures',
   'Tests never run out of memory or vectors and use small sizes; reuse of vectors left over by a rollback depends on their sizes.',
   ['include/small/obuf.h', 'small/obuf.c'],
   [('slow path', 'small/obuf.c:obuf_reserve_slow'), ('new vector', 'small/obuf.c:obuf_alloc_pos'), ('fast path', 'include/small/obuf.h:obuf_alloc')],
   AI + '; trace partitioning over (position, allocated vectors)', 'Quick: the first and last positions, thorough: all.')
P_('O02', 'Appending a copy to an output buffer neither loses nor reorders bytes',
   'The bytes are copied in order and without gaps into the free room of the current and following vectors; each vector and the size count exactly what was copied, and the number of bytes appended is returned. '
   'Fewer bytes than asked are appended only when memory or vectors run out, and then exactly those reported.',
   ['inputs', 'histories', 'fault_sequences'], 'all sizes, every position with up to three allocated vectors, all fill levels, slab cache failures',
   'Tests append small pieces; splitting over several preallocated vectors and failure in the middle are rare.',
   ['small/obuf.c'], [('copy loop', 'small/obuf.c:obuf_dup')],
   AI + '; tiling of the copies, loop followed path by path', '')
P_('O03', 'Rolling back an output buffer restores exactly the savepoint',
   'A savepoint records the end of the data; after a rollback the size and every vector are as they were at the savepoint, vectors behind it are empty, and all memory is kept for reuse. '
   'Reset empties every vector, the exported vectors are exactly those with data, and destruction returns the slab of every vector exactly once.',
   ['histories', 'inputs'], 'every pair of savepoint position and current position, all fill levels',
   'Tests roll back a few positions; a savepoint at a vector boundary or in an empty vector is rarely sampled.',
   ['include/small/obuf.h', 'small/obuf.c'],
   [('rollback', 'small/obuf.c:obuf_rollback_to_svp'), ('reset', 'small/obuf.c:obuf_reset'), ('export', 'include/small/obuf.h:obuf_iovcnt')],
   AI + '; trace partitioning over pairs of positions', '')
P_('T01', 'Matras identifiers are consecutive and translate to one stable address',
   'Each block granted gets the next identifier, the identifier translates to exactly the address returned and stays there as long as the block is not touched, and no more blocks are granted than identifiers exist. '
   'The split of an identifier into levels keeps every index inside its extent for every extent and block size; a refused block changes nothing, leaks no extent and is refused only without memory or identifiers, and extents are counted.',
   ['inputs', 'histories', 'fault_sequences'], 'all powers of two as extent and block size, all block counts, allocator failure at each level',
   'Tests use two geometries and small counts; the boundaries of the levels and failures between them are not sampled.',
   ['include/small/matras.h', 'small/matras.c'],
   [('levels', 'small/matras.c:matras_create'), ('growth', 'small/matras.c:matras_alloc'), ('growth by ranges', 'small/matras.c:matras_alloc_range'), ('translation', 'include/small/matras.h:matras_get')],
   AI + '; trace partitioning over geometries', 'Quick: nine geometries (creation: all sizes), thorough: all extents 2^4..2^30.')
P_('T02', 'Matras copy-on-write keeps read views apart from the changing head',
   'Touching, granting or giving back a block never changes what a read view sees: a slot is written only behind the blocks of the views, in an extent private to the head or in a complete copy installed in its place, so every view keeps the addresses and contents it had. '
   'Touching returns the block as the head now sees it and keeps its contents; failure to copy leaves the views and the head intact, and giving back the last block frees exactly the extents only it used.',
   ['histories', 'inputs', 'fault_sequences'], 'all block counts of head and newest view, all sharing patterns per level, allocator failure at each copy',
   'Tests compare contents for random histories of one geometry and never fail a copy.',
   ['include/small/matras.h', 'small/matras.c'],
   [('copy of the path', 'small/matras.c:matras_touch'), ('return of blocks', 'small/matras.c:matras_dealloc'), ('preallocated copies', 'small/matras.c:matras_touch_reserve')],
   AI + '; provenance of each written slot', 'Sharing between head and view is by whole extents (matras invariant). A failed copy on return of a block is a known finding.')
P_('T03', 'Matras frees each extent exactly once, when no view needs it any more',
   'Creating a view captures the head as it was and links it; destroying a view frees exactly the extents that neither its newer nor its older neighbour shares, considers every extent it owns, and leaves the other views untouched and linked. '
   'Destruction and reset free every view and every extent, the walk always ends, and the extent counters follow each release.',
   ['histories', 'inputs'], 'all block counts of the view and both neighbours, all sharing patterns, any number of extents',
   'Tests count extents at the end of a few histories; a neighbour that is shorter, longer or shares a level by chance is rare.',
   ['include/small/matras.h', 'small/matras.c'],
   [('release of a view', 'small/matras.c:matras_destroy_read_view'), ('release of all', 'small/matras.c:matras_destroy'), ('capture', 'small/matras.c:matras_create_read_view')],
   AI + '; ownership decided per loop iteration against both neighbours', 'Per geometry: quick four, thorough nine.')
P_('E01', 'Intrusive lists keep every element once and in order',
   'Adding, removing, moving, shifting, swapping, joining and cutting lists changes exactly the links of the elements named: afterwards every list is a ring in both directions that holds the expected elements in the expected order, and removed elements are linked to themselves. '
   'Iteration, forward or backward, visits every element once and in order, also while visited elements are removed; emptiness, neighbours and ends are reported exactly, counted slab lists total their elements, and the stack returns elements last in, first out.',
   ['inputs', 'histories'], 'every list length and every position of the named elements, coinciding neighbours included',
   'Tests use one list of a dozen elements; empty lists, single elements and adjacent or coinciding neighbours are where links get lost.',
   ['include/small/rlist.h', 'include/small/lifo.h', 'include/small/slab_list.h'],
   [('ring links', 'include/small/rlist.h:rlist_add'), ('exchange and joining', 'include/small/rlist.h:rlist_swap'), ('safe iteration', 'include/small/rlist.h:rlist_foreach_entry_safe'), ('counted list', 'include/small/slab_list.h:slab_list_add')],
   AI + '; symbolic rings, the macros through an instantiation of their own', 'Rings of up to four nodes: the operations follow links at most one step from the nodes given.')
P_('D01', 'Red-black tree keeps every element once, in order, and balanced',
   'Inserting an element puts it where the comparison wants it, removing an element takes out that one and no other, and every other element stays in the tree once and in order; a new tree is empty. '
   'After each of these the tree is balanced: no red element below a red one or to the right, the same number of black elements on every way down, and a black root.',
   ['inputs', 'histories'], 'all trees up to black height 4, all positions, all answers of the comparison',
   'Tests insert and remove in a few fixed or random orders; a fix-up of removal needs one colouring three levels deep, and a wrong one often keeps the order for a while.',
   ['include/small/rb.h'],
   [('insertion and its fix-up', 'include/small/rb.h:rb_gen_ext_key_aug'), ('rotation', 'include/small/rb.h:rbtn_rotate_left'), ('colours in the right link', 'include/small/rb.h:rbtn_right_set')],
   AI + '; trees materialised lazily, the macros through an instantiation of their own', 'Black height bounded (4): the fix-ups look three levels far. Colour in the right link and in a field of its own, with and without the tree passed to the comparison.')
P_('D02', 'Red-black tree searches and iterators follow the order exactly',
   'A search returns an element that matches, or the last or first match, or the neighbour the function is named for, and nothing when there is none; first, last, next and previous are the neighbours in the order, and emptiness is exact. '
   'Iterators, traversals with a callback and walks visit every element they should once and in order, forward, backward and when they turn, and end; none of them changes the tree, and the way down the highest possible tree fits their memory.',
   ['inputs', 'histories'], 'all trees up to black height 3 (thorough 4), all keys, runs of equal keys, all starting points',
   'Tests search a few keys in trees of some hundred elements; runs of equal keys across subtrees, iterators that turn and trees of great height are not sampled.',
   ['include/small/rb.h'],
   [('search', 'include/small/rb.h:rb_gen_ext_key_aug'), ('way of an iterator', 'include/small/rb.h:rbtn_iter_go_left_down'), ('height of the way', 'include/small/rb.h:RB_MAX_TREE_HEIGHT')],
   AI + '; results compared with the order of a lazily materialised tree', 'Capacity of the paths by their growth per black level.')
P_('D03', 'Augmented tree data is recomputed wherever the elements below changed',
   'After inserting or removing an element, the data of every element of the tree was last computed, by the callback, from exactly the elements now below it, children before parents, with the children it then had; the callback sees only elements of the tree.',
   ['inputs', 'histories'], 'all trees up to black height 4, all positions',
   'Tests compare one sum for a few hundred random operations; a missing recomputation in one of some twenty fix-ups shows only if that fix-up is the last to touch the element.',
   ['include/small/rb.h'],
   [('recomputation of one element', 'include/small/rb.h:rbtn_augment'), ('recomputation up to the root', 'include/small/rb.h:rbtn_augment_propagate')],
   AI + '; ghost sets of elements per node', 'Black height bounded (4).')
P_('U01', 'Rounding helpers are exact and feature tests truthful',
   'Rounding up or down yields the nearest multiple of the alignment, rounding to a power of two the nearest one not below, and the logarithm that of the highest bit, for every size and alignment; the page size is that of the system. '
   'A feature is reported exactly when it is known, compiled in and its probe succeeded, an unknown feature of any number is refused, and the probe leaves no mapping behind.',
   ['inputs', 'fault_sequences'], 'all sizes, all powers of two as alignment, all feature numbers, failure of each system call of the probe',
   'Tests sample a few sizes and one feature and never fail a system call.',
   ['include/small/util.h', 'small/small_features.c'],
   [('rounding', 'include/small/util.h:small_align'), ('rounding to a power of two', 'include/small/util.h:small_round'), ('probe', 'small/small_features.c:test_dontdump')],
   AI, 'Alignments enumerated (2^0..2^63), sizes symbolic per power-of-two interval.')
P_('K01', 'Checked allocations isolate their payload from bookkeeping and report misuse',
   'In the memory-checking build the payload of every allocation lies inside its own heap block with the requested alignment and size, apart from the bookkeeping header and bounded by poisoned bytes; the header is found again from the payload, sizes that overflow are refused, and a failed allocation changes nothing. '
   'Freeing returns exactly that heap block once, and freeing with a damaged header is reported, while a legal free never is.',
   ['inputs', 'histories', 'fault_sequences'], 'all payload sizes, alignments and header sizes, failure of the heap',
   'Tests of the memory-checking build use small sizes and provoke a few misuses; overflowing sizes and odd alignments are not sampled.',
   ['small/util.c', 'include/small/util.h'],
   [('layout of a checked allocation', 'small/util.c:small_asan_alloc'), ('release and damage check', 'small/util.c:small_asan_free')],
   AI + '; layout obligations over symbolic size, alignment and header', 'The checks of the layers above also run over their memory-checking variants (small/*_asan.c).')
P_('N01', 'Threads with their own objects share only arena and quota, and those safely',
   'The library keeps no writable process-wide variable other than per-thread ones and ones changed only by atomic operations, and calls no function that is unsafe for threads, so separate objects may be used by separate threads at once. '
   'An arena or quota that threads share is, between creation and destruction, changed by atomic operations only. '
   'Looking up a block through a read view writes nothing and reads only the view, its extents and geometry fixed at creation, so another thread may do it while the head is changed.',
   ['schedules', 'programs'], 'every function of the library and every write in it, any number of threads',
   'The tests use at most a few threads on one arena and one quota; a variable shared by accident or a lost update shows only under particular timing.',
   ['include/small/quota.h', 'small/slab_arena.c', 'include/small/matras.h', 'small/matras.c', 'small/static.c', 'small/util.c'],
   [('counters of the arena', 'small/slab_arena.c:slab_map'), ('packed quota word', 'include/small/quota.h:quota_use'), ('reading through a view', 'include/small/matras.h:matras_view_get'), ('per-thread statistics', 'small/matras.c:matras_create')],
   'escape and write-effect analysis of globals and shared structures over the whole IR (address flow through calls, call graph for creation code), abstract interpretation of the view lookup',
   'A variable guarded by a lock would be reported as well: the library uses none.')
P_('P01', 'Wasted memory of the small allocator is bounded by the allocation factor',
   'The size class chosen for a request is larger than the request by at most the factor the allocator reports as effective, for every factor and granularity.',
   ['inputs', 'configurations'], 'all factors, granularities and sizes',
   'Tests print the waste for a few factors.',
   ['small/small_class.c'], [('factor of the classes', 'small/small_class.c:small_class_create')],
   'none', '', na='The reported factor is computed with powf and logf; a bound over all factors needs an error analysis of library floating-point functions, which the integer domains used here cannot express. The integer part (order, monotonicity, inverse lookups, class holding the request) is decided by S03.')
P_('W01', 'Lock-free stack and quota stay correct on weakly ordered processors',
   'Every history of concurrent pushes, pops and quota changes is equivalent to one in which they happen one after another, on every memory model the compiler supports.',
   ['schedules'], 'all interleavings and reorderings allowed by the memory model',
   'Tests run on one strongly ordered processor.',
   ['include/small/lf_lifo.h', 'include/small/quota.h'], [('compare-and-swap loops', 'include/small/lf_lifo.h:lf_lifo_pop')],
   'none', '', na='Reorderings of plain and atomic accesses quantify over executions of a weak memory model; this is decided by model checking, not by the static domains used here. All interleavings under sequential consistency are decided by Q01, L01 and A01, absence of non-atomic shared writes by N01.')
