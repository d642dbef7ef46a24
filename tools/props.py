import json
P=[]
def p(id,title,st,over,qt,why,files,mech,state=None,obs=None):
    a={'files':files,'mechanism':[{'name':n,'where':w} for n,w in mech]}
    if state: a['state']=[{'name':n,'meaning':m} for n,m in state]
    if obs: a['observe_at']=obs
    a['hook_needed']=None
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=qt),why_tests_cant=why,anchors=a))
C='libconcurrent/concurrent/'; I='libconcurrent/includes/'; M='libconcurrent/primitives/'
LW='The tests run each benchmark a few times and look only at operation counters printed in debug builds; they never look at a returned value and reach whatever interleavings the machine happens to produce.'
p('C01','Blocking combining objects apply every request exactly once, atomically',
 'For every object built with a blocking combining technique (CC-Synch, DSM-Synch, H-Synch, Osci, flat combining, Oyama), each request announced by any thread or fiber returns, and the sequential function has been executed for it exactly once, with the argument and the identifier of the requesting thread, between the call and the return. No two executions of the sequential function overlap, and the value returned to a caller is the value its own execution returned. The order of executions respects real time, so the history is linearizable.',
 ['schedules','inputs','configurations','histories'],'all interleavings of any number of threads and fibers, all arguments, all NUMA cluster settings',LW,
 [C+f for f in('ccsynch.c','dsmsynch.c','hsynch.c','osci.c','fc.c','oyama.c')],
 [('announcement list and hand-over of the combiner role',C+'ccsynch.c CCSynchApplyOp, '+C+'dsmsynch.c DSMSynchApplyOp'),('clusters and central lock',C+'hsynch.c HSynchApplyOp'),('fibers of one processor share an announcement',C+'osci.c OsciApplyOp'),('publication list scan',C+'fc.c FCApplyOp'),('lock with a list of waiting operations',C+'oyama.c OyamaApplyOp')],
 [('protected sequential state','only the current combiner may touch it')],['arguments and results of every operation','entry and exit of the sequential function'])
p('C02','Wait-free and lock-free universal objects are linearizable',
 'For objects built with the wait-free Sim universal construction or the simple lock-free construction, every operation takes effect exactly once at some instant between its call and its return, and returns what the sequential function gives at that instant. This holds although several threads may execute the same announced operation on private copies at once. Every call returns.',
 ['schedules','inputs','histories'],'all interleavings of any number of threads, including a thread that is delayed for arbitrarily long inside an operation',LW,
 [C+'sim.c',I+'sim.h',C+'lfuobject.c',I+'lfuobject.h'],
 [('announce, toggle, copy, apply, CAS',C+'sim.c SimApplyOp'),('pool of state copies with sequence numbers',C+'sim.c'),('load, apply, CAS',C+'lfuobject.c LFUObjectApplyOp')],
 [('toggles versus applied toggles','which announced operations the current state contains')],['arguments and results of every operation'])
p('C03','Blocking queues are linearizable FIFO queues',
 'Every history of enqueues and dequeues on the blocking queues (CC, DSM, H, Osci and FC queue) is explained by one sequential FIFO queue that respects the real-time order of non-overlapping calls: no element is lost, duplicated or invented, elements leave in the order they entered, and a dequeue reports "empty" only at an instant at which the queue is empty. Enqueuers and dequeuers that run concurrently with each other keep this guarantee. Every call returns.',
 ['schedules','inputs','histories','configurations'],'all interleavings of enqueuers and dequeuers (threads and fibers), all element values other than the documented reserved ones, queues empty and non-empty',LW,
 [C+f for f in('ccqueue.c','dsmqueue.c','hqueue.c','osciqueue.c','fcqueue.c')],
 [('two combining objects, one for each end',C+'ccqueue.c and siblings'),('shared list between the two ends, guard node',C+'*queue.c serialEnqueue/serialDequeue'),('recycling of dequeued nodes',I+'pool.h, '+C+'*queue.c')],
 [('list of nodes','from the guard node to the last node')],['arguments and results of every operation, drained content at quiescence'])
p('C04','Non-blocking queues are linearizable FIFO queues',
 'Every history of enqueues and dequeues on the non-blocking queues (SimQueue, MS-Queue, LCRQ) is explained by one sequential FIFO queue that respects the real-time order of non-overlapping calls: nothing is lost, duplicated, reordered or invented, and "empty" is reported only when the queue is empty at some instant of the call. Every call returns.',
 ['schedules','inputs','histories'],'all interleavings of any number of threads, all values other than the documented reserved ones, all ring wrap-arounds and ring closings',LW,
 [C+'simqueue.c',C+'msqueue.c',C+'lcrq.c'],
 [('two Sim instances linked by a delayed link',C+'simqueue.c'),('re-reading of head and tail, helping the tail',C+'msqueue.c'),('ring cells with index, safe bit and 128-bit CAS; closing of rings',C+'lcrq.c')],
 [('cell index and safe bit','which lap a cell belongs to')],['arguments and results of every operation, drained content at quiescence'])
p('C05','Blocking stacks are linearizable LIFO stacks',
 'Every history of pushes and pops on the blocking stacks (CC, DSM, H, Osci and FC stack) is explained by one sequential LIFO stack that respects the real-time order of non-overlapping calls: no element is lost, duplicated or invented, and "empty" is reported only when the stack is empty at some instant of the call. Every call returns.',
 ['schedules','inputs','histories','configurations'],'all interleavings of threads and fibers, all element values other than the documented reserved ones',LW,
 [C+f for f in('ccstack.c','dsmstack.c','hstack.c','oscistack.c','fcstack.c')],
 [('serial push and pop executed by the combiner',C+'*stack.c serialPushPop'),('recycling of popped nodes',C+'*stack.c, '+M+'pool.c')],
 [('linked list of nodes','top of the stack')],['arguments and results of every operation, drained content at quiescence'])
p('C06','Non-blocking stacks are linearizable LIFO stacks',
 'Every history of pushes and pops on the non-blocking stacks (SimStack and the lock-free Treiber stack) is explained by one sequential LIFO stack that respects the real-time order of non-overlapping calls: nothing is lost, duplicated or invented, and "empty" is reported only when the stack is empty at some instant of the call. Reuse of the memory of removed nodes never changes a result. Every call returns.',
 ['schedules','inputs','histories'],'all interleavings of any number of threads including long delays inside an operation, all element values other than the documented reserved ones',LW,
 [C+'simstack.c',C+'lfstack.c'],
 [('toggles, private state copy, CAS on a stamped pointer, rollback of the pool',C+'simstack.c SimStackApplyOp'),('CAS on the top pointer',C+'lfstack.c')],
 [('stamped state pointer','current state copy and its sequence number')],['arguments and results of every operation, drained content at quiescence'])
p('C07','Hash tables behave as linearizable maps',
 'For each key, every history of insert, search and delete calls on the two hash tables (CLH-Hash and DSM-Hash) is explained by one sequential order that respects real time: an inserted key is found until it is deleted, a key that is not present is not found, and a delete removes the given key and nothing else. Operations on different keys do not disturb each other, whether or not the keys fall into the same cell, and keys may be any value including negative ones. Every call returns.',
 ['schedules','inputs','histories'],'all interleavings of threads (and fibers), all keys, all numbers of cells',LW,
 [I+'clhhash.h',I+'dsmhash.h'],
 [('lock per cell around a list of pairs',I+'clhhash.h'),('combining object per cell',I+'dsmhash.h')],
 [('list of pairs of a cell','content of the map')],['arguments and results of every operation, content at quiescence'])
p('C08','Queue locks give mutual exclusion and serve waiters in arrival order',
 'At most one thread is between the return of lock and the matching unlock of the same CLH or MCS lock, and what one holder wrote is seen by the next. Every lock call returns provided the holders unlock. A thread that has been waiting in its lock call before another one calls lock enters first.',
 ['schedules','configurations'],'all interleavings of any number of threads that lock and unlock repeatedly',LW+' No test observes who holds a lock.',
 [C+'clh.c',C+'mcs.c',I+'clh.h',I+'mcs.h'],
 [('implicit queue of nodes, predecessor node reused',C+'clh.c'),('explicit queue, hand-over to the successor',C+'mcs.c')],
 [('queue of nodes','arrival order')],['entry and exit of critical sections, time of arrival'])
p('C09','A delayed thread never blocks the others on non-blocking objects',
 'On the non-blocking objects (Sim, SimQueue, SimStack, LCRQ, MS-Queue, the lock-free stack and the lock-free universal object), if a thread is suspended at any point inside an operation for any length of time, the operations of the other threads still complete and remain correct. On the wait-free objects (Sim, SimQueue, SimStack) every operation completes within a number of its own steps that depends only on the number of threads, however the others are scheduled.',
 ['schedules','fault_sequences'],'all points at which a thread may stop (forever or for long), all schedules of the others','The tests never stop a thread inside an operation.',
 [C+'sim.c',C+'simqueue.c',C+'simstack.c',C+'lcrq.c',C+'msqueue.c',C+'lfstack.c',C+'lfuobject.c'],
 [('helping through announced operations',C+'sim.c, simqueue.c, simstack.c'),('any thread advances tail or closes a ring',C+'msqueue.c, lcrq.c')],None,['completion of operations while a thread is suspended; own steps of each operation'])
p('C10','Blocking objects make progress under every fair schedule',
 'Every operation on the blocking objects and locks returns as long as all threads keep being scheduled: there is no lost wake-up, deadlock or livelock, also when there are more threads than cores, when one processor runs several fibers, and when some thread is scheduled rarely. The last operation of a run completes even though no further operation is started.',
 ['schedules','configurations'],'all fair schedules, numbers of threads and fibers above and below the number of cores','The tests run for seconds on whatever schedule occurs; a lost wake-up needs one particular interleaving.',
 [C+f for f in('ccsynch.c','dsmsynch.c','hsynch.c','osci.c','fc.c','oyama.c','clh.c','mcs.c')]+[M+'primitives.c'],
 [('hand-over of the combiner role at the end of a batch','combiner loops'),('spinning with yielding when oversubscribed',M+'primitives.c synchResched'),('release of parked requests','osci, fc, oyama')],None,['completion of all operations within a bound of scheduled steps'])
p('C11','No memory error or undefined behaviour in any operation',
 'No operation of the library reads or writes outside the memory it allocated or was given, uses freed memory, frees what it did not allocate, jumps into unmapped memory, or has undefined arithmetic, for any number of threads, fibers, NUMA clusters and cells it accepts. This includes initialization, thread start and join, placement, pools, random numbers and argument parsing.',
 ['schedules','inputs','configurations'],'all interleavings and parameters (thread counts, fibers per thread, clusters, cells, values)','The tests run without sanitizers, on one machine shape, with a few thread counts.',
 ['libconcurrent'],
 [('arrays indexed by thread, fiber or cluster',C+'*.c'),('fiber stacks',M+'uthreads.c'),('blocks of the pool',M+'pool.c')],None,['every memory access and arithmetic operation of the library'])
p('C12','Memory footprint stays bounded when removals match insertions',
 'For the stacks and queues for which the documentation promises memory reclamation, memory taken from the system does not keep growing with the number of operations when every thread removes as many elements as it inserts. Stopped threads and fibers give back their stacks, destroying a pool gives back all of its blocks, and memory obtained from the allocation functions can be given back with the matching release function.',
 ['histories','schedules','configurations'],'all histories in which every thread matches insertions with removals; any number of thread groups and pools','The tests never look at memory consumption.',
 [M+'pool.c',I+'pool.h',M+'primitives.c',M+'uthreads.c',C+'*queue.c',C+'*stack.c'],
 [('recycling of removed nodes into the pool of a thread',M+'pool.c synchRecycleObj and its callers'),('release of stacks of finished fibers',M+'uthreads.c')],None,['allocated and touched memory over the length of a run'])
p('C13','Pool objects are disjoint, aligned, stable and reusable',
 'Objects obtained from a pool and not yet returned never overlap each other, have at least the requested size and lie at addresses suitable for their size, and their content is never changed by the pool. A returned object may be handed out again, at most once per return; a pool serves any number of objects. Undoing allocations gives exactly the last allocated objects back.',
 ['histories','inputs','configurations'],'all sequences of allocations, returns and undos, object sizes, numbers of objects beyond one block','No test uses a pool directly.',
 [M+'pool.c',I+'pool.h'],
 [('chain of blocks with an index into the current block',M+'pool.c synchAllocObj'),('list of recycled objects',M+'pool.c synchRecycleObj'),('rollback',M+'pool.c synchRollback')],None,['addresses and content of all live objects'])
p('C14','Every started thread and fiber runs its function exactly once, then join returns',
 'Starting a group of n threads (with or without fibers) runs the given function exactly once for each identifier 0..n-1, and join returns after every one of them has finished, with everything they wrote visible. Inside the function, the thread and posix-thread identifiers the library reports are the correct ones, also after a fiber was resumed, and yielding lets every other fiber of the same thread run. Groups can be started again and again with different sizes.',
 ['schedules','configurations','histories'],'all numbers of threads and fibers, all interleavings, all sequences of groups','The tests start one group per process and never check identifiers or how often a function ran.',
 [M+'threadtools.c',M+'uthreads.c',I+'threadtools.h',I+'uthreads.h'],
 [('start barrier and join',M+'threadtools.c'),('user-level context switches',M+'uthreads.c')],None,['runs and identifiers of every thread and fiber'])
p('C15','Barriers separate phases and are reusable',
 'No thread leaves a barrier before all of its participants have arrived in the same phase, and once all have arrived every one of them leaves. The same barrier can be used for any number of consecutive phases, and be initialized again with another number of participants when nobody uses it.',
 ['schedules','configurations'],'all interleavings, numbers of participants and phases, fast threads that arrive again before slow ones left','The tests use one barrier phase per run.',
 [M+'barrier.c',I+'barrier.h'],[('arrive and leave counters',M+'barrier.c')],None,['arrival and departure of every participant in every phase'])
p('C16','Thread placement follows the documented policy',
 'Under the default policy, a group with at most as many posix threads as cores is placed on distinct cores, and larger groups wrap around evenly; the default prefers different NUMA nodes (even spread) and the dense policy uses the smallest number of nodes. The core a thread reports as preferred is the one it was pinned to and the reported NUMA node is the node of that core. This holds for every number of cores and nodes, with or without multithreaded cores, where the cores are divided evenly among the nodes.',
 ['configurations'],'all machine shapes (cores, nodes, hardware threads per core), policies and group sizes','The tests see one machine shape and never check where a thread runs.',
 [M+'threadtools.c',I+'threadtools.h','libconcurrent/config.h'],[('mapping from thread to core',M+'threadtools.c synchThreadPin, synchPreferredCoreOfThread'),('node of a core',M+'threadtools.c synchPreferredNumaNodeOfThread')],None,['affinity calls and reported cores and nodes'])
p('C17','Atomic primitives are atomic and return what they document',
 'Compare-and-swap on 32, 64, pointer and 128 bit words succeeds if and only if the word had the expected value, changes it only then, and reports which of the two happened; swap, fetch-and-add and bit test-and-set return the previous value (or bit) and store the new one. Concurrent uses on one word behave as if executed one after another, also in the emulated versions, and neighbouring words are not touched. The compiler sees their effect on memory at every optimization level; bit search and bit count functions agree with their definition.',
 ['schedules','inputs','configurations'],'all operands, all interleavings of concurrent primitives, native and emulated builds, all optimization levels','The tests never call a primitive directly.',
 [M+'primitives.c',I+'primitives.h'],[('inline assembly and compiler builtins',I+'primitives.h, '+M+'primitives.c')],None,['operands, results and final words'])
p('C18','Element values pass through unchanged over the full 64-bit range',
 'Every 64-bit value that is not one of the documented reserved values may be used as an argument or element, and comes back bit by bit: values with the sign bit, values that look like flags, lock bits or 32-bit limits, zero and minus one included. No value changes the behaviour of an operation on another element.',
 ['inputs','histories'],'all 64-bit values except the reserved empty and guard markers','The benchmarks insert only small thread identifiers.',
 [C+'*.c',I+'*.h'],[('marker values that select pop or dequeue',I+'queue-stack.h, '+C+'*stack.c'),('packing of values with flags',C+'lcrq.c')],None,['arguments and results of every operation'])
p('C19','Instances of an object do not interfere',
 'Threads may use several instances of the same data structure at the same time, each with its own thread state; each instance behaves as if it were alone. No state shared between instances leaks operations, elements or progress from one to another.',
 ['schedules','histories'],'all interleavings of operations of the same threads on two instances','Every benchmark creates exactly one instance.',
 [C+'*.c',M+'pool.c'],[('per-thread and per-instance state',C+'*.c *ThreadStateInit')],None,['histories of two instances, checked separately'])
p('C20','All build configurations behave alike',
 'The guarantees of objects, pools, threads and primitives hold in every documented build configuration: with and without NUMA support, compact allocation, node recycling, debug counters, backoff, and with emulated fetch-and-add or swap. A small ring size of the ring queue changes performance only.',
 ['configurations','schedules'],'all documented compile-time options, one at a time, combined with all interleavings','The tests build the default configuration (and its debug flavour) only.',
 ['libconcurrent/config.h',M+'*.c',C+'*.c'],[('conditional compilation','libconcurrent/config.h, '+M+'pool.c, '+I+'primitives.h')],None,['the same histories as for the default build'])
p('C21','A combiner serves a bounded number of requests per call',
 'One call on a blocking combining object executes a number of requests of other threads that is bounded by a constant times the number of threads, no matter how fast new requests arrive. Hence no caller is kept as a combiner forever.',
 ['schedules'],'all schedules, including ones in which new requests keep arriving while a combiner works','The tests do not see who executes which request.',
 [C+f for f in('ccsynch.c','dsmsynch.c','hsynch.c','osci.c','fc.c','oyama.c')],[('limit of served requests, then hand-over',C+'*.c help bounds')],None,['number of executions of the sequential function during one call'])
p('C22','Toggle vectors implement bit-set algebra for any number of threads',
 'Operations on vectors of toggle bits (set, reset, test, negate, and, or, xor, copy, count, search of the first bit) agree bit by bit with set algebra for every vector length, and atomic additions by different threads to their own bits are never lost. Bits of other threads are never affected.',
 ['inputs','schedules'],'all numbers of threads, bit positions and vector contents; concurrent updates','No test uses these vectors directly and the benchmarks use a handful of threads.',
 [I+'tvec.h'],[('words of bits',I+'tvec.h')],None,['content of all vectors after every operation'])
p('C23','Random numbers and backoff stay in range and are reproducible',
 'Random numbers lie in the documented ranges for every seed and every interval, are spread over the interval, repeat for the same seed, and the sequence of a thread is not disturbed by other threads. Backoff objects stay between their lower and upper bound: waiting or increasing never shrinks them, reducing never enlarges them, and a reset returns to the lower bound.',
 ['inputs','schedules'],'all seeds, intervals and sequences of backoff operations','The tests never look at random numbers or backoff values.',
 [M+'fastrand.c',M+'backoff.c',I+'fastrand.h',I+'backoff.h'],[('per-thread generator',M+'fastrand.c'),('doubling and halving with limits',M+'backoff.c')],None,['returned numbers, current backoff'])
p('C24','Benchmark arguments are understood as documented',
 'For every combination and spelling (short, long, joined, with "=") of the documented command-line options, the parsed number of threads, fibers, runs per thread, local work, NUMA nodes and backoff limits are the given ones or the documented defaults. Help ends the program successfully, unknown options and missing values end it with an error.',
 ['inputs'],'all combinations of options and values','The tests use a few fixed command lines.',
 [M+'bench_args.c',I+'bench_args.h'],[('option table',M+'bench_args.c synchParseArguments')],None,['parsed parameters'])
p('C25','Debug counters count exactly the operations that were executed',
 'In debug builds the totals reported for a group of threads equal the number of compare-and-swap, successful compare-and-swap, swap and fetch-and-add operations these threads executed, for every number of threads and fibers. Starting another group only adds what the new group executes.',
 ['histories','configurations','schedules'],'all mixes of primitives over threads and fibers','The tests read combining counters only, never those of the primitives.',
 [M+'stats.c',M+'primitives.c',I+'stats.h'],[('per-thread counters summed at the end',M+'stats.c')],None,['reported totals'])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
