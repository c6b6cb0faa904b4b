import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None)))
DG='daisy/dependency_graph.py'
p('C01','Blocks tile the total region exactly as the fit mode promises',
 'For every task geometry, the blocks handed out have pairwise disjoint write regions that together cover exactly the writable part of the total region: the largest whole number of blocks per axis for "valid", everything (plus an overhang of less than one block) for "overhang", and exactly everything, clipped at the upper boundary with the context preserved, for "shrink". Every block reads precisely its write region plus the task\'s context, and with "valid" and "shrink" stays inside the total region. The number of blocks announced for a task equals the number of blocks enumerated and handed out, also if that number is zero.',
 ['inputs','configurations'],'all dimensions, block shapes, (asymmetric) contexts, offsets, total sizes, fit modes and conflict settings',
 'The tests enumerate the blocks of a handful of hand-picked 1D-3D geometries with symmetric contexts; off-by-one errors need particular combinations of remainder, context and fit.',
 [DG,'daisy/block.py','daisy/task.py'],[('level strides, offsets and block counts',DG+' BlockwiseDependencyGraph'),('fitting of boundary blocks',DG+' inclusion_criteria/shrink')],
 ['blocks returned by scheduler and dependency graph','total block count of the task state'])
p('C02','Block identifiers are unique and stable',
 'Within a run no two different blocks share an identifier, and the same location of the same task gets the same identifier (and the same regions) every time it is looked up: when enumerated, queried as a dependency, handed out, retried, copied, or sent to another process and back. Two block objects are equal, and hash equally, exactly if they have the same identifier. A copy is independent of the original, and a block that is created with a given number has that number.',
 ['inputs','histories'],'all geometries and all ways a block is obtained, including repeated construction of the same task',
 'Tests compare identifiers of a few blocks; collisions and mismatches depend on block index, context and offset arithmetic.',
 ['daisy/block.py',DG],[('identifier from block index','daisy/block.py Block'),('re-instantiation of blocks in dependency queries',DG+' upstream/downstream/get_subgraph_blocks')],['block_id, equality, hash'])
p('C03','No two conflicting blocks of a task are in flight at the same time',
 'For a task whose reads and writes conflict, at no point of any run does the read region of a block being processed overlap the write region of another block of that task being processed. This holds for every interleaving of requests, completions, failures, retries and lost workers.',
 ['schedules','histories','inputs'],'all geometries, worker counts and orders of acquire/release/failure/crash events',
 'Tests run a few schedules with one geometry; the guarantee depends on the level construction for every context size and on retries not breaking the order.',
 [DG,'daisy/scheduler.py','daisy/ready_surface.py','daisy/server.py'],[('levels of independent blocks and conflict offsets',DG+' compute_level_*'),('ready surface','daisy/ready_surface.py ReadySurface')],['blocks handed out and not yet returned'])
p('C04','Chained tasks only see finished inputs',
 'A block of a task is handed out only after every block of the tasks it depends on whose write region overlaps the block\'s read region was successfully completed (or skipped as already done). This holds for partially overlapping or disjoint totals, different block sizes and fit modes, diamonds of tasks, and any schedule of failures and retries.',
 ['schedules','inputs','histories'],'all chained geometries and all interleavings of the tasks\' workers',
 'Tests chain two tasks with aligned regions; the lookup of overlapping blocks depends on offsets, contexts and fits.',
 [DG,'daisy/scheduler.py','daisy/ready_surface.py'],[('lookup of blocks by region',DG+' get_subgraph_blocks'),('ready surface','daisy/ready_surface.py')],['blocks handed out by the scheduler/server'])
p('C05','The dependency relation is exact, mirrored and acyclic',
 'Block B lists A as an upstream dependency if and only if A lists B as downstream; across tasks this is the case exactly if the tasks are chained and A\'s write region overlaps B\'s read region. Within a task the relation is acyclic and any two blocks whose regions conflict are ordered by it, directly or transitively. Blocks of one task that are too far apart to be reached by the larger of the two contexts are not directly ordered, and a task without context or without read/write conflicts has no internal dependencies at all.',
 ['inputs','configurations'],'all pairs of blocks of all single and chained task geometries',
 'The tests compare a few listed dependencies of fixed geometries.',
 [DG],[('conflict offsets',DG+' get_conflict_offsets/upstream/downstream'),('cross-task lookup',DG+' DependencyGraph.upstream/downstream')],['upstream/downstream queries of the dependency graph'])
p('C06','Every block is eventually processed, exactly once if nothing fails',
 'Whenever a block of a task is runnable (all it depends on is completed) a request for that task is answered with one, and nothing else is ever answered; so, without failures, any order of requests and completions ends with every block of every task, including tasks only reached as dependencies of others, processed exactly once. A completed block is never handed out again.',
 ['schedules','inputs','histories'],'all task graphs and geometries, all fair schedules',
 'Tests run to completion on a few geometries with one or two schedules; lost or duplicated blocks need specific overlaps between tasks.',
 ['daisy/scheduler.py','daisy/ready_surface.py',DG,'daisy/processing_queue.py','daisy/serial_server.py'],[('ready surface','daisy/ready_surface.py'),('root blocks and queues',DG+' roots, daisy/processing_queue.py')],['sequence of blocks handed out','final task states'])
p('C07','Failures are retried within the budget and isolated to dependents',
 'A block that fails is handed out again until it succeeded or was attempted once plus the configured number of retries, never more and never fewer. After a permanent failure exactly the blocks that transitively depend on it are given up (never handed out, reported as orphaned), while all other blocks are still processed and the run still ends.',
 ['fault_sequences','schedules','inputs'],'all assignments of failures (reported status, exceptions, lost workers) to attempts, all task graphs and schedules',
 'Tests fail single blocks; which blocks are orphaned, and counted once, depends on failure order and graph shape.',
 ['daisy/scheduler.py','daisy/ready_surface.py','daisy/server.py','daisy/serial_server.py'],[('retry counting','daisy/scheduler.py release_block'),('orphan search','daisy/ready_surface.py mark_failure')],['hand-out history','failed/orphaned counts'])
p('C08','Task states account for every block at all times',
 'After every operation the per-task counts of ready, processing, completed, skipped, failed, orphaned and pending blocks equal the true number of blocks in that state, are never negative and add up to the total. A task reports being done exactly if each of its blocks is completed, failed or orphaned, the list of ready tasks is exactly the tasks with a ready block, and releasing a block reports every task that gained ready blocks.',
 ['histories','schedules','fault_sequences'],'all operation sequences on all task graphs',
 'Tests look at the counters of a few short sequences.',
 ['daisy/scheduler.py','daisy/task_state.py','daisy/processing_queue.py'],[('count updates','daisy/scheduler.py acquire_block/release_block')],['task states','ready task list','return value of release'])
p('C09','Blocks that are already done are skipped and a run can be resumed',
 'A block for which the task\'s check function (or the first of a pair of check functions) reports completion (returns anything that is true) is never handed to a worker, is counted as skipped and completed, and unlocks its dependents exactly as if it had been processed; a check function that raises or denies leads to the block being processed. Interrupting a run at any point and starting it again with a check for the finished blocks therefore processes only the unfinished ones and completes the volume.',
 ['crash_points','histories','inputs'],'all subsets of finished blocks, all interruption points, all task graphs, sequential and distributed servers',
 'Tests skip all or none of the blocks of one task.',
 ['daisy/scheduler.py','daisy/serial_server.py','daisy/server.py'],[('pre-check','daisy/scheduler.py __precheck/acquire_block')],['blocks processed per run','skipped/completed counts'])
p('C10','A worker reports the true outcome of every block it received',
 'For each block a client receives it sends back exactly one final return of that block: success if user code finished normally and did not mark the block as anything but success, failure otherwise, including when user code raises, exits or is interrupted (or sets an attribute that a block does not have, which raises). An exception raised by user code is additionally reported together with the block and the worker\'s identity, whatever its type, and does not prevent the client from processing further blocks; no block at all is delivered when the server is gone or dismisses the client.',
 ['histories','inputs','fault_sequences'],'all sequences of blocks, user outcomes, exception types and server replies',
 'Tests exercise one success and one failure with a plain exception.',
 ['daisy/client.py','daisy/messages','daisy/task.py','daisy/worker.py'],[('block context manager','daisy/client.py acquire_block'),('exception transport','daisy/messages/message.py')],['messages sent by the client'])
p('C11','A block has one owner, and only the owner\'s first return counts',
 'The server hands a block to a client only if no other connected client holds it, and never to a client whose connection is closed. A return is accepted only from the client currently holding the block and only once; stale, duplicate or foreign returns change nothing. A block whose holder lost its connection is taken back exactly once and counted as a failed attempt.',
 ['schedules','fault_sequences','histories'],'all interleavings of requests, returns, duplicate returns, failure reports and disconnects of any number of workers',
 'Tests cover one lost block with a mocked stream; the races between returns and disconnects are not reachable deterministically.',
 ['daisy/server.py','daisy/block_bookkeeper.py'],[('list of sent blocks','daisy/block_bookkeeper.py'),('validation of returns','daisy/server.py _safe_release_block')],['messages sent to clients','scheduler state'])
p('C12','A distributed run always ends, with all blocks settled',
 'As long as workers that die abnormally can be replaced, a run ends for every interleaving of worker requests, results, failures and abnormal deaths, and then every block of every task is completed, failed or orphaned. A worker is dismissed only when every block of its task is settled, a request that cannot be served yet is answered as soon as a block becomes ready, and no client message or worker death makes the server raise or hang.',
 ['schedules','fault_sequences','crash_points'],'all interleavings of messages and worker deaths for all task graphs and worker counts',
 'Tests run a few real schedules; starvation and lost wake-ups need specific interleavings.',
 ['daisy/server.py','daisy/task_worker_pools.py','daisy/worker_pool.py','daisy/scheduler.py'],[('event loop and delayed requests','daisy/server.py _event_loop/_get_client_message'),('worker health','daisy/task_worker_pools.py')],['termination of the run','messages to workers','task states'])
p('C13','Worker pools keep the configured size',
 'A task never has more live workers than configured, and none before it first has a block ready. Workers that died abnormally are replaced while workers that exited normally are not, a worker is stopped and replaced if (and only if) its blocks failed with exceptions more than three times, resizing a pool up or down stops (the youngest) or starts exactly the difference, also if several threads resize it at once, a stopped worker can be started again, and an exception escaping from a worker is raised in the process that owns the pool. After a run (also one that ended with an error) no worker process is left running.',
 ['histories','fault_sequences','schedules'],'all sequences of resizing, stopping, deaths with any exit code, failure reports and health checks',
 'Tests check single transitions of a pool.',
 ['daisy/worker_pool.py','daisy/worker.py','daisy/task_worker_pools.py'],[('pool bookkeeping','daisy/worker_pool.py'),('restart policy','daisy/task_worker_pools.py')],['live worker processes','pool membership'])
p('C14','Messages arrive intact, in order, exactly once and at the right peer',
 'Every message sent over a connection that stays up is received exactly once, unmodified and in order, for any message size below the transport\'s buffer limit (100 MB) and any fragmentation of the byte stream, and a reply to a message reaches the client that sent it and no other. If the connection is cut at any byte, the receiver gets only complete messages, a prefix of those sent, and then learns that the stream is closed; other connections are not affected. A server announces an address at which its clients reach it (the given one, the detected one if it works, or the local one), and tries again if it cannot listen, as often as configured, before it reports that there is no free port.',
 ['inputs','schedules','fault_sequences'],'all message contents and sizes, numbers of clients, fragmentations and cut points',
 'Tests send a few small messages over one healthy local connection.',
 ['daisy/tcp/tcp_stream.py','daisy/tcp/tcp_server.py','daisy/tcp/tcp_client.py'],[('length-prefixed framing','daisy/tcp/tcp_stream.py'),('receive loops','daisy/tcp/tcp_server.py handle_stream, tcp_client.py _receive')],['received messages','stream state'])
p('C15','A worker receives exactly the context it was given',
 'Any set of context variables that is accepted can be read back by a worker from its environment with the same keys and the same (string) values; values or keys that contain one of the two separator characters ("=" and ":") are rejected with an error when they are set, whichever way they are set. Copies of a context are independent of each other.',
 ['inputs'],'all keys and values',
 'Tests round-trip one fixed context.',
 ['daisy/context.py','daisy/worker.py'],[('encoding','daisy/context.py to_env/from_env')],['context read from the environment'])
p('C16','Regions expand to the smallest enclosing part of the block grid',
 'Expanding a region to a task\'s grid yields the smallest region that is aligned with the write regions of the task\'s blocks and contains the given one (for requests: the smallest union of read regions of such blocks whose write regions contain it); expanding the result again, where input and output are of the same kind, changes nothing. The helper that is given only a write region as the block size uses the grid of multiples of the write shape. Shifting all inputs together (by multiples of the write shape for that helper) shifts the result by the same amount. Looking up the blocks of a task for a region yields exactly the blocks whose write (or read) regions overlap it.',
 ['inputs'],'all regions, grids, contexts and (negative) offsets',
 'Tests check two or three fixed regions with non-negative coordinates.',
 ['daisy/blocks.py'],[('floor/ceil alignment','daisy/blocks.py expand_*')],['returned regions'])
p('C17','A run computes the same result however it is executed',
 'Running the same tasks sequentially, in parallel with any number of workers, or with workers that use the client directly processes the same blocks and produces the same output, also if workers are killed at arbitrary points as long as retries suffice. The distributed run returns true exactly if every block of every task was completed, and false if any failed or was given up; a sequential run returns final task states that say the same.',
 ['schedules','crash_points','configurations'],'all task graphs, worker counts, kill points and ways to define the worker',
 'Tests compare few runs without faults.',
 ['daisy/convenience.py','daisy/server.py','daisy/serial_server.py','daisy/client.py','daisy/task.py'],[('run_blockwise','daisy/convenience.py')],['files written by the blocks','return value'])
p('C18','Observers see a consistent story of the run',
 'Observers are told that a task started at most once and before its first block is handed out, and that it is done at most once, after its last block was returned, and (in distributed runs) for every task. Each hand-out and each accepted return is announced exactly once with the task\'s current state, failures with block, exception and worker, and the end of the run exactly once and last (in distributed runs even if the run ends with an error); a distributed task\'s start callback is called once, before its first block. All registered observers are told the same in the same order, removed ones nothing; an observer that leaves while it is being told something does not keep the others from being told.',
 ['histories','schedules','fault_sequences'],'all task graphs, schedules, failures and skips on both servers',
 'No test checks the order of notifications.',
 ['daisy/server_observer.py','daisy/server.py','daisy/serial_server.py'],[('notifications','daisy/server.py, daisy/serial_server.py')],['callbacks of a registered observer'])
p('C19','Worker functions are used according to their signature',
 'A process function that takes one argument (not counting bound ones), in whatever form of callable, is called exactly once per attempt with the block to process; one that takes none is called exactly once per worker to run its own client; anything else is rejected when the task is created. Closures, lambdas, bound methods and partial functions reach the worker process with the state they had when the worker was started, and what a worker does to that state affects neither the caller nor other workers.',
 ['programs','inputs'],'all kinds of callables and signatures',
 'Tests use two plain functions.',
 ['daisy/task.py','daisy/worker.py'],[('signature inspection','daisy/task.py'),('serialisation of the spawn function','daisy/worker.py')],['calls observed in the workers'])
p('C20','Worker output is kept, per worker, in the log directory',
 'Every line a worker prints to its standard output or error, also through file descriptors or sub-processes, ends up once and in order in the two log files of that worker below the task\'s folder of the configured log directory, and in no other worker\'s files. Setting the log directory to nothing leaves output alone. A process that redirects its own output to a base name (repeatedly, overwriting or appending) finds it in the two files of exactly that name plus .out and .err.',
 ['inputs','schedules'],'all task names, log directories, numbers of workers and printed texts',
 'No test looks at the contents of worker logs.',
 ['daisy/logging.py','daisy/worker.py'],[('redirection','daisy/logging.py redirect_stdouterr')],['log files'])
p('C21','The execution summary and progress display tell the truth',
 'The summary printed at the end of a run (also one that is interrupted) lists each task that was started, and in distributed runs that end regularly every task, exactly once with its true number of blocks and of completed, skipped, failed and orphaned ones; it lists the reported failures of the task in order with block, worker and exception (the first hundred, and how many more there are) and the log files of the workers concerned; and it claims that all blocks were processed successfully exactly if all were completed. After every hand-out and return the progress display of the task shows its true counts, and once the task is done whether it had failed or orphaned blocks. Log records still reach the terminal exactly once while the monitor is active. Every run through run_blockwise, sequential or distributed, has this display and exactly one summary.',
 ['histories','schedules','fault_sequences'],'all histories of starts, hand-outs, returns, failures, skips and ends of tasks',
 'No test looks at the output of the monitor.',
 ['daisy/cl_monitor.py','daisy/task_state.py'],[('summary','daisy/cl_monitor.py CLMonitor.on_server_exit'),('progress','daisy/cl_monitor.py CLMonitor._update_state')],['text printed to stdout and stderr'])
p('C22','Volumes of any size can be scheduled',
 'The number of blocks of a task, a task\'s first blocks, the identifier of a block and the blocks it depends on are available, and exact, without visiting all blocks of the volume: setting up tasks and a scheduler, handing out and returning blocks and looking up dependencies takes time and memory that depend on the blocks concerned and not on the total number of blocks (for a chained task: as long as the tasks it requires cover its region), also for volumes with 10^15 blocks, and not on the number of paths by which one task requires another; identifiers are unique within a task as long as they fit into 53 bits.',
 ['inputs','histories'],'all volumes, grids, contexts and positions of blocks within the volume',
 'Tests use volumes of a few dozen blocks.',
 ['daisy/dependency_graph.py','daisy/processing_queue.py','daisy/scheduler.py','daisy/block.py'],[('lazy enumeration of blocks','daisy/dependency_graph.py'),('queue fed by a generator','daisy/processing_queue.py')],['hand-outs, counts and lookups within a time and memory budget'])
p('C23','Runs do not influence each other',
 'Each run of a process behaves as if it were the only one: the same task objects, or other tasks with the same names, can be run again, sequentially or distributed, through any entry point, after runs that succeeded, had failures or ended early, and while other runs are going on (started by a block of one of them, or by another thread), any number of times, and every run processes the blocks, counts the retries and reports the states it would have on its own. A run changes neither the list of tasks it was given nor the tasks, nor the environment, working and log directory, standard streams or signal handlers of the process that started it; its observers are told about no other run, worker identifiers are not reused by other runs of the process, and file descriptors and threads do not accumulate over many runs.',
 ['histories','configurations'],'all sequences, nestings and interleavings of runs of task graphs through all entry points, with failures, killed workers and early ends',
 'Tests run each task once.',
 ['daisy/convenience.py','daisy/server.py','daisy/serial_server.py','daisy/scheduler.py','daisy/worker.py','daisy/tcp/io_looper.py','daisy/tcp/tcp_server.py'],[('state per run','daisy/server.py run_blockwise'),('io loop per process','daisy/tcp/io_looper.py')],['attempts per block, task states, return values, worker identifiers'])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
import jsonschema
S=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,S)
print(len(P))
