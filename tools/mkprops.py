"""Writes properties.jsonl (kept as code so that the lines stay valid JSON)."""
import json, os
P = []


def prop(id, title, statement, over, qtext, why, files, mechanism, state=None, observe=None, hook=None):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mechanism]}
    if state:
        a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    if observe:
        a['observe_at'] = observe
    a['hook_needed'] = hook
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': qtext},
              'why_tests_cant': why, 'anchors': a})


PAR = 'ccore/include/pyclustering/parallel/parallel.hpp'

prop('C01', 'Parallel loops run every iteration exactly once and finish before returning',
     'A parallel loop of the C++ core (indexed with bounds and step, or over a range of elements) runs its body exactly once for each '
     'element of the sequence and for nothing else, and when it returns or throws no body is running or will still start. '
     'This holds for any bounds whose arithmetic does not overflow, any positive step, any element count, any requested number of workers of at least one and any number of processor cores, one core included, under any interleaving of the workers. '
     'If bodies throw, or the system refuses to create a worker thread, the caller gets an exception thrown by one of the bodies or the refusal, never a silent partial loop, a hang or a crash.',
     ['schedules', 'inputs', 'configurations', 'fault_sequences'],
     'all interleavings of workers, all (start, end, step, workers, cores) combinations, exceptions at any iteration, refusal of the n-th worker thread',
     'The unit tests run a handful of sizes on the core count of the build machine under whatever interleaving the kernel picks; a single-core machine, worker counts other than the default, thread exhaustion and throwing bodies never occur.',
     [PAR], [('chunking and std::async join', PAR + ': parallel_for, parallel_for_each')],
     observe=['iterations recorded by the loop body', 'exception seen by the caller'])

prop('C02', 'Thread pool runs accepted tasks once, waiters always return, admission is honest',
     'Every task given to the thread pool is executed at most once, and exactly once, with its effects visible to whoever waited for it, as long as the pool is not destroyed first; every wait on such a task returns, whatever the number of waiters and how often each waits. '
     'A task admitted under the "only if a thread is free" rule starts without waiting for any other task to end, and an idle pool admits as many such tasks as it has threads. '
     'Destroying the pool always terminates and no task starts or runs afterwards.',
     ['schedules', 'histories'],
     'all interleavings of submitting, waiting and pool threads; all histories of add / add-if-free / wait / destroy; spurious condition wake-ups',
     'The tests submit tasks from one thread, wait once for each in order, and observe only the interleavings the kernel happens to produce.',
     ['ccore/src/parallel/thread_pool.cpp', 'ccore/src/parallel/thread_executor.cpp', 'ccore/src/parallel/task.cpp'],
     [('queue, condition variable and counters', 'ccore/src/parallel/thread_pool.cpp'),
      ('completion flag', 'ccore/src/parallel/task.cpp'), ('executor loop and stop flag', 'ccore/src/parallel/thread_executor.cpp')],
     state=[('queue', 'tasks accepted and not yet taken', 'thread_pool::m_queue'), ('free threads', 'capacity for immediate service', 'thread_pool::m_free')],
     observe=['execution log of the tasks', 'return of wait', 'result of conditional submission'])

prop('C03', 'Spin lock gives mutual exclusion, visibility and progress',
     'At most one thread holds the spin lock at any time, everything written by a holder before unlocking is visible to the next holder, and a try-lock succeeds exactly when it acquires the lock: never while another thread holds it, always when it is free and nobody competes. '
     'Whenever holders keep releasing it, a thread trying to lock it acquires it within a bounded number of scheduling steps.',
     ['schedules', 'histories'],
     'all interleavings of lock, try_lock and unlock by any number of threads, including stalled holders',
     'The tests use the lock from one thread, or under kernel scheduling only, where a missing ordering or a lost unlock almost never shows.',
     ['ccore/src/parallel/spinlock.cpp', 'ccore/include/pyclustering/parallel/spinlock.hpp'],
     [('atomic flag with acquire/release', 'ccore/src/parallel/spinlock.cpp')],
     observe=['critical-section occupancy', 'value of an unprotected counter guarded by the lock'])

prop('C04', 'Parallel cluster analysis does not depend on scheduling or core count',
     'For the same data, parameters and seed, cluster analysis run by the C++ core (k-means, k-medians, k-medoids, fuzzy c-means, x-means, g-means, elbow, silhouette search of k) gives bit-identical clusters, centers, medoids, memberships, error values and iteration history, '
     'whatever the interleaving of its worker threads and whatever the number of processor cores, one core included. '
     'Every such run terminates and leaves no worker thread behind.',
     ['schedules', 'inputs', 'configurations'],
     'all interleavings of workers at memory-access granularity, 1 to 9 cores, arbitrary small datasets (duplicates, ties, empty clusters), all built-in metrics, user-defined metric functions',
     'Tests compare cluster sizes with expected values on one machine; a lost update or a chunk boundary error that needs a rare interleaving, another core count or a cluster that becomes empty passes them.',
     ['ccore/src/cluster/kmeans.cpp', 'ccore/src/cluster/kmedians.cpp', 'ccore/src/cluster/kmedoids.cpp', 'ccore/src/cluster/fcm.cpp',
      'ccore/src/cluster/xmeans.cpp', 'ccore/include/pyclustering/cluster/elbow.hpp', 'ccore/src/cluster/gmeans.cpp', 'ccore/src/cluster/silhouette_ksearch.cpp', PAR],
     [('each worker writes only its own slots; join before use', 'update_clusters / update_centers / update_membership / improve_structure / calculate_wce bodies')],
     observe=['results returned by the Python interface of the native algorithms'])

prop('C05', 'Oscillatory networks evolve identically under any scheduling and core count',
     'Simulating a native oscillatory network (Kuramoto-type synchronisation networks of any size including those stepped in parallel, networks for clustering and pattern recognition built on them, and the Hodgkin-Huxley network) with the same inputs and the same random bits gives bit-identical time series, phases, pulses and ensembles, whatever the interleaving of worker threads and the number of processor cores. '
     'Every step uses only the state of the previous step.',
     ['schedules', 'inputs', 'configurations'],
     'all interleavings of the stepping workers, 1 to 9 cores, network sizes around the parallel threshold, all solvers and connection types',
     'Tests use small networks that are stepped serially and only check coarse outcomes (number of ensembles); they cannot vary the interleaving.',
     ['ccore/src/nnet/sync.cpp', 'ccore/src/nnet/hhn.cpp', 'ccore/src/nnet/syncpr.cpp', 'ccore/src/cluster/syncnet.cpp', 'ccore/src/cluster/hsyncnet.cpp'],
     [('next state computed into a separate buffer, then swapped', 'calculate_phases, new_peripheral_state / assign_neuron_states')],
     observe=['dynamics returned by the Python interface'])

prop('C06', 'The native core has no data race',
     'Whenever the C++ core works with several threads - its own parallel algorithms and networks, its thread pool and tasks, or several caller threads using independent objects - any two accesses to the same memory of which one is a write are ordered by synchronisation, and no thread touches memory after it was freed.',
     ['schedules', 'inputs', 'configurations'],
     'all interleavings of worker and caller threads over the parallel surface of the core, all core counts',
     'A race need not change any value a test looks at, and the tests are never run under a race detector; happens-before violations are a property of the execution, not of its output.',
     [PAR, 'ccore/src/parallel/thread_pool.cpp', 'ccore/src/parallel/thread_executor.cpp', 'ccore/src/cluster/kmeans.cpp', 'ccore/src/nnet/sync.cpp', 'ccore/src/nnet/hhn.cpp'],
     [('disjoint output slots per worker; futures, mutexes and atomics', PAR)],
     observe=['every memory access of the instrumented core'])

prop('C07', 'Independent calls from several threads do not influence each other',
     'Calls on independent objects made concurrently from several caller threads, through the Python interface with the native core or with the pure Python implementation, return exactly what each of them returns when made alone, whatever the interleaving; the callers may share read-only input data and metric objects. '
     'This covers every algorithm, network, container and metric whose result is a function of its arguments, that is, does not draw on the process-wide random generators of Python and numpy; the pure Python networks that integrate with odeint of scipy, which is not re-entrant, are excepted.',
     ['schedules', 'programs', 'inputs'],
     'all interleavings at memory-access granularity inside the core and at source-line granularity in Python, any mix of algorithms on 2 to 4 caller threads',
     'No test calls the library from more than one thread.',
     ['ccore/src/interface', 'pyclustering/core', 'pyclustering/cluster', 'pyclustering/nnet', 'pyclustering/container', 'pyclustering/utils/metric.py'],
     [('no mutable global state in the core; instance state only in Python; per-call packages', 'ccore/src, pyclustering/core/*_wrapper.py')],
     observe=['values returned to each caller'])

prop('C08', 'A seed makes results reproducible whatever the clock, entropy and history',
     'When a caller passes a random seed (any non-negative integer, zero included) to an algorithm that offers one, the result of constructing the algorithm and immediately running it is the same every time the arguments are the same, whatever was computed before in the process, whatever the wall clock shows and whatever entropy the system delivers, in both the native and the Python implementation. '
     'Algorithms that document no randomness are reproducible in the same sense without a seed.',
     ['histories', 'configurations', 'fault_sequences'],
     'all seeds, all histories of earlier calls, arbitrary and jumping clocks, arbitrary entropy, changed global random generators',
     'Tests call each seeded algorithm once or twice with one non-zero seed in the same process state.',
     ['pyclustering/cluster/center_initializer.py', 'pyclustering/cluster/ga.py', 'pyclustering/cluster/xmeans.py', 'pyclustering/cluster/gmeans.py', 'pyclustering/cluster/elbow.py',
      'pyclustering/cluster/silhouette.py', 'pyclustering/cluster/somsc.py', 'pyclustering/nnet/som.py', 'pyclustering/core', 'ccore/src/cluster/kmeans_plus_plus.cpp', 'ccore/src/cluster/random_center_initializer.cpp', 'ccore/src/nnet/som.cpp'],
     [('seed handed to generator, sentinel for "no seed"', 'random_state parameters; RANDOM_STATE_CURRENT_TIME')],
     observe=['results of repeated calls'])

prop('C09', 'Native randomised seeding and searches are valid for any entropy',
     'Whatever random bits and clock the system delivers, the native center initialisers return the requested number of distinct points of the data (by index: distinct valid indexes), restricted to the permitted subset when one is given and however often they are used, '
     'and the unseeded native algorithms that build on random choices (x-means, g-means, elbow, silhouette search, self-organised map clustering, synchronisation networks with the default synchronisation order) terminate with every input point in exactly one cluster and as many centers as clusters. A search over the number of clusters reports the best score it examined.',
     ['inputs', 'fault_sequences', 'histories'],
     'arbitrary entropy streams including degenerate ones (all zero, all ones, constant, few values), arbitrary clocks, duplicate points, any permitted subset, repeated use of one initialiser',
     'Tests see one entropy stream per run from the kernel and cannot produce the draws that collide.',
     ['ccore/src/cluster/random_center_initializer.cpp', 'ccore/src/cluster/kmeans_plus_plus.cpp', 'ccore/src/cluster/xmeans.cpp', 'ccore/src/cluster/gmeans.cpp', 'ccore/src/nnet/som.cpp', 'ccore/src/cluster/syncnet.cpp'],
     [('draw without replacement; candidate selection by cumulative probability', 'create_center; get_next_center')],
     observe=['centers, indexes and clusters returned'])

prop('C10', 'Python randomised procedures give valid results for any random draws',
     'Whatever values the random generators return, the Python implementations of sampling, center initialisation (also when an initialiser is used repeatedly), CLARANS, the genetic algorithm, EM, the self-organised map, the searches built on random seeding and the data generator finish, unless the draws forever exclude a value that is needed, and return a structurally valid result: '
     'samples of the requested size drawn from the data without repeating a position, distinct centers from the data, every point in exactly one cluster, medoids that are distinct data points, as many centers and probabilities as clusters, the requested number of generated points in the right dimension. '
     'A reported best cost never gets worse than that of an already examined candidate, also when an object searches again.',
     ['inputs', 'fault_sequences'],
     'arbitrary legal outputs of the random generators, biased towards boundary values, collisions and long runs of equal draws',
     'Tests see typical draws; collisions, endpoints and repeated values have negligible probability there (one sampling test module is even excluded as flaky).',
     ['pyclustering/utils/sampling.py', 'pyclustering/cluster/center_initializer.py', 'pyclustering/cluster/clarans.py', 'pyclustering/cluster/ga.py', 'pyclustering/cluster/ga_maths.py', 'pyclustering/cluster/ema.py', 'pyclustering/nnet/som.py', 'pyclustering/cluster/generator.py'],
     [('rejection of taken indexes, roulette selection, elitism', 'files above')],
     observe=['returned samples, centers, clusters, medoids, costs'])

prop('C11', 'Memory or thread exhaustion in the core is reported and leaves nothing behind',
     'If an allocation or the creation of a worker thread fails at any point while a native algorithm, network, container or the thread pool is built or runs, the failure either is absorbed and the normal result returned, or reaches the caller of the C++ interface as an exception; '
     'by then every worker has stopped, all memory obtained by the call is released, the input data is unchanged, and the same call made afterwards with resources available, on a new object or the one that failed, with the same or other data, gives its normal result.',
     ['fault_sequences', 'inputs', 'schedules'],
     'failure of the n-th allocation (once, several in a row, or from then on) or n-th thread creation in any parallel or serial native algorithm, under any interleaving',
     'No test injects a failing allocation or thread creation.',
     ['ccore/src/cluster', 'ccore/src/nnet', PAR],
     [('exception safety by RAII; futures carry worker exceptions', PAR)],
     observe=['exception type', 'live heap blocks', 'live threads', 'result of the retried call'])

prop('C12', 'Native memory is returned: no history of API calls leaks',
     'After any history of calls through the Python interface to the native core - constructing, processing, reading results any number of times, pickling, failing in a user callback, and destroying objects in any order - the amount of native memory still held depends only on the objects still alive; '
     'when all of them are gone it is what it was before, and nothing is released twice.',
     ['histories', 'fault_sequences'],
     'all histories of create / use / read / destroy over every native algorithm and network, destruction in any order, exceptions inside callbacks',
     'Tests never look at the native heap, and a leak or double release of a result package changes no value they compare.',
     ['pyclustering/core', 'ccore/src/interface', 'ccore/src/interface/pyclustering_package.cpp'],
     [('result packages freed by the wrapper after extraction; native objects destroyed with their owners', 'pyclustering/core/*_wrapper.py')],
     observe=['live native heap blocks'])

prop('C13', 'User-defined metrics work in the native core for as long as they are used',
     'An algorithm running in the native core with a user-defined distance function calls exactly that function for as long as it needs it and produces the same result as the corresponding built-in metric, '
     'however the metric object was constructed and no matter which other metric objects have been created, used, destroyed or garbage-collected before or meanwhile, and on which thread the call happens. '
     'Metric objects are independent: using or destroying one never changes what another computes.',
     ['histories', 'schedules', 'inputs'],
     'all histories of creating, using and dropping metric objects, with garbage collection at any point, calls from worker threads in any interleaving',
     'Tests create one metric and use it at once, so a dangling callback still happens to point at intact memory.',
     ['pyclustering/core/metric_wrapper.py', 'pyclustering/utils/metric.py', 'ccore/src/interface/metric_interface.cpp', 'ccore/include/pyclustering/utils/metric.hpp'],
     [('callback object kept alive by its owner', 'pyclustering/core/metric_wrapper.py')],
     observe=['distances and clusterings computed with the metric'])

prop('C14', 'An aborted call leaves inputs intact and later calls unaffected',
     'When a Python-level call is cut short at an arbitrary point - by an interrupt (other than while the call is already restoring state), or by an exception from a user-supplied metric or observer - the exception reaches the caller, the caller\'s input data and parameter objects are unchanged, and every later call on new objects returns what it would have returned had the aborted call never been made. '
     'A call that completes does not modify its input data either, whether these are lists, tuples, numpy arrays or one object passed twice.',
     ['crash_points', 'fault_sequences', 'histories'],
     'an asynchronous exception after any executed source line, an exception from the n-th callback, in any algorithm, container or network of the Python implementation, followed by any other call',
     'Tests never interrupt a call.',
     ['pyclustering/cluster', 'pyclustering/container', 'pyclustering/nnet', 'pyclustering/utils'],
     [('work on private copies; no module-level mutable state', 'pyclustering/cluster/*.py')],
     observe=['input objects after the abort', 'results of later calls', 'global interpreter settings of numpy and warnings'])

prop('C15', 'A stored self-organised map comes back as it was',
     'Storing a self-organised map (pickling or copying it, trained or not, in the native or the Python implementation) and restoring it, in the same process or in a new one, any number of times, yields a map with the same weights, awards, captured objects, winners and distance matrix, that answers every pattern the same, can be shown, and retrains to the result that a new map gets. '
     'Storing does not change the original, copy and original do not share state, and a map stored with the native core can be restored where the native core is not available.',
     ['histories', 'crash_points', 'configurations'],
     'all histories of train / simulate / store / restore / copy / process restart, with and without the native core on either side, all connection and initialisation types',
     'Tests pickle one trained map once and compare a few attributes.',
     ['pyclustering/nnet/som.py', 'pyclustering/core/som_wrapper.py', 'ccore/src/nnet/som.cpp', 'ccore/src/interface/som_interface.cpp'],
     [('state dictionary and upload to the core', 'som.__getstate__, som.__setstate__, som::load')],
     observe=['attributes and answers of the restored map'])

prop('C16', 'Stored Hodgkin-Huxley dynamics read back completely or not at all',
     'Dynamics of the Hodgkin-Huxley network that were stored to a file read back with the same enabled collections, the same times and the same values to the stored precision. '
     'If storing was cut off at any byte (crash, full disk, I/O error) or the read itself fails, reading reports an error instead of returning dynamics with missing or invented values, holds on to nothing, and can be repeated.',
     ['crash_points', 'fault_sequences', 'inputs'],
     'all network sizes, lengths and sets of collections enabled while the network runs; a crash after any byte of the file, the bytes behind it lost or zero; write and read errors, short writes and interrupted calls at any operation',
     'Tests store and read one small file on a healthy disk.',
     ['ccore/src/nnet/hhn.cpp', 'ccore/src/interface/hhn_interface.cpp'],
     [('size header, per-row neuron count', 'hhn_dynamic_reader')],
     observe=['dynamics returned by the reader', 'exception'])

prop('C17', 'Reading sample, graph, answer and image files is all or nothing',
     'Reading a sample (read_sample), graph (read_graph), answer (answer_reader) or image (read_image) file returns exactly the content of the file however the storage splits the reads and whatever the layout of the text; '
     'a failure at any point - of opening, of any read, of memory, an interruption by the user - is reported to the caller and never turned into shorter data. Reading again after a failure, also with the same answer_reader '
     'and whatever was asked of it before, gives the complete content; so does one answer_reader asked by several threads at once. No file handle stays open when the call is over and its error is handled.',
     ['fault_sequences', 'inputs', 'histories', 'schedules'],
     'an error at open, at any read or at close, short and interrupted reads, followed by any number of retries, any sequence of queries of one answer reader, any schedule of its callers',
     'Tests read healthy files.',
     ['pyclustering/utils/__init__.py', 'pyclustering/utils/graph.py', 'pyclustering/samples/__init__.py'],
     [('line iteration over the file object', 'read_sample, read_graph'), ('lazily loaded answer: the loaded mark is published with the complete content', 'answer_reader')],
     observe=['returned data', 'exception', 'open handles'])

prop('C18', 'Without a usable native core the library falls back to Python',
     'Whatever is wrong with the native library - missing, unreadable, not a library, cut short or built for another machine so that the system refuses to load it, lacking its identification functions, of another version, replaced or vanishing at any moment, or an unsupported platform - importing the package and using algorithms with the native core requested never fails because of it: '
     'the library warns, reports the core as not usable and the Python implementation gives its normal result. With a healthy library the core is used, however often its availability is queried.',
     ['fault_sequences', 'configurations', 'histories'],
     'all faults of the library file and loader at any step of loading, any order of availability queries and algorithm calls',
     'Tests rename the library in one way and check one or two algorithms.',
     ['pyclustering/core/wrapper.py', 'pyclustering/core/definitions.py'],
     [('existence check, loading, integrity and version check, fallback flag', 'pyclustering/core/wrapper.py')],
     observe=['availability flag', 'warnings', 'results of algorithms with the core requested'])

prop('C19', 'What a call returned stays what it was',
     'Results that a caller has obtained - clusters, centers, medoids, labels, noise, orderings, trees of results, recorded dynamics of networks - never change afterwards: not when the same object is used again, completely or cut short by an interrupt or a failing metric, not when other objects of the same or another class work, '
     'and not when the object or the network that produced them is destroyed and its memory is reused. This holds for the native core and for Python. Reading results does not change them either, and analyses that start from their input (density-based, hierarchical, sequential schemes, and searches with a fixed seed) give the same results when the object processes again, also after a processing that was cut short. (Properties of a Python self-organised map that describe its current state, and histories of observers that go on collecting, are not results in this sense.)',
     ['histories', 'fault_sequences', 'schedules'],
     'all histories of analyses, repeated use, interruption at any line, destruction and collection over all algorithms, networks and containers',
     'Tests read the results of an object once, immediately, while the object is alive, and rarely use an object twice.',
     ['pyclustering/cluster', 'pyclustering/nnet', 'pyclustering/container', 'pyclustering/core', 'ccore/src/interface'],
     [('results are built anew by every processing', 'process() of the algorithms'), ('dynamics keep copies of the states', 'pyclustering/nnet'), ('packages are copied out and freed', 'pyclustering/core/pyclustering_package.py, *_wrapper.py')],
     observe=['results read again after every step', 'recorded dynamics'])

prop('C22', 'A k-d tree answers as a linear scan of what was put into it',
     'After any history of building, insertions, removals (by point, payload or node) and searches, in the native core or in Python, a k-d tree holds exactly the points that the history left in it with their payloads, reports their number, and look-ups, nearest-neighbour and radius searches return what a linear scan over these points would, with the right distances - '
     'also when several threads search one tree at once or work on trees of their own. A native operation that is refused memory reports that to its caller and leaves the tree as it was, and a tree that is gone holds no memory.',
     ['histories', 'schedules', 'fault_sequences', 'inputs'],
     'all histories of build, insert, remove and search over several trees with equal points and ties, a refused allocation at any point of any native operation, any interleaving of searching threads',
     'Tests use short fixed histories of one tree in one thread, never refuse memory and mostly check that something was found.',
     ['pyclustering/container/kdtree.py', 'ccore/src/container/kdtree.cpp', 'ccore/src/container/kdtree_balanced.cpp', 'ccore/src/container/kdtree_searcher.cpp', 'ccore/src/container/kdnode.cpp'],
     [('smaller to the left, greater or equal to the right; removed node replaced by the smallest of its right part', 'kdtree'), ('pruning by the distance to the splitting coordinate', 'kdtree_searcher, find_nearest_dist_nodes')],
     observe=['nodes and distances returned', 'content and size of the tree', 'exception', 'live heap blocks'])

# ---- pure functions of their input: listed, not claimed -----------------------------------------------------------
prop('C20', 'Native and Python implementations agree',
     'For deterministic algorithms the native and the Python implementation return the same clusters, centers and noise for the same data and parameters, up to rounding.',
     ['inputs'], 'all datasets and parameters', 'Tests compare both against the same expected sizes on the bundled samples only.',
     ['pyclustering/cluster', 'ccore/src/cluster'], [('two implementations of one algorithm', 'pyclustering/cluster, ccore/src/cluster')])
prop('C21', 'Density-based clustering matches its definition',
     'DBSCAN and OPTICS return the density-connected components of the data: core points within the radius share a cluster, border points belong to a cluster of a core neighbour, all others are noise.',
     ['inputs'], 'all datasets, radii and neighbour counts', 'Tests use bundled samples with well separated clusters.',
     ['pyclustering/cluster/dbscan.py', 'pyclustering/cluster/optics.py', 'ccore/src/cluster/dbscan.cpp', 'ccore/src/cluster/optics.cpp'],
     [('neighbour search and expansion', 'dbscan, optics')])
prop('C23', 'CF-tree summaries stay consistent',
     'After any sequence of insertions every clustering-feature entry equals the sum of its children and of the inserted points, and node capacities are respected.',
     ['histories', 'inputs'], 'all insertion histories', 'Tests use fixed sample insertions.', ['pyclustering/container/cftree.py', 'pyclustering/cluster/birch.py'],
     [('entry addition and node splitting', 'cftree')])
prop('C24', 'Metrics are metrics',
     'Built-in distance metrics are symmetric, non-negative, zero on equal points, and agree between scalar, array and native evaluation.',
     ['inputs'], 'all pairs of points', 'Tests use a few pairs.', ['pyclustering/utils/metric.py', 'ccore/include/pyclustering/utils/metric.hpp'], [('formulas', 'metric.py')])
prop('C25', 'Every clustering result is a partition',
     'Deterministic partitioning algorithms assign every input point to exactly one cluster (or noise) and never return an index outside the data.',
     ['inputs'], 'all datasets and parameters', 'Tests check lengths on the bundled samples.', ['pyclustering/cluster', 'ccore/src/cluster'], [('assignment loops', 'pyclustering/cluster')])
prop('C26', 'Result encodings convert without loss',
     'Converting a clustering between index lists, object lists and labels and back yields the original clustering.',
     ['inputs'], 'all clusterings', 'Tests convert a few.', ['pyclustering/cluster/encoder.py'], [('conversion functions', 'encoder.py')])
prop('C27', 'Graph colouring is proper',
     'Deterministic colouring assigns different colours to adjacent vertices of any graph.',
     ['inputs'], 'all graphs', 'Tests use bundled graphs.', ['pyclustering/gcolor/dsatur.py'], [('saturation order', 'dsatur.py')])
prop('C28', 'Splitting criteria and silhouettes match their formulas',
     'Silhouette scores, information criteria and normality statistics equal their textbook formulas for any clustering.',
     ['inputs'], 'all clusterings', 'Tests compare a few stored values.', ['pyclustering/cluster/silhouette.py', 'ccore/src/cluster/silhouette.cpp', 'ccore/include/pyclustering/utils/stats.hpp'],
     [('formulas', 'silhouette, xmeans, gmeans')])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
for p in P:
    assert len(p['title']) <= 80, p['title']
with open(out, 'w') as s:
    for p in P:
        s.write(json.dumps(p) + '\n')
print(len(P))
