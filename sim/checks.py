"""What each check runs: flavours with their share of the time, number of seeds, and what the evidence says."""
REAL = {'A': ['every vl/*.c of the working tree, compiled with address checking and block counting, SSE2 and AVX paths included, OpenMP off as shipped'],
 'B': ['every vl/*.c of the working tree, compiled with OpenMP on and with a call before every access to memory, SSE2 and AVX paths included'],
 'M': ['every MEX file of toolbox/ and every vl/*.c of the working tree, compiled with address checking and block counting, SSE2 and AVX paths included, OpenMP off']}
STUB = {'A': ['memory allocator (arena with redzones; drawn contents, placement, refusal)', 'message function', 'clock', 'files (simulated medium behind C streams)', 'direct output to standard streams (reported)'],
 'M': ['the host program: arrays, memory of the host and its automatic release, non-local exits of errors and interruptions, messages, callbacks (sim/host.c in the place of MATLAB or Octave)', 'memory allocator', 'clock'],
 'B': ['thread scheduler, locks, condition variables, thread-specific data', 'OpenMP runtime (teams, loops, critical sections, reductions)', 'memory allocator', 'message function', 'clock', 'files']}
def A(rule, search, note, n, tn=None, **k):
    d = dict(flavours={'A': 1.0}, quick_n={'A': n}, thorough_n={'A': tn or n * 40}, quick_s=240, thorough_s=800, level='exploration', rule=rule, search=search, note=note); d.update(k); return d
def B(rule, search, note, n, tn=None, **k): return A(rule, search, note, n, flavours={'B': 1.0}, quick_n={'B': n}, thorough_n={'B': tn or n * 40}, **k)
CHECKS = {
 'C01': A('a run draws 1-3 operations, abandons each by a non-local exit at a drawn call to allocate/resize/free/print/call back, releases everything, then performs 1-2 further operations and compares them with a pristine process; non-trivial: at least one operation was really abandoned',
   'points of abandonment in histories of operations on the real library, compared with a pristine process',
   'Every operation of every module is generated; within an operation each call out of the library can be the point of abandonment. Sampled, not enumerated.',
   30000, level='fault_enumeration'),
 'C02': A('a run draws 1-3 sessions of up to 10 create/use/delete steps on up to 4 live objects with one of two allocators each; every block is tagged with its object; non-trivial: more than one object in a session',
   'histories of objects of all modules on a simulated memory that checks ownership, bounds and lifetime',
   'Bounds are checked by AddressSanitizer on exactly sized arrays and blocks; sampled histories.',
   30000),
 'C03': A('a run executes 1-2 drawn operations 2-3 times under different memory contents, placement, moves, stack contents, clock, verbosity, printing outcome and alignment, and compares all results and the generator state bit for bit; each run is repeated on the library compiled so that automatic variables hold a pattern until they are assigned; every run is non-trivial',
   'contents and placement of memory, clock readings, message outcomes and alignments, comparing executions bit for bit',
   'Sampled environments; a dependence is seen if one of the drawn contents or placements changes a result.',
   20000, peer='P'),
 'C04': A('a run performs a drawn last use on a new object and on an object with 1-4 drawn earlier uses (sometimes with another object used in between) and compares all results bit for bit; every run is non-trivial',
   'histories of uses of one object compared with a new object',
   'Sampled histories of up to four earlier uses.',
   30000),
 'C18': A('a run executes 1-2 drawn operations of modules with vector code without, with, and with vector instructions switched at drawn calls back into the program, on drawn alignments; every run is non-trivial',
   'placements of the switch and alignments, against the scalar execution',
   'Rounding differences are allowed up to 1e-4 relative to the largest value of each output.',
   20000),
 'C05': B('a run draws 1-2 operations for each of 2-3 threads and executes them concurrently under a drawn schedule, then compares each thread\'s results bit for bit with the same operations executed alone; every access to memory is checked for data races; every run is non-trivial',
   'interleavings at the granularity of single memory accesses, stalls, spurious wake-ups and reuse of thread identifiers, with data-race, lifetime and result checks',
   'Every operation of every module is generated, two operations per thread at most; a race between two writes of the same value is not reported.',
   3200, tn=40000),
 'C06': B('a run draws a script of errors, generator draws, timers, settings and child threads for 1-3 threads, executes it under a drawn schedule and follows every thread with a model; every run is non-trivial',
   'interleavings of threads using the library\'s per-thread state, their creation and end, against a model of that state',
   'Thread-specific data and identifiers are simulated with the semantics of POSIX, including destructors at thread end and reuse of identifiers.',
   40000),
 'C07': B('a run draws an operation of a module with parallel loops, a thread limit and a team of 1-6 threads (or fewer if the runtime refuses), executes it under a drawn schedule and compares with the sequential execution; every access is checked for data races; every run is non-trivial',
   'interleavings of the real parallel regions at the granularity of single memory accesses, refused and smaller teams, stalls, with data-race and result checks',
   'Results are compared up to rounding of the reductions (1e-4 relative to the largest value of each output).',
   24000),
 'C08': A('a run draws a forest (data, distance, trees, threshold, random state of the build) and a history of up to 10 queries through the forest, searchers and batches, with changing comparison limits and searchers created and deleted in between; every answer is compared with a brute force search; every run is non-trivial',
   'random states of the build and histories of queries, searchers and limits, and interleavings of concurrent searchers and parallel batches, against a brute force search',
   'Distances are compared up to rounding of the data type. Searchers are created before their threads start, since creating them concurrently is not supported.',
   40000, flavours={'A': .5, 'B': .5}, quick_n={'A': 40000, 'B': 16000}, thorough_n={'A': 1600000, 'B': 640000}),
 'C09': A('a run draws a file (valid, damaged, cut, or with read faults) and reads it through one of the readers, twice under different memory and fault positions; non-trivial: the file or the medium was disturbed',
   'files, damage to them, and faults of the medium while they are read, against an independent reader of the format',
   'Whitespace and comment forms on which PGM readers differ are left unspecified.',
   40000, level='fault_enumeration'),
 'C10': A('a run draws an image and a fault of the medium (full disk, write error, loss at close) and writes it; success must mean that reading back the medium gives the image; non-trivial: the medium was disturbed',
   'images and faults of the medium while they are written, against what an independent reader finds on the medium',
   'Torn writes are visible as the bytes accepted before the fault.',
   40000, level='fault_enumeration'),
 'C13': A('a run draws an object with up to 5 earlier steps, copies it (sometimes twice), and interleaves up to 5 further steps on each of the original and the copy with their deletion; both are compared with lone objects with the same history in pristine processes; non-trivial: at least one later step',
   'interleavings of uses of an original and its copy, compared with lone objects',
   'K-means, GMM and scale space, the modules with copies.',
   16000),
 'C14': A('a run draws an operation documented to fail when memory is insufficient, refuses drawn requests 1-3 times and repeats the operation; non-trivial: a request was refused',
   'refusals of memory at every request of the operations with a documented out-of-memory failure',
   'Only operations whose documentation states the failure; within vl_covdet_put_image only the requests of the scale space.',
   24000, level='fault_enumeration'),
 'C15': A('a run draws a clustering problem (K-means with all algorithms, Gaussian mixture, integer or hierarchical integer K-means), a data set and a generator state, and checks energies, assignments and models iteration by iteration against direct computation; every run is non-trivial',
   'generator states (initialisations, repetitions, restarts of empty clusters), data sets and configurations, against a direct computation',
   'The textbook comparison skips runs in which two distances are equal up to rounding. Monotonicity and reported energies are compared up to rounding of the data type; EM is not required to be monotonic because responsibilities below a threshold are skipped by design.',
   60000),
 'C16': A('a run draws a training problem, a solver, a loss, weights, a map, a callback schedule, saves and resumptions and a generator state, inspects the machine at each callback and compares what it reports with a direct computation; every run is non-trivial',
   'visiting orders, callback schedules and save/resume points, against a direct computation of objective, gap and duality bounds',
   'The logistic dual step is approximate by design: each step is compared with the exact one within 0.012 and not required to be monotonic; the replayed steps are compared while rounding is not amplified; SGD with an unbounded gradient may diverge by design.',
   60000),
 'C17': A('a run interleaves seeding, draws of all kinds, permutations, saves and restores on 1-4 generators and follows each with an independent Mersenne twister; every run is non-trivial',
   'interleavings of operations on several generators, against a reference generator',
   'Sampled interleavings.',
   60000),
 'C11': A('a run draws a sift or mser command (options, output patterns, 1-4 images, damaged or missing images and frame files) and runs it on a simulated medium with drawn faults (open, read, write, full disk, loss at close, memory refused); the exit status is compared with what is on the medium and with undisturbed runs of each image alone, whose status and files in turn are compared with a model of the tool (which inputs it must refuse; names and contents of all outputs, computed with the library as the manual describes); non-trivial: an input was damaged or a fault happened',
   'commands, input damage and faults of the medium, against undisturbed runs of each image alone and a model of the tools',
   'The tools run inside the process with their real main functions; one command in one process.',
   16000, level='fault_enumeration', stub=['process exit, standard output and error of the tools']),
 'C12': A('as C11 with 2-4 images; every output of every image that neither its own input nor a fault disturbed must equal the output of that image alone, and what a disturbed image left must be a beginning of its undisturbed output; non-trivial: at least one image failed or a fault happened',
   'commands on several images, input damage and faults of the medium, against undisturbed runs of each image alone',
   'The tools run inside the process with their real main functions; inputs with equal base names are excluded, since they share an output by design.',
   16000, level='fault_enumeration', stub=['process exit, standard output and error of the tools']),
 'C19': A('a run draws a session of 1-4 groups of dependent toolbox calls (47 gateways), interleaves them, and precedes each call by up to two attempts that are mistyped (missing, extra, exchanged, retyped, resized, sparse, complex, empty or changed arguments, unknown options) or cut short (memory of the host refused at any request, interruption at any message, error in a callback); each proper call must give, bit for bit, what the same calls give in a fresh process; non-trivial: an attempt was cut short or refused',
   'sessions of toolbox calls and the points where a call is abandoned by the host, compared with fresh sessions',
   'The host is a simulation of MATLAB\'s documented MEX interface, in which every array has its exact size and an error is a non-local exit; every gateway is called; sampled sessions.',
   20000, flavours={'M': 1.0}, quick_n={'M': 20000}, thorough_n={'M': 900000}, level='fault_enumeration'),
}
