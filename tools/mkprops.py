#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mechanism, observe, symbols=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files,
                mechanism=[dict(name=mechanism, where=files[0])]+[dict(name=a, where=b) for a, b in (symbols or [])],
                observe_at=observe, hook_needed=hook)))

ALLMODS = ["vl/sift.c","vl/dsift.c","vl/mser.c","vl/hog.c","vl/lbp.c","vl/liop.c","vl/covdet.c","vl/scalespace.c",
 "vl/slic.c","vl/quickshift.c","vl/aib.c","vl/ikmeans.c","vl/hikmeans.c","vl/kmeans.c","vl/kdtree.c","vl/gmm.c",
 "vl/fisher.c","vl/vlad.c","vl/svm.c","vl/svmdataset.c","vl/homkermap.c","vl/imopv.c","vl/mathop.c","vl/array.c","vl/generic.c"]

prop("C01", "An operation cut short anywhere is undone by releasing its memory",
 "If any library operation is abandoned midway (a non-local exit taken from the configured memory functions, the configured message function or a user callback, at any call to them) and the program then releases every block it obtained through the configured memory functions, nothing of the operation remains: no memory obtained behind the configured functions is left over, no lock is left held, and no dangling reference is used later. Every operation performed afterwards on newly created objects gives exactly the result it gives in a process where nothing was ever abandoned.",
 ["crash_points","histories"], "Every operation of every module, every call it makes to allocate, resize, release, print or call back as the point of abandonment, and every later operation.",
 "The tests never abandon an operation: they run each to its end once. This is the situation of every out-of-memory or Ctrl-C in MATLAB/Octave, and there is one crash point per allocation, message and callback.",
 ALLMODS, "All local objects are allocated through the re-programmable allocator and the library's global state holds no reference to a local block, so the local state can be dropped at any instant.",
 ["results of the operations that follow", "blocks obtained from the C library and not returned", "accesses to released blocks"],
 [("vl_set_alloc_func","vl/generic.c"),("vl_malloc","vl/generic.c"),("vl_set_printf_func","vl/generic.c")])

prop("C02", "Every block taken is given back once, to where it came from",
 "Over any history of creating, using, reconfiguring and deleting objects, every memory block the library takes from the configured memory functions is returned to those same functions exactly once, no later than the deletion of the object it belongs to, and never touched afterwards or outside its bounds; objects which share nothing with a deleted object remain usable. Blocks handed over to the caller are the caller's, and the library never releases or retains memory the caller owns.",
 ["histories","inputs"], "Every sequence of create, configure (also repeatedly), use (zero or more times, in any order, with inputs of changing size) and delete, for every module, with the allocator replaced between sessions.",
 "The tests are smoke programs run once with the C allocator: a leak, a double release or a stray access on some history leaves their output unchanged.",
 ALLMODS, "Constructors/destructors of each module; buffers re-created when sizes change.",
 ["calls reaching the configured memory functions", "accesses to memory"],
 [("vl_set_alloc_func","vl/generic.c")])

prop("C03", "Results depend only on inputs and on the random generator state",
 "What an operation computes is a function of its arguments, the settings of its object and the state of the calling thread's random generator, and of nothing else: not of what freshly obtained or stack memory happens to contain, where blocks are placed, whether a resize moves the block, the clock, or whether messages are printed, redirected or disabled. Two executions with the same inputs give identical results, and every message goes through the configured message function only.",
 ["configurations","histories","inputs"], "All operations of all modules under every content and placement of memory, every reading of the clock, and every verbosity and message function.",
 "Tests run in one process with a mostly zeroed heap, so a read of memory never written, a dependence on an address or on time passes silently.",
 ALLMODS, "Every buffer is written before it is read; no decision is taken on time, addresses or the outcome of printing.",
 ["outputs of every operation, compared bit for bit between executions"],
 [("vl_get_rand","vl/generic.c"),("vl_get_cpu_time","vl/generic.c"),("vl_set_printf_func","vl/generic.c")])

prop("C04", "An object that has been used before behaves like a new one",
 "After any history of uses of an object (other inputs, other sizes where allowed, other settings, a use stopped half way, an operation repeated), putting it to a new use with the same settings gives exactly the result a newly created object gives. Reading results does not change them: extracting the same result twice yields the same values.",
 ["histories","inputs"], "Every sequence of uses of one object, for each module whose objects can be reused (SIFT, dense SIFT, MSER, HOG, LBP, LIOP, covariant detector, scale space, quick shift, k-means, integer k-means, hierarchical k-means, GMM, kd-tree, SVM data).",
 "Tests use an object once, or many times on the same input; the caches kept between uses (gradients, filters, buffers, tree searchers, counters) are only wrong for particular successions of inputs.",
 ["vl/sift.c","vl/dsift.c","vl/mser.c","vl/hog.c","vl/lbp.c","vl/liop.c","vl/covdet.c","vl/scalespace.c","vl/quickshift.c","vl/kmeans.c","vl/ikmeans.c","vl/hikmeans.c","vl/gmm.c","vl/kdtree.c","vl/svmdataset.c","vl/svm.c"],
 "Buffers and cached quantities kept in the objects are refreshed when the input or the settings change.",
 ["outputs on a reused object against outputs on a fresh object"],
 [("vl_sift_process_first_octave","vl/sift.c"),("vl_mser_process","vl/mser.c"),("vl_hog_put_image","vl/hog.c"),("vl_covdet_put_image","vl/covdet.c"),("vl_kmeans_cluster","vl/kmeans.c")])

prop("C05", "Different objects can be used from different threads at once",
 "Threads that work on different objects at the same time, in any interleaving, each get exactly the results they would get alone, and never conflict on any memory. This covers creation, configuration, use and deletion of every kind of object, and functions that use no object at all.",
 ["schedules"], "Every interleaving of two or more threads, each running its own sequence of operations of any modules on its own objects.",
 "The only threaded test checks error numbers of a few threads; the interleavings are up to the operating system and no feature code runs in them.",
 ALLMODS, "No hidden shared mutable state between objects; process-wide state is guarded by a lock.",
 ["per-thread results against sequential results", "conflicting unsynchronised accesses"],
 [("vl_get_thread_specific_state","vl/generic.c"),("vl_lock_state","vl/generic.c")])

prop("C06", "Error status, random stream and timer belong to each thread",
 "The last error with its message, the random generator and the tic/toc timer a thread sees are the ones that thread itself last set, whatever other threads do and in whatever order threads start, run and end; a thread that has set nothing sees no error and the default random stream. A thread's context is released when it ends and no interleaving makes a thread wait forever.",
 ["schedules","histories"], "Every interleaving of threads which set and read errors, draw and seed random numbers, time intervals, change process-wide settings, begin and end.",
 "One test starts a few threads and reads one error number; preemption points inside the library's lock, thread exit and identifier reuse are never controlled.",
 ["vl/generic.c","vl/random.c"], "Per-thread record created on demand under the library's recursive lock, released by the thread-exit hook.",
 ["values read back by each thread", "blocks outstanding after threads end", "threads blocked for ever"],
 [("vl_set_last_error","vl/generic.c"),("vl_get_rand","vl/generic.c"),("vl_tic","vl/generic.c"),("vl_unlock_state","vl/generic.c")])

prop("C07", "Parallel computation gives the serial result, within the thread limit",
 "With parallel computation enabled, every operation that computes in parallel (k-means, approximate and exact nearest neighbours, GMM, Fisher and VLAD encoding, kd-tree batch queries) returns what it returns with one thread, up to floating point rounding, for every number of threads and every interleaving of them; concurrent workers never conflict on memory. No operation ever runs on more threads than the limit set for the library, setting that limit does not change the limit of the host program, and changing it between operations takes effect.",
 ["schedules","configurations","inputs"], "Every thread count and every interleaving of the workers of every parallel region.",
 "The test build disables parallel computation altogether, so this code is not even compiled.",
 ["vl/kmeans.c","vl/gmm.c","vl/fisher.c","vl/vlad.c","vl/kdtree.c","vl/generic.c"],
 "OpenMP regions over points/clusters with private accumulators merged in critical sections or reductions.",
 ["results with n threads against results with one", "unsynchronised conflicting accesses", "team sizes requested"],
 [("vl_set_num_threads","vl/generic.c"),("vl_kdforest_query_with_array","vl/kdtree.c"),("vl_gmm_em","vl/gmm.c")])

prop("C08", "A built kd-tree forest answers every query exactly, whoever asks",
 "Once built, a forest whose number of comparisons is not limited returns for every query the true nearest neighbours with their true distances, sorted, for every distance offered, any random draws made while building, any earlier queries, and any number of searchers used from different threads at once. With a comparison limit the returned neighbours are still distinct data points with their true distances in increasing order, and the limit is respected.",
 ["schedules","histories","inputs"], "Every data set, tree count, threshold method, random state, query history and interleaving of concurrent searchers and batch queries.",
 "Tests query one forest from one thread after one build with a couple of fixed data sets.",
 ["vl/kdtree.c","vl/heap-def.h"], "Best-bin-first search with a heap, visited marks per searcher and bounds accumulated along the tree.",
 ["indexes and distances returned"],
 [("vl_kdforestsearcher_query","vl/kdtree.c"),("vl_kdforest_query_with_array","vl/kdtree.c"),("vl_kdforest_build","vl/kdtree.c")])

prop("C09", "Reading an image yields the exact image or an error",
 "Reading a PGM image from a stream either reports success and delivers exactly the pixels and header of the image stored there, or reports an error; this holds however the stream delivers the bytes (any chunking, comments and white space in the header, 8 and 16 bits), and if it ends early, fails with an input error or contains a damaged header at any byte. After a failure no memory, stream or other resource is retained, nothing is written outside the caller's buffers and the next image can be read.",
 ["fault_sequences","inputs"], "Every valid image, every damaged or truncated image, and every placement of short reads and input errors.",
 "No test reads an image through the C library at all.",
 ["vl/pgm.c","src/sift.c","src/mser.c"], "Header parser and pixel reader on a C stream, with error codes.",
 ["return codes, pixels, streams and blocks outstanding"],
 [("vl_pgm_extract_head","vl/pgm.c"),("vl_pgm_extract_data","vl/pgm.c"),("vl_pgm_read_new","vl/pgm.c"),("vl_pgm_read_new_f","vl/pgm.c")])

prop("C10", "A write reported as successful is completely on the medium",
 "When writing an image reports success, the file holds the complete image and reading it back gives the same pixels; when the medium fills up, fails or refuses at any byte, at any flush or at close, the failure is reported. No stream is left open in either case.",
 ["fault_sequences","inputs"], "Every image and every byte position at which the medium fills up or fails, including when buffered data is flushed by closing.",
 "No test writes an image, and none makes a write fail.",
 ["vl/pgm.c","vl/pgm.h"], "Image writer on a buffered C stream.",
 ["return codes against bytes on the simulated medium"],
 [("vl_pgm_write","vl/pgm.c"),("vl_pgm_write_f","vl/pgm.c"),("vl_pgm_insert","vl/pgm.c")])

prop("C11", "A command line tool exits with success only if all output is complete",
 "The sift and mser tools exit with status zero only if every image named was read in full and every output the options ask for (aggregate, frames, descriptors, seeds, meta, scale space levels; text or binary; named by the pattern given) was written in full and holds what the library computes for that image with those options; any failure to open, read, write or close, at any byte, or a malformed or truncated input or frame file ends in a nonzero status, and nothing else does. They never crash, hang or use memory wrongly on any input or failure.",
 ["fault_sequences","inputs","configurations"], "Every combination of output kinds and formats, every input image including truncated and damaged ones, and every placement of open failures, input errors, short transfers, full medium and close failures.",
 "The tools are not run by the tests with failing files; their smoke tests look at nothing but a normal run.",
 ["src/sift.c","src/mser.c","src/generic-driver.h","vl/pgm.c","vl/stringop.c","vl/getopt_long.c"],
 "Per-file error code turned into the exit status; buffered text/binary writers.",
 ["exit status against the bytes on the simulated medium"],
 [("main","src/sift.c"),("main","src/mser.c"),("vl_file_meta_put_double","src/generic-driver.h")])

prop("C12", "A file that fails does not disturb the other files of the same run",
 "When a command line tool is given several images, each image that can be read and whose outputs can be written gets exactly the outputs it gets when processed alone, whatever happens to the images before and after it; outputs of one image never contain data of another.",
 ["fault_sequences","histories"], "Every list of images of any sizes, with any subset failing at any point of reading or writing.",
 "Tests process one good image per run.",
 ["src/sift.c","src/mser.c","src/generic-driver.h"], "The per-file loop releases and resets everything before the next file.",
 ["output files of the files not hit by a fault"],
 [("main","src/sift.c"),("main","src/mser.c")])

prop("C13", "A copy equals its original and lives its own life",
 "A copy of an object (k-means, GMM, scale space) has all settings and contents of the original and gives the same results in every later operation; changing, using or deleting one of the two in any order never affects the other.",
 ["histories"], "Every history before the copy and every interleaved sequence of operations on copy and original after it.",
 "No test makes a copy.",
 ["vl/kmeans.c","vl/gmm.c","vl/scalespace.c"], "Copy constructors duplicating every field and buffer.",
 ["results of copy and original against those of an untouched twin"],
 [("vl_kmeans_new_copy","vl/kmeans.c"),("vl_gmm_new_copy","vl/gmm.c"),("vl_scalespace_new_copy","vl/scalespace.c")])

prop("C14", "Running out of memory where it is reported leaves no trace",
 "Operations that document a failure to obtain memory (creating scale spaces, SVMs, SVM data sets, kernel maps and LBP objects, putting an image into or adding a feature to a covariant detector, reading an image) report it when any of their memory requests is refused: they return the documented failure, keep no memory, and leave existing objects in a state in which they can be deleted or used again with correct results.",
 ["fault_sequences"], "Every memory request of these operations as the one that is refused, singly or repeatedly, at any point of a history.",
 "The tests never refuse a memory request.",
 ["vl/scalespace.c","vl/covdet.c","vl/lbp.c","vl/homkermap.c","vl/svm.c","vl/svmdataset.c","vl/pgm.c"], "Error paths of constructors and buffer growth.",
 ["return values, last error, blocks outstanding, results of a retry"],
 [("vl_scalespace_new_with_geometry","vl/scalespace.c"),("vl_covdet_append_feature","vl/covdet.c"),("vl_svm_new_with_abstract_data","vl/svm.c")])

prop("C15", "Clustering is consistent whatever the random draws",
 "Whatever the random generator draws, clustering ends within the iteration limit; the reported energy is that of the returned centers, is the best of all repetitions run and does not increase from one iteration to the next; every returned assignment is to a nearest center at the returned distance; all exact algorithms agree on these facts and Lloyd and Elkan take exactly the steps of the textbook algorithm from the same initial centers. Initial centers are points of the data, distinct while distinct points remain, and k-means++ draws them with the documented weights. For Gaussian mixtures the returned posteriors of each point sum to one, the priors sum to one, covariances respect the lower bounds, and the returned log-likelihood is that of the returned model.",
 ["schedules","inputs","configurations"], "Every state of the random generator (initialisation, repetitions, restarts of empty clusters), data set (duplicates, empty clusters, more clusters than distinct points), distance, algorithm and number of threads.",
 "Tests check a few fixed data sets with a fixed random state and compare loosely.",
 ["vl/kmeans.c","vl/gmm.c","vl/ikmeans.c","vl/ikmeans_elkan.tc","vl/ikmeans_lloyd.tc","vl/ikmeans_init.tc","vl/hikmeans.c"],
 "Lloyd/Elkan/ANN iterations with random initialisation and restarts; EM with restarts.",
 ["centers, energy, assignments, distances, posteriors; messages per iteration"],
 [("vl_kmeans_cluster","vl/kmeans.c"),("vl_gmm_cluster","vl/gmm.c"),("vl_ikm_train","vl/ikmeans.c")])

prop("C16", "SVM training converges, reports truthfully and can be resumed",
 "Whatever the order in which training visits the data, it stops within the iteration limit with a truthful status; the objective, loss, regulariser and duality gap it reports are those of the model it returns, and when it reports convergence the gap is within the requested tolerance and the model is optimal to that tolerance. Started from a given state, each solver takes the steps its documentation defines (SGD with its decreasing rate; SDCA maximising the dual one coordinate at a time). The progress callback is called with consistent, increasing iteration counts and may inspect the machine; a machine restarted from a saved model (and dual variables) continues from it.",
 ["schedules","histories","configurations"], "Every visiting order drawn by the random generator, every solver, loss, weighting, feature map, callback schedule and save/resume point.",
 "Tests train on one toy problem per solver with a fixed random state and look at no reported number.",
 ["vl/svm.c","vl/svmdataset.c"], "SGD and SDCA solvers over an abstract data interface with periodic diagnostics.",
 ["model, statistics, callback history"],
 [("vl_svm_train","vl/svm.c"),("vl_svm_set_diagnostic_function","vl/svm.c")])

prop("C17", "The random generator is a pure function of its state",
 "Each generator's stream is the standard Mersenne twister stream of its seed (single, array or default), unaffected by other generators, other threads or any interleaving of the draw functions; saving a generator's state at any point and restoring it later replays the same stream. Derived draws stay in their documented ranges and a random permutation is always a permutation that every draw sequence determines.",
 ["histories","schedules"], "Every interleaving of seeding, drawing of every kind, state saving and restoring on any number of generators and threads.",
 "The random test prints a few numbers drawn in one order from one generator.",
 ["vl/random.c","vl/random.h","vl/shuffle-def.h","vl/generic.c"], "State array and position per generator, regenerated every 624 draws.",
 ["drawn values against an independent generator"],
 [("vl_rand_uint32","vl/random.c"),("vl_rand_seed_by_array","vl/random.c"),("vl_rand_permute_indexes","vl/random.c")])

prop("C18", "Vector instructions can be switched at any time without changing results",
 "Enabling or disabling the use of vector instructions, at any moment, also between the operations on one object or from another thread, changes no result beyond floating point rounding, for any vector length, image size and alignment of the data; memory outside the arguments is never touched.",
 ["configurations","schedules","inputs"], "Every placement of the switch in every history, every length, stride and alignment.",
 "Tests that compare both settings use a handful of lengths and aligned arrays, and never switch in mid-history.",
 ["vl/mathop.c","vl/mathop_sse2.c","vl/mathop_avx.c","vl/imopv.c","vl/imopv_sse2.c","vl/generic.c","vl/host.c"],
 "Run-time dispatch on a process-wide switch; vector loops with scalar tails.",
 ["results against those of the scalar setting"],
 [("vl_set_simd_enabled","vl/generic.c"),("vl_get_vector_comparison_function_f","vl/mathop.c"),("vl_imconvcol_vf","vl/imopv.c")])

prop("C19", "A toolbox call that fails or is interrupted leaves no trace in the session",
 "In one MATLAB/Octave session, every call of a compiled toolbox function either returns all its results or ends with an error message of the function or of the host; whatever the class, size, sparsity, complexity and number of its arguments, and wherever it is abandoned (an argument refused, the host out of memory, the user interrupting at a message, an error inside a callback), it never accesses memory outside its arrays, never changes its input arrays, never ends the host process, keeps no memory of the host or of the library behind, holds no lock and leaves the library's settings as they were and its random generator on the sequence it was on; every later call gives exactly the results it gives in a fresh session.",
 ["faults","histories","inputs"], "Every sequence of calls of the toolbox functions with valid and invalid arguments and every point at which the host can abandon a call.",
 "Tests call each function with a few valid arguments and look at the results; they never make a call fail half way and then go on.",
 ["toolbox/mexutils.h","toolbox/aib","toolbox/fisher","toolbox/geometry","toolbox/gmm","toolbox/imop","toolbox/kmeans","toolbox/misc","toolbox/mser","toolbox/quickshift","toolbox/sift","toolbox/slic","toolbox/vlad","vl/generic.c"],
 "Gateways run inside the host; errors and interruptions leave them by a non-local exit, so that memory obtained from anywhere but the host, or state set before the exit, stays behind.",
 ["results of each call, input arrays after the call, memory kept after the call, library settings"],
 [("VL_USE_MATLAB_ENV","toolbox/mexutils.h"),("vlmxNextOption","toolbox/mexutils.h"),("mexFunction","toolbox/misc/vl_svmtrain.c"),("mexFunction","toolbox/sift/vl_covdet.c"),("new_kdforest_from_array","toolbox/misc/kdtree.h")])

# ---- not decided by this family -------------------------------------------------
prop("C30", "Descriptors and detectors compute the documented quantities",
 "SIFT, dense SIFT, HOG, LBP, LIOP, MSER and the covariant detectors compute the quantities their documentation defines, are covariant with translation, rotation and scale as documented, and produce normalised descriptors.",
 ["inputs"], "All images.",
 "Tests compare a few images with stored results.",
 ["vl/sift.c","vl/dsift.c","vl/hog.c","vl/lbp.c","vl/liop.c","vl/mser.c","vl/covdet.c"], "Numerical algorithms on one image.",
 ["descriptor and frame values"])
prop("C31", "Homogeneous kernel maps approximate their kernels",
 "The inner product of two mapped values approximates the chosen additive kernel to the documented accuracy over the whole represented range.",
 ["inputs"], "All pairs of values, kernels, orders and windows.", "Tests sample a few values.",
 ["vl/homkermap.c"], "Tabulated, interpolated feature map.", ["mapped values"])
prop("C32", "Linear algebra and rotation utilities are correct",
 "Small SVDs, linear solvers, Gaussian elimination, Rodrigues' formula and its inverse return solutions of the stated problems, and singular problems are reported.",
 ["inputs"], "All matrices.", "Tests try a few matrices.",
 ["vl/mathop.c","vl/rodrigues.c"], "Closed-form and iterative solvers.", ["returned matrices"])
prop("C33", "Segmentations are valid partitions",
 "SLIC, quick shift and agglomerative information bottleneck return labelings/trees covering every element, connected where promised, with the requested minimum sizes.",
 ["inputs"], "All images and parameters.", "Tests run one image.",
 ["vl/slic.c","vl/quickshift.c","vl/aib.c"], "Deterministic segmentation algorithms.", ["labels, parents, costs"])
prop("C34", "The MATLAB/Octave functions follow their documentation",
 "Each toolbox function accepts the documented argument forms, rejects others with a message, and returns what its help text states.",
 ["inputs","programs"], "All calls.", "The xtest suites sample calls.",
 ["toolbox"], "M files and MEX gateways.", ["returned arrays"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
