WIP = 'check not built yet'
C = 'pyclustering/'
PROPS = [
dict(id='P01', title='Every native call matches the native function it names',
 statement='Every call that the Python package makes into the native library names a function the library exports and passes exactly its parameters, in their order, each with the kind, width and signedness the native side declares. The result type declared for the call is the type the function returns, and an array handed over has the element type the native side reads. No value is therefore truncated, reinterpreted, swapped with another or silently defaulted on its way between the two languages.',
 over=['inputs', 'configurations'], q='for every call site of the native library and every argument value, including values above 32 bits',
 why='Tests use small values, for which a 32-bit argument in a 64-bit slot, a missing result type or two swapped equal-looking arguments give the right answer by luck; many native calls are not exercised at all.',
 files=[C + 'core/*.py', 'ccore/include/pyclustering/interface/*.h', 'ccore/src/interface/*.cpp'],
 mech=[('wrappers: argtypes by construction, restype assignments', 'pyclustering/core/*_wrapper.py'), ('exported prototypes', 'ccore/include/pyclustering/interface/*.h'), ('package readers', 'ccore/src/interface/pyclustering_package.cpp, package_extractor')],
 tech='cross-language signature agreement: path enumeration over the wrappers\' syntax trees against prototypes from the clang AST', note='All 105 wrapper call sites and 107 exported prototypes; sound for straight ctypes use, opaque values are reported as unknown kinds.'),
dict(id='P02', title='Native memory is released exactly once and never used after that',
 statement='Every array package that a native call returns to Python is released exactly once on every path that leaves the caller normally, after its content has been copied, and every native object created for a Python object is destroyed exactly once, by the destroy function of its own type, when its owner goes away. Objects that native code keeps a pointer to, such as a distance function given by the user, stay alive at least as long as the native object that uses them.',
 over=['histories', 'inputs'], q='for every path through every function that receives, keeps or hands over native memory, and every life cycle of its owner',
 why='Leaks, a mismatched destroy function and callbacks collected too early do not fail an assertion; they show in long runs or when the garbage collector happens to run in between.',
 files=[C + 'core/*.py', C + 'nnet/*.py', C + 'cluster/*.py', 'ccore/src/interface/*.cpp'],
 mech=[('free_pyclustering_package after extraction', 'pyclustering/core/*_wrapper.py'), ('handles owned by model objects, __del__', 'pyclustering/nnet/*.py, pyclustering/cluster/syncnet.py, hsyncnet.py'), ('destroy functions', 'ccore/src/interface/*_interface.cpp')],
 tech='typestate over enumerated paths of every wrapper and ownership check of stored handles, with the handle types read from the clang AST', note='Every path of every wrapper and of every method of the classes that own native objects (loops zero or one times, joins on equal ownership state).'),
dict(id='P03', title='Python and C++ agree on layouts, tags, slots and option numbers',
 statement='Everything the two languages share by number or position agrees: structures field by field in order and type, the tags that name element types, the positions of results inside a result package, and the numeric values of every enumeration of options that is passed down. Every field of a parameter structure is filled, each from the option of the same meaning, every option reaches the native parameter, implementation or class of its meaning, and every getter hands out the native result of its name.',
 over=['configurations', 'inputs'], q='for every shared structure, tag, package slot and enumerator', 
 why='Most options and slots are not reached through the native path by any test, and a field left unset reads as zero, a plausible value.',
 files=[C + 'core/*.py', C + 'nnet/*.py', 'ccore/include/pyclustering/**/*.hpp'],
 mech=[('ctypes Structures', 'pyclustering/core/*_wrapper.py'), ('package tags', 'pyclustering/core/pyclustering_package.py'), ('package indexer constants', 'pyclustering/core/*_wrapper.py and ccore/include/pyclustering/interface/*.h')],
 tech='cross-language agreement of declarations and of what flows through them: Python class bodies and abstract paths against clang records, enums and native paths', note='All shared structures, enumerations, package slots, native getters and the parameters of the 107 exported functions; meanings are compared by the names both sides give them, results whose native meaning has no name are counted, not judged.'),
dict(id='P04', title='Native errors become Python exceptions, never the end of the process',
 statement='An error that native code detects and throws never leaves an exported function of the native library as a C++ exception, which would end the Python process. The functions that detect errors for their caller (clique_algorithm, kmedoids_algorithm, pam_build_algorithm, elbow_method_ikpp, elbow_method_irnd, hhn_dynamic_read) catch every standard exception, in the whole function, and return its text as a package (hhn_dynamic_read a null pointer); the Python wrapper turns that into a raised exception that holds the text. Every other error that native code can throw is one whose condition cannot arise or is checked by Python first; functions that are declared not to throw, and destructors, do not throw, and an error in a parallel task reaches the thread that waits for the task.',
 over=['inputs', 'fault points'], q='for every error that native code can throw and every exported function that can reach it',
 why='Tests do not provoke native errors; an error that leaves an exported function aborts the interpreter, so the failing case cannot even be written as an ordinary test.',
 files=['ccore/src/**/*.cpp', 'ccore/include/**/*.hpp', C + 'core/*_wrapper.py'],
 mech=[('function try blocks', 'ccore/src/interface/{clique,kmedoids,pam_build,elbow,hhn}_interface.cpp'), ('isinstance(result, bytes)', 'pyclustering/core/{clique,kmedoids,pam_build,elbow}_wrapper.py'), ('futures', 'ccore/include/pyclustering/parallel/parallel.hpp')],
 tech='exception flow over the native call graph (throw expressions that reach an exported function uncaught, against a reviewed list of ruled-out errors) and abstract execution of every wrapper with an error result', note='107 exported functions, their call graphs and about 50 throw expressions; errors thrown inside the standard library (memory exhausted, container access) are not enumerated.'),
dict(id='P05', title='Python fallback is complete: ccore=False never touches native code',
 statement='When the caller turns the native library off, or the library cannot be loaded, no native function is called, by the algorithm or by anything it builds on, and every documented result getter still works. Every native call is made only after the library was found workable, and an object built either way offers the same results under the same getters.',
 over=['configurations', 'inputs'], q='for every algorithm that has a native implementation, every setting of the native switch and every availability of the library',
 why='Tests run with a workable library; a nested component that ignores the switch gives the right answer on such a machine and fails only on one without the library.',
 files=[C + 'cluster/*.py', C + 'nnet/*.py', C + 'core/wrapper.py', C + 'gcolor/*.py'],
 mech=[('ccore_library.workable() guards', 'pyclustering/cluster/*.py, pyclustering/nnet/*.py'), ('ccore argument passed to nested algorithms', 'pyclustering/cluster/*.py')],
 tech='path-enumerating abstract execution of every class under three settings (switch off, no library, native): reachability of native symbols and definite attribute assignment', note='Every class and function with a native switch is run abstractly with the switch off, without a library and in native mode, through every public method; loops zero or one times, paths joined when there are many.'),
dict(id='P06', title='A given random seed determines the result',
 statement='When an algorithm accepts a random seed, every random draw it makes, in Python and in the native library, comes from a generator initialised from that seed, and the seed reaches every nested component that draws. Zero is a seed like any other, and with a seed given no draw depends on the clock, the operating system or a generator that was seeded otherwise or not at all.',
 over=['inputs', 'configurations', 'histories'], q='for every seed value, including 0, and every nesting of components that draw random numbers',
 why='Tests check distributions or clusters that do not depend on the seed; none compares two runs with the same seed for each component, and none uses seed 0.',
 files=[C + 'cluster/*.py', C + 'nnet/som.py', 'ccore/src/**/*.cpp'],
 mech=[('random_state arguments', 'pyclustering/cluster/{kmeans,xmeans,gmeans,elbow,silhouette,center_initializer}.py, pyclustering/nnet/som.py'), ('generators', 'ccore/src/cluster/*initializer.cpp, ccore/src/nnet/som.cpp')],
 tech='seed-to-generator dataflow: abstract execution of seeded classes and native entry points, each draw checked against the state of its generator', note='Nine Python classes run abstractly for seed 0 and a positive seed through every public method; 21 native entry points; loops zero or one times, paths joined when the generators are in the same state.'),
dict(id='P07', title='Running an algorithm leaves the caller\'s arguments unchanged',
 statement='Constructing an algorithm, network or helper of the package, processing, and reading results never modifies an object that the caller passed in: data sets, initial centres or medoids, matrices, metrics, parameter objects and arrays of indexes, whether lists or numpy arrays, nor anything inside them. Only objects whose documented purpose is to receive output, such as observers, are written.',
 over=['inputs', 'histories'], q='for every public function and class, every argument, every order of public method calls, list and numpy inputs',
 why='Tests compare results, not inputs, and use list inputs where the aliasing shows only with numpy views or with a metric object that is reused.',
 files=[C + 'cluster/*.py', C + 'nnet/*.py', C + 'utils/*.py', C + 'container/*.py', 'ccore/include/pyclustering/interface/*.h'],
 mech=[('arguments kept by reference in constructors', 'pyclustering/cluster/*.py __init__'), ('in-place updates of centres, representatives, weights', 'pyclustering/cluster/*.py, pyclustering/nnet/*.py')],
 tech='inclusion-based points-to and mod analysis of the whole package with one abstract object per argument and nesting depth', note='Field- and context-sensitive over 187 entry points; elements of a container are one object per depth; callables given by the caller are not followed.'),
dict(id='P20', title='No name, attribute, method or argument list is used that does not exist',
 statement='Every name the package reads is bound on every path that reaches the use, every name imported from one of its modules exists there, every attribute or method read from an object of one of its classes is defined by that class, and every call of one of its functions gives all required arguments once and no unknown one. So no use of a documented option, configuration or rarely taken branch ends in NameError, UnboundLocalError, ImportError, AttributeError or in a TypeError about an argument list, and every name it takes from NumPy or the standard library exists there.',
 over=['inputs', 'configurations'], q='for every function of the package and every path through it, including branches no test takes',
 why='Python finds such mistakes only when the line runs; branches for rare options, error texts, drawing helpers and fallbacks without the native library are not run by any test.',
 files=[C + '**/*.py'],
 mech=[('all functions and classes of the package', 'pyclustering/**/*.py')],
 tech='scope resolution, definite assignment and points-to based attribute and arity checking of the whole package', note='Loops are taken to run at least once, sibling branches on the same unchanged condition are correlated; attributes are judged where points-to finds only classes of the package.'),
dict(id='P24', title='Reading results does not change them',
 statement='Methods and properties that report something about an object, such as get_*, predict, allocate_*, show_*, len, str, indexing and pickling, leave the object as it was, including every list and nested object that belongs to it. Results can therefore be read once, many times or in any order and stay the same; only caches that are filled once and values read anew from the native object are stored.',
 over=['histories'], q='for every reading method and property of every public class and every order and number of calls',
 why='Tests read each result once; a getter that sorts, consumes or extends what it reports gives the right answer the first time.',
 files=[C + 'cluster/*.py', C + 'nnet/*.py', C + 'container/*.py', C + 'utils/*.py', C + 'gcolor/*.py'],
 mech=[('getters, analysers and dynamics', 'pyclustering/cluster/*.py get_*, pyclustering/nnet/*.py allocate_*')],
 tech='inclusion-based points-to analysis with the mod set of every reading method against the objects reachable from the instance', note='About 400 reading methods of all classes except drawing classes; stores that fill a cache are recognised by the test that guards them.'),
dict(id='P09', title='Distances are what their formulas say',
 statement='For all points of one (non-zero) dimension with finite coordinates, a distance computes its documented formula over all coordinates, pairing coordinates of the same position: Euclidean the root of the sum of squared differences, square Euclidean that sum, Manhattan the sum and Chebyshev the maximum of absolute differences, Minkowski of degree p the p-th root of the sum of p-th powers of the differences (2 by default), Canberra and Chi square the sum of absolute or squared differences divided by |a| + |b|, Gower the mean over all dimensions of absolute differences divided by the range of the dimension (max_range, or maximum minus minimum per dimension of the data). A coordinate whose divisor is zero contributes nothing and leaves the others as they are. This holds for the plain functions, the numpy functions (vectors, matrices row by row, and mixes of both), the copies in pyclustering.utils, distance_metric of every type before and after numpy usage is switched, the native functions, and the native metric that is made for a distance_metric; a user-defined metric is called with both points in their order.',
 over=['inputs', 'configurations'], q='for every pair of points of any dimension, every degree and range, every metric type and both implementations',
 why='Tests compare a few points without zeros, with even degrees and ranges that are not zero, so a lost abs, a misaligned coordinate after a zero or a wrong axis goes unnoticed.',
 files=[C + 'utils/metric.py', C + 'utils/__init__.py', C + 'core/metric_wrapper.py', 'ccore/include/pyclustering/utils/metric.hpp', 'ccore/src/interface/metric_interface.cpp'],
 mech=[('*_distance, *_distance_numpy, distance_metric', 'pyclustering/utils/metric.py'), ('*_distance, *_distance_metric, distance_metric_factory', 'ccore/include/pyclustering/utils/metric.hpp'), ('metric_create, metric_calculate', 'ccore/src/interface/metric_interface.cpp'), ('metric_wrapper', 'pyclustering/core/metric_wrapper.py')],
 tech='value numbering with loop summaries: each function, in Python and clang syntax trees, is reduced to a fold of a canonical term over the coordinates and compared with the canonical form of its formula', note='Every function, type and route; valid for all dimensions and coordinates in exact arithmetic (rounding and overflow are not modelled); code in a form that the summaries do not understand is counted as undecided, not judged.'),
dict(id='P10', title='Iterations of a parallel loop do not interfere',
 statement='Every loop that the native library runs in several threads gives the result of running its iterations one after another: whatever an iteration writes outside itself belongs to it alone (the element of its own index, of a container whose elements are separate objects in memory), is atomic or guarded by a lock, and is not read by the other iterations; iterations share no scratch variable, static variable or random generator. The range of such a loop is divided into parts that follow one another without gap or overlap, whatever its step, and stay inside it, each thread keeps its own copy of the limits of its part, and the division works with any number of processors, including one.',
 over=['schedules', 'configurations'], q='for every parallel loop, every interleaving of its iterations and every number of processors',
 why='A race shows in a test only when two threads meet in it; on small data or few processors they hardly do, and no test runs on a machine with one processor.',
 files=['ccore/src/**/*.cpp', 'ccore/include/**/*.hpp'],
 mech=[('parallel_for, parallel_for_each', 'ccore/include/pyclustering/parallel/parallel.hpp'), ('bodies of parallel loops', 'ccore/src/cluster/{kmeans,kmedians,kmedoids,fcm,xmeans,elbow}.cpp, ccore/src/nnet/{sync,hhn}.cpp')],
 tech='interprocedural effect analysis of every parallel loop body over the clang AST, with own-index ownership of elements, and linear arithmetic on the limits of tasks', note='15 parallel loops and the 200 functions they run; memory is an access path from a captured object, elements of one container are one object except the one at the own index; what a standard library function does is known by its name.'),
dict(id='P12', title='Iterations, steps, repeats and amounts are those the caller asked for',
 statement='An iterative algorithm never makes more passes than the budget it was given, and makes all of them when nothing else stops it: itermax of K-Means, K-Medians, K-Medoids and Fuzzy C-Means, numlocal of CLARANS, repeat of X-Means and G-Means, the population count of the genetic algorithm, epochs of the SOM. A simulation of n steps (Sync, FSync, SyncPR, Hysteresis, Legion, PCNN, CNN, HHN; in Python and in native code) makes exactly n steps whatever the time is, records one state for every step with the time of that step (and the initial state where the network does so), and only the last state when the dynamic is not collected. The amounts asked for are kept: BSAS and MBSAS make no more clusters than the maximum, agglomerative and center and medoid initializers make exactly the amount, and splitting of clusters by X-Means and G-Means does not exceed kmax and k_max.',
 over=['inputs', 'configurations'], q='for every value of the budget, amount or number of steps and every outcome of the conditions on the data',
 why='Tests run a few budgets on data that converges early, so an off-by-one, a lost bound or a sum of fractions that misses the last step is not seen.',
 files=[C + 'cluster/*.py', C + 'nnet/*.py', 'ccore/src/cluster/*.cpp', 'ccore/src/nnet/*.cpp'],
 mech=[('iteration < itermax', 'pyclustering/cluster/{kmeans,kmedians,kmedoids,fcm}.py, ccore/src/cluster/{kmeans,kmedians,kmedoids,fcm}.cpp'), ('simulate_static / simulate', 'pyclustering/nnet/*.py, ccore/src/nnet/*.cpp'), ('amount_free_centers', 'pyclustering/cluster/xmeans.py, ccore/src/cluster/xmeans.cpp'), ('len(clusters) < amount', 'pyclustering/cluster/{bsas,mbsas}.py')],
 tech='abstract interpretation of Python and clang syntax trees with known numbers and lengths of lists: passes of each loop that a budget limits, states recorded, clusters made, for each small budget and every outcome of the unknown conditions', note='Budgets 0..3 (0..6 in the thorough tier), five data points for amounts; a bound that is wrong only for bigger budgets is out of reach. The quality of results is not judged.'),
dict(id='P13', title='Invalid arguments are rejected before any work is done',
 statement='An algorithm or network that is given arguments outside their documented range raises an error (a Python exception raised on purpose) instead of computing with them, both with the Python and with the native implementation, and before the native library is called. Constructors of clustering algorithms reject: empty data and empty initial centers, medians or medoids; amounts of clusters, levels, intervals, representatives or repeats below 1; negative thresholds, tolerances, radii and budgets; probabilities outside [0, 1]; a fuzzifier m that is not greater than 1; more centers than points; ranges of K for Elbow, Silhouette K-search and G-Means that are empty, reversed, too short or greater than the data. Before working, centers of another dimension, an unknown data type, a stimulus or pattern of another size than the network, features other than 1 and -1, grids that do not fit the size of the network, unsupported solvers and samples greater than the data are rejected. Values on the boundary of a range are accepted.',
 over=['inputs', 'configurations'], q='for every documented limit of an argument, each value beyond it (decided for representatives) and both implementations',
 why='Each limit has many ways to be checked wrongly and tests try a few values of a few arguments; the native library does not raise but reads beyond its input or ends the process.',
 files=[C + 'cluster/*.py', C + 'nnet/*.py', C + 'utils/*.py'],
 mech=[('verify_arguments', 'pyclustering/cluster/*.py'), ('size and solver checks of networks', 'pyclustering/nnet/*.py'), ('sample size', 'pyclustering/utils/sampling.py')],
 tech='abstract execution of constructors and work methods with constant arguments beyond and on each limit: every path must end in a raise statement before native code', note='28 classes and networks, about 120 limits; each limit is decided at representatives next to it and beyond it.'),
dict(id='P14', title='Every documented option takes effect',
 statement='The value given for a documented option of a clustering algorithm, network or other class with a process-like method reaches the work: the Python implementation consults it, in native mode it is handed to the library unchanged, as the native parameter of that name, and the native class keeps every constructor parameter and consults what it keeps. A documented keyword option is read under its documented name, and an option that is not given takes the default that its documentation states. The same holds for the arguments of process, simulate, train and initialize. Options documented as ignored are exempt.',
 over=['configurations', 'inputs'], q='for every documented option of every class that does work, in both implementations',
 why='Tests run most options at their defaults; an option that is dropped, replaced by a constant or read under another name changes nothing there.',
 files=[C + 'cluster/*.py', C + 'nnet/*.py', C + 'core/*.py', C + 'gcolor/*.py', 'ccore/src/cluster/*.cpp', 'ccore/src/nnet/*.cpp'],
 mech=[('constructors and their keyword arguments', 'pyclustering/cluster/*.py, pyclustering/nnet/*.py'), ('wrappers', 'pyclustering/core/*_wrapper.py'), ('native constructors', 'ccore/src/cluster/*.cpp, ccore/src/nnet/*.cpp')],
 tech='taint of every option through path-enumerating abstract execution of constructor and work methods, against documentation, native prototypes and member use in the clang AST', note='44 classes, about 570 option and mode pairs; that an option is consulted is decided, not that it is used the right way; defaults are judged where documentation and code are literals.'),
dict(id='P25', title='The chosen metric is the only distance that is measured',
 statement='An algorithm that takes a metric measures every distance between points with that metric: when it assigns points, updates and compares centres, decides when to stop, scores splits, reports errors and predicts, in Python and in the native library, where the metric is made from the one the caller chose. Components used inside, such as centre initializers and nested clustering, get the same metric. A user-defined metric is called with two points, never with whole collections, and no metric is called when the input is a distance matrix.',
 over=['inputs', 'configurations'], q='for every metric, including user-defined ones, and every distance measured by the algorithms that take a metric',
 why='Tests use well separated data, on which all metrics give the same clusters, and mostly the default metric.',
 files=[C + 'cluster/*.py', C + 'core/metric_wrapper.py', 'ccore/src/cluster/*.cpp', 'ccore/src/interface/*.cpp'],
 mech=[('metric option', 'pyclustering/cluster/{kmeans,kmedians,kmedoids,xmeans,bsas,mbsas,ttsas,silhouette,center_initializer}.py'), ('m_metric, m_dist_func', 'ccore/src/cluster/*.cpp'), ('metric handles', 'pyclustering/core/metric_wrapper.py, ccore/src/interface/*_interface.cpp')],
 tech='abstract execution of every class with a metric option, each measured distance attributed to the option; metric members and nested constructions in the clang AST', note='Nine Python classes with ordinary and user-defined metrics, all native classes that hold a metric; hand-written distances are recognised as squared or absolute coordinate differences.'),
]
