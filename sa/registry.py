"""property -> (function, level, explanation, assumptions)"""
COMMON = ['the Makefile.list sources with the configuration of /opt/vp/build.sh (HAVE_PYTHON, HAVE_EIGEN, HAVE_GLPK, OpenMP) are what is analysed',
          'memory exhaustion (std::bad_alloc) is not modelled']


def get(prop):
    import importlib
    mod, fn, level, expl, assume = TABLE[prop]
    return getattr(importlib.import_module(mod), fn), level, expl, COMMON + assume


TABLE = {
    'C01': ('fill', 'check_c01', 'other',
            'Every function with optional output pointers is abstractly interpreted once per subset of omitted outputs (and in all argument contexts in which it is called): values of pointers (null, non-null, address of which output) are propagated path-sensitively through locals, members, conditional expressions and calls; a dereference of an omitted output, or its use by a nested evaluation that does not accept null, is a violation.',
            ['the argument of a call that is not resolved to a function in the repository accepts whatever is passed', 'exponentially many combinations of more than three optional outputs are all examined, with loops summarised as zero or more iterations']),
    'C02': ('fill', 'check_c02', 'other',
            'Definite-assignment analysis of outputs: for every evaluation routine and every subset of requested outputs, the set of components (scalar fields of the output structure) not yet assigned is propagated path-sensitively through branches, loops, early returns and nested calls; a normal return with an unassigned component, a returned local structure with unassigned components, or a branch on an unassigned local value is a violation.',
            ['a loop that fills an array is assumed to execute at least once for an array output and to assign every element it addresses through its loop variable', 'functions called from the NEMO host receive initialised arrays']),
    'C03': ('time_checks', 'check_c03', 'other',
            'Interprocedural flow of the evaluation time: all parameters, members and Python arguments that carry an evaluation time are found by a backward closure from the time arguments of the density and potential evaluation methods; at every call in a function with a time available, whose result can depend on time (context-sensitive liveness of the time parameter over all overriders), the time handed on must be that same value; time-dependent parameters of modifiers must be evaluated at that value.',
            ['a double parameter passed unchanged as the time of a nested evaluation is an evaluation time', 'objects held in members that are only ever assigned newly created objects have exactly those classes']),
    'C04': ('pure_checks', 'check_c04', 'other',
            'Every const method of every class whose instances can be shared between threads, and every function taking a constant reference or shared pointer to a model, is abstractly interpreted together with everything it calls: the target of each write is classified as private to the call, an output argument, or shared (the object, anything reachable from it or from constant arguments, static and global variables that are not thread-private); any write to shared storage is a violation.',
            ['external libraries (GSL, GLPK, Eigen, libstdc++) do not modify shared state behind const arguments', 'the random generator, the message log, the interrupt flag and Python callbacks are the exceptions stated in the property']),
    'C05': ('omp_checks', 'check_c05', 'other',
            'Every OpenMP parallel region is abstractly interpreted together with everything it calls (context-sensitive, virtual calls resolved to all overriders): each write is classified by the region of its target (private, part of the current iteration, shared) and every unprotected write to shared storage is a violation.',
            ['indices that depend on the loop variable are assumed to address disjoint parts in different iterations', 'external libraries (GSL, GLPK, Eigen, libstdc++) do not modify shared state behind const arguments']),
    'C06': ('omp_checks', 'check_c06', 'other',
            'For every parallel region: each call that may throw (whole-program may-throw summaries) lies in a try block with a catch-all handler; each handler stores the error text; a path-sensitive interpretation of the enclosing function shows that a stored error is raised with its text before the function returns.',
            ['functions throw only through throw expressions in analysed code (external libraries do not throw)']),
    'C07': ('gil_checks', 'check_c07', 'other',
            'The lock state (held / not held) is propagated context-sensitively from all Python entry points through the whole call graph (scoped release and acquire objects, parallel regions, virtual calls into user-callback wrappers); every Python API call must be in a held state, every release in a held state, and no parallel region from which a lock acquisition is reachable may be entered in a held state.',
            ['destruction through shared pointers of wrapped Python callbacks happens while the lock is held', 'reading array data and dimensions through the numpy accessor macros does not need the lock']),
    'C08': ('bound_checks', 'check_c08', 'other',
            'Every function callable from C, Fortran, NEMO or Python (exported C symbols and functions stored in Python method and slot tables) is analysed with a context-sensitive whole-program may-throw analysis: no throw statement reachable from it may lie outside a catch-all handler; the handlers in these functions report the error in the convention of the language and return an error value (path-sensitive); no destructor lets an exception out.',
            ['three throw statements that check internal invariants are taken to be unreachable (bound_checks.INFEASIBLE)', 'external libraries do not throw']),
    'C09': ('format_checks', 'check_c09', 'other',
            'Every call that interprets a format string at run time (argument parsing, building of values, calls of methods, error and log messages of the Python interface) and every table of functions, slots and members registered with the interpreter is decided from the type-checked source: each format unit is matched with the type of the variable or value at its position, the number of units with the number of names and variables, required arguments before optional ones, optional ones initialised before the call, method flags with the signature of the function, and tables with their terminators.',
            ['the meaning of the format units is that of the Python documentation (PY_SSIZE_T_CLEAN not defined)']),
    'C10': ('pyref', 'check_c10', 'other',
            'Path-sensitive typestate analysis of every function of the Python interface: for each object reference (identified by the call that produced it, the argument, the member or the global object) the number of references the function is responsible for is followed through every path (branches, loops, exceptions, early returns), with summaries of helper functions and with ownership by members that destructors release. At each function end the balance must be zero after accounting for the returned reference; over-release, use after release and members never released are violations.',
            ['the reference behaviour of Python and numpy functions is that of their documentation (tables NEW, STEAL, BORROWED)', 'creation of small objects (tuples, numbers, dictionaries) does not fail', 'module initialisation is outside the property']),
    'C11': ('pyref', 'check_c11', 'other',
            'The same path-sensitive analysis tracks for every object pointer whether it may be null: results of Python and numpy functions that can fail for reasons under the control of the caller, optional arguments, attribute setters called for deletion, and results of helper functions (by their summaries). A dereference, a macro access to the object structure, or passing it to a function not accepting null, without a preceding check on that path, is a violation.',
            ['creation of small objects (tuples, numbers, dictionaries) does not fail', 'members of Python objects are valid once the constructor has succeeded']),
    'C12': ('units_checks', 'check_c12', 'other',
            'The inference of dimensions applied to the Python interface, the factories of models and the file formats: values that come from Python (parsed arguments, array elements, results of user functions) or go to it, or are read from or written to text or snapshots, are pure numbers, the unit factors carry the dimension of length, velocity, time and mass in internal units, and the types of positions, velocities, actions etc., the evaluation contracts and a table of the dimensions of arguments and results of library functions tell what the library expects and returns. Every assignment, argument, return value, in-place scaling of an array and value handed to Python gives an equation; a missing, repeated or wrong conversion contradicts the others.',
            ['the table of dimensions of arguments of library functions (units_checks.LIB)', 'literals are values of any dimension', 'the documented dimensions of model parameters (factory_units.ALLPARAM, dims.PARAMS)', 'numbers in text and in snapshot files are in user units']),
    'C13': ('dims', 'check_c13', 'other',
            'Inference of physical dimensions: every floating-point value of the analytic density and potential models, coordinate conversions, base-class wrappers, action-based distribution functions and orbit integration gets exponents of length and velocity (mass = L V^2); the types of positions, velocities, gradients, Hessians and the contracts of evaluation methods provide the known exponents; every assignment, addition, comparison, power, argument, return value and derivative generates a linear equation (also with symbolic exponents), solved by unification over the whole scope. An equation contradicting the others is a violation.',
            ['numeric literals stored as a whole are values of any dimension (defaults, limits, sentinels)', 'purely numeric factors are not checked', 'files that work with logarithmically scaled variables (multipole and azimuthal-harmonic expansions, interpolated and spherical action finders, spherical distribution functions) are outside the analysed scope']),
    'C19': ('io_checks', 'check_c19', 'other',
            'Path-sensitive typestate interpretation of every file stream: each function that owns a stream is interpreted on all its paths with the state of the stream (unopened, opened but untested, verified, holding unwritten data, flushed but untested, failed); routines that receive the stream, and methods of objects holding it, are followed from their callers in the same state. A path that returns normally with an untested or unflushed stream, or after a failure without reporting it, a status of a writing routine that is not looked at, a line read at the end of file but not used, and bytes used beyond what was read are violations.',
            ['errors reported by the standard library through the state of the stream are all there are', 'a message, a Python error, an exception or a failure status counts as a report, whatever its text']),
    'C20': ('omp_checks', 'check_c20', 'other',
            'Transitive draws from the default random generator (including through a null generator argument) are computed for all functions; none may occur in a parallel loop with dynamic or unspecified schedule, and no other entropy source may be used except when requested by a zero seed.',
            ['only the source of random numbers is decided, not the order of floating-point reductions']),
    'C21': ('omp_checks', 'check_c21', 'other',
            'Path-sensitive interpretation of every function that tests the Ctrl-Break state: an interrupt noticed anywhere leads to an exception or Python error before normal return, remaining iterations of parallel loops are skipped, and the handler class saves and restores the previous signal handler as a scoped object.',
            []),
    'C24': ('size_checks', 'check_c24', 'other',
            'Path-sensitive symbolic size analysis (linear arithmetic over the lengths of strings and of arrays of strings, over integer variables and the values of conditions, with loop invariants inferred from the initial state and the loop condition, in exact arithmetic with wrap-around of unsigned types) of every function of the library, its interfaces and programs that accesses characters of strings or elements of arrays of strings: each access by index, front, back, erase, or pop must be implied to exist by the conditions tested before on every path. Internal functions whose accesses depend on their arguments are analysed at each of their calls.',
            ['integers parsed from text are at most 2^31-1, as toInt provides', 'containers passed by reference to functions that are not inlined have any size afterwards']),
    'C17': ('life_checks', 'check_c17', 'other',
            'Interprocedural region (borrow) analysis of every function of the library and its interfaces: each expression is evaluated to the regions in which its object lives and the regions its value refers to without owning, shared pointers count as owners and copies of them as co-owners; functions are summarised by what their results and the objects they modify refer to. Reported are declared variables that refer to destroyed temporaries, results that refer to local variables, shared pointers and Python objects returned while they refer to an argument or to the object that creates them, anything short-lived stored into something longer-lived, and constructors that keep only a plain reference to the object behind a shared pointer.',
            ['a smart pointer through which an object was reached is not reassigned while the object is referred to', 'raw pointers returned by C APIs are owned by these APIs']),
    'C16': ('res_checks', 'check_c16', 'other',
            'Typestate analysis of every raw resource: results of C allocation functions (malloc, gsl_*_alloc, fopen, strdup), objects created by new that are not given to a smart pointer, and results of functions of the library that return such a resource. All paths of each function that acquires or releases one are explored, including the paths taken when a called function throws; on each path the resource must be released exactly once by the matching function, given to an owner, or stored in a member of a class whose destructor releases it on all its paths and whose copying is disabled or user-defined; it is not used after it was released, and a constructor does not throw after it stored one in a raw member.',
            ['memory allocation itself does not fail (std::bad_alloc is not considered)', 'element access to matrices with indices taken from their own dimensions does not throw']),
    'C22': ('array_checks', 'check_c22', 'other',
            'Path-sensitive analysis of every function of the Python interface that touches array objects: the facts established on the current path about each array (being an array at all, element type, native byte order, contiguity, number of dimensions, length of each dimension as a symbolic expression) are collected from the calls that create or convert it and from the conditions tested, and each element access, row pointer or data pointer must be implied by them (kind of object, type, byte order, dimensions, index bounds by symbolic reasoning over loop limits). Helper functions receiving arrays are analysed at their calls; containers of arrays held by classes impose their requirements on the constructor calls.',
            ['arrays stored in members of Python objects keep the shape with which they were stored', 'lists of arrays created by the same function are trusted']),
}

TECH = {
    'C16': 'path-sensitive typestate analysis of raw resources with ownership summaries, on the clang AST',
    'C17': 'interprocedural region and ownership analysis (borrowed versus owned references) with function summaries on the clang AST',
    'C24': 'path-sensitive symbolic size analysis (linear-arithmetic bounds on strings and token arrays) on the clang AST',
    'C22': 'path-sensitive dataflow analysis of array facts (type, byte order, layout, dimensions, symbolic index bounds) on the clang AST',
    'C12': 'inference of physical dimensions across the language interface by unification over the type-checked syntax tree',
    'C13': 'inference of physical dimensions (a unit type system) by unification over the type-checked syntax tree',
    'C09': 'custom type checker for run-time format strings and registration tables (queries over the type-checked syntax tree)',
    'C10': 'path-sensitive typestate analysis of object references (reference counting) with interprocedural summaries',
    'C11': 'path-sensitive nullness analysis of object pointers in the Python interface with interprocedural summaries',
    'C04': 'interprocedural region/effect analysis of evaluation methods (purity), context-sensitive, over all overriders',
    'C03': 'interprocedural value-flow analysis of the time argument with context-sensitive liveness',
    'C01': 'path-sensitive nullness analysis of optional outputs over all subsets (abstract interpretation of the clang AST, interprocedural summaries)',
    'C02': 'path-sensitive definite-assignment analysis of outputs, component by component, with interprocedural summaries',
    'C07': 'context-sensitive interprocedural lock-state analysis (GIL held / released) from Python entry points',
    'C08': 'context-sensitive exception-escape analysis from all foreign-callable entry points, plus typestate of caught exceptions',
    'C05': 'whole-program region/effect analysis of OpenMP parallel regions (race lint on the clang AST)',
    'C06': 'exception-escape analysis with may-throw summaries and path-sensitive typestate after each parallel region',
    'C19': 'path-sensitive typestate analysis of file streams and of failure statuses, with interprocedural summaries',
    'C20': 'transitive effect analysis (random-generator draws) against the schedule clause of each parallel loop',
    'C21': 'typestate analysis of interrupt polling in parallel loops and of the handler object',
}
NUM = 'quantifies over the numerical values computed at run time (truncation error, tolerances, convergence); no static argument over the source bounds these'
NA = {
    'N01': 'numerical consistency of derivatives of arbitrary closed-form and tabulated expressions: ' + NUM,
    'N02': 'accuracy of the Staeckel approximation and torus mapping: ' + NUM,
    'N03': 'accumulated integration error along a trajectory: ' + NUM,
    'N04': NUM,
    'N05': 'values of the spline coefficients come from floating-point linear solves: ' + NUM,
    'N06': 'a statement about a probability distribution of outputs: ' + NUM,
    'N07': 'values of multidimensional numerical integrals: ' + NUM,
    'N08': 'optimality of a numerical solution of external LP/QP solvers: ' + NUM,
    'N09': 'equality of printed and re-read floating-point coefficients and of interpolators rebuilt from them: ' + NUM,
}
for _i in range(1, 30):
    if 'C%02d' % _i not in TABLE:
        NA['C%02d' % _i] = 'the check for this property has not been built yet'
