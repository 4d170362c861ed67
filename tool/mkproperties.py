import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    assert len(title)<=80,(id,len(title))
    a=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],hook_needed=None)
    if state: a['state']=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    if observe: a['observe_at']=observe
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,anchors=a))

p('C01','Omitted outputs are never touched',
 "Every evaluation routine with optional outputs (value, gradient, Hessian or second derivatives of potentials, densities, functions and coordinate conversions; actions, angles, frequencies and Jacobians of action finders and mappers; secondary results such as error estimates) accepts a null pointer for any subset of them. Whatever subset is omitted and whatever the arguments, the call neither reads nor writes through an omitted output, and what it passes on to nested evaluations respects the same rule.",
 ['inputs','configurations'],'all implementations of the evaluation interfaces, all 2^n combinations of omitted outputs, all points (including the special-case branches for r=0, z=0, r=inf)',
 'Tests request a fixed handful of output combinations at regular points; the rarely taken branches (centre, axis, infinity, series expansion) with unusual output subsets are not reached.',
 ['src/potential_base.h','src/potential_analytic.cpp','src/potential_composite.cpp','src/coord.h','src/coord.cpp','src/actions_base.h','src/math_base.h','src/math_spline.cpp'],
 [('NULL checks of output pointers before each store','src/potential_analytic.cpp, src/potential_*.cpp evalCar/evalCyl/evalSph/evalDeriv'),('evalAndConvert temporaries only when requested','src/coord.h')],
 observe=['potential::BasePotential::eval','math::IFunction::evalDeriv','actions::BaseActionFinder::eval'])
p('C02','Requested outputs are always completely written',
 "When an evaluation routine is given a pointer or reference for an output and returns normally, every component of that output has been assigned during the call, on every path including special-case branches for the centre, the axis, infinity and out-of-range arguments. No routine returns normally leaving in a requested output what happened to be in the caller's memory, or copies an unset local value into it.",
 ['inputs','configurations'],'all implementations of the evaluation interfaces (potentials, densities, functions, action finders, coordinate transformations), all combinations of requested outputs, all points',
 'Tests evaluate generic points with generic output combinations; a branch which forgets one of six Hessian components for a special point leaves stale memory which usually looks plausible.',
 ['src/potential_base.h','src/potential_analytic.cpp','src/potential_composite.cpp','src/potential_multipole.cpp','src/potential_cylspline.cpp','src/coord.cpp','src/actions_spherical.cpp','src/actions_staeckel.cpp','src/math_spline.cpp'],
 [('stores to each member of *grad, *hess, *act, *ang, *freq','src/potential_*.cpp, src/actions_*.cpp, src/coord.cpp')],
 observe=['potential::BasePotential::eval','math::IFunction::evalDeriv','actions::BaseActionFinder::eval'])
p('C03','Evaluation time reaches every time-dependent constituent',
 "When a density or potential is evaluated at a given time, every nested evaluation it makes on its constituents (components of a composite, the object inside a modifier, the parts of a sum, user-supplied models, vectorised and coordinate-converted variants) is made for that same time, and every time-dependent modifier parameter is evaluated at that same time. A wrapper, conversion or vectorised routine never silently substitutes the default time for the requested one. (The temporary on-the-fly symmetrisation adapters, which by design represent a model at the default time, and the raga simulation module are outside this statement.)",
 ['inputs','configurations','programs'],'all evaluation routines that receive a time argument and all nested evaluations reachable from them, for all trees of composites and modifiers',
 'Tests use a few time-dependent trees; a dropped time argument in one overload (one coordinate system, the vectorised variant) is invisible because the argument has a default value.',
 ['src/potential_base.h','src/potential_base.cpp','src/potential_composite.cpp','src/potential_composite.h','src/coord.h','src/interface_python.cpp','src/orbit.cpp'],
 [('time parameter passed explicitly to nested calls','src/potential_composite.cpp, src/potential_base.h')],
 observe=['potential::BaseDensity::density','potential::BasePotential::eval'])
p('C04','Evaluating a model never modifies it or any shared state',
 "Evaluation of densities, potentials, distribution and selection functions, interpolators, action finders and other mathematical function objects is a pure read: it never changes the object, another object reachable from it, or process-wide state, other than the per-thread random generator, the message log and Python's own bookkeeping. Therefore the same instance may be evaluated concurrently from many threads and any number of times in any order with identical results.",
 ['schedules','histories'],'all const member functions of model classes and everything reachable from them, all interleavings of concurrent evaluations',
 'A hidden cache or static scratch variable gives right answers in single-threaded tests and in most multi-threaded runs.',
 ['src/potential_base.h','src/df_base.h','src/math_base.h','src/actions_base.h','src/potential_multipole.cpp','src/potential_cylspline.cpp','src/math_spline.cpp'],
 [('const-qualified evaluation methods, no mutable members, no non-const statics','all src/*.h')])
p('C05','Parallel loops have no data races',
 "In every multi-threaded loop of the library, memory shared between iterations is modified only under mutual exclusion (critical, atomic, ordered or reduction), or in storage reserved for the current iteration or thread; the only exception is raising a flag that every thread sets to the same value. This includes everything done by functions called from the loop body, and the storing of the text of an error for later reporting.",
 ['schedules'],'all OpenMP parallel regions in the library and the code they call, all interleavings and thread counts',
 'A race produces a wrong result only under particular interleavings; tests run with few threads on small problems and never make two threads fail at once.',
 ['src/math_sample.cpp','src/math_spline.cpp','src/actions_spherical.cpp','src/actions_staeckel.cpp','src/galaxymodel_base.cpp','src/galaxymodel_losvd.cpp','src/galaxymodel_jeans.cpp','src/galaxymodel_velocitysampler.cpp','src/potential_cylspline.cpp','src/potential_multipole.cpp','src/potential_utils.cpp','src/interface_python.cpp','src/raga_core.cpp'],
 [('loop-indexed stores, critical/atomic/reduction','every #pragma omp parallel')])
p('C06','An error inside a parallel loop reaches the caller as an exception',
 "If an evaluation inside any multi-threaded loop fails with an exception, the exception does not leave the parallel region (which would terminate the process): it is caught inside the loop, its text is remembered, and after the loop has finished an exception carrying this text is raised in the calling thread, so that no partially computed result is returned as if it were complete.",
 ['inputs','schedules','fault_sequences'],'all parallel regions, all failures of any callback or nested computation in any iteration',
 'Tests do not make user functions or root-finders fail inside parallel sections.',
 ['src/math_sample.cpp','src/math_spline.cpp','src/actions_spherical.cpp','src/actions_staeckel.cpp','src/galaxymodel_base.cpp','src/galaxymodel_losvd.cpp','src/galaxymodel_jeans.cpp','src/galaxymodel_velocitysampler.cpp','src/potential_cylspline.cpp','src/potential_multipole.cpp','src/potential_utils.cpp','src/interface_python.cpp','src/raga_core.cpp'],
 [('try/catch inside the loop, errorMsg, rethrow after it','every #pragma omp parallel')])
p('C07','Python objects are touched only while holding the interpreter lock',
 "Whenever the extension module calls the Python C API or changes a reference count of a Python object, the calling thread holds the global interpreter lock: multi-threaded computations release the lock before starting and restore it when finished, and every callback into user-supplied Python code from such a computation acquires the lock for the duration of the callback. No multi-threaded computation that may call back into Python is started while its initiating thread keeps the lock.",
 ['schedules','programs'],'all calls to the Python C API reachable from code running without the lock, all parallel computations reachable from Python with user-supplied callbacks',
 'A missing lock shows up as a rare crash and a missing release as a deadlock that depends on the number of threads and on the kind of user callback.',
 ['src/interface_python.cpp'],[('PyReleaseGIL / PyAcquireGIL scope guards','src/interface_python.cpp')])
p('C08','No C++ exception crosses a foreign-language boundary',
 "No call into the library from Python, C, Fortran or the NEMO plugin interface terminates the process by letting a C++ exception escape through the foreign frames. Any failure raised while serving such a call is converted to the error convention of that language (a Python exception together with an error return value, an error code or message, or NaN).",
 ['inputs','fault_sequences'],'all entry points registered with Python (methods, constructors, slots, getters), all extern "C" functions, all inputs',
 'Tests call the entry points with valid arguments; failures deep inside (root finder, memory, user callbacks) are not provoked per entry point.',
 ['src/interface_python.cpp','src/interface_c.cpp','src/interface_fortran.cpp','src/interface_nemo.cpp'],
 [('try/catch around library calls','src/interface_python.cpp, src/interface_c.cpp, src/interface_fortran.cpp')])
p('C09','Python argument parsing agrees with its format strings',
 "For every Python-callable function, the format string describing its arguments, the list of argument names, and the C variables that receive the values agree in number, order and type, so that any combination of positional and keyword arguments accepted by the parser is stored into a variable of the right size. The same holds for values built or error messages formatted for Python.",
 ['inputs','programs'],'all argument parsing, value building and error formatting calls',
 'Mismatched optional arguments corrupt memory only if that argument is given, and tests pass only a few combinations.',
 ['src/interface_python.cpp'],[('PyArg_ParseTupleAndKeywords / Py_BuildValue / PyErr_Format','src/interface_python.cpp')])
p('C10','Python reference counts are balanced on every path',
 "Every new reference to a Python object obtained while serving a call is, on every path including error returns, either released exactly once, returned to the caller, or stored in an object that releases it when destroyed; borrowed references are never released. So no sequence of successful or failing calls leaks or prematurely destroys objects.",
 ['inputs','histories','fault_sequences'],'all paths through the functions of the Python module',
 'Leaks and over-releases have no immediate effect; error paths are rarely executed.',
 ['src/interface_python.cpp'],[('Py_INCREF/Py_DECREF/Py_XDECREF, ownership transfer by return or container','src/interface_python.cpp')])
p('C11','Failed Python allocations and conversions are detected before use',
 "The result of every Python C API call that signals failure by a null pointer is checked before it is dereferenced or passed to a function or macro that does not accept null.",
 ['inputs','fault_sequences'],'all uses of results of fallible Python C API calls',
 'Failures (memory, wrong types of user objects, exceptions in user callbacks) are not injected by tests.',
 ['src/interface_python.cpp'],[('NULL checks','src/interface_python.cpp')])
p('C12','Python inputs and outputs are converted consistently between unit systems',
 "After the user selects a unit system, every dimensional quantity accepted from Python (lengths, velocities, times, masses, and their combinations), including model parameters given by name and the contents of model and snapshot files, is converted to internal units exactly once and with the factor appropriate to its physical dimension, and every quantity returned to Python or written to a file is converted back likewise. Hence results do not depend on the choice of units other than through the trivial rescaling.",
 ['inputs','configurations'],'all numeric inputs and outputs of all Python functions, classes and callbacks, all model parameters and files, all choices of units',
 'With the default units all conversion factors are unity, and most tests never set units or check only a few quantities.',
 ['src/interface_python.cpp','src/potential_factory.cpp','src/df_factory.cpp','src/particles_io.cpp','src/units.h'],
 [('multiplication by or division by conv->lengthUnit, velocityUnit, timeUnit, massUnit','src/interface_python.cpp'),('assignParam with a unit, blas_dmul of coefficients','src/potential_factory.cpp, src/df_factory.cpp'),('particle data divided or multiplied by units','src/particles_io.cpp')])
p('C13','Formulas are dimensionally homogeneous',
 "Computed quantities scale with the physical dimension they represent: in the evaluation of density, potential, force and Hessian of the analytic models and their modifiers, coordinate conversions, action-based distribution functions, orbit integration and related formulas, terms that are added, compared or assigned to the same output always have the same dimension in length, velocity and mass, and arguments of transcendental functions are dimensionless. Hence rescaling the units of all inputs rescales all outputs accordingly. (Dimensionless numerical factors, and expansions that store logarithmically scaled quantities, are outside this statement.)",
 ['inputs','configurations'],'all evaluation formulas of the listed files, all rescalings of units',
 'Tests use parameters of order unity (scale radius 1, mass 1), for which a missing factor of radius or mass makes no difference.',
 ['src/coord.cpp','src/coord.h','src/potential_analytic.cpp','src/potential_base.cpp','src/potential_composite.cpp','src/potential_dehnen.cpp','src/potential_disk.cpp','src/potential_ferrers.cpp','src/potential_king.cpp','src/potential_perfect_ellipsoid.cpp','src/potential_spheroid.cpp','src/df_disk.cpp','src/df_halo.cpp','src/orbit.cpp','src/actions_isochrone.cpp','src/galaxymodel_selfconsistent.cpp','src/raga_binary.cpp'],
 [('algebraic formulas','src/potential_*.cpp, src/df_*.cpp, src/coord.cpp, src/orbit.cpp')])
p('C14','Models have the symmetries they declare',
 "A density or potential that declares a symmetry gives values consistent with it: one declared axisymmetric does not depend on the azimuthal angle and has no azimuthal force, and one declared reflection-symmetric in a coordinate depends on it only through even terms, with an odd force. A composite or modified model never declares more symmetry than the constituents and the modification leave.",
 ['inputs','configurations'],'all density and potential classes, all parameter values, all points',
 'Expansion and integration routines skip the terms that vanish by the declared symmetry, so a wrong declaration silently biases derived models; tests check few classes.',
 ['src/potential_base.h','src/potential_analytic.cpp','src/potential_analytic.h','src/potential_composite.cpp','src/coord.h'],
 [('symmetry() methods','src/potential_*.h, src/potential_composite.cpp')])
p('C15','Every documented model type and parameter is recognised, others rejected',
 "Each named model, distribution function, symmetry and option of the textual configuration interface is constructible by its name, each parameter read from the configuration ends up in the constructed object, and a name or parameter that is not recognised results in an error rather than being silently ignored. What the library itself writes to a model file uses the names and parameters that it reads back.",
 ['inputs','configurations','programs'],'all names, parameters and file formats of the factory routines',
 'Tests construct a subset of the models with a subset of parameters and round-trip few of them.',
 ['src/potential_factory.cpp','src/df_factory.cpp','src/coord.cpp','src/utils_config.cpp'],
 [('name tables and switch statements','src/potential_factory.cpp, src/df_factory.cpp')])
p('C16','Acquired resources are released on every path',
 "Every resource acquired by the library outside a self-releasing object (raw heap memory, workspaces and solver objects of external libraries, files opened by C functions) is released exactly once on every path out of the owning scope, including failures raised by user-supplied functions while the resource is held; it is not used after its release, and copies of an object that owns it never release it twice.",
 ['inputs','histories','fault_sequences'],'all acquisitions of raw resources and all paths that leave the owning scope, normally or by exception',
 'Leaks on failure paths have no visible effect in a test, and double release is hit only in unusual copies or failures.',
 ['src/math_core.cpp','src/math_fit.cpp','src/math_linalg.cpp','src/math_optimization.cpp','src/cubature.cpp','src/actions_torus.cpp','src/interface_python.cpp','src/utils.cpp'],
 [('gsl_*_free, free, delete, RAII wrappers','src/math_*.cpp, src/cubature.cpp')])
p('C17','Long-lived objects never refer to destroyed ones',
 "An object that may outlive the call that created it (anything returned or stored through a shared pointer, or held by a Python object) owns or shares ownership of everything it needs later: it does not keep plain references or pointers to arguments or temporaries whose lifetime ends earlier. References and iterators to elements of containers are not used after the container has been changed. So models remain valid after the objects from which they were built are discarded by the user, in any order.",
 ['histories','programs'],'all objects created on the heap and shared, all orders of destruction of their constituents',
 'Use after destruction depends on the order in which user code drops references, which tests do not vary, and usually still reads valid-looking memory.',
 ['src/potential_composite.h','src/galaxymodel_base.h','src/galaxymodel_selfconsistent.cpp','src/interface_python.cpp','src/df_halo.h','src/actions_factory.cpp'],
 [('shared_ptr members; reference members only in temporary wrappers','src/*.h')])
p('C18','Invalid model parameters are rejected',
 "A constructor of a density, potential or distribution function given a parameter outside its documented range (such as a negative or NaN scale radius or axis ratio, an out-of-range slope) raises an exception instead of creating an object that yields meaningless values.",
 ['inputs','configurations'],'all constructors of models with restricted parameters, all invalid values including NaN',
 'Tests check few invalid values; comparisons written in a form that lets NaN through look the same in tests.',
 ['src/potential_analytic.h','src/potential_dehnen.cpp','src/potential_spheroid.cpp','src/potential_disk.cpp','src/potential_king.cpp','src/df_halo.cpp','src/df_disk.cpp','src/df_spherical.cpp'],
 [('checks in constructors that throw std::invalid_argument','src/potential_*.cpp, src/df_*.cpp')])
p('C19','File input and output failures are never silent',
 "Whenever the library opens a file for reading or writing (snapshots, tables of models, density and potential coefficients, time-dependent trajectories, configuration files), a failure is noticed and reported. A routine that reads a file which cannot be opened raises an exception (or returns a failure status), unless it was told by its argument that the file may be missing. A routine that writes a file raises an exception or returns a failure status if the file cannot be created or if any part of the data, including the last part still in the buffer when the routine ends, could not be written (such as on a full disk). Whoever calls a routine that returns such a status looks at it and reports the failure by an exception, a status, a Python error or a message. Reading does not lose the last line of a file that has no newline at its end, and never uses bytes that a short file did not provide. Excepted are diagnostic files written on request at a raised verbosity level, and destructors, which cannot report anything.",
 ['inputs','fault_sequences'],'all file reading and writing routines of the library and its interfaces, all failures of the underlying streams at any point',
 'Tests read and write well-formed files on a healthy file system; a stream that fails while the buffer is being written out at the very end leaves no trace unless it is asked about.',
 ['src/particles_io.cpp','src/utils.cpp','src/utils_config.cpp','src/potential_factory.cpp','src/galaxymodel_spherical.cpp','src/interface_python.cpp'],
 [('writeSnapshotText, NemoSnapshotWriter, readSnapshot','src/particles_io.cpp'),('writeDensity, readMassProfile, readTimeDependentArray, readGalaxyPotential','src/potential_factory.cpp'),('ConfigFile','src/utils_config.cpp')])
p('C20','Random results are reproducible for a given seed',
 "With a fixed seed of the random generator and a fixed number of threads, any sequence of sampling operations yields the same samples on every run: inside multi-threaded loops whose iterations are handed out dynamically or in unspecified order, random numbers come only from generators seeded from the data of the iteration and never from the per-thread or any other shared generator, and no other source of randomness is used without being requested.",
 ['schedules','histories'],'all draws of random numbers reachable from parallel loops, all schedules',
 'Whether two runs agree depends on thread scheduling, which is benign in short tests.',
 ['src/math_random.cpp','src/galaxymodel_velocitysampler.cpp','src/galaxymodel_selfconsistent.cpp','src/math_sample.cpp','src/interface_python.cpp','src/orbit.cpp'],
 [('math::PRNGState seeded with math::hash per item','src/galaxymodel_velocitysampler.cpp')])
p('C21','Interrupted computations raise instead of returning partial results',
 "When the user interrupts a long multi-threaded computation (Ctrl-Break), its remaining iterations are skipped and the computation then raises an error; it never returns the partially filled result as if it were complete. The previously installed interrupt handler is restored whichever way the computation ends.",
 ['schedules','fault_sequences'],'all interruptible loops, an interrupt arriving at any moment',
 'Tests send no signals.',
 ['src/utils.cpp','src/utils.h','src/potential_multipole.cpp','src/potential_cylspline.cpp','src/galaxymodel_base.cpp','src/interface_python.cpp'],
 [('utils::CtrlBreakHandler','src/utils.cpp')])
p('C22','Array arguments from Python are validated before raw element access',
 "Elements of an array object supplied from Python are accessed as raw memory only after it has been converted or verified to have the assumed element type, memory layout, number of dimensions and length, for any object that user code may pass or return from its callbacks.",
 ['inputs'],'all raw accesses to array data in the Python module',
 'Tests pass well-formed arrays.',
 ['src/interface_python.cpp'],[('PyArray_FROM_OTF/PyArray_ContiguousFromAny, PyArray_NDIM/DIM checks','src/interface_python.cpp')])

NA='src/math_core.cpp'
p('C24','Malformed text is rejected, never read out of bounds',
 "Whatever text the library is given (data files, configuration files, coefficients of expansions, strings of parameters, names, units, command-line options), no character of a string and no token or line of a parsed list is accessed unless it exists: a line with too few columns, an empty line or string, a missing block of coefficients, unpaired brackets, or a declared number of items larger than what is present lead to an error, a default value or to skipping the line, and never to an access beyond the end of an array.",
 ['inputs'],'all accesses to characters of strings and to elements of arrays of strings in the library, its interfaces and programs, for all texts',
 'Tests read well-formed files and a few malformed ones; each parser has many positions at which a text may end.',
 ['src/potential_factory.cpp','src/particles_io.cpp','src/utils.cpp','src/utils_config.cpp','src/interface_python.cpp'],
 [('parseSphericalHarmonics, parseAzimuthalHarmonics, create*FromCoefs, readTimeDependentArray, readMassProfile, readGalaxyPotential','src/potential_factory.cpp'),('readSnapshotText','src/particles_io.cpp'),('splitString','src/utils.cpp'),('ConfigFile','src/utils_config.cpp')])
p('N01','Potential, force and density of a model are mutually consistent',
 "For every potential the returned force is minus the gradient of the returned potential, the Hessian is the derivative of the gradient, and the density satisfies the Poisson equation.",
 ['inputs','configurations'],'all potentials, all parameters, all points','Tests compare at a few points with finite tolerance.',
 ['src/potential_analytic.cpp','src/potential_multipole.cpp','src/potential_cylspline.cpp'],[('analytic formulas','src/potential_*.cpp')])
p('N02','Action-angle transformations are accurate and invertible',
 "Actions and angles computed by an action finder agree with the true ones to the documented accuracy, are constant along orbits, and mapping back recovers the initial phase-space point.",
 ['inputs','configurations'],'all orbits in all suitable potentials','Tests use a handful of orbits.',
 ['src/actions_staeckel.cpp','src/actions_spherical.cpp','src/actions_torus.cpp'],[('Staeckel fudge, torus machine','src/actions_*.cpp')])
p('N03','Orbit integration conserves integrals to the requested accuracy',
 "An orbit integrated with a given accuracy parameter follows the true trajectory and conserves the energy or Jacobi integral within a tolerance governed by that parameter, and output at requested times equals the dense trajectory.",
 ['inputs','configurations'],'all potentials, initial conditions and accuracies','Tests use a handful of orbits.',
 ['src/orbit.cpp','src/math_ode.cpp'],[('DOP853, Hermite and Prince-Dormand steppers','src/math_ode.cpp')])
p('N04','Quadrature, root-finding and minimisation meet their tolerances',
 "Numerical integration, root-finding and minimisation return a result within the requested tolerance or report failure.",
 ['inputs'],'all integrands and functions','Tests use smooth samples.',
 ['src/math_core.cpp','src/cubature.cpp'],[('adaptive algorithms','src/math_core.cpp')])
p('N05','Interpolators reproduce their nodes and are smooth between them',
 "Splines pass through the given values (and derivatives), have the stated continuity, and regularised splines preserve monotonicity.",
 ['inputs'],'all node sets','Tests use few node sets.',
 ['src/math_spline.cpp'],[('spline construction','src/math_spline.cpp')])
p('N06','Drawn samples follow the requested distribution',
 "Samples drawn from a density, distribution function or galaxy model are distributed according to it.",
 ['inputs','histories'],'all models','Statistical.',
 ['src/math_sample.cpp','src/galaxymodel_base.cpp'],[('adaptive rejection sampling','src/math_sample.cpp')])
p('N07','Moments of a galaxy model equal the integrals of its distribution function',
 "Density, velocity moments, projections and velocity distributions of a galaxy model equal the corresponding integrals of the distribution function within the tolerance.",
 ['inputs','configurations'],'all models and points','Tests use few models with loose tolerance.',
 ['src/galaxymodel_base.cpp'],[('integrateNdim over velocities','src/galaxymodel_base.cpp')])
p('N08','Optimisation solvers return the optimum of the stated problem',
 "Orbit weights returned by the linear or quadratic optimisation solver satisfy the constraints and minimise the objective, or an error is reported.",
 ['inputs'],'all problems','Tests solve few small problems.',
 ['src/math_optimization.cpp'],[('GLPK / BPMPD / CVXOPT','src/math_optimization.cpp')])
p('N09','Saving and reloading a model reproduces its values',
 "A density or potential expansion exported to a file and read back evaluates to the same values to within the printed precision.",
 ['inputs','configurations'],'all expansion potentials and densities','Tests round-trip few models.',
 ['src/potential_factory.cpp'],[('writePotential/readPotential','src/potential_factory.cpp')])
import os; open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl'),'w').write(''.join(json.dumps(x)+'\n' for x in P))
