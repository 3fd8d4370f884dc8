prop('C01', 'Shared state is only touched under its lock',
     'Every object that several threads may use at once (thread pool, managers, platforms, sensors, sensor pairs, result '
     'collections, listener lists, the shared ocean, background tasks) behaves as if each of its public operations had exclusive '
     'access to the state it changes: no interleaving of public calls reads or modifies the same mutable state without a common lock '
     '(or an atomic), and no operation hands out a reference through which that could happen.',
     ['schedules', 'histories'],
     'all interleavings of calls made by client threads and background tasks, for every mutable member of every lockable class',
     'the tests run a handful of schedules on a few sensors; a missing lock almost never shows up in them',
     ['threads/thread_pool.cc', 'threads/thread_controller.cc', 'threads/thread_task.h', 'managed/manager_template.h', 'managed/update_notifier.h',
      'wavegen/wavefront_notifier.cc', 'platforms/platform_manager.cc', 'platforms/platform_model.cc', 'sensors/sensor_manager.cc', 'sensors/sensor_model.cc',
      'sensors/sensor_model.h', 'sensors/sensor_pair.cc', 'eigenverbs/eigenverb_collection.cc', 'biverbs/biverb_collection.cc', 'ocean/ocean_shared.cc'],
     [('read_lock_guard / write_lock_guard', 'threads/read_write_lock.h'), ('atomic flags and counters', 'threads/thread_task.h')],
     'interprocedural lockset dataflow over the CFG of the type-checked program',
     'decides lock discipline for every field of every lockable class on every path; races inside client code or inside const data shared by pointer are out of scope',
     ['any accessor or mutator of the listed classes called from two threads'])
prop('C02', 'The library cannot deadlock on its own locks',
     'No combination of public calls, background tasks and shutdown can make threads wait for each other forever: locks are always '
     'taken in one global order, no thread waits for a lock it already owns, and no thread joins, sleeps on or waits for another thread '
     'while it owns a lock that the other thread may need. Listeners are notified with no lock held.',
     ['schedules', 'programs'],
     'all interleavings of lock acquisitions along every call chain, including destructors run by owners that let go of an object',
     'a deadlock needs two particular call chains to overlap; the tests run each chain mostly alone',
     ['threads/thread_controller.cc', 'threads/thread_pool.cc', 'managed/manager_template.h', 'platforms/platform_manager.cc', 'platforms/platform_model.cc',
      'sensors/sensor_manager.cc', 'sensors/sensor_model.cc', 'sensors/sensor_pair.cc', 'biverbs/biverb_collection.cc', 'eigenverbs/eigenverb_collection.cc'],
     [('lock nesting', 'sensors/sensor_manager.cc'), ('notification outside the locked scope', 'sensors/sensor_pair.cc')],
     'lock-order graph with interprocedural held-lock summaries',
     'decides cycles, re-acquisition, waits and callbacks under a lock on the whole call graph; lock instances of one class are distinguished only by access path',
     ['a hang of any public call'])
prop('R02', 'An unsuccessful lookup never crashes its caller',
     'Looking up something that is not there (an unknown or removed platform, sensor, pair or child, a beam pattern or steering that does not exist, '
     'results that have not been computed yet, a reference that has expired) is reported to the caller as an empty result; no part of the library '
     'uses such a result without first finding out that it is not empty.',
     ['histories', 'inputs', 'schedules'],
     'every history of additions and removals, every identifier, and every point at which a result is still missing',
     'the tests look up objects that exist; removal racing with a computation and unknown identifiers are not exercised',
     ['managed/manager_template.h', 'sensors/sensor_manager.cc', 'sensors/sensor_model.cc', 'sensors/sensor_pair.cc', 'rvbts/rvbts_collection.cc',
      'platforms/platform_model.cc', 'waveq3d/wave_queue.cc'],
     [('null tests after find()', 'sensors/sensor_manager.cc'), ('null tests before use of partial results', 'sensors/sensor_pair.cc')],
     'interprocedural nullness dataflow with branch refinement',
     'decides dereferences of every pointer or iterator that a lookup, cast, expired reference or not-yet-computed member may leave empty',
     ['any function that uses find(), find_sensor(), src_beam(), rcv_beam(), biverbs()'])
prop('C03', 'Background tasks are counted, run and released exactly once',
     'Every background task gets its own identifier and counts as active exactly once, from its construction until it has run, or is '
     'discarded without running; neither an exception thrown by a task nor shutdown of the pool makes the count wrong or stops a worker. '
     'Every task handed to the pool is queued and run exactly once by one worker unless the pool is destroyed first, destruction stops and '
     'joins all workers before it discards what is left, and waiting for the tasks ends normally only when none is active.',
     ['schedules', 'histories', 'programs'],
     'all paths of the task and pool classes, whatever run() does, and all interleavings of the atomic operations they are built from',
     'the tests submit a few well-behaved tasks; exceptions, discarded tasks and shutdown with a filled queue are not exercised',
     ['threads/thread_task.h', 'threads/thread_task.cc', 'threads/thread_pool.cc', 'threads/thread_pool.h'],
     [('once-only release flag', 'threads/thread_task.h'), ('catch-all around run()', 'threads/thread_task.cc')],
     'typestate automata over the control flow graph with interprocedural summaries',
     'decides counting, containment, queueing and shutdown on every path; that run() itself terminates is out of reach',
     ['thread_task, thread_pool, thread_task::wait()'])
prop('C04', 'Aborted computations publish nothing, finished ones publish once',
     'A background computation looks at its abort request before it starts working and again before it repeats any of its units of work; once it has '
     'seen the request it neither reports itself done nor notifies listeners, and otherwise it reports itself done and then notifies its listeners '
     'exactly once with the result. Abort requests and done reports are never withdrawn. A sensor pair that receives a result either starts the next '
     'computation or notifies its listeners, and never does both or neither unless an input is still missing.',
     ['schedules', 'histories'],
     'every point of a computation at which the abort request may become visible, and every order in which results arrive',
     'the tests abort a task at one or two points at most and cannot see a result that is published too often or never',
     ['biverbs/biverb_generator.cc', 'rvbts/rvbts_generator.cc', 'wavegen/wavefront_generator.cc', 'sensors/sensor_pair.cc', 'threads/thread_task.h'],
     [('abort polling loops', 'wavegen/wavefront_generator.cc'), ('notify_early', 'sensors/sensor_pair.cc')],
     'path-sensitive typestate automata tracking the abort flag, the done flag and publication',
     'decides every path of run() and of the result handlers; an abort that arrives after the last look at the flag is by design still published',
     ['done(), abort(), update listeners'])
prop('C05', 'New background work supersedes the old and can be superseded',
     'Whenever a sensor or sensor pair starts a background computation, the previous computation of the same kind that it started has been asked to abort '
     '(or no longer exists) before it is replaced, and the new one is remembered by the object that started it so that it can be aborted in turn. '
     'No task object is handed to the pool a second time.',
     ['histories', 'schedules'],
     'every sequence of updates and results, on every path that starts a computation',
     'the tests wait for one computation to end before they start the next one',
     ['sensors/sensor_pair.cc', 'sensors/sensor_model.cc'],
     [('weak references to running tasks', 'sensors/sensor_pair.h'), ('_wavefront_task', 'sensors/sensor_model.h')],
     'typestate automaton over construction, abort, remembering and launch of tasks',
     'decides every launching path per kind of task; that the remembered task is read under a lock is decided by C01',
     ['sensor_model::update(), sensor_pair::notify_update()'])
prop('C06', 'Tasks and registrations never outlive what they point to',
     'A background task owns, until it ends, every object that it uses or notifies, even if that object is removed from its manager meanwhile. '
     'An object that registers itself as a listener when it is constructed stays registered with the same notifiers until it is destroyed, keeps them alive, and removes '
     'itself from all of them in its destructor; a platform that is destroyed is no longer the host of its former children.',
     ['histories', 'schedules'],
     'every order of removal, destruction and completion, on every path of the constructors, destructors and run() functions',
     'objects in the tests live until all tasks are done',
     ['wavegen/wavefront_generator.cc', 'wavegen/wavefront_generator.h', 'biverbs/biverb_generator.h', 'rvbts/rvbts_generator.h', 'sensors/sensor_pair.cc', 'platforms/platform_model.cc'],
     [('shared references held by tasks', 'biverbs/biverb_generator.h'), ('listener removal in destructors', 'sensors/sensor_pair.cc')],
     'ownership analysis of members and registrations with a typestate check of destructors and run()',
     'decides members, registrations and back-pointers; a listener destroyed by another thread in the middle of its own notification is out of scope',
     ['sensor_manager::remove_sensor() while tasks run'])
prop('R01', 'Registries stay consistent with what was added and removed',
     'Adding an object to a registry either refuses a key that is in use and changes nothing, or makes the object findable and then tells every listener; '
     'removal tells every listener while the object is still there and then makes it unfindable, and automatically assigned keys are never reused. '
     'Every sensor pair that an added sensor can form, as source, as receiver or with itself, exists in exactly the roles the sensors can play, has the '
     'caller\'s listener from the start, is found again from either end, and is gone once either of its sensors has been removed.',
     ['histories', 'inputs'],
     'every sequence of additions and removals of platforms, children, sensors and listeners, for every combination of roles, groups and keys',
     'the tests add and remove two or three sensors in one order; leftovers show only in later lookups',
     ['managed/manager_template.h', 'managed/update_notifier.h', 'platforms/platform_manager.cc', 'platforms/platform_model.cc', 'sensors/sensor_manager.cc'],
     [('object map and listener set', 'managed/manager_template.h'), ('source and receiver lists', 'sensors/sensor_manager.cc')],
     'typestate automata and comparison of the provenance of pair keys on the add and remove sides',
     'decides which pairs are created, named and removed from where the identifiers come from; that generate_hash_key is injective for colliding identifiers is not decided',
     ['sensor_manager::add_sensor, remove_sensor, find_source, find_receiver', 'manager_template::add, remove, find, list'])
prop('M02', 'Objects and variables have a value before they are used',
     'Every constructor leaves every number, flag, enumeration and pointer of the new object with a value on every path, and none of them is read '
     'before it has one, whatever the order of the initialisers. A copied object agrees with the original in everything, except for values that are '
     'marked as missing and are recomputed when asked for. No function reads a local variable on a path on which it was never assigned.',
     ['inputs', 'programs'],
     'every constructor, copy operation and function of the library on every path through them',
     'an unset member often happens to be zero in a test process; the effect shows with another allocator, build type or history of the heap',
     ['waveq3d/wave_queue.h', 'waveq3d/wave_queue.cc', 'types/orientation.h', 'types/gen_grid.h', 'types/data_grid.h', 'sensors/sensor_model.h',
      'threads/thread_task.h', 'wavegen/wavefront_generator.h', 'netcdf/netcdf_coards.h', 'types/seq_vector.h'],
     [('member initialisers', 'waveq3d/wave_queue.cc'), ('values recomputed when missing', 'types/orientation.cc')],
     'definite-assignment dataflow over constructors, the functions they call, and local variables',
     'decides numbers, flags, enumerations and pointers; elements of arrays are treated as assigned by any element assignment, and results returned through pointers are the subject of E01',
     ['any constructor; copies of orientation, wposition1, wvector1'])
prop('M01', 'Heap objects have exactly one owner, references never dangle',
     'Every object the library creates on the heap is handed, on every path that returns normally, to exactly one owner that releases it once and in the right form; objects '
     'with such a raw owner cannot be copied, and moving them between members loses or duplicates none. No object refers to a constructor argument, '
     'and no function returns or keeps a reference, pointer or iterator, that may belong to a temporary, local or erased object. No loop changes the container it iterates over.',
     ['inputs', 'histories', 'programs'],
     'every allocation, release, reference and container loop of the library on every path',
     'leaks and dangling references do not change results in a short test; whether they crash depends on the heap',
     ['waveq3d/wave_queue.cc', 'waveq3d/wave_queue.h', 'types/data_grid_svp.h', 'types/seq_vector.cc', 'ocean/boundary_slope.h', 'ocean/ascii_arc_bathy.cc',
      'netcdf/netcdf_bathy.cc', 'netcdf/netcdf_profile.cc', 'threads/thread_controller.cc', 'rvbts/rvbts_generator.cc'],
     [('destructor and rotation of the wavefronts', 'waveq3d/wave_queue.cc'), ('derivative table', 'types/data_grid_svp.h')],
     'ownership typestate over the control flow graph and escape analysis of references',
     'decides allocations, releases, references and loops; objects that leak because an exception is thrown half way, and cycles of shared pointers, are out of scope',
     ['heap use of the whole library'])
prop('C07', 'Asking a question changes nothing',
     'A query of an ocean, profile, boundary, grid, beam pattern, transmit, sensor or any other object through its const interface changes neither that object, nor anything '
     'it shares with others, nor any static object, and keeps nothing from one call for the next; the only things written are the arguments passed for the results. '
     'No function changes an object that it takes as a constant argument or through a shared pointer to a constant object. '
     'Calling the listeners that an object was given is the only exception.',
     ['inputs', 'histories', 'schedules'],
     'every const member function and every constant argument of the library, through all functions they call, for every order and interleaving of calls',
     'a hidden cache returns the right value until a second thread or a second kind of argument uses the same object',
     ['ocean/ocean_model.h', 'ocean/profile_grid.h', 'ocean/boundary_grid.h', 'types/data_grid.h', 'types/gen_grid.h', 'types/data_grid_svp.h', 'types/data_grid_bathy.h',
      'types/seq_vector.h', 'beampatterns/bp_model.h', 'transmit/transmit_model.h', 'eigenrays/eigenray_collection.cc'],
     [('immutable models shared by const pointers', 'ocean/ocean_model.h'), ('interpolation', 'types/gen_grid.h')],
     'interprocedural modification summaries (mod analysis with access-path roots)',
     'decides what each function can write; reads of state that others change are the subject of C01',
     ['all const member functions'])
prop('L01', 'Angles and rotation of an orientation always agree',
     'After every construction, copy, assignment, rotation and change of a single angle, the yaw, pitch and roll of an orientation and its rotation describe the same attitude, '
     'and changing one angle keeps the other two. Angles that have not been computed yet are computed from the rotation before anything uses them. '
     'Every eigenray that is added to a collection is counted exactly once and considered for the initial arrival time of its target.',
     ['histories', 'inputs'],
     'every sequence of operations on an orientation, by induction over its operations on every path; every way to store an eigenray',
     'the tests set all angles at once or read them in one order',
     ['types/orientation.h', 'types/orientation.cc', 'eigenrays/eigenray_collection.cc'],
     [('angles computed when missing', 'types/orientation.cc'), ('number of eigenrays', 'eigenrays/eigenray_collection.cc')],
     'typestate of the angle and rotation members over all operations, with data dependence of each assigned value',
     'decides which value is computed from which; that the trigonometric formulae are right is not decided',
     ['orientation, platform_model::orient(), eigenray_collection::add_eigenray()'])
prop('W02', 'Published eigenrays, eigenverbs and biverbs describe one path completely',
     'Every eigenray, eigenverb and biverb that is handed to a listener, stored in a collection or read from a file has had each of its members set on that path of the code, '
     'and every total is refilled in all members. Members that are copied come from the quantity of the same meaning: surface, bottom, caustic, upper and lower counts, '
     'phases and losses are those of one ray at one instant, and the source and receiver halves of a biverb come from the source and receiver eigenverb.',
     ['inputs', 'programs'],
     'every place that creates, fills or refills a result record, on every path to its publication, through helper functions',
     'tests look at few members of few records; counts of vertices and caustics are equal in simple oceans, so an exchange does not show',
     ['waveq3d/wave_queue.cc', 'biverbs/biverb_collection.cc', 'biverbs/biverb_generator.cc', 'eigenverbs/eigenverb_collection.cc', 'eigenrays/eigenray_collection.cc'],
     [('assembly of eigenrays and eigenverbs', 'waveq3d/wave_queue.cc'), ('assembly of biverbs', 'biverbs/biverb_collection.cc')],
     'definite-assignment dataflow of record members before publication and provenance of copied members',
     'decides that members are set and where copied values come from; the value of computed members (travel time, intensity, power) is not decided',
     ['eigenray_collection, eigenverb_collection, biverb_collection'])

prop('U02', 'Quantities keep their meaning wherever they go',
     'No value is stored, passed, returned or compared as something other than what it is: a quantity of the source never takes the place of one of the receiver or target, '
     'an elevation that of an azimuth, a latitude that of a longitude or altitude, yaw that of pitch or roll, a minimum that of a maximum, a surface limit that of the bottom, '
     'a phase that of an amplitude, or a row that of a column. The components of one direction or position all belong to the same side of the path.',
     ['inputs', 'programs'],
     'every assignment, initialisation, argument, return value and comparison in the library whose two sides name a physical role, through copies, conversions, sums and helper variables',
     'tests use symmetric geometries (monostatic sensors, square grids, equal limits) in which an exchange of two quantities of the same type does not show',
     ['sensors/sensor_manager.cc', 'sensors/sensor_pair.cc', 'sensors/sensor_model.cc', 'rvbts/rvbts_generator.cc', 'rvbts/rvbts_collection.cc', 'wavegen/wavefront_generator.cc', 'types/wposition1.h', 'ocean/ocean_model.h'],
     [('source and receiver roles', 'sensors/sensor_manager.cc'), ('positions and orientations', 'platforms/platform_model.cc'), ('scattering angles', 'biverbs/biverb_generator.cc')],
     'role inference (a flow-sensitive naming-based type system) over the type-checked program',
     'decides exchanges between values whose declared names carry a role; quantities whose names say nothing about their role are not judged',
     ['arguments of constructors, setters and lookups'])

prop('D01', 'Files hold the computed data and are read back unchanged',
     'Every variable that a result file defines is filled for every record, on every path through the writer, each record in a slot of its own and all variables of one record in the same slot, with the quantity the variable is named after. '
     'A file that the library reads back yields every variable that was written, stored in the member of that name for every record, with the conversion of units undone; the Python reader asks only for variables that exist and keeps each under its own name. '
     'When gridded environmental data is read, each start, extent and axis of the grid belongs to its own coordinate dimension.',
     ['inputs', 'programs'],
     'every NetCDF access of the library, over all paths and any number of records, targets and frequencies, through helper functions; the Python module that reads the files',
     'tests write files and rarely look at them; exchanged counts and reused records are invisible with one ray, one target or one frequency',
     ['eigenrays/eigenray_collection.cc', 'eigenverbs/eigenverb_collection.cc', 'biverbs/biverb_collection.cc', 'rvbts/rvbts_collection.cc', 'waveq3d/wave_queue_netcdf.cc', 'netcdf/netcdf_bathy.cc', 'netcdf/netcdf_profile.cc', 'netcdf/netcdf_coards.h', 'python/src/usml/netcdf.py'],
     [('eigenray files', 'eigenrays/eigenray_collection.cc'), ('eigenverb files', 'eigenverbs/eigenverb_collection.cc'), ('wavefront log', 'waveq3d/wave_queue_netcdf.cc'), ('gridded input', 'netcdf/netcdf_profile.cc')],
     'symbolic value numbering of every NetCDF access over all paths (induction variables of records, provenance of values, path coverage)',
     'decides where each value comes from and goes to; numerical accuracy of the conversions and the behaviour of the NetCDF library are not decided',
     ['write_netcdf(), read_netcdf(), save_netcdf(), netcdf_bathy, netcdf_profile, netcdf_coards'])

prop('W01', 'The wavefront marches with a consistent third-order scheme',
     'Every new wavefront follows from wavefronts that lie exactly one, two and three time steps before it, with a scheme that integrates position and direction exactly up to third order in the time step, '
     'in all three components, and with derivatives that were computed from the position they are used with. At the start, after every step and after every reflection the wavefronts that the next step combines '
     'are one time step apart and the clock agrees with them. A reflected ray restarts in all of them, completely, from the point and time of the collision.',
     ['inputs', 'histories'],
     'every path through the start, the step and the reflections, through helper functions; all components of all integration formulas, as exact rational weights',
     'a wrong order of wavefronts or a stale derivative changes travel times by less than the tolerance of most tests and shows only in steep gradients',
     ['waveq3d/ode_integ.cc', 'waveq3d/wave_queue.cc', 'waveq3d/reflection_model.cc', 'waveq3d/wave_front.h'],
     [('integration formulas', 'waveq3d/ode_integ.cc'), ('start and step', 'waveq3d/wave_queue.cc'), ('restart at boundaries', 'waveq3d/reflection_model.cc')],
     'extraction of exact linear forms with order conditions, and a type system of time levels over symbolic values on all paths',
     'decides which wavefronts, weights and time steps are combined; rounding errors and the choice of the time step are not decided; squared distances to the targets are not restarted at a reflection in this design',
     ['propagation with wave_queue'])

prop('W03', 'The history of each ray is carried along and counted once',
     'With every step each ray keeps its number of surface and bottom reflections, upper and lower vertices and caustics, and adds the attenuation, phase and distance of that step to those of the step before, before eigenrays are searched. '
     'A reflection counts once, for the boundary it happened at, in all wavefronts, and adds its loss and phase for every frequency. '
     'An upper or lower vertex is counted exactly when a ray turns from up to down or from down to up within a step, a caustic exactly when neighbouring rays with equal numbers of reflections cross in depth, and a caustic turns the phase back by a quarter of a cycle for every frequency; every ray is searched.',
     ['inputs', 'histories'],
     'every path through the step, the reflections and the search for vertices and caustics; all sign combinations of the directions and distances that are compared',
     'tests compare counts for a few rays in simple oceans; a lost phase or a count that is not carried shows only in sums of several paths',
     ['waveq3d/wave_queue.cc', 'waveq3d/reflection_model.cc'],
     [('step', 'waveq3d/wave_queue.cc'), ('reflection loss', 'waveq3d/reflection_model.cc')],
     'symbolic values of wavefront members on all paths, must-path coverage, and abstract evaluation of branches over signs',
     'decides what is added, counted and carried; the size of the losses is computed by the boundary models and is not decided',
     ['propagation with wave_queue'])

prop('W04', 'Rays, reflections and eigenrays obey the equations of ray acoustics',
     'In spherical earth coordinates a ray starts at the source in the direction of its elevation and azimuth divided by the sound speed, and the rates of change of its position and direction, and the distance it travels in a step, are those of ray theory for the local sound speed and gradient. '
     'A ray that reflects continues from the second order estimate of the point of collision in the direction that is mirrored at the unit normal of the boundary, with the length of a direction at the local sound speed. '
     'An eigenray lies where the second order expansion of the squared distance to the target, whose derivatives and inverse matrix are exact for every quadratic function, has its minimum; its time, source and target angles are the values at that offset, and its losses are interpolated between the wavefronts around it.',
     ['inputs'],
     'every formula on every path through the wavefront update, the start, the step, the reflections and the construction of eigenrays; all values of positions, directions, speeds and derivatives',
     'tests compare a few rays with other models within loose tolerances, which hide a wrong small term, and most of them run in range independent oceans where cross terms vanish',
     ['waveq3d/wave_front.cc', 'waveq3d/wave_queue.cc', 'waveq3d/reflection_model.cc', 'waveq3d/ode_integ.cc'],
     [('rate equations', 'waveq3d/wave_front.cc'), ('collision and eigenrays', 'waveq3d/wave_queue.cc'), ('mirror law', 'waveq3d/reflection_model.cc')],
     'symbolic evaluation of the source to exact algebraic normal forms, compared with the required formulas',
     'decides the formulas, not the size of the discretization error; where the search for the offset falls back to fewer dimensions only the matrices are decided',
     ['propagation with wave_queue'])

prop('O01', 'Gradients and normals of the ocean models belong to their values',
     'The gradient that every sound speed profile returns, with or without the flat earth correction, is in each of its three components the derivative of the sound speed it returns, for grids in terms of the slopes of the table. '
     'The normal of every sea surface and bottom has length one and is perpendicular to the slope of the depth in both horizontal directions. '
     'Speed and depth are the same whether or not gradient or normal are requested.',
     ['inputs'],
     'every path through the sound speed and depth of every profile and boundary model, all locations and all values of the parameters of the models',
     'tests compare gradients at a few points of one profile, mostly along depth only, so that a wrong horizontal component or a wrong correction does not show',
     ['ocean/profile_model.cc', 'ocean/profile_munk.cc', 'ocean/profile_n2.cc', 'ocean/profile_catenary.cc', 'ocean/profile_linear.cc', 'ocean/profile_grid.h', 'ocean/boundary_grid.h', 'ocean/boundary_slope.cc', 'ocean/boundary_flat.cc'],
     [('profiles', 'ocean/profile_munk.cc'), ('flat earth correction', 'ocean/profile_model.cc'), ('boundaries', 'ocean/boundary_grid.h')],
     'symbolic evaluation of the source to exact algebraic normal forms, with symbolic differentiation',
     'slopes of interpolated tables are taken as the derivatives of the table; points where a piecewise profile has a kink are not judged',
     ['profile_model::sound_speed(), boundary_model::height()'])

prop('O02', 'One location and many locations give the same answer',
     'Where an ocean model answers for a single location and for an array of locations, both give the same values, normals and amplitudes for every location, whichever outputs are requested.',
     ['inputs'],
     'every model of sea surface, bottom, volume layers, reflection loss and scattering that has both variants; all paths, locations and angles, with and without the optional outputs',
     'tests exercise one of the variants of a model, and the propagation model uses different ones for propagation and for reflection',
     ['ocean/boundary_grid.h', 'ocean/boundary_slope.cc', 'ocean/boundary_flat.cc', 'ocean/volume_flat.h', 'ocean/scattering_lambert.h', 'ocean/scattering_chapman.h', 'ocean/scattering_constant.h'],
     [('boundaries', 'ocean/boundary_grid.h'), ('scattering', 'ocean/scattering_lambert.h')],
     'symbolic evaluation of both variants to exact algebraic normal forms, compared path by path',
     'pairs whose forms cannot be reduced are counted as not judged in the evidence',
     ['boundary_model::height(), volume_model::depth(), scattering_model::scattering()'])

prop('T01', 'Coordinates keep their meaning through every conversion',
     'Latitude, longitude and altitude, spherical earth coordinates, Cartesian earth coordinates and local directions convert into each other by the exact relations between them, and what is set is what is read. '
     'Distances, dot products, great circle ranges, bearings and destinations are those of these coordinates, body coordinates turn with yaw, pitch and roll, and a moving platform with everything mounted on it is where its position, orientation, speed and time put it.',
     ['inputs'],
     'every conversion and accessor for single positions and grids of positions and directions; all positions, directions, orientations and speeds, with the special cases at poles and on the equator',
     'tests convert a few points, mostly near the equator and along one axis, where wrong terms vanish',
     ['types/wposition.cc', 'types/wposition1.cc', 'types/wposition1.h', 'types/wvector.cc', 'types/wvector1.cc', 'types/bvector.h', 'types/orientation.cc', 'platforms/platform_model.cc'],
     [('positions', 'types/wposition1.cc'), ('directions', 'types/wvector1.cc'), ('platforms', 'platforms/platform_model.cc')],
     'symbolic evaluation of the source to exact algebraic normal forms, compared with the required relations',
     'decides the relations in real arithmetic, not rounding; paths for special points are judged by their condition',
     ['wposition, wvector, bvector, platform_model'])

prop('V01', 'Reverberation is the sum of the overlaps of Gaussian footprints',
     'Every eigenverb has the travel time, length, width and power of the footprint that the beam of its ray leaves on the interface, after the attenuation along its path. '
     'A pair of source and receiver eigenverbs has the power and duration of the overlap of their two tilted Gaussian footprints, scaled by the scattering strength, and the sum of their travel times. '
     'The reverberation time series starts at zero and sums one Gaussian for each pair, pulse and channel, with the product of pulse level, pair power, pulse length and the beam levels in the directions of the eigenverbs, around the delay of the pulse plus the travel time.',
     ['inputs'],
     'every formula on every path through the construction of eigenverbs, biverbs and time series; all positions, tilts, sizes, pulses and orientations',
     'tests count biverbs and write files; a wrong sign, angle or factor shows only for tilted footprints, rotated arrays or several frequencies',
     ['waveq3d/wave_queue.cc', 'biverbs/biverb_collection.cc', 'rvbts/rvbts_collection.cc'],
     [('overlap', 'biverbs/biverb_collection.cc'), ('time series', 'rvbts/rvbts_collection.cc'), ('footprint', 'waveq3d/wave_queue.cc')],
     'symbolic evaluation of the source to exact algebraic normal forms, compared with the required formulas',
     'decides the formulas in real arithmetic, not how well Gaussian footprints represent the sound field; the number of terms cut off below the power threshold is not decided',
     ['biverb_collection, rvbts_collection'])

prop('B01', 'Beam patterns have the documented level and directivity',
     'For every arrival direction, steering, frequency and sound speed, each beam pattern gives the level of its documented formula (omni, cardioid, sine and cosine, box and Gaussian around the steering direction, steered line and planar arrays, piston, weighted elements, table of measured levels), nothing from behind a back baffle, and combinations give the product or sum of their parts. '
     'The directivity is that of the documented formula or, where there is none, the average of the level over all directions. '
     'Neither depends on what the output contained before.',
     ['inputs'],
     'every pattern class, constructor and kind of pattern, on both sides of the baffle and on every path; all directions, steerings, frequencies and constructor arguments',
     'tests draw pictures of one array at one frequency and compare most patterns with themselves; azimuths are never compared across the back of the array',
     ['beampatterns/bp_model.cc', 'beampatterns/bp_line.cc', 'beampatterns/bp_planar.cc', 'beampatterns/bp_piston.cc', 'beampatterns/bp_solid.cc', 'beampatterns/bp_gaussian.cc',
      'beampatterns/bp_cardioid.cc', 'beampatterns/bp_trig.cc', 'beampatterns/bp_multi.cc', 'beampatterns/bp_arb.cc', 'beampatterns/bp_grid.cc'],
     [('level', 'beampatterns/bp_line.cc'), ('directivity', 'beampatterns/bp_model.cc')],
     'symbolic evaluation of the source to exact algebraic normal forms, compared with the documented formulas',
     'decides the formulas in real arithmetic, not rounding near grating lobes; box edges are decided for representative directions; for the average over directions the contribution of one direction and the range of the loops are decided; baffled pistons and planar arrays must have half the directivity of unbaffled ones',
     ['bp_model and its subclasses'])

prop('O03', 'Models of the environment follow their published formulas',
     'For every location, frequency, angle and parameter, the analytic models of sound speed (Munk, linear, N2 linear, catenary, with and without the flat earth correction; nine term equation of Mackenzie), absorption (Thorp with depth correction, constant), ambient noise (Wenz, constant), surface and bottom reflection (Eckart, Beckmann-Spizzichino, Rayleigh with its table of sediments, constant), scattering (Chapman-Harris, Lambert, constant) and wave height (Pierson-Moskowitz) return the values of their published formulas. '
     'Every frequency of the result belongs to the frequency at its place, and nothing depends on what the output contained before. '
     'Models that look up a bottom province or ask another model do so for the location, frequencies and angles they were given, and imported axes end where the file says.',
     ['inputs'],
     'every class of model, constructor and regime (shipping levels, rain rates, wind and frequency bands, fluid and solid bottoms, above and below a break); all locations, frequencies, angles and constructor arguments',
     'most tests of these models write tables and plots without comparing them; the others compare one wind speed, angle or sediment',
     ['ocean/attenuation_thorp.cc', 'ocean/attenuation_constant.cc', 'ocean/profile_munk.cc', 'ocean/profile_linear.cc', 'ocean/profile_n2.cc', 'ocean/profile_catenary.cc', 'ocean/profile_model.cc', 'ocean/data_grid_mackenzie.h',
      'ocean/ambient_wenz.cc', 'ocean/ambient_constant.h', 'ocean/reflect_loss_eckart.h', 'ocean/reflect_loss_beckmann.cc', 'ocean/reflect_loss_rayleigh.cc', 'ocean/reflect_loss_rayleigh_grid.cc', 'ocean/reflect_loss_netcdf.cc',
      'ocean/reflect_loss_constant.h', 'ocean/scattering_chapman.h', 'ocean/scattering_lambert.h', 'ocean/scattering_constant.h', 'ocean/wave_height_pierson.h'],
     [('reflection', 'ocean/reflect_loss_rayleigh.cc'), ('ambient noise', 'ocean/ambient_wenz.cc'), ('absorption', 'ocean/attenuation_thorp.cc')],
     'symbolic evaluation of the source to exact algebraic normal forms, compared with the published formulas',
     'decides the formulas in real arithmetic; the reflection angle is the grazing angle; limits of bands are decided for representative frequencies on either side',
     ['attenuation(), sound_speed(), ambient(), reflect_loss(), scattering()'])

prop('G01', 'Sequences and grids interpolate as requested',
     'A sequence of two or more numbers (linear, logarithmic, listed, ray fan, best fit, clipped) has the values that its arguments ask for, the distance to the next value as increment, and finds for every value the nearest element and the interval that contains it, the first or last interval when it is outside; listed values that do not rise or fall throughout are rejected. '
     'A grid follows along each axis the nearest value, the straight line or the cubic Hermite polynomial with the shape preserving slopes of Fritsch and Carlson (PCHIP), whichever was requested and the number of points allows, at the nearest end when the edge is limited and continued beyond it when not; matrices of locations and the fast grid for sound speed give the same values, and the fast grid for bathymetry a bicubic polynomial through the table in place of PCHIP. '
     'The slopes are those of that interpolation, carried along the other axes like the values; for PCHIP the general grid gives the linear blend of the slopes at the two points around the location and the fast grids give the derivative of the value.',
     ['inputs'],
     'every constructor of a sequence for up to five values; every type of interpolation in one and two dimensions and nine combinations in three, limited or not, with axes of one, and of four or more points, in both directions; all axis values, table values and locations',
     'tests interpolate a few smooth functions on evenly spaced axes and compare within loose tolerances; uneven, descending and short axes, the first and last interval and slopes along several axes are hardly sampled',
     ['types/gen_grid.h', 'types/gen_grid_utils.h', 'types/data_grid.h', 'types/data_grid_svp.h', 'types/data_grid_bathy.h', 'types/seq_vector.h', 'types/seq_vector.cc', 'types/seq_linear.h', 'types/seq_log.h',
      'types/seq_data.h', 'types/seq_data.cc', 'types/seq_rayfan.cc'],
     [('interpolation', 'types/gen_grid.h'), ('limited PCHIP slopes', 'types/gen_grid_utils.h'), ('index of a value', 'types/seq_data.cc')],
     'abstract interpretation of the source over exact terms, partitioned by the outcomes of its comparisons, compared with the defining formulas',
     'decides the formulas in real arithmetic; partitions that contain none of the sample arguments are not judged; terms of cubic interpolation along two and more axes are compared by value at sample arguments, all others as exact normal forms; locations half way between two points are left open; the slope of the bicubic polynomial at the points is decided inside evenly spaced tables',
     ['gen_grid::interpolate(), data_grid_svp, data_grid_bathy, seq_vector and its subclasses'])
