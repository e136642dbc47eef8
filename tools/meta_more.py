prop('C13', 'A protocol is the ordered product of its current steps',
     'The propagator of a free evolution, rotation or protocol is always that of the current parameters: frequencies, '
     'terms, step size, samples, step ratio, angle, phase, axis, implementation. A protocol multiplies its steps in '
     'order, including repeated, adjoint, nested and shared ones, whichever step or protocol was read before. Updates '
     'of a protocol or step, by a value or a function, act on that protocol or step only and are undone afterwards; a '
     'protocol with a time dependency is the product of its propagators at the listed values; a fixed step keeps its '
     'propagator.',
     ['histories', 'inputs'], 'every history of parameter changes and readings in the bounds, any parameter values',
     'Propagators are cached and invalidated by flags passed between objects; a missed flag shows only after particular '
     'sequences of reading and changing.',
     [CL + 'QPro.py', CL + 'QGates.py', CL + 'baseClasses.py'],
     [('protocol propagators', CL + 'QPro.py: genericProtocol.getUnitary'), ('steps', CL + 'QPro.py: qProtocol.addStep'),
      ('rotations', CL + 'QGates.py: SpinRotation._rotMat'), ('updates', CL + 'QPro.py: Update')],
     ['unitary() of systems, steps and protocols'],
     'up to three steps, histories of two or three changes; non-diagonal exponentials are uninterpreted functions')
prop('C16', 'Time parameters determine each other and are followed',
     'Of total time, step size and step count any two, set in any order on a simulation or through a system, determine '
     'the third: a given count is the number of steps and their size is total time over count, otherwise the count is '
     'floor(total/step)+1. Systems and protocols in a simulation follow its times and samples except those they set '
     'themselves, before or after being added to it, which affect nobody else, and their propagators are always those of the current values.',
     ['histories', 'inputs'], 'every order of settings and readings in the bounds, any times and counts',
     'Parameters are shared between simulations by references that are broken by setting; tests set them once.',
     [CL + 'QSimBase.py', CL + 'QSim.py', CL + 'QPro.py'],
     [('time parameters', CL + 'QSimBase.py: timeBase'), ('binding', CL + 'QSimBase.py: timeBase._bound'),
      ('setting', CL + 'QSimBase.py: setAttrParam')],
     ['time parameters and propagators of simulations, systems and protocols'],
     'histories of two to four settings; exact reals (the floating-point floor of nearly integer ratios is outside)')
prop('C19', 'A run applies the current propagators step by step and keeps every state',
     'Running a simulation takes each protocol from its own or its system\'s initial state and applies its current '
     'propagator once per step (each step of a protocol its number of samples); the states, initial one included, are '
     'stored in order for each protocol unless they are to be deleted. Computes are called once per state, with the states '
     'of that step; pre and post computes once per run. Time-dependent terms and swept time dependencies take the value '
     'of each step, also where a system or protocol has time parameters of its own, and running again starts afresh at '
     'time zero.',
     ['histories', 'inputs'], 'every initial state, parameter and step size, runs repeated after changes in the bounds',
     'Loops over steps, protocols and computes with shared state between runs; tests look at expectation values of one run.',
     [CL + 'QSim.py', CL + 'modularSweep.py', CL + 'QRes.py', CL + 'baseClasses.py'],
     [('evolution', CL + 'modularSweep.py: timeEvolDefault'), ('steps', CL + 'modularSweep.py: timeEvolBase'),
      ('running', CL + 'QSim.py: Simulation.run'), ('computes', CL + 'baseClasses.py: computeBase')],
     ['stored states, arguments of computes and current times of runs'],
     'up to three steps, two protocols and three runs; non-diagonal exponentials are uninterpreted functions')
prop('C10', 'Names and aliases are equally good keys and belong to one object',
     'Every object has a name of its own, internal ones starting with an underscore. An alias belongs to one object: giving '
     'it (or a name) to another raises ValueError. Objects are found by themselves, their name and each alias, otherwise '
     'ValueError is raised; objects that no longer exist are not found and their aliases are free. In dictionaries of objects every operation with the key, its name or an alias acts on the one '
     'entry of that key; containers hold what was added and not removed, in order, whatever reference was used.',
     ['histories', 'inputs'], 'every pattern of equal and different aliases, every operation and history in the bounds',
     'The dictionaries redefine equality and lookup of keys; each operation has to respect it.',
     [CL + 'base.py'],
     [('keys', CL + 'base.py: aliasClass'), ('dictionary', CL + 'base.py: aliasDict'), ('objects', CL + 'base.py: named'),
      ('containers', CL + 'base.py: qBase')],
     ['lookups, lengths and contents of dictionaries and containers'],
     'up to three keys or objects and histories of two or three operations; aliases are free labels')
prop('C14', 'Sweeps visit every combination once and file results under its indices',
     'A simulation with sweeps runs once for every combination of their values, simultaneous sweeps sharing an index and '
     'each combinatorial one after the first adding its own, the last the fastest; results and states are nested lists '
     'in the order of the sweeps, each point evolved from the initial state with the values of its indices. Sweeps of any '
     'attribute, several systems, ranges, custom functions and auxiliary keys do so, and changed, added and removed '
     'sweeps are followed by the next run.',
     ['histories', 'inputs'], 'every loop counter of the given lengths, any values, every change between runs in the bounds',
     'Indices are computed from one loop counter and results reshaped afterwards; tests use one or two fixed sweeps.',
     [CL + 'QSweep.py', CL + 'modularSweep.py', CL + 'QRes.py'],
     [('indices', CL + 'QSweep.py: Sweep._indicesForSweep'), ('lengths', CL + 'QSweep.py: Sweep.prepare'),
      ('values', CL + 'QSweep.py: Sweep.runSweep'), ('points', CL + 'modularSweep.py: _runSweepAndPrep')],
     ['states, results and attribute values at every point of a sweep'],
     'up to three sweeps of up to three values in runs; index arithmetic up to five sweeps and lengths up to 2^16')
prop('C15', 'Parallel runs give the results of serial runs, and nothing leaks between runs',
     'A run in a process pool stores the same results, states and calculated values, in the same shape and under the same '
     'objects and keys, as a serial run, in whatever order its tasks are done. Averaged results are the means of their '
     'values at each point. Results are nested in the shape of the sweeps with single-element lists unwrapped. A run '
     'keeps only its own results or, with resetRes=False, also all earlier ones, of every simulation, before its own; systems '
     'find their own states.',
     ['histories', 'inputs', 'schedules'], 'any parameters; serial, parallel and repeated runs of the simulations in the bounds',
     'Parallel runs pickle the simulation and merge results back by name; tests compare expectation values at most.',
     [CL + 'QRes.py', CL + 'modularSweep.py', CL + 'QSim.py', CL + 'base.py'],
     [('merging', CL + 'QRes.py: qResults'), ('pool', CL + 'modularSweep.py: paralEvol'), ('pickling', CL + 'base.py: named')],
     ['resultsDict, states and calculated after runs'],
     'pool tasks run on pickled copies in either order; operating-system scheduling is outside; two or three values, two steps')
prop('C17', 'Open systems evolve by the Lindblad equation of their current dissipators',
     'With dissipators attached, a free evolution is exp(L dt), L the Lindblad generator of the Hamiltonian and of every '
     'jump operator once, embedded at its system, with rate jRate times (thermal occupation of its bath + type). Protocols '
     'combine their own dissipators with those of their steps and rotations as super-operators, and simulations start from '
     'the density matrix of the initial state. Values given in any order, and later changes of rates, temperatures, '
     'operators and systems, take effect.',
     ['histories', 'inputs'], 'any rates, temperatures, frequencies, jump operators and initial states, histories in the bounds',
     'No test runs an open system; rates, operators and propagators are cached along a chain of objects.',
     [CL + 'environment.py', CL + 'QPro.py', CL + 'modularSweep.py', TB + 'evolution.py', TB + 'thermodynamics.py'],
     [('dissipators', CL + 'environment.py: dissipatorObj'), ('baths', CL + 'environment.py: thermalBath'),
      ('propagators', CL + 'QPro.py: genericProtocol.getUnitary'), ('evolution', CL + 'modularSweep.py: timeEvolBase')],
     ['propagators and stored states of open systems'],
     'one to three subsystems, up to three steps, two changes; exponentials of generators are uninterpreted functions')
prop('C25', 'Copies are independent equals, and systems compose with +, - and *',
     'A copy of a quantum system, single, composite or nested, used before or not, has the same class, dimension, terms '
     'with their orders and time dependencies, couplings among its own sub-systems, Hamiltonian and initial state, but '
     'another name; later changes of either do not reach the other. Keywords of copy are set on the copy. Sums, integer '
     'multiples and differences are composites of the given systems in order, with the sum of all their terms embedded '
     'in their product space; multiples and a + a use copies.',
     ['histories', 'inputs'], 'any frequencies; every kind of system, initial state and one later change in the bounds',
     'Copies are rebuilt term by term with systems mapped by position; tests copy single-term systems and never change them.',
     [CL + 'QSystem.py'],
     [('copying', CL + 'QSystem.py: QuantumSystem.copy'), ('sums', CL + 'QSystem.py: QuantumSystem.__add__'),
      ('multiples', CL + 'QSystem.py: QuantumSystem.__rmul__'), ('differences', CL + 'QSystem.py: QuantumSystem.__sub__')],
     ['dimension, Hamiltonian, initial state and propagator of copies and sums'],
     'one to three terms, two or three sub-systems, two levels of nesting; simulation settings and protocols are not copied')


prop('C26', 'Jaynes-Cummings, Rabi and Dicke couplings are the textbook ones',
     'For a composite containing a cavity and a qubit or spin, in any order and with other systems before, between or '
     'after, JC(g), Rabi(g) and Dicke(g) add to its Hamiltonian exactly g(a J+ + a\u2020 J-), g(a + a\u2020) sigma_x (qubit) and '
     'g(a + a\u2020) Jx on those two, whether they are given, in either order, or found: the first cavity and the '
     'first qubit or spin. Later changes of g, dimension or '
     'frequencies are followed, by the Hamiltonian of the coupling too; repeated couplings add up. A pair without a '
     'cavity is a ValueError. The same for the legacy compQSystem classes.',
     ['histories', 'inputs'], 'every strength and frequency; every order, position, dimension and change in the bounds',
     'Couplings consist of two terms created on the composite and a third object holding their strength; tests check one order.',
     [CL + 'extensions/couplings.py', CL + 'QTerms.py', CL + 'QSys.py'],
     [('new classes', CL + 'extensions/couplings.py: JC, Rabi, Dicke, checkCavQub'),
      ('legacy classes', CL + 'extensions/couplings.py: JCold, RabiOld, DickeOld'), ('sums of terms', CL + 'QTerms.py: QTerm')],
     ['Hamiltonian of the composite and of the coupling'],
     'cavities of dimension 2 to 4, qubits and spin 1; systems whose operator is sigma_z or Jz; the strength is not made time dependent')
prop('C27', 'A drive is the sum of its pulses, each confined to its own time window',
     'pulse.apply(t) is func(t, *funcArgs, **funcKwargs) times its scale for t0 < t < t1 and 0 otherwise; the value of '
     'a drive at t is the sum over its present pulses, however they were given (addPulse, pulses, addSubSys, keyword); '
     'totalShape lists these values for the times it is given. Both follow every later change of t0, t1, func, '
     'funcArgs, funcKwargs, of the pulses and of the times. addPulse(rotation=r) scales the pulse such that 2 pi times '
     'its area is r.',
     ['inputs', 'histories'], 'any windows, times, rotation and coefficients of the shapes',
     'Window edges, overlaps and changes after a read cannot be sampled; there are no tests of drives at all.',
     [CL + 'QDrive.py'],
     [('pulses', CL + 'QDrive.py: pulse.apply'), ('drives', CL + 'QDrive.py: qDrive.apply'),
      ('shapes', CL + 'QDrive.py: genericDrive.totalShape'), ('rotations', CL + 'QDrive.py: qDrive.addPulse')],
     ['values of apply and totalShape'],
     'one to three pulses, shapes polynomial in time (constant and linear ones for rotations, whose midpoint rule is exact)')
prop('C24', 'Eigenvector statistics and random-matrix distributions are the textbook ones',
     'EigenVectorDist(x, dim, beta) is the normalised density of component amplitudes: Gamma(d/2)/Gamma((d-1)/2) '
     '(1-x)^((d-3)/2)/sqrt(pi x), (d-1)(1-x)^(d-2), (d-1)(d-2)x(1-x)^(d-3) for beta 1, 2, 4, cut to [1e-30, 1e30]; '
     'WignerDyson is the surmise for beta 0, 1, 2, 4; Poissonian is lam^n exp(-lam)/n!. Component statistics of '
     'matrices, eigenvectors and kets are the squared moduli of the components in order; with symp they are summed in '
     'consecutive pairs of one vector. Inputs are not changed.',
     ['inputs'], 'any amplitude, spacing, rate and complex vectors; dimensions within the bounds',
     'There are no tests of any of these functions.',
     [TB + 'rmtDistributions.py', TB + 'eigenVecVal.py'],
     [('distributions', TB + 'rmtDistributions.py: EigenVectorDist, WignerDyson, Poissonian'),
      ('statistics', TB + 'eigenVecVal.py: _eigStat, _eigStatEig, _eigsStatEigSymp, eigVecStatKet')],
     ['returned values'],
     'amplitudes in (0, 1), dimensions 3 to 12 and vectors of dimension 2 to 6; _eigStat on diagonal matrices, where the eigensolver is exact')
prop('C18', 'Discarding cached matrices never changes a result',
     'delMatrices of any object (system, sub-system, term, coupling, gate, step, protocol or simulation), called at any '
     'time, before or after any read or parameter change, between two runs or by the compute functions during a run, '
     'leaves every later Hamiltonian, propagator, initial state and simulated state what it would have been without '
     'it. Initial states are recreated from what was given: to sub-systems, to the composite, as a matrix or to the '
     'simulation.',
     ['histories', 'schedules'], 'any parameter values; any object and moment, and one change, in the bounds',
     'Discards follow links between objects in both directions, and drop initial states too; tests only see matrices become None.',
     [CL + 'baseClasses.py', CL + 'QSimBase.py', CL + 'QSystem.py', CL + 'QSimComp.py'],
     [('caches', CL + 'baseClasses.py: paramBoundBase.delMatrices'), ('states', CL + 'QSimBase.py: stateBase.delMatrices'),
      ('systems', CL + 'QSystem.py: QuantumSystem.delMatrices'), ('protocols', CL + 'QSimComp.py: QSimComp.delMatrices')],
     ['Hamiltonians, propagators, initial and simulated states'],
     'a coupled pair, flat or in another composite, a protocol of three steps, simulations of two steps')
prop('C28', 'Results saved to CSV files are read back value for value',
     'saveCSV writes a list or array of numbers, or of rows of numbers of any lengths, integer, real or complex, of '
     'Python or numpy, to one file with the given name (a time stamp by default) in the given directory, created when '
     'missing and returned; readCSV gives the same rows in the same order with the requested type (np.complex128: the '
     'real parts unless realVal is False; a single row is returned as itself). saveQResCSV saves every stored result '
     'of every object, from single values to nested lists, each table to a file of its own, named by the name and '
     'aliases of the results, the key and the joined indices. Data and other files are not changed.',
     ['inputs', 'configurations'], 'any numbers; shapes and combinations within the bounds',
     'There are no tests of saving or reading; losses show only for some types, shapes and numbers of sweeps.',
     ['src/quanguru/extensions/saveReadCSV.py', 'src/quanguru/extensions/_helpers.py'],
     [('writing', 'src/quanguru/extensions/saveReadCSV.py: saveCSV'),
      ('reading', 'src/quanguru/extensions/saveReadCSV.py: readCSV'),
      ('results', 'src/quanguru/extensions/saveReadCSV.py: saveQResCSV, _recursiveSaveList')],
     ['files written, arrays read'],
     'tables of up to three rows of up to three values, results nested up to five levels, runs with up to three sweeps; '
     'text of numbers is modelled as exact, as str and float of Python are')
prop('C29', 'Legacy systems have the Hamiltonian of their current terms and couplings',
     'For the legacy classes (qSystem, SpinOld, QubitOld, CavityOld, compQSystem, term, qCoupling), totalHam of a system is '
     'the sum of frequency times operator^order over its present terms, and of a composite, nested in any order, the '
     'sum over its systems at their places and strength times the products of the operators of its couplings; '
     'couplingHam, the Hamiltonians of the parts and the dimension agree with it. Later changes of frequency, operator, '
     'order, dimension or strength, added or removed terms, systems and couplings, and time dependencies are followed, '
     'also by unitary(), which is exp(-i H dt). +, n* and copy() give systems with equal and independent parameters.',
     ['histories', 'programs'], 'every frequency, strength, and every history of changes within the bounds',
     'Matrices are cached at every level and places in a composite are stored numbers; tests hardly touch these classes.',
     [CL + 'QSys.py', CL + 'baseClasses.py'],
     [('single systems', CL + 'QSys.py: qSystem, term'), ('composites', CL + 'QSys.py: compQSystem'),
      ('couplings', CL + 'QSys.py: qCoupling'), ('sums and copies', CL + 'QSys.py: genericQSys')],
     ['totalHam, couplingHam, dimension and unitary()'],
     'two or three systems of dimension 2 to 3, histories of two or three changes; initial states and simulations of legacy '
     'systems, which the present Simulation refuses, are outside')
prop('C30', 'Simulations evolve exactly the systems and protocols they were given',
     'A Simulation holds, in the order they were added, the systems and protocols added to it and not removed or replaced '
     'since: added or created as objects, by name, as classes or in lists, a protocol alone or with its system, replacing '
     'another or not; removed by object, name, alias or list; before or after runs. Adding a system already held, without a '
     'protocol, changes nothing. run() stores states for exactly these, each evolving by its own propagator, under the name '
     'of the protocol or, for a free evolution, of its system. Removing a system removes all its protocols, and the sweeps and '
     'time dependencies of the simulation lose the removed objects and only these, as with removeSweep.',
     ['histories', 'configurations'], 'every frequency, step size and initial state, and every history within the bounds',
     'Tests build simulations once and run them; systems and protocols share one dictionary whose keys change at a run.',
     [CL + 'QSim.py', CL + 'QSweep.py', CL + 'base.py'],
     [('systems', CL + 'QSim.py: addQSystems, createQSystems, removeQSystems'),
      ('protocols', CL + 'QSim.py: addProtocol, removeProtocol'), ('sweeps', CL + 'QSim.py: removeSweep; ' + CL + 'QSweep.py')],
     ['qSystems, protocols, qEvolutions, states, sweeps'],
     'two or three qubits and three protocols, histories of one or two operations on five starting points, two time steps')
