"""Writes properties.jsonl and MANIFEST.json from one table (run it after editing; both results are committed)."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TB = 'src/quanguru/QuantumToolbox/'
CL = 'src/quanguru/classes/'
TECH = 'symbolic execution of the real Python source, assertions decided by z3'
PROPS = []
NA = []


def prop(ident, title, statement, over, text, why, files, mechanism, observe, note):
    PROPS.append(dict(id=ident, title=title, statement=statement, over=over, text=text, why=why, files=files,
                      mechanism=mechanism, observe=observe, note=note))


def notApplicable(ident, title, statement, over, text, why, files, mechanism, observe, reason):
    prop(ident, title, statement, over, text, why, files, mechanism, observe, None)
    NA.append(dict(property=ident, reason=reason))


prop('C01', 'Operators have the entries their definitions prescribe, in every dimension',
     'Ladder, number, identity, parity, Pauli, spin, displacement, squeezing and composite operators have exactly the '
     'matrix elements of their textbook definitions, as sparse or dense matrices as requested, whether a spin is given '
     'by its j or by its dimension. They satisfy the algebra this implies (commutators, adjoints, powers, sums, '
     'products, embeddings next to other systems), and no call changes its inputs or a previously returned operator.',
     ['inputs'], 'every dimension, spin, power, embedding and complex parameter in the bounds, sparse and dense',
     'The tests compare a handful of fixed dimensions; wrong entries at other sizes, powers or embeddings go unseen.',
     [TB + 'operators.py'],
     [('operator constructors', TB + 'operators.py'), ('composite embedding', TB + 'operators.py: compositeOp')],
     ['return values of the operator functions'],
     'all entries checked symbolically for the dimensions in the bounds')
prop('C02', 'Linear-algebra primitives are the textbook maps on any matrices',
     'Adjoint, inner and outer products, traces, norms, tensor products, matrix products and '
     'matrix powers return the mathematically defined result for any complex entries, for sparse, dense and mixed '
     'inputs of any compatible shape. The inputs are never modified.',
     ['inputs'], 'all complex entries, all shapes in the bounds, sparse, dense and mixed containers',
     'Tests use particular numeric matrices; a conjugation or ordering slip that cancels there is invisible.',
     [TB + 'linearAlgebra.py'], [('primitives', TB + 'linearAlgebra.py')], ['return values'],
     'entries are free complex numbers, shapes up to the bounds')
prop('C03', 'Partial traces keep exactly the chosen sub-systems, in order',
     'Tracing out sub-systems of a ket or density matrix of any number of systems with any dimensions gives the reduced '
     'state of the kept ones, in their order, and is linear and trace preserving. For a product state it returns the '
     'kept factors times the traces of the others.',
     ['inputs'], 'any matrix or ket entries, any sub-system dimensions and kept positions in the bounds',
     'Index arithmetic over mixed dimensions; tests cover a few equal-dimension layouts.',
     [TB + 'linearAlgebra.py'], [('partial trace', TB + 'linearAlgebra.py: partialTrace')], ['return values'],
     'entries free; up to three or four sub-systems of dimension up to three')
prop('C04', 'Vectorisation and super-operators agree with the matrix maps they stand for',
     'Vectorising and un-vectorising a matrix are inverse to each other, and pre-, post- and two-sided super-operators '
     'acting on a vectorised matrix give the vectorised product for any operators. Dissipators built from any collapse '
     'operator (or pair) act as the Lindblad form, annihilate the trace and do not change their inputs.',
     ['inputs'], 'any complex matrices in the bounds, sparse, dense and mixed',
     'An ordering or conjugation convention error shows only for general, non-symmetric complex operators.',
     [TB + 'evolution.py', TB + 'states.py'],
     [('super-operators', TB + 'evolution.py'), ('vectorisation', TB + 'states.py: mat2Vec, vec2Mat')],
     ['return values'], 'entries free; dimension 2..3')
prop('C05', 'Open-system generators and propagators are Lindblad maps',
     'The generator built from a Hamiltonian, collapse operators and decay rates acts on any density matrix as the '
     'Lindblad master equation with each operator weighted by its own rate, and preserves trace and Hermiticity. '
     'Propagators are the exponential of the generator times the time step, compose over time, and reduce to unitary '
     'evolution without collapse operators. steadyState gives each eigenvalue and vector of the propagator of unit time, '
     'ascending in magnitude.',
     ['inputs'], 'any Hamiltonian, any collapse operators (plain, ready super-operators, operator pairs), rates and times',
     'Tests check few fixed systems at fixed rates; rates paired with the wrong operator cancel when they are equal.',
     [TB + 'evolution.py'], [('generator', TB + 'evolution.py: Liouvillian'),
                             ('propagator', TB + 'evolution.py: LiouvillianExp')], ['return values'],
     'entries free; general exponentials uninterpreted, dephasing exact')
prop('C06', 'Unitary propagators solve the Schroedinger equation for any time',
     'The propagator of a Hamiltonian for a time t is the exponential of minus i times t times the Hamiltonian, sparse '
     'or dense as its input, with a default time of one. For the diagonal case it is exactly unitary, composes over '
     'time, inverts under time reversal, and preserves norms.',
     ['inputs'], 'any Hamiltonian entries and times', 'Tests use fixed times and matrices.',
     [TB + 'evolution.py'], [('propagator', TB + 'evolution.py: Unitary')], ['return values'],
     'entries and times free; exponentials of non-diagonal blocks uninterpreted')
prop('C07', 'States are the requested, normalised superpositions and mixtures',
     'Basis kets and bases, superpositions given as numbers, lists or dictionaries of weights (populations or '
     'amplitudes), density matrices, mixtures, Bell states and composite states are exactly the requested, normalised '
     'states in the requested container. Purity, normalisation and basis helpers return their defining values and never '
     'change the states or dictionaries they are given.',
     ['inputs'], 'every dimension and excitation in the bounds, any complex weights and probabilities',
     'Tests use a few fixed superpositions; complex weights, duplicates and composite inputs have many combinations.',
     [TB + 'states.py'], [('state constructors', TB + 'states.py')], ['return values'],
     'weights free; dimensions up to the bounds')
prop('C08', 'Expectations, fidelities, entropies, concurrences follow their definitions',
     'Expectation values, standard deviations, fidelities, participation ratios, trace distances, von Neumann entropies, '
     'spectral norms, sorted eigen-pairs and concurrences equal their definitions on kets and density matrices, are real '
     'where they must be and respect their ranges and symmetries. The states and operators passed in are not changed.',
     ['inputs'], 'any operators and kets in the bounds; spectra on diagonal and rank-one matrices',
     'Tests compare fixed states; complex amplitudes and asymmetric operators expose conjugation errors.',
     [TB + 'functions.py', TB + 'IPR.py', TB + 'eigenVecVal.py'],
     [('functions of states', TB + 'functions.py'), ('participation ratios', TB + 'IPR.py')], ['return values'],
     'entries free; eigenvalues only for diagonal or rank-one matrices')
prop('C09', 'Step-wise open evolution returns every propagated state, once and in order',
     'Evolving a state over a total time in fixed steps returns the initial density matrix followed by one state per '
     'completed step, each the propagated predecessor, with or without a Hamiltonian, collapse operators and decay '
     'rates. A calculation callback sees every state once, discarding states changes nothing else, and the initial state '
     'is not modified.',
     ['inputs', 'schedules'], 'any initial state, Hamiltonian, operators, rates, step sizes and number of steps in bounds',
     'Tests run one set of numbers; off-by-one steps or a callback missed at an edge are not visible.',
     [TB + 'evolution.py'], [('loop', TB + 'evolution.py: evolveOpen')], ['returned states', 'callback arguments'],
     'entries free; up to two (four) steps')
prop('C11', 'Composite systems place every operator at its own tensor position',
     'In any nested composite system the total dimension, the dimension list, every sub-system Hamiltonian and every '
     'coupling are those of the current tree, with each operator acting on its own tensor factor. This stays true after '
     'sub-systems change dimension, are added to any level, or are removed from any level; removed systems stay usable '
     'on their own and couplings with them disappear.',
     ['histories', 'configurations'], 'tree shapes and change histories in the bounds, any frequencies and couplings',
     'Dimension bookkeeping depends on the whole history of a tree; tests follow a few scripted ones.',
     [CL + 'QSystem.py', CL + 'QTerms.py'],
     [('dimension bookkeeping', CL + 'QSystem.py: addSubSys, _updateDimension, _removeSubSysExc')],
     ['totalHamiltonian', 'dimension', 'subSysDimensions'], 'up to three levels, four leaves, two (three) changes')
prop('C12', 'Hamiltonians always reflect the current terms and parameters',
     'The Hamiltonian of a single or composite system equals the sum over its current terms and couplings of strength '
     'times the product of the powers of their operators, with the values most recently set. This holds after any '
     'sequence of changes to frequencies, dimensions, operators, orders, terms, couplings and sub-systems, no matter '
     'when the Hamiltonian was read in between. Terms may be added, removed, reset and replaced, and the frequency, '
     'operator and order of a system are always those of its current first term.',
     ['histories', 'inputs'], 'all change histories in the bounds, any real strengths including zero',
     'Caches are invalidated by each setter separately; tests exercise few orders of change and read.',
     [CL + 'QSystem.py', CL + 'QTerms.py', CL + 'baseClasses.py'],
     [('cached Hamiltonians', CL + 'QSystem.py: totalHamiltonian'), ('terms', CL + 'QTerms.py'),
      ('parameter-updated flags', CL + 'baseClasses.py: _paramUpdated')],
     ['totalHamiltonian'], 'up to three sub-systems, two (three) changes with reads at any point')
prop('C20', 'Model Hamiltonians and the Jaynes-Cummings propagator are exact',
     'The free, Jaynes-Cummings, Rabi and anti-Jaynes-Cummings Hamiltonians of a cavity and a qubit have the documented '
     'terms for every cavity dimension, frequency and coupling. The closed-form Jaynes-Cummings propagator is unitary '
     'and matches its definition block by block.',
     ['inputs'], 'any frequencies, couplings, times; cavity dimensions in the bounds',
     'Tests use fixed frequencies, often resonant, where errors in detuning terms vanish.',
     [TB + 'Hamiltonians.py'], [('models', TB + 'Hamiltonians.py')], ['return values'],
     'parameters free; cavity dimension up to five (nine)')
prop('C21', 'Thermal occupations, polarisations and heat currents follow their definitions',
     'Thermal occupation and qubit polarisation obey detailed balance for every frequency and temperature, with no '
     'excitation at zero temperature. Heat currents equal the real trace of the super-operator applied to the state '
     'times the Hamiltonian, vanish for unitary generators, and leave their inputs unchanged.',
     ['inputs'], 'any frequencies, temperatures, super-operators and states in the bounds',
     'Tests have few or no cases here.', [TB + 'thermodynamics.py'], [('functions', TB + 'thermodynamics.py')],
     ['return values'], 'parameters free')
prop('C22', 'Rotations and basic gates are unitary and compose',
     'Qubit and spin rotations about each axis and the CNOT, controlled-phase and Hadamard gates have their defining '
     'matrices for any angle or phase, are unitary, and compose by adding angles. Unknown axes are refused.',
     ['inputs'], 'any angle; spin dimensions in the bounds; sparse and dense',
     'Tests use a few angles.', [TB + 'spinRotations.py', TB + 'basicGates.py'],
     [('rotations', TB + 'spinRotations.py'), ('gates', TB + 'basicGates.py')], ['return values'], 'angles free')
prop('C23', 'Quasi-probability functions equal their definitions at every grid point',
     'Wigner and Husimi functions of any ket or density matrix equal their closed-form definitions at every point of '
     'the grid, with the chosen or the default scaling, row by row and column by column. The state is not changed.',
     ['inputs'], 'any state in the bounds, any grid coordinates and scaling',
     'Tests have at most a reference plot; grid transpositions and scaling slips show only on asymmetric grids.',
     [TB + 'quasiProbabilities.py'], [('functions', TB + 'quasiProbabilities.py')], ['return values'],
     'states, coordinates and scaling free; dimension up to three (five)')


exec(open(os.path.join(ROOT, 'tools', 'meta_more.py'), encoding='utf-8').read())     # pylint: disable=exec-used


def main():
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w', encoding='utf-8') as fil:
        for p in sorted(PROPS, key=lambda q: q['id']):
            assert len(p['title']) <= 80, p['title']
            fil.write(json.dumps(dict(
                id=p['id'], title=p['title'], statement=p['statement'],
                quantifier=dict(over=p['over'], text=p['text']), why_tests_cant=p['why'],
                anchors=dict(files=p['files'], mechanism=[dict(name=n, where=w) for n, w in p['mechanism']],
                             observe_at=p['observe'], hook_needed=None))) + '\n')
    na = {n['property'] for n in NA}
    checks = []
    for p in sorted(PROPS, key=lambda q: q['id']):
        if p['id'] in na:
            continue
        cmd = f'/opt/venv/bin/python symx/run.py {p["id"]} --tier '
        checks.append(dict(property=p['id'], quick_cmd=cmd + 'quick', thorough_cmd=cmd + 'thorough', technique=TECH,
                           level='model_checking',
                           level_note='Bounded: ' + p['note'] + '. Every feasible path within the bounds is executed on '
                           'the source in /repo and every assertion is decided by the solver over all values; trusts '
                           'the models of numpy and scipy in symx and exact-real arithmetic, both validated by running '
                           'solver witnesses on the real code; counterexamples are replayed before they are reported.'))
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w', encoding='utf-8') as fil:
        json.dump(dict(version=1, setup_cmd='true', checks=checks, not_applicable=NA,
                       notes='See DESIGN.md. Each run reads /repo/src afresh; nothing is built or cached.'), fil, indent=1)
        fil.write('\n')


main()
