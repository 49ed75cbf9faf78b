"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def add(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     observe_at=list(observe), hook_needed=hook)))

add('C01', 'Generated operators are exactly the symmetric ones, over any call history',
 'After any sequence of adding symmetries and generating (either mode, any post-processing flags, dense or sparse solver), including attempts that failed or were interrupted and were then retried, the operators reported at each position span exactly the operators of the search space that obey all the symmetries up to that position (in the non-cumulative mode also, separately, each single symmetry). No such operator is missing and none that violates a symmetry is reported, whichever of the equally valid eigenvectors the eigensolver happens to return.',
 ['histories', 'fault_sequences', 'inputs'],
 'Every sequence of add/generate calls over operators and discrete transformations that commute or anti-commute, on string bases or operator lists; every solver failure, failing user rule and interrupt point; every rotation, order and sign of degenerate eigenvectors.',
 'The tests call generate() once per generator on a handful of fixed models with the one eigenvector gauge LAPACK happens to return; no test calls it twice, after a failure, or with mixed eigenvectors.',
 ['qosy/core.py', 'qosy/tools.py', 'qosy/algebra.py', 'qosy/transformation.py'],
 [('cumulative generation: null space of one superoperator becomes the next search space', 'qosy/core.py:_generate_cumulative'),
  ('non-cumulative generation: intersection of the single-symmetry spaces, sparsified and orthogonalised', 'qosy/core.py:_generate_noncumulative'),
  ('space-preserving post-processing', 'qosy/tools.py: intersection, sparsify, gram_schmidt')],
 [('generator output lists', 'results per symmetry, kept on the generator between calls', 'qosy/core.py:SymmetricOperatorGenerator.__init__'),
  ('generator input lists', 'symmetries, modes and solver sizes added so far', 'qosy/core.py:add_symmetry')],
 ['SymmetricOperatorGenerator.output_operators / projected_output_operators after generate()'])

add('C02', 'Single-symmetry search is exact for every legal eigensolver behaviour',
 'For any Hermitian operator or discrete symmetry and any Pauli or Majorana search space (a string basis or a list of linearly independent operators), the returned operators span exactly the operators of that space that commute (or anti-commute) with it, however the eigensolver orders, signs, mixes or rounds its eigenvectors, and with the dense and the sparse solver alike. A solver that fails makes the call fail rather than return a partial answer, and asking for too few eigenvectors is never silent.',
 ['inputs', 'fault_sequences'],
 'All operators, transformations and search spaces on a few orbitals; all orthogonal rotations of degenerate eigenspaces, eigenvalue orders the solver does not promise, random start vectors, 1e-14 round-off, and failure of any solver call.',
 'Tests see the single gauge LAPACK returns on the test machine, never the sparse path for transformations, and never a failing solver.',
 ['qosy/core.py', 'qosy/algebra.py', 'qosy/transformation.py'],
 [('null space of the commutant matrix', 'qosy/core.py:commuting_operators'), ('eigenspace of the symmetry matrix', 'qosy/core.py:invariant_operators'),
  ('Liouvillian from structure constants', 'qosy/algebra.py:liouvillian_matrix'), ('symmetry matrix', 'qosy/transformation.py:symmetry_matrix')],
 [], ['columns returned by commuting_operators / invariant_operators', 'warnings raised'])

add('C03', 'Sharing an exploration record between searches never changes their answers',
 'Searches for approximate integrals of motion that share one exploration record, in any order, with different Hamiltonians and parameters, and after earlier searches that failed or were interrupted at any point, give the same answers as the same searches run with a fresh record. In particular no commutator is ever missing or wrong because of what the record already contains.',
 ['histories', 'crash_points', 'fault_sequences'],
 'Every sequence of searches over a shared record: Hamiltonians that overlap, are disjoint or need several commuting operators at once; every failure or interruption point in an earlier search.',
 'Tests explore with one Hamiltonian and one call sequence; none reuses a record with another Hamiltonian or after a failed search.',
 ['qosy/algorithms.py'],
 [('incremental exploration with remembered structure constants', 'qosy/algorithms.py:_explore')],
 [('exploration record', 'strings explored so far, strings they lead to, and the remembered commutator coefficients per Hamiltonian term', 'qosy/algorithms.py:explored_data')],
 ['operators and commutator norms returned by the selected_ci* functions called with explored_data'])

add('C04', 'Approximate-symmetry searches report truthful operators and commutator norms',
 'Whatever eigenvectors the solver legally returns and whatever random numbers are drawn, each operator a search reports has unit norm, its reported commutator norm is its true squared commutator norm with the Hamiltonian, it is the best operator within the strings it was allowed to use, and the reported best is the best of all steps. Requested orthogonality and symmetry constraints are respected whenever they can be met, and the strings considered grow only by strings that the double commutator, anticommutator or transformation expansion produces.',
 ['inputs', 'schedules', 'fault_sequences'],
 'All small Hamiltonians and starting operators, all parameter settings of the search variants, every legal eigenvector choice and random stream.',
 'Only one greedy search on one model is tested, and only for its final value; no test varies the solver gauge or the random stream.',
 ['qosy/algorithms.py'],
 [('greedy selected configuration interaction loop', 'qosy/algorithms.py:selected_ci_greedy'), ('penalty terms for constraints and recomputation of norms', 'qosy/algorithms.py:_orthogonalize_com_matrix, _symmetrize_com_matrix'),
  ('truncation', 'qosy/algorithms.py:_truncate_basis')],
 [], ['return values of selected_ci, selected_ci_simple, selected_ci_sweep, selected_ci_greedy*, highest_fidelity_operator'])

add('C05', 'Approximate-symmetry searches always finish within their step budget',
 'A search asked for a number of steps finishes within a bounded amount of work and reports at most that many steps, whatever eigenvectors the solver returns and whether or not its targets (fidelity, commutator norm, relative change) can ever be met. Early stopping happens only for a documented reason that really holds.',
 ['inputs', 'fault_sequences', 'histories'],
 'All parameter combinations including unreachable targets; all legal solver behaviours.',
 'Tests run with targets off; an unreachable target or an unlucky eigenvector is never presented.',
 ['qosy/algorithms.py'],
 [('step loop with retry on insufficient fidelity', 'qosy/algorithms.py:selected_ci_greedy'), ('convergence and cycle detection', 'qosy/algorithms.py:selected_ci, selected_ci_greedy_many_ops2')],
 [], ['number of reported steps; number of executed lines and solver calls per search'])

add('C06', 'Operators and bases act as linear combinations through any history of edits',
 'Through any sequence of constructing, adding, subtracting, scaling, negating, normalising, cleaning and converting to vectors, in place or not, and after any refused operation, every operator equals the linear combination of strings that ordinary vector arithmetic gives, and every basis lists each string exactly once at the index it reports. Editing one operator in place never changes the value of another operator, even when they were built from the same list or basis or from each other.',
 ['histories', 'inputs'],
 'All sequences of operations over a pool of operators and bases that alias each other as the constructors allow, including self-aliasing (a += a) and refused operations.',
 'Tests check single operations on fresh objects; aliasing and sequences are not sampled.',
 ['qosy/basis.py', 'qosy/operatorstring.py'],
 [('string-to-index dictionary kept in step with the list of strings', 'qosy/basis.py:Basis.__iadd__'), ('padding and index mapping in in-place addition', 'qosy/basis.py:Operator.__iadd__')],
 [('strings and index dictionary of a basis', 'ordered set of strings', 'qosy/basis.py:Basis'), ('coefficients of an operator', 'aligned with its basis', 'qosy/basis.py:Operator')],
 ['iteration, coeffs, len, index, to_vector, norm, equality of Operator and Basis'])

add('C07', 'A failed or interrupted call leaves its arguments intact and can be retried',
 'When a call fails for any reason (a solver that does not converge, a failing user-supplied rule, memory exhaustion, an interrupt at any instant, invalid arguments), every object passed to it that it does not document as modified still has its previous value, and repeating the call without the failure gives the same result as if the failure had never happened. Successful calls do not modify their arguments either.',
 ['crash_points', 'fault_sequences', 'inputs'],
 'Every public function, every executed line as an interruption point, every solver or callback call as a failure point.',
 'Tests never make a solver, a callback or an allocation fail and never interrupt a call.',
 ['qosy/core.py', 'qosy/algorithms.py', 'qosy/algebra.py', 'qosy/basis.py', 'qosy/transformation.py', 'qosy/lattice.py', 'qosy/symmetrization.py', 'qosy/tools.py', 'qosy/conversion.py', 'qosy/diagonalization.py'],
 [('functions build new objects and copy what they sort or edit', 'deepcopy / np.copy / list() at the entry of the functions concerned')],
 [], ['deep snapshot of all arguments before and after each call; result of the retried call'])

add('C08', 'A call gives the same result whatever was called before it',
 'The result of a call depends only on the values of its arguments: after any history of other calls in the same process, successful or failed, with the same or with different or since-modified objects, it returns what it would return in a fresh process. The caller may freely modify anything it got back, and the lists and arrays it passed in, without affecting later calls on other objects (a Basis or another library object that is documented to be kept by reference excepted).',
 ['histories', 'fault_sequences'],
 'All sequences of public calls, including failed ones, repeated ones with equal but distinct arguments, and modifications by the caller of arguments and results between calls.',
 'Each test makes a few calls on fresh objects in a fixed order, so hidden state carried between calls is never exposed.',
 ['qosy/core.py', 'qosy/algebra.py', 'qosy/basis.py', 'qosy/transformation.py', 'qosy/lattice.py', 'qosy/conversion.py', 'qosy/tools.py', 'qosy/symmetrization.py', 'qosy/diagonalization.py', 'qosy/config.py'],
 [('no module-level mutable state; results are new objects', 'all modules')],
 [('algebra tables', 'the only module-level data, never modified', 'qosy/config.py')],
 ['canonical value of the result of every call, compared with the same call in a fresh process'])

add('C09', 'Concurrent callers sharing inputs each get the result they would get alone',
 'When several threads call the library at the same time on shared bases, operators, lattices and transformations that none of them modifies, under every interleaving each call returns what it would return if it ran alone, and none fails because of the others.',
 ['schedules', 'inputs'],
 'All interleavings at source-line granularity of two to four concurrent calls of the public functions on shared objects.',
 'The tests are single-threaded.',
 ['qosy/core.py', 'qosy/algebra.py', 'qosy/basis.py', 'qosy/transformation.py', 'qosy/lattice.py', 'qosy/tools.py', 'qosy/conversion.py'],
 [('no shared mutable state in read-only operations', 'all modules')],
 [], ['canonical value of the result of every call, compared with the same call alone'])

add('C10', 'Results survive process restarts and do not depend on the hash seed',
 'The same calls give the same results, including the order of strings in every basis, in every interpreter process whatever its hash seed. Operators, bases, generators and exploration records saved with the standard object serialisation (or deep-copied) at any point of a computation and reloaded in a new process continue exactly as if the process had never been restarted.',
 ['crash_points', 'configurations', 'histories'],
 'All hash seeds; every point of a computation as a save-and-restart point; all public functions.',
 'The test suite runs with one fixed hash seed in one process and never saves or reloads anything.',
 ['qosy/basis.py', 'qosy/operatorstring.py', 'qosy/tools.py', 'qosy/core.py', 'qosy/algorithms.py'],
 [('hash of a string derived from its name; lists define all orders, sets and dictionaries are used for lookup only', 'qosy/operatorstring.py:__hash__, qosy/basis.py, qosy/tools.py:maximal_cliques')],
 [('string-to-index dictionaries', 'rebuilt from keys on reload', 'qosy/basis.py:Basis._indices')],
 ['canonical results, orders included, compared between processes'])

add('C11', 'Output problems never corrupt results, and quiet mode is silent',
 'A standard output that fails at any write (closed pipe, full disk) makes a printing call fail visibly or print less, but never changes any result, argument or later call; what was written before the failure is a prefix of what would have been written. Calls asked to be quiet write nothing at all.',
 ['fault_sequences', 'inputs'],
 'Every write of every printing function as the failing one; all error kinds; all functions with a verbosity switch.',
 'Tests never make output fail and never look at what is written in quiet mode.',
 ['qosy/core.py', 'qosy/algorithms.py', 'qosy/visualization.py'],
 [('progress messages guarded by the verbosity flag', 'qosy/core.py, qosy/algorithms.py'), ('printing of vectors and operators works on cleaned copies', 'qosy/visualization.py:print_vectors, print_operators')],
 [], ['bytes received by the simulated output stream; state of generator, operators and record afterwards'])

add('C12', 'Diagonalisation returns true eigenpairs for every legal solver behaviour',
 'Full and partial diagonalisation of an operator return genuine eigenvalue-eigenvector pairs of that operator (each value matched with its own vector, lowest first for Hermitian operators, with the requested number of lowest levels), and the quadratic, tight-binding and pairing solvers return the true single-particle energies and modes, whatever order, sign or mixture of degenerate eigenvectors the numerical solver returns. An operator read back from its matrix is the original one. A failing solver makes the call fail.',
 ['inputs', 'fault_sequences'],
 'All operators on a few orbitals, dense and sparse; all legal orders, signs and rotations of the solver output; failure of any solver call.',
 'Tests compare eigenvalues for a few models in the order LAPACK or ARPACK happen to return them.',
 ['qosy/diagonalization.py'],
 [('sorting of eigenpairs returned by the solver', 'qosy/diagonalization.py:diagonalize, diagonalize_bdg'), ('pairing of +/- modes from the real Schur form', 'qosy/diagonalization.py:diagonalize_quadratic')],
 [], ['return values of diagonalize, diagonalize_quadratic, diagonalize_quadratic_tightbinding, diagonalize_bdg'])

add('C13', 'Subspace computations are exact for every legal solver behaviour',
 'Orthonormalising, intersecting and sparsifying sets of vectors, in any sequence where the results of one step are the inputs of the next, gives bases of exactly the span or intersection that was asked for: no dimension is lost or invented, orthonormal where promised, for real and complex, dense and sparse vectors, dependent or vanishing columns included where a tolerance is given. This holds whichever of the equally valid null vectors or pivots the numerical routines choose. A step that fails or is interrupted leaves its inputs as they were, and repeating it works.',
 ['inputs', 'histories', 'fault_sequences'],
 'All matrices with well-separated ranks and angles; every chain of gram_schmidt, intersection and sparsify calls; every rotation of degenerate null vectors, pivot ties, solver failure and interrupt.',
 'Tests apply each helper once to small matrices, with the null vectors and pivots LAPACK happens to return, and never to the output of another step or to a first column that vanishes.',
 ['qosy/tools.py'],
 [('Gram-Schmidt with discarding of dependent columns', 'qosy/tools.py:gram_schmidt'), ('intersection from the null space of the Gram matrix', 'qosy/tools.py:intersection'),
  ('sparsification by LU decomposition', 'qosy/tools.py:sparsify')],
 [], ['arrays returned by gram_schmidt, intersection and sparsify'])

add('C14', "Quantities computed from a solver's states are those of the states",
 'Reduced density matrices, entropies, transformed states and symmetry eigenvalues computed from the states a diagonalisation returned are those of these very states: the partial trace over the other orbitals, the Renyi entropy of that matrix, the permuted state, the eigenvalues of the symmetry on each level. This holds whichever equally valid eigenvectors the solver returned, so quantities of whole degenerate levels do not depend on that choice. A failing solver makes the call fail, and an interrupted call leaves its inputs as they were.',
 ['inputs', 'histories', 'fault_sequences'],
 'All operators on up to four orbitals, with and without degenerate levels; all subsystems, permutations and entropy orders; every legal rotation, sign and order of eigenvectors; failure of any solver call and interruption at any line.',
 'Tests compute density matrices and entropies of two or three hand-written states, never of a degenerate level, of another eigenvector choice or after a failure.',
 ['qosy/diagonalization.py'],
 [('partial trace by reshaping the state', 'qosy/diagonalization.py:reduced_density_matrix'), ('entropy from the eigenvalues of the density matrix', 'qosy/diagonalization.py:renyi_entropy'),
  ('permutation of the computational basis', 'qosy/diagonalization.py:apply_transformation, apply_transformation_conf')],
 [], ['arrays and numbers returned; the input states afterwards'])

add('C15', 'Calls made inside callbacks and signal handlers disturb nothing',
 'A call made in the middle of another one, by a user-supplied transformation rule, filter, norm or comparison, or by a signal handler at any instant, returns what it would return alone; the interrupted call then completes with the result it would have given undisturbed. This includes calls of the same function and with the same arguments, and handlers interrupted by handlers. Shared arguments and later calls are not affected.',
 ['schedules', 'inputs', 'histories'],
 'Every public function as the outer and the inner call; every executed line as the instant of the signal; every call of a user-supplied function; nesting up to several levels.',
 'No test makes a call inside another one; the instants at which a signal handler runs are not under the control of a test.',
 ['qosy/algebra.py', 'qosy/core.py', 'qosy/transformation.py', 'qosy/algorithms.py', 'qosy/basis.py', 'qosy/operator.py'],
 [('no working storage outlives or is shared between calls', 'qosy: all modules (locals only)'), ('user rules called in the middle of loops over basis strings', 'qosy/transformation.py:Transformation.apply, qosy/algebra.py:_explore')],
 [('the module-level tables', 'filled at import and only read afterwards', 'qosy/config.py')],
 ['results of the outer, inner and later calls compared with each call alone in a pristine process'])

add('C16', 'Every step of a workflow is exact, whatever was computed before it and how',
 'In any workflow that feeds the results of earlier calls (solver-chosen eigenvectors included) into later ones, each result represents exactly what the definition of the step gives for its actual inputs. The steps are products, commutators and sums; conversions between Pauli, Majorana and fermion descriptions; transformations, their products and powers; symmetrised bases and lattices; structure constants and Liouvillian matrices; Lie algebras; cluster, distance and merged bases; searches; matrices. This also holds after steps failed or were interrupted and were repeated, and earlier results are never changed by later steps.',
 ['histories', 'inputs', 'fault_sequences'],
 'All sequences of steps over operators on a few orbitals, in every string type, with every result reusable as an input; every legal solver answer, solver failure and interrupted line.',
 'Tests call each function once on listed inputs built by hand; results of one function (term order, complex and tiny coefficients, unusual labels, operators and bases sharing storage) hardly ever are the input of another.',
 ['qosy/algebra.py', 'qosy/conversion.py', 'qosy/transformation.py', 'qosy/symmetrization.py', 'qosy/basis.py', 'qosy/operator.py', 'qosy/operatorstring.py', 'qosy/core.py', 'qosy/lattice.py', 'qosy/diagonalization.py'],
 [('string multiplication with sign bookkeeping', 'qosy/algebra.py:_operation_opstring'), ('structure constants and Liouvillian matrices', 'qosy/algebra.py:structure_constants, liouvillian_matrix'),
  ('closure loop', 'qosy/algebra.py:generate_lie_algebra'), ('expansion into the other string type', 'qosy/conversion.py:convert'), ('group averaging', 'qosy/symmetrization.py:symmetrize_basis, symmetrize_lattice'),
  ('enumeration of strings', 'qosy/basis.py:cluster_basis, distance_basis')],
 [], ['every returned object, as dense matrices, when returned and again at the end of the workflow'])

na = 'A pure function of its input: '
add('N01', 'Products and (anti)commutators are exact in any faithful representation',
 'The product, commutator and anticommutator of any two Pauli or Majorana strings or operators equals that of their matrices. The result is again a combination of Hermitian strings.',
 ['inputs'], 'All pairs of strings and operators.', na + 'tests check listed pairs only.',
 ['qosy/algebra.py', 'qosy/config.py'], [('string multiplication with sign bookkeeping', 'qosy/algebra.py:_operation_opstring')])
add('N02', 'Structure constants and Liouvillian matrices agree with the algebra',
 'Every structure constant, Liouvillian and commutant matrix entry equals the corresponding coefficient of the commutator (or anticommutator), and the extended basis contains exactly the strings produced.',
 ['inputs'], 'All bases and operators.', na + 'tests check a few small bases.',
 ['qosy/algebra.py'], [('structure constants', 'qosy/algebra.py:structure_constants')])
add('N03', 'Conversions between string types represent the same operator',
 'Converting between Pauli, Majorana and fermion descriptions preserves the operator, so converting back gives the original and conversions commute with sums and products.',
 ['inputs'], 'All strings of each type.', na + 'tests check listed strings.',
 ['qosy/conversion.py'], [('expansion into the other string type', 'qosy/conversion.py:convert')])
add('N04', 'Discrete transformations act as symmetries of the algebra',
 'Applying a transformation preserves products, composition of transformations is application in sequence, and powers return to the identity at the order of the transformation.',
 ['inputs'], 'All built-in transformations and their products on all strings.', na + 'tests check listed strings.',
 ['qosy/transformation.py'], [('transformation rules', 'qosy/transformation.py')])
add('N05', 'Cluster and distance bases contain exactly the strings they describe',
 'A cluster or distance basis contains each string with the allowed support exactly once and nothing else.',
 ['inputs'], 'All clusters, lattices, ranges and types.', na + 'tests count a few sizes.',
 ['qosy/basis.py'], [('enumeration of strings', 'qosy/basis.py:cluster_basis, distance_basis')])
add('N06', 'Lattice positions, labels and periodic distances are mutually consistent',
 'Looking up the position of an orbital gives back its label, and distances are the shortest periodic distances and symmetric.',
 ['inputs'], 'All unit cells, sizes and boundary conditions.', na + 'tests check a few lattices.',
 ['qosy/lattice.py'], [('periodic position table', 'qosy/lattice.py:Lattice')])
add('N07', 'Symmetrised bases and lattices are invariant and complete',
 'Every symmetrised operator is invariant under the group, together they span all invariants of the basis, and symmetrised lattices are invariant under the point group.',
 ['inputs'], 'All bases, lattices and groups.', na + 'tests check a few groups.',
 ['qosy/symmetrization.py'], [('group averaging', 'qosy/symmetrization.py')])
add('N08', 'Generated Lie algebras are closed and minimal',
 'The generated algebra contains the generators, is closed under commutation and contains nothing outside the algebra they generate.',
 ['inputs'], 'All sets of generators with a finite algebra.', na + 'tests check small algebras.',
 ['qosy/algebra.py'], [('closure loop', 'qosy/algebra.py:generate_lie_algebra')])
add('N10', 'Text descriptions of strings parse back to the same strings',
 'Parsing the printed form of any string gives an equal string, and relabelled text names exactly the orbitals of the original.',
 ['inputs'], 'All strings and lattices.', na + 'tests check listed strings.',
 ['qosy/operatorstring.py', 'qosy/visualization.py'], [('name and parser', 'qosy/operatorstring.py:opstring')])
add('N11', 'Permutation, sorting and graph helpers return what their names say',
 'Signs, sorts and compositions are those of the permutation, and cliques and connected components are exactly those of the graph.',
 ['inputs'], 'All permutations and graphs.', na + 'tests check small cases.',
 ['qosy/tools.py'], [('combinatorial helpers', 'qosy/tools.py')])
if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
    with open(out, 'w') as f:
        for p in P:
            f.write(json.dumps(p) + '\n')
