"""Regenerates properties.jsonl (kept as code so that statements stay in one place)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files,
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe, hook_needed=None)))
A, S, O, F, L, V, X, SP = ('mpnum/mparray.py', 'mpnum/mpstruct.py', 'mpnum/mpsmpo.py', 'mpnum/factory.py',
                   'mpnum/linalg.py', 'mpnum/povm/mppovm.py', 'mpnum/utils/extmath.py', 'mpnum/special.py')

p('C01', 'A claimed canonical form is always true',
  'Whenever a matrix product array reports a canonical form (left, right), every local tensor before `left` is left-isometric and every local tensor from `right` on is right-isometric. '
  'This is preserved by every public operation that produces or modifies an array, whatever form the operands had and in whatever order the operations are applied. '
  'The reported pair always satisfies 0 <= left < length and 0 < right <= length.',
  ['histories', 'inputs'], 'all sequences of public operations, all lengths, shapes, ranks and starting canonical forms',
  'Tests check the form only after canonicalize/compress on arrays that start un-normalised; the form carried through other operations, negative indices and slice updates is sampled rarely or not at all.',
  [S, A], [('bookkeeping of the canonical window on local updates', S + ':LocalTensors._update/update'),
           ('cform= passed by operations that keep the form', A + ':T, transpose, conj, reshape, __mul__, vleg2leg, leg2vleg, split, from_array')],
  ['the canonical_form attribute together with the local tensors'])
p('C02', 'Canonicalisation keeps the array and reaches the requested form',
  'Bringing an array into any canonical form, computing its norm, or iterating over its singular values never changes the represented array. '
  'After a successful request the array is at least as canonical as requested (negative positions counted from the end, the "almost full" keywords meaning the maximal form), and the norm equals the 2-norm of the represented array. '
  'Out-of-range requests raise IndexError and contradictory ones raise ValueError, without changing the represented array.',
  ['inputs', 'configurations'], 'all lengths, shapes, ranks, current forms and all left/right arguments',
  'Tests use a fixed list of sizes and start from un-normalised arrays; combinations of current form, requested form and shape are unbounded.',
  [A, S], [('QR sweeps', A + ':canonicalize, _lcanonicalize, _rcanonicalize'), ('norm, singular values', A + ':norm, normdist, singularvals')],
  ['to_array() before/after, canonical_form, return values and exceptions'])
p('C03', 'Sums and scalar multiples are exact',
  'Adding, subtracting, negating, scaling and dividing (also in place) matrix product arrays, and plain or weighted sums of many of them, represent exactly the same linear combination of the represented arrays. '
  'This holds for every length (including one site), every mix of shapes, ranks, number of legs and canonical forms.',
  ['inputs'], 'all operands of equal physical shape, all scalars, all numbers of summands',
  'Tests compare a few random instances; unequal ranks, one-site chains, weights and operands with a canonical form are covered only in a few combinations.',
  [A, SP], [('block structure of sums', A + ':__add__, _local_add, sumup'), ('scaling one tensor of the non-canonical window', A + ':__mul__, __imul__, __truediv__')],
  ['to_array() of the result'])
p('C04', 'Products and contractions equal the dense contraction',
  'Contracting two arrays over given legs, partial products on a part of the chain, inner products, sandwiches, local outer products and chain products give exactly the array (or number) obtained by performing the same contraction on the represented arrays. '
  'Inner products conjugate their first argument, negative leg numbers count from the end, and several legs may be contracted at once.',
  ['inputs', 'configurations'], 'all operands of compatible shapes, all axes arguments, lengths, ranks, real and complex entries',
  'Tests sample a few shapes with equal dimensions, where exchanging or mis-ordering legs can go unnoticed.',
  [A, L, SP], [('local contraction and bond regrouping', A + ':_local_dot'), ('entry points', A + ':dot, partialdot, inner, sandwich, localouter, chain'), ('product-state inner product', SP + ':inner_prod_mps')],
  ['to_array() of the result, returned scalars'])
p('C05', 'Traces, sums, diagonals and slices equal the dense ones',
  'Full and partial traces, sums over physical legs, diagonals, evaluation at fixed indices, iteration over an axis and removal of sites without physical legs give exactly the result of doing the same to the represented array, with the remaining legs in their original order. '
  'Bond legs are never traced or summed in place of physical legs.',
  ['inputs', 'configurations'], 'all shapes, axes arguments (per site, None, negative where supported), lengths and ranks',
  'Tests use few shapes and per-site axis combinations.',
  [A], [('reductions of local tensors', A + ':sum, partialtrace, trace, diag, get, axis_iter'), ('merging of leg-free sites', A + ':_prune_ltens, prune')],
  ['returned arrays/scalars'])
p('C06', 'Rearrangements keep every entry in its place',
  'Transposition, adjoint, conjugation, reshaping, flattening, grouping and splitting of sites, reversal, exchanging bond legs for physical legs and back, splitting a chain, and padding ranks yield exactly the array whose entries are the correspondingly rearranged entries of the original. '
  'Inverse operations undo each other.',
  ['inputs', 'configurations'], 'all shapes (different on each site), ranks, positions and group sizes',
  'Tests mostly use equal dimensions on all sites and legs.',
  [A], [('leg permutations and reshapes', A + ':T, transpose, adj, conj, reshape, group_sites, split_sites, reverse, vleg2leg, leg2vleg, split, pad_ranks')],
  ['to_array() and shape of the result'])
p('C07', 'Conversion from and to dense arrays is lossless',
  'Converting a dense array to a matrix product array (grouped by site or by leg, any number of legs per site, with or without explicit outer bonds) and back gives the same array; constructed special arrays (identity, zero, diagonal, Kronecker products) represent what their name says. '
  'The two dense layouts are converted into each other by the documented permutation.',
  ['inputs', 'configurations'], 'all array shapes and legs-per-site assignments',
  'Tests sample a few shapes, mostly with identical local dimensions.',
  [A, F, 'mpnum/utils/array_transforms.py'], [('successive QR factorisation', A + ':from_array, _extract_factors'), ('layout permutations', 'mpnum/utils/array_transforms.py'), ('factories', F + ':eye, zero, diagonal_mpa')],
  ['to_array(), to_array_global()'])
p('C08', 'Embedding and local sums equal the explicit sum of embedded terms',
  'Placing operators on part of a chain, inserting sites into a chain and summing local terms along a chain represent exactly the explicit tensor products and sums, with the identity (or the given tensor) on the other sites. '
  'The economical construction for regularly spaced terms agrees with the generic one; cyclic nearest-neighbour Hamiltonians contain every listed term exactly once, in operator and in matrix form.',
  ['inputs', 'configurations'], 'all chain lengths, widths, positions, numbers of terms, ranks',
  'Tests use few widths/lengths; the block structure depends on width, position and number of terms.',
  [A, 'mpnum/utils/physics.py', X], [('economical block construction', A + ':_local_sum_identity'), ('embedding', A + ':embed_slice, inject, regular_slices'), ('cyclic Hamiltonians', 'mpnum/utils/physics.py:mpo_cH, sparse_cH'), ('block diagonal sums', X + ':block_diag')],
  ['to_array() of the result'])
p('C09', 'State conversions and reduced states are exact',
  'Converting between pure states, purifications and operators represents |psi><psi| and the partial trace over the ancillas exactly. '
  'Reduced states of operators, purifications and pure states, for any start/stop sites (consecutive or not, for purifications), equal the partial trace of the full density matrix over all other sites.',
  ['inputs', 'configurations'], 'all lengths, dimensions (system and ancilla), ranks, supports',
  'Tests use small fixed sizes with equal dimensions.',
  [O], [('leg regrouping and traced-out remainders', O + ':reductions_mpo, reductions_pmps, pmps_reduction, pmps_to_mpo, mps_to_pmps, pmps_dm_to_array')],
  ['to_array() of the yielded states'])
p('C10', 'Compression honours its contract',
  'Compressing an array never yields a rank above the requested one and, when no rank or error budget forces truncation, leaves the represented array unchanged. '
  'The returned overlap is the inner product of original and compressed array, which equals the squared norm of the compressed array; the copying variant leaves the original untouched and both variants give the same result.',
  ['inputs', 'configurations'], 'all arrays, ranks, directions, methods, numbers of varied sites and starting forms',
  'Tests compare a few random instances to a dense reference.',
  [A, X, SP], [('SVD sweeps', A + ':_compress_svd, _compress_svd_l, _compress_svd_r'), ('variational sweeps', A + ':_compression_var, _adapt_to*')],
  ['ranks, to_array(), return values'])
p('C11', 'Eigenvector search solves the projected problem',
  'In every step of the iterative eigenvector search, for one operator or for a sum of operators and projectors, the small eigenproblem handed to the solver is exactly the projection of the represented operator onto the currently varied sites, and its solution is written back to those sites with the rank bound respected. '
  'The starting vector passed by the caller is not modified.',
  ['inputs', 'configurations', 'histories'], 'all operators, start vectors, numbers of sweeps and varied sites',
  'Tests only look at converged eigenvalues of small instances; convergence can mask wrong environments.',
  [L], [('environment updates and local operator', L + ':_eig_leftvec_add, _eig_rightvec_add, _eig_local_op, _eig_local_op_mps, eig, eig_sum')],
  ['arguments received by the user-supplied eigs function'])
p('C12', 'POVM probabilities are the traces of POVM elements with the state',
  'For every supported state representation and implementation, the probability array returned for a tensor-product POVM has as entry (i1,...,iN) the trace of the state with the tensor product of the POVM elements numbered i1..iN; all implementations agree. '
  'Embedding, repeating, blocking and partial POVMs refer to exactly the documented sites and elements.',
  ['inputs', 'configurations'], 'all states, POVMs (different on each site), lengths, modes and implementations',
  'Tests use qubits and equal POVMs on every site, for which exchanged legs or sites often give the same numbers.',
  [V, 'mpnum/povm/localpovm.py'], [('probability maps', V + ':MPPovm.pmf, pmf_as_array, pmf_from*, block, embed, repeat')],
  ['returned probability arrays'])
p('C13', 'Operands are never changed and results are independent',
  'No operation that returns a new array changes the value, local tensors or canonical form of its operands (norm-like operations may only re-canonicalise), and later in-place changes of a result never alter the operands or other results, nor the reverse. '
  'Local tensors handed out by an array cannot be used to modify it; dense conversions return arrays the caller may overwrite freely.',
  ['histories', 'programs'], 'all sequences of operations followed by in-place modifications of any participant',
  'Tests check value results, not whether operands survive later in-place updates.',
  [A, S], [('read-only views', S + ':_roview, __getitem__, __iter__'), ('copies', A + ':copy, _ltens_to_array')],
  ['operands after the operation and after in-place updates of the result'])
p('C14', 'Randomised functions use only the caller\'s random state',
  'Every function that accepts a random state draws all of its randomness from it, so that equal seeds give equal results, and draws in the documented order and amount. '
  'No library function draws from a global random source when the caller supplied a state.',
  ['configurations', 'programs'], 'all randomised functions, all parameter combinations, all call paths',
  'Tests cannot distinguish a leaked global draw from the intended one unless they repeat the call with equal seeds, which they do only for one factory function.',
  [F, A, L, V, X], [('randstate parameters', 'every function with a parameter of that name')],
  ['calls of random generators'])
p('C15', 'Accepted options take effect wherever they are documented',
  'Every documented option of a public function influences the computation or is validated, and wrappers hand the options they accept on to the functions that implement them. '
  'No accepted option is silently dropped on any dispatch branch.',
  ['configurations', 'programs'], 'all public functions and all of their parameters on all dispatch paths',
  'Tests pass few non-default options; a dropped option is invisible where the default happens to be used.',
  [A, O, F, L, V, X], [('parameter passing', 'all public functions')],
  ['results as a function of the option'])
p('C16', 'Incompatible operands are rejected, never silently truncated',
  'Operations on arrays whose lengths, shapes, bond dimensions, numbers of weights, slices, axes or supports do not fit raise an error. '
  'They never return a value computed from only a part of the input, and never produce an array with inconsistent or non-trivial outer bonds.',
  ['inputs'], 'all ill-fitting combinations of arguments',
  'Tests check a handful of error cases; pairwise iteration truncates silently.',
  [A, S, SP], [('length and shape assertions', A + ', ' + S)],
  ['exceptions'])
p('C17', 'Stored arrays can be loaded back unchanged',
  'An array written to a file or group and loaded again represents the same array, with the same local tensors, shapes and canonical form, for real and complex entries and every number of sites.',
  ['inputs', 'histories'], 'all arrays',
  'The existing round-trip test fails in this environment, so nothing is checked.',
  [A], [('attribute names and site keys agree between writer and reader', A + ':dump, load')],
  ['loaded array'])
p('C18', 'Complex parts are never silently discarded',
  'Any operation mixing real and complex arrays of any precision yields a result that carries the full complex value; no operation casts complex data to real or fails because a real operand comes first. '
  'Purely real operands give real results.',
  ['inputs', 'configurations'], 'all mixes of entry types over operands, sites and summands',
  'Tests use the same entry type for all operands.',
  [A, X, SP], [('dtype of accumulators', A + ':_local_add; ' + X + ':block_diag'), ('scalar factors', A + ':__imul__')],
  ['dtype and values of the result'])
p('C19', 'Ranks and shapes follow the documented rules',
  'Sums add ranks, products multiply them, identities and Kronecker products have rank one, local sums have the documented economical rank, constructors and padding deliver the requested (or maximal sensible) ranks, and canonicalisation never increases a rank. '
  'The reported shape always equals the shape of the dense conversion.',
  ['inputs', 'configurations'], 'all operands and rank arguments',
  'Tests check ranks in a few configurations only.',
  [A, F], [('rank computation', A + ':full_rank, pad_ranks; ' + F + ':_generate')],
  ['ranks, shape attributes'])
p('C20', 'Dense helper functions follow their definitions for any input',
  'Partial traces, multi-factor Kronecker products, block-diagonal sums along arbitrary (also negative) axes, truncated and randomised singular value decompositions return what their definition says for arrays of any shape and axis order, with singular factors that are isometric and no more components than requested.',
  ['inputs', 'configurations'], 'all array shapes, axes, counts',
  'Tests sample few shapes.',
  [X], [('definitions', X)],
  ['return values'])
p('C21', 'Samples are drawn with exactly the outcome probability of the measured POVM',
  'Whatever the sampling method, the group size, the representation of the state (pure, mixed or purified) and the positions of sites that are not measured, the probability with which a sequence of outcomes is drawn from the random generator equals the normalised outcome probability of the POVM on the state, for every outcome. '
  'Samples have one column per measured site, lie within the outcome ranges, and packing and unpacking samples into single integers are inverse to each other; packing into an integer type that cannot hold all outcomes is refused.',
  ['inputs', 'histories', 'configurations'], 'all states, POVMs, group sizes, methods and drawn outcomes',
  'Tests compare frequencies of a few thousand samples with the probabilities within statistical tolerance for a few sizes; errors in rare outcomes or in unusual groupings drown in the noise.',
  [V], [('conditional and direct sampling', V + ':MPPovm.sample, _sample_cond, _sample_cond_single, _sample_direct; MPPovmList.sample'), ('integer encoding', V + ':pack_samples, unpack_samples')],
  ['probability vectors handed to the random generator, returned samples'])
p('C22', 'Estimators return the documented statistics of the samples',
  'Estimated probabilities are the relative (weighted) frequencies; estimates of linear functions are the coefficients times the (weighted) sample means, and the reported variance is the coefficients contracted with the unbiased covariance of the mean; the exact counterparts use the same formulas with the true probabilities. '
  'Estimating from the samples of another POVM uses every matching element pair with its prefactor, averages over all POVMs that provide a probability in proportion to their number of samples (or to the given weights, also fractional ones), and returns nan where no information is available. The same holds for lists of POVMs.',
  ['inputs', 'histories'], 'all samples, functions, coefficients, weights and element matchings',
  'Tests compare estimates to true values within statistical tolerance, with integer or unit weights and the Pauli POVMs only.',
  [V], [('estimators', V + ':est_pmf, est_pmf_from, est_pmf_from_mpps, lfun, est_lfun, _mppl_lfun_estimator, _lfun_estimator, lfun_from, est_lfun_from')],
  ['returned estimates, variances and sample counts'])
p('N01', 'Local POVMs are complete and positive',
  'The elements of every supplied local POVM are positive semidefinite and add up to the identity in every dimension, and the informationally complete ones allow linear inversion.',
  ['inputs'], 'all dimensions', 'Tests cover a few dimensions.', ['mpnum/povm/localpovm.py'],
  [('normalisation constants', 'mpnum/povm/localpovm.py:x_povm, y_povm, z_povm, concat')], ['sum of elements'])
p('N02', 'Estimators are unbiased with the stated variance',
  'Estimates of linear functionals and probabilities from samples are unbiased and the reported variance is an unbiased estimate of the estimator variance.',
  ['inputs', 'histories'], 'all samples, functionals, weights', 'Statistical statement over random samples.', [V],
  [('estimators', V + ':est_lfun, est_pmf, est_pmf_from')], ['estimates'])
p('N04', 'Compression error and eigenvalue accuracy',
  'The truncation error of compression stays within the requested relative error and iterative eigenvalues converge monotonically to a variational bound of the true eigenvalue.',
  ['inputs'], 'all inputs', 'Quantifies over floating-point values.', [A, L], [('truncation by singular values', A)], ['errors'])
p('N05', 'The analytic ground-state energy is correct',
  'The closed-form energy of the cyclic XY model equals the smallest eigenvalue of the constructed Hamiltonian for every admissible chain length and asymmetry.',
  ['inputs'], 'all chain lengths and parameters', 'Transcendental numeric identity.', ['mpnum/utils/physics.py'], [('formula', 'mpnum/utils/physics.py:cXY_E0')], ['returned energy'])
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
    for x in P:
        f.write(json.dumps(x) + '\n')
