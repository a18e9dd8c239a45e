"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=()):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe))))
F='xmps/fMPS.py'; T='xmps/fTDVP.py'; I='xmps/iMPS.py'; N='xmps/tensor.py'; PP='xmps/fPEPS.py'; H='xmps/Hamiltonians.py'; S='xmps/spin.py'
p('C01','Canonical forms keep the state, at unit norm, with isometric sites',
  "Bringing a finite matrix product state to left, right or mixed canonical or orthogonal form, without truncation, leaves the many-body state it represents unchanged up to a scalar and gives it unit norm (a complete left or right sweep records the scalar it removed where documented). Orthogonalising part of the chain leaves the vector itself unchanged as long as no end of the chain is reached. Afterwards every site on the stated side of the centre is an isometry in the stated direction, no bond has grown, and where a canonicalisation stores Schmidt weights they are those of the state, also when the Schmidt spectrum is degenerate or the tensors are rank deficient.",
  ['inputs','histories'],'every open chain (length, local dimension, bond dimensions, complex entries, degenerate or rank-deficient spectra), every gauge it starts from and every sequence of form changes',
  'Tests use a handful of random generic tensors, whose spectra are never degenerate or rank deficient, mostly L=5..7, and assert isometry but not that the whole state survives a sequence of form changes.',
  [F,N],[('SVD / QR sweeps','fMPS.right_canonicalise, left_canonicalise, mixed_canonicalise, *_orthogonalise'),('sweep back to diagonal environments','tensor.diagonalise, truncate_A/B')],['tensors, dense state, Ls, norm_'])
p('C02','Expectation values depend on the state only, not on gauge or call history',
  "After any sequence of supported calls on a finite matrix product state (form changes, measurements, gates, post-selection, item assignment), the one-site expectation value of an operator equals <psi|O|psi>/<psi|psi> of the state currently represented, for every site and every Hermitian operator including complex ones. Measuring never changes the represented state beyond a scalar, so repeated or reordered measurements agree.",
  ['histories','inputs'],'every finite interleaving of form changes, in-place edits and measurements, on every state, site and operator',
  'Tests measure right after one canonicalisation; a stale orthogonality centre shows only in particular two- or three-call histories, and operators with complex entries are compared only with themselves.',
  [F],[('lazy re-orthogonalisation','fMPS.E / E_ / Es / E_k / rho with canonical, orthogonal, oc')],['E, E_, Es, E_k, rho return values'])
p('C03','Truncation respects the bond bound, keeps norm one and drops least weight',
  "Canonicalising with a bond bound D leaves every bond at most D and a unit-norm state; Starting from the opposite canonical or orthogonal form, the state is unchanged up to a scalar if every Schmidt rank is at most D, and a truncation at a single over-full bond keeps exactly the D largest Schmidt weights of that bond, so the squared overlap with the original is their sum.",
  ['inputs','configurations'],'every state, bond profile, local dimension, sweep direction and bound D>=1',
  'Tests only check the resulting shape for a few random states; which weights are kept and the exact-rank case are never examined.',
  [F,N],[('truncate_A / truncate_B','tensor.py'),('left_canonicalise(D), right_canonicalise(D), mixed_canonicalise(oc, D), Trajectory.contract','fMPS.py')],['structure(), D, overlap with original'])
p('C04','Schmidt weights and entanglement entropy are those of the state at every cut',
  "The Schmidt weights a canonicalisation stores for a bond are the eigenvalues of the reduced density matrix of either side of that cut: non-negative, summing to one, with the exact multiplicities. The entanglement entropy reported for a bond equals the von Neumann entropy of those eigenvalues (natural logarithm), is zero at the ends and for product states, and does not depend on the gauge the state came in.",
  ['inputs'],'every state, every bond, every starting gauge, including flat (degenerate) spectra and rank-deficient cuts',
  'Tests compare entropies only to themselves on random states and never with an independent spectrum, nor with degenerate spectra.',
  [F,T],[('entanglement_entropy, Ls','fMPS.py'),('Trajectory.schmidts / von_neumann / renyi','fTDVP.py')],['Ls, entanglement_entropy'])
p('C05','Dense vectors and matrix product states convert without loss',
  "Splitting a dense many-body tensor into a matrix product state, left or right canonical, and recombining gives back the tensor up to a scalar, with every amplitude at the right basis label (site 0 most significant), unit norm, isometric sites and bonds equal to or bounded by the cut dimensions. Recombining any tensors gives exactly the product of the chosen matrices for every basis label, and product-state constructors give the tensor product of their site vectors.",
  ['inputs'],'every dense tensor of any length and local dimension, and every list of site tensors',
  'Tests use d=2 fixtures and random states of two lengths; label order, d=3 and rank-deficient tensors are not sampled.',
  [F],[('left_from_state, right_from_state, recombine','fMPS.py'),('from_product_state','fMPS.py')],['recombine()'])
p('C06','State-level arithmetic is the arithmetic of the dense vectors',
  "Adding two matrix product states with the state-level sum gives exactly the sum of their vectors, state-level scaling multiplies the vector by the scalar, applying a one-site operator gives that operator on that site, and joining chains gives the tensor product; item-wise scaling multiplies the vector by the scalar to the power of the length and item-wise sums add site tensors. None of them normalises, and results chain: any expression built from them has the vector the same expression has on dense vectors.",
  ['inputs','programs'],'every expression of these operations on every compatible operands',
  'Only single additions of random states of equal shape are tested; compositions, edge sites, complex scalars and unequal bonds are not.',
  [F],[('add, mul, apply, append, extend, __add__, __mul__','fMPS.py')],['recombine / dense vector'])
p('C07','Two-site gates act on exactly the sites they name, however far apart',
  "Applying a two-site unitary to sites i<j of a qubit chain, adjacent or distant, yields the state with that unitary applied to those two qubits (first factor on the left one) and every other qubit untouched, up to a scalar, whichever of the two sites is asked to stay canonical and in any sequence of gates. With a sufficient bond bound the result is the same; with a smaller bound (applied to the swaps too) every bond written by the gate respects it and, on adjacent sites holding the centre, the largest Schmidt weights of the exact result are what is kept, in a normalised state; the site asked for is an isometry; post-selecting a site projects that qubit onto the chosen level and removes it.",
  ['inputs','programs'],'every circuit: sequences of gates on every pair of sites, bounds, and post-selections on every chain length',
  'Tests apply one or two fixed gates on one chain; orderings, edges, repeated long-range swaps and post-selection at either end are not sampled.',
  [F],[('apply_two_site, swap network, apply_unitary, separate_tensor_*','fMPS.py'),('post_select','fMPS.py')],['dense vector, structure()'])
p('C08','Overlap functions agree with the inner product of the dense states',
  "For any two matrix product states of equal length and local dimensions, with any bonds, the overlap is the inner product of the represented vectors (the two overlap functions being complex conjugates of one another), the norm of a state is its squared length, and overlaps are conjugate symmetric and unaffected by a change of gauge. Local overlaps over a contiguous region equal the trace of the product of the two reduced density matrices, and their average over regions is the approximate overlap.",
  ['inputs'],'every pair of states, with different bond dimensions, norms and gauges, and every region',
  'Tests compare overlaps of random states with themselves, with equal bonds and no exact value.',
  [F],[('overlap, full_overlap, norm, product_state_overlap','fMPS.py'),('local_overlap, approx_overlap, k_local_approx_overlap, rho_proj','fMPS.py')],['returned numbers'])
p('C09','Reduced density matrices and multi-site expectations match the dense state',
  "The reduced density matrix on a contiguous block equals the partial trace of the projector on the represented state, divided by its squared norm: Hermitian, trace one, in the basis order of the sites. The expectation of a k-site operator on a block, given as one matrix or as a string of one-site operators, equals the dense one and the trace against that density matrix, for every block and from every gauge or centre.",
  ['inputs','histories'],'every state, block position and length, operator (complex and non-product included) and prior form',
  'Tests use one length, mostly product operators and generic states in one gauge.',
  [F],[('rho, E_k, E_L, links','fMPS.py')],['rho, E_k, E_L'])
p('C10','Saving and loading, or packing and unpacking, loses nothing',
  "Packing a finite or infinite matrix product state into a vector and unpacking it, or writing it to a file and reading it back, restores every tensor entry and shape exactly, with length, local dimension and bond dimension, as real pairs or complex numbers, with standard or arbitrary bond profiles. Any sequence of saves to several files returns for each file the state last saved there, unaffected by later changes of the objects.",
  ['inputs','histories'],'every state and bond profile, every interleaving of stores, mutations and loads over several files',
  'Tests round-trip one random state per class; irregular bond profiles, D=1, L=2, and interleavings of stores and mutations are not covered.',
  [F,I],[('serialize/deserialize/store/load','fMPS.py, iMPS.py')],['tensor data, files'])
p('C11','Read-only and value-returning operations leave their operands alone',
  "Copying a state gives one whose later form changes, gates, assignments or measurements never alter the original (and conversely), and overlaps, arithmetic, packing, recombining, energies and derivative evaluations return new values without altering the states they are given; constructing a Hamiltonian or contracting a network does not alter the caller's arguments.",
  ['histories'],'every sequence of operations over several live objects sharing tensors',
  'Tests never look at operands after a call.',
  [F,I,H,'xmps/ncon.py',T],[('copy, value-returning operators','fMPS.py, iMPS.py'),('Trajectory initial state','fTDVP.py')],['tensors of every live object'])
p('C12','Nearest-neighbour energy is the expectation of the whole Hamiltonian',
  "The energy computed from a list of two-site terms equals the expectation value of the assembled many-body Hamiltonian in the vector the tensors stand for (normalised in the left and right canonical forms, as left_canonicalise and right_canonicalise leave it, and not normalised when the tensors are not), is the same from left and right canonical forms, and is additive in the terms; with the full-matrix flag it is the expectation of the given matrix.",
  ['inputs','configurations'],'every state, in canonical form or not, and every list of Hermitian two-site terms, uniform or not, complex included',
  'The test comparing the two routes fails on this repository and others only look at conservation under evolution.',
  [F],[('energy, get_envs, E_L','fMPS.py'),('Trajectory.mps_energies / ed_energies','fTDVP.py')],['energy'])
p('C13','All representations of a spin Hamiltonian denote the same operator',
  "For a Hamiltonian given by Pauli strings, single letters being fields and pairs of letters nearest-neighbour couplings, the two-site term list and the full matrix built for a chain of any length are the same operator: the sum over bonds of the two-site strings plus the sum over all sites of the one-site strings, edges included. Conversion back from a two-site matrix recovers the coefficients (a field appearing as equal IX and XI strings), and asking the same object for different lengths gives each length's own operator. A list of terms on any number of neighbouring sites of any local dimension denotes the sum of its terms, each at its place.",
  ['inputs','histories'],'every set of coefficients, every chain length L>=2, every order of conversion requests on one object',
  'There are no tests of this module.',
  [H],[('to_matrices, to_full, to_mpo, to_matrix, from_matrix','Hamiltonians.py')],['returned matrices'])
p('C14','Tensor-network contraction equals the sum over index assignments',
  "Contracting a network given by tensors and index lists returns the tensor whose entries are the sum over all values of the contracted indices of the product of entries, with open legs in the declared order, whatever contraction order is requested and also for self-traces, disconnected parts, and scalar results. A malformed network (wrong leg counts, repeated or mismatched indices) is rejected with an error when index checking is on.",
  ['inputs','programs'],'every small network: any number of tensors, leg layout, contraction order and forced output order',
  'No tests cover this module at all; every other module depends on it.',
  ['xmps/ncon.py'],[('ncon, partial trace, connected components, check_indices','ncon.py')],['returned arrays, exceptions'])
p('C15','Index regrouping and partial traces obey the tensor-product layout',
  "Grouping legs of a tensor and ungrouping them restores it exactly, with grouped entries in the mixed-radix position of the grouped labels; splitting a matrix on a tensor-product space into its factors' indices and partial traces keeping any non-empty set of subsystems equal their definitions, entry by entry.",
  ['inputs'],'every shape, grouping, subset of subsystems and set of dimensions',
  'Tests use one shape each, usually with equal dimensions, which hides exchanged factors.',
  [N,'xmps/peps_tools.py'],[('group_legs, ungroup_legs','peps_tools.py'),('partial_trace, ρA, split_up, loc','tensor.py')],['returned arrays'])
p('C16','The tangent-space derivative is the projected Schroedinger velocity',
  "The time derivative returned for a state, in canonical form or not, and a Hermitian Hamiltonian represents the orthogonal projection of -i(H-<H>)psi onto the tangent space of the matrix product manifold at psi: it lies in the tangent space and the remainder is orthogonal to it. At full bond dimension it is exactly -i(H-<H>)psi, a list of two-site terms and the same full matrix give the same derivative, and packing a tangent vector and unpacking it is lossless and norm preserving.",
  ['inputs'],'every state and Hamiltonian, any bond dimension, length and gauge',
  'Tests compare list and full-matrix routes on random states or compare short evolutions; the projection property itself is never checked.',
  [F],[('dA_dt, left_null_projector, left_transfer','fMPS.py'),('extract_tangent_vector, import_tangent_vector','fMPS.py')],['dA_dt, tangent vectors'])
p('C17','Linear-response blocks are right for every pair of sites and call order',
  "The Hessian-like blocks between tangent directions at sites i and j equal the matrix elements of the Hamiltonian between the corresponding first and second derivatives of the state; they are Hermitian (respectively symmetric) under exchange of the sites, and the assembled real Jacobian is Hamiltonian with respect to the symplectic form. The value returned for a pair of sites does not depend on which other pairs were requested before, for chains of any length.",
  ['inputs','histories'],'every state of unit norm (blocks: in canonical form; assembled Jacobian and linearised motion: in any gauge), Hamiltonian, pair of sites and order of requests, including chains longer than ten sites',
  'Tests check a few pairs on short chains with one request order.',
  [F],[('F1, F2, christoffel memo tables keyed by site pair','fMPS.py'),('jac','fMPS.py')],['F1, F2, christoffel, jac'])
p('C18','A trajectory records exactly the states it visited, in order',
  "After any sequence of evolve, resize and clear calls on a finite trajectory, the recorded history has one state per requested time step in chronological order, the recorded bond dimensions match the recorded states (with one more entry, for the current state), the current state is the last recorded one, further runs continue from it, and clearing restores the initial state with an empty history. Lists of states, expectation values, energies, echoes and Schmidt data derived from the history have one entry per recorded state, with that state's values.",
  ['histories'],'every sequence of evolution calls (any integrator, any number of steps, exact diagonalisation included), bond changes and clears',
  'Tests run one integrator once per object; resuming, resizing between runs and clearing are not tested.',
  [T],[('mps_history, Ds, ed_history, mps','fTDVP.Trajectory')],['mps_history, Ds, mps, mps_list, mps_evs'])
p('C19','Finite time evolution follows the Schroedinger equation at its stated order',
  "At full bond dimension, evolving a state with the fourth-order or first-order integrator or by exact diagonalisation for a time T gives exp(-iHT)|psi0> up to the integrator's error, which shrinks at the integrator's order as the step shrinks; norm stays one and energy drifts only at that order. Exact diagonalisation agrees with the closed form at every recorded time.",
  ['inputs','configurations'],'every initial state, Hamiltonian, time grid and integrator',
  'Tests compare two numerical evolutions with loose tolerances, so an integrator that lost an order of accuracy still passes.',
  [T],[('euler, rk4, eulerint, rk4int, edint, ed_evs, ed_OTOC','fTDVP.Trajectory')],['recorded states, ed_history'])
p('C20','Infinite-chain canonical forms keep every local expectation value',
  "Canonicalising a uniform infinite matrix product state (left, right, symmetric or mixed form) leaves every local expectation value unchanged, normalises the state, makes the tensor an isometry in the stated direction with the stored weights as the diagonal fixed point on the other side, and is idempotent up to gauge. One-site expectation values are correct for every Hermitian operator, complex ones included, whichever form the state is in.",
  ['inputs','histories'],'every injective uniform tensor, any gauge and scale, every sequence of canonicalisations',
  'Tests compare values before and after on random tensors in one fixed order of forms, and never with an exact value or with complex operators.',
  [I],[('canonicalise, mixed, E, Es','iMPS.py')],['E, tensors, L'])
p('C21','Infinite-chain energies, overlaps and environments are the exact ones',
  "For a uniform infinite state in any gauge, the energy density of a two-site term is its exact two-site expectation value, the dominant environments satisfy their fixed-point equations with unit pairing, the overlap per site is the squared modulus of the leading mixed transfer eigenvalue (one exactly for gauge-equivalent states), and the tangent derivative vanishes exactly for eigenstates and otherwise reproduces the exact rate of change of local expectation values allowed by the projected dynamics.",
  ['inputs'],'every injective uniform tensor, gauge, two-site term',
  'Tests check self-consistency on random tensors; no exact values are known for those.',
  [I,'xmps/iTDVP.py'],[('eigs, energy, overlap, dA_dt, Lh, Rh','iMPS.py')],['energy, overlap, eigs'])
p('C22','Vidal and plain forms describe the same state',
  "Converting a finite matrix product state to the site-matrix/bond-weight form and back gives the same state up to a scalar; on every bond the weights are the Schmidt coefficients of the normalised state (their squares sum to one), and where these do not vanish weights times matrices are left isometries and matrices times weights right isometries. An infinite state's bond-weight form has both canonical conditions, unit weight norm, and the same local expectation values as the plain form it came from or is converted to.",
  ['inputs'],'every finite or injective infinite state in any gauge',
  'Tests use random states and check either conditions or values but not against an exact state.',
  [F,I],[('vfMPS.from_fMPS/to_fMPS','fMPS.py'),('ivMPS.canonicalise, to_iMPS, E; iMPS.canonicalise(to_vidal)','iMPS.py')],['data, E'])
p('C23','Two-dimensional states agree with their dense contraction',
  "For a two-dimensional tensor network state of any rectangular shape, bond layout and physical dimension, contraction to a dense vector gives every amplitude at the basis label in reading order (or, when asked for, with every other row read backwards), and overlaps, norms, one- or several-site expectation values (operators in reading order), and the environment of a site, computed by contracting the doubled network, equal those of the dense vector for every position. Applying an operator, transposing or flipping the lattice, adding two states, dropping the upper values of a bond, merging rows, columns or blocks, laying a chain along the rows, trimming or copying a lattice, and normalising each give the lattice of the state so named and leave the original as it was; the isometric form around any site is a normalised state whose one-site values at the centre can be read off the centre alone.",
  ['inputs','configurations','programs'],'every lattice shape, bond layout, tensor content and position, and sequences of operations',
  'Tests cover square lattices with uniform bonds and random content and the only several-site test failed on this repository.',
  [PP],[('fPEPS.recombine, overlap, norm, E, E_k, apply, T, R, U, add, truncate_*, row_contract, col_contract, contract, environment, from_mps, isometrise, iso_E, normalise, rho','fPEPS.py')],['returned numbers and vectors'])
p('C24','Matrix product operators compose, turn and act as matrices do',
  "A matrix product operator denotes the matrix its tensors contract to (columns from the upper legs, rows from the lower ones, first site most significant, in the conjugated convention the code reports). Products of operators, also with unequal bonds and rectangular sites, denote products of matrices; acting on a state gives the matrix times the vector; exchanging upper and lower legs transposes the matrix, reflecting the chain reverses the order of sites, and quarter turns move every leg to the next side and undo each other. Operators built from sums or strings of local terms, and states stood on their physical legs, denote exactly those matrices and vectors, and operands are not changed by products.",
  ['inputs','programs'],'every sequence of products, flips, turns and applications of small operators with complex entries and unequal bonds and sites',
  'Tests compare a single product of uniform real random operators.',
  [PP],[('fMPO.__mul__, recombine, from_mps, transpose_ud, transpose_lr, reverse, rotate_90, unrotate_90, random, trivial','fPEPS.py')],['recombine'])
p('C25','Spin operators satisfy their algebra and act on the named site',
  "For every spin, the generated operators satisfy the angular-momentum algebra and Casimir value with the standard matrix elements (spin z diagonal and descending), ladder operators raise and lower with the standard elements and equal the complex combinations of the spin operators, and asking for the Pauli normalisation gives that of the asked spin. Embedding an operator of one or several sites, or a list of them, into a chain of sites of any dimension gives exactly that operator on the named sites and the identity on every other, in the chain's basis order (first site most significant), and sites outside the chain are refused. Exchange and controlled gates are the permutations and controlled operators they name, the symmetric and antisymmetric parts of a two-site operator are its parts under exchange, commutators, partial traces and the antisymmetric symbol are what they are defined to be.",
  ['inputs','configurations'],'every spin up to several units, every chain length, site and operator support',
  'Tests check spins one half and one on a few sites and several of them fail here for unrelated reasons.',
  [S],[('spins, ladders, paulis, N_body_spins, n_body, comm, swap, CNOT, CZ, swap_symmetrise, swap_antisymmetrise, partial_trace, levi_civita','spin.py')],['returned matrices'])
p('C26','A failing fast SVD never changes results',
  "The robust singular value decomposition returns a valid decomposition (orthonormal factors, sorted non-negative values, exact product) for every matrix, and every operation that relies on it gives the same state whether or not the fast LAPACK driver fails at any of its calls; other errors are reported, not swallowed; options about warnings, checking or reusing memory change no result.",
  ['fault_sequences','inputs'],'every pattern of driver failures over the calls of a canonicalisation or conversion, on every matrix shape and rank',
  'No test makes the fast driver fail.',
  ['xmps/svd_robust.py',F],[('svd fallback','svd_robust.py')],['svd factors, dense states'])
p('C27','Thermofield doubles represent two copies of the state',
  "The doubled state built from a pure matrix product state represents the tensor product of the state with itself site by site; operators placed on either copy have the single-copy expectation value (whatever was done to the other copy), complex operators included and in any form, and are unaffected by what the object held before. The exchange of copies is an involution that fixes such a double and exchanges the labels of any doubled chain, the symmetrised chain is even under it, overlaps of two doubles are squares of single-copy overlaps, and the local overlaps with a product state are the dense ones. The sum of two doubles is the sum of their vectors, and item-wise scaling multiplies the vector by the scalar to the power of the length. The time derivative moves the two copies independently, from a list of two-site terms or from the whole matrix, and a copy of a double, or what an operator makes of it, is again a double.",
  ['inputs','histories'],'every pure state and doubled chain, site, copy and operator, every order of exchanges, operators, forms and measurements',
  'Tests compare the two copies with one another on random states only.',
  [F,'xmps/projects/fTFD.py'],[('fTFD.from_fMPS, E, Es, symmetry, symmetrise, local_overlap, approx_overlap, dA_dt, copy','fMPS.py'),('fTFD','projects/fTFD.py')],['E, Es, overlap'])
p('C28','Infinite-chain time evolution converges at its order and keeps its history',
  "Evolving a uniform infinite state with the first-order or fourth-order integrator agrees with the exact evolution whenever that stays in the manifold, with an error shrinking at the stated order, and records one state per time step with the last recorded one current. Imaginary-time descent lowers the energy towards the exact ground energy and reports the energy of each step.",
  ['inputs','histories'],'every initial state, Hamiltonian and time grid; every sequence of runs',
  'The tests compare one evolution with a finite one loosely; the order of the integrator is never measured.',
  ['xmps/iTDVP.py','xmps/iOptimize.py'],[('rk4, euler, rk4int, eulerint','iTDVP.Trajectory'),('find_ground_state','iOptimize.py')],['mps_history, local expectation values'])
p('C29','Generated unitaries are unitary and carry the generators they name',
  "The generators of the special unitary algebras (for two, four and eight levels and any number of qubits) are Hermitian, traceless, mutually orthogonal and complete, so reading off the components of a matrix and putting them back is the identity. The unitary made from a parameter vector is the exponential of that combination of generators, has unit determinant when it is special, and the subgroups built from named local generators stay in the subgroup and depend on their own parameters only. Embedding and re-basing parameter vectors keep the unitary, and two unitaries are reported equal up to a phase exactly when they are.",
  ['inputs','configurations'],'every parameter vector, group size and pair of unitaries',
  'Tests sample random vectors on a few groups and never compare with an independently computed exponential or with unitaries having zero entries.',
  [S],[('su, lambdas, slambdas, components, extractv, SU, SU4, SU8, U4, U1, U2, insu2N, to_new_v, equal_up_to_phase, ferro, antiferro, locals','spin.py')],['returned matrices and vectors'])
p('C30','Example states are the states they name',
  "Every ready-made state is the state it names, amplitude by amplitude for every label: the four Bell states, the product states of the computational bases along z and x (finite) and along z (infinite), members of one family being orthonormal; the infinite AKLT state has its exact amplitudes and correlations and no two neighbours of it are ever in a state of total spin two.",
  ['inputs','configurations'],'every label of every family of example states, every window of the infinite ones',
  'Tests use these states as fixtures and never check what they are.',
  ['xmps/mps_examples.py'],[('bell, comp_z, comp_x, i_comp_z, AKLT','mps_examples.py')],['dense states, expectation values'])
p('C31','Growing the bond dimension and matching gauges keep what the state was',
  "Padding a state to a larger bond dimension keeps its ray, gives the bonds asked for in left canonical form, and contracting back recovers it. The projection error is the squared distance (times the time step squared) of H applied to the state from the tangent space of its manifold, in any gauge, and zero when no bond can grow or the Hamiltonian couples no sites. An explicit step with growth reaches the bond dimensions the Hamiltonian and the bound allow, equals the Schroedinger step to first order when every new direction fits, always matches it along the old tangent space and is never further from it than the old manifold allows; growing to a bound reaches it and stops there. The null projectors of either side are the projectors on what is orthogonal to the site tensor, a packed or single-site tangent vector is orthogonal to the state with the norm of its coordinates, and matching gauges moves only unitaries over the bonds: the ray is kept and a chain that differs from its reference by such unitaries becomes the reference.",
  ['inputs','histories'],'every state (every gauge and bond profile), Hamiltonian, bound, time step and reference chain',
  'Tests check that errors are zero or not, that the largest bond is as asked and that one expectation value survives; the value of the error and the direction of growth are never looked at.',
  [F,'xmps/fTDVP.py'],[('expand, projection_error, should_expand, dynamical_expand, grow, match_gauge_to, left_null_projector, right_null_projector, tangent_state, tangent_space_basis','fMPS.py'),('Trajectory.expand, dynamical_expand, contract','fTDVP.py')],['dense states, bond dimensions, returned projectors'])
p('C32','Tensor helpers return exact unitaries, null spaces and factors',
  "Completing a vector or an isometry gives a unitary whose first columns are what was given and whose rest spans exactly the complement, at the size asked for; a null space is orthonormal, annihilated and complete; the unique triangular factorisations multiply back with an orthonormal factor and a triangle of positive diagonal; a truncated decomposition keeps exactly the largest singular values asked for and rebuilds the matrix when all are kept; diagonalisation, phase removal, the Krylov exponential and block sums (square or not) return the mathematical objects they name; products and adjoints act on each matrix of a stack; padding two chains to common shapes keeps both states; merging neighbouring sites, a unitary on the merged site and splitting again is that unitary on those sites; changes between symplectic orders and bases are what they name; basis iterators go through every label once in order.",
  ['inputs','configurations'],'every vector, matrix, isometry, stack and chain, degenerate and rank deficient ones included',
  'Tests call a few of these on random square arguments; degenerate spectra, missing rank and rectangular shapes never occur.',
  ['xmps/tensor.py'],[('embed, deembed, unitary_extension, get_null_space, uqr, urq, tr_svd, truncate_A, truncate_B, rank, diagonalise, rotate_to_hermitian, lanczos_expm, direct_sum, ldot, rdot, T, H, C, mps_pad, basis_iterator, haar_unitary','tensor.py')],['returned arrays'])
p('C33','State reports say exactly which conditions hold',
  "For any tensors and bond weights, the reports of canonical form (left or right, as a whole and tensor by tensor), of environments being those of the stated form at every bond up to the end of the chain, of full rank, of unit trace and of unit norm are true exactly when the condition holds, the returned errors are the deviations from it, and a state's own summary says the same; a single site out of form, wherever it is, is enough for a no; asking changes nothing.",
  ['inputs','histories'],'every chain in or out of form, weights, position of the defect and sequence of repairs and damages',
  'Tests use these reports as oracles and only ever see them answer yes.',
  ['xmps/tests.py',F],[('is_left_canonical, is_right_canonical, is_left_env_canonical, is_right_env_canonical, is_full_rank, has_trace_1','tests.py'),('update_properties','fMPS.py')],['returned flags and errors'])
p('C34','Transfer maps, their fixed points, item-wise arithmetic and equality',
  "The map made from two tensors acts on a matrix as the sum of products with each pair of matrices, its adjoint and its matrix are those of that map, its fixed points are the eigenvectors of largest eigenvalue with the eigenvalue returned, invariant under changes of gauge and scaling of either tensor, and asking whether a matrix is fixed is answered truthfully. Matrices carried along a chain, to the left or to the right, arrive as the products of the maps of the sites they pass. Adding, subtracting, scaling, packing and indexing chains of tensors acts item by item without touching the operands, and two states compare equal exactly when they have the same number of tensors, of the same shapes, with the same entries.",
  ['inputs','histories'],'every pair of tensors, matrix, gauge, scale and sequence of maps',
  'Tests check fixed points of a tensor with itself only, and compare equal states only.',
  ['xmps/iMPS.py',F],[('Map, TransferMatrix','iMPS.py'),('__add__, __sub__, __mul__, __truediv__, __call__, __eq__, serialize, deserialize','iMPS'),('__add__, __sub__, __mul__, __call__, __eq__','fMPS')],['returned matrices, eigenvalues, booleans'])
p('C35','A random state is what the request asks for, whatever was asked before',
  "A random state of any of the classes (finite chains, thermofield doubles, infinite chains in either form, operators and lattices) has tensors of exactly the shapes the request implies, finite and not all zero, with real entries where real ones are asked for; it has the Schmidt ranks of a state without special structure, two requests give two different states, the same seed gives the same state, and no form of an earlier state of the same object is still claimed for the new one. A random state with given energy per site has that energy.",
  ['inputs','histories'],'every class, length, local dimension, bond dimension and sequence of requests, forms and measurements on one object',
  'Tests use random states as inputs everywhere and never look at them.',
  [F,'xmps/iMPS.py','xmps/fPEPS.py'],[('random, create_structure, random_with_energy_E','fMPS.py'),('fTFD.random','fMPS.py'),('iMPS.random, ivMPS.random','iMPS.py'),('fMPO.random, fPEPS.random','fPEPS.py')],['data, shapes, flags'])
p('C36','Lyapunov exponents and out-of-time-order correlators measure real separation',
  "At a stationary product state the linearised projected motion is that of the single flips: its rates, whatever constant is added to the Hamiltonian and whatever basis the bonds are described in, are those of the exact linear equations, and the exponents of directions ordered by growth are their real parts. For every state the instantaneous exponents add up to zero, adding a constant to the energy changes none of them, none is nonzero when the manifold is all of space, and for states that really move a single followed direction grows as two neighbouring trajectories really separate. Averages are means over the time run, runs continue with the directions the last one had and add to its records, and what is saved or stopped is found again, complete, where it was asked to be. The out-of-time-order correlator is minus the expectation of the squared commutator of the evolved and the fixed operator, in the normalised state, at every time.",
  ['inputs','histories'],'every state, Hamiltonian, initial basis, time grid and sequence of runs',
  'The tests of exponents do not run to their end; nothing compares an exponent with an exact rate or a real separation.',
  [F,'xmps/fTDVP.py'],[('jac, real_jac, match_gauge_to, tangent_space_basis, import_tangent_vector','fMPS.py'),('Trajectory.lyapunov, ed_OTOC, save, stop','fTDVP.py')],['returned exponents, records, correlators'])
p('C37','Spin operators in chains and the chains built of them',
  "An operator of one spin placed in a chain acts on that spin only, as a tensor or as a list of factors, and sites outside the chain are refused. The anisotropic Heisenberg chain is the sum over neighbours of hopping and alignment terms minus the field on every spin, whether asked for as a whole matrix, as a matrix product operator or as a list of neighbouring terms; the Ising terms add up to the Ising chain with the whole field everywhere, or with half of it at the two ends when the same symmetric term is used on every bond.",
  ['inputs','configurations'],'every chain length, site, word of operators and set of couplings',
  'The tests of this module cannot run.',
  ['xmps/qmb.py'],[('S_n_body, Sx, Sy, Sz, Sp, Sm, anisotropic_heisenberg, anisotropic_heisenberg_mpo, local_anisotropic_heisenberg(s), local_ising(s)','qmb.py')],['returned matrices'])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl')
with open(out,'w') as f:
    for x in P:
        assert len(x['title'])<=80,(x['id'],len(x['title']))
        f.write(json.dumps(x,ensure_ascii=False)+'\n')
print(len(P))
