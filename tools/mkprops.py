import json
P=[]
def p(id,title,st,over,qt,why,files,mech,state=(),obs=()):
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=qt),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(obs),hook_needed=None)))
Q='qmeq/'
base=[Q+'approach/base/'+x for x in ('pauli.py','lindblad.py','redfield.py','neumann1.py')]
cbase=[Q+'approach/base/'+x for x in ('c_pauli.pyx','c_lindblad.pyx','c_redfield.pyx','c_neumann1.pyx')]
el=[Q+'approach/elph/'+x for x in ('pauli.py','lindblad.py','redfield.py','neumann1.py')]
cel=[Q+'approach/elph/'+x for x in ('c_pauli.pyx','c_lindblad.pyx','c_redfield.pyx','c_neumann1.pyx')]
p('C01','Fock-state labels are a bijection that respects the quantum numbers',
 'For every number of single-particle states and every indexing scheme, the mapping between occupation vectors and many-body state labels is a bijection in both directions, and the label lists by charge (by charge and spin projection, where the scheme has one) partition the labels exactly according to those quantum numbers of the occupation vectors. After Fock states are removed, once or repeatedly and in any order, the same holds for exactly the states that remain, and the removed ones have no label.',
 ['inputs','histories'],'all system sizes, all indexing schemes, all sequences of Fock-state removals',
 'The tests list the labels of one four-orbital system per scheme; they say nothing about other sizes or about a second removal.',
 [Q+'indexing.py'],[('binary encodings and their inverses','indexing.py: binarylist_to_integer, integer_to_binarylist'),('construction of charge/spin sectors','indexing.py: construct_chargelst, construct_szlst, make_inverse_map'),('removal of states','indexing.py: StateIndexing.remove_fock_states')],
 [('state tables i and j','label -> linear index and its inverse','StateIndexing')],['si.get_state','si.get_ind','si.get_lst'])
p('C02','Density-matrix elements are numbered injectively, in range, conjugates paired',
 'For every set of retained many-body states, every density-matrix element between two retained states of one charge (that symmetry and coherence removal leave in) has an index in range, populations first and without gaps; two elements share an index only if they are Hermitian conjugates or related by the spin symmetry that was asked for, and exactly one of a group is marked as the independent one. Amplitudes between neighbouring charges are numbered injectively from 0 to their count. This stays true after states or coherences are removed or all states are used again, in any order.',
 ['inputs','histories'],'all sets of retained states, all indexing schemes, all histories of removing and restoring states and coherences',
 'The tests compare the tables of one four-orbital system; an index collision needs another sector size or a second removal.',
 [Q+'indexing.py',Q+'builder/various.py',Q+'approach/c_kernel_handler.pyx'],[('prefix sums and enumeration','indexing.py: set_statesdm, set_dictdm, set_mapdm, get_ind_dm0, get_ind_dm1'),('coherence removal','various.py: remove_coherences'),('flattened enumerations for the compiled code','c_kernel_handler.pyx: set_statesdm, set_all_bbp, set_all_ba')],
 [('shiftlst0, shiftlst1, lenlst, dictdm, mapdm0, booldm0, conjdm0','index tables','StateIndexingDM, StateIndexingDMc, StateIndexingPauli')],['si.get_ind_dm0','si.get_ind_dm1'])
p('C03','The many-body Hamiltonian is the second-quantised operator of its input',
 'The many-body Hamiltonian built from hopping and Coulomb amplitudes equals, element by element, the second-quantised operator of those amplitudes with fermionic signs, in every indexing scheme and after Fock states are removed. It couples only states of equal charge, and is Hermitian when the amplitudes (with the conjugates the options say are implied) describe a Hermitian operator.',
 ['inputs','configurations'],'all hopping and Coulomb amplitudes, real or complex, all sizes, indexing schemes and Hermiticity options',
 'The tests compare a few spectra and matrices for fixed real amplitudes; a wrong sign or conjugate for particular orbitals or for complex amplitudes is invisible there.',
 [Q+'qdot.py'],[('fermionic sign and index bookkeeping','qdot.py: construct_ham_coulomb, construct_ham_hopping')],[],['qd.hamlst','Ea'])
p('C04','Many-body lead and phonon couplings are the operators of their input',
 'The many-body tunnelling amplitudes equal, element by element, the matrix elements of the operator sum of lead-to-orbital amplitudes times creation operators plus its conjugate, with fermionic signs; the many-body electron-phonon couplings equal those of the one-body operator of their input. The tunnelling matrices are Hermitian and connect only states whose charges differ by one, the phonon couplings connect only equal charges.',
 ['inputs','configurations'],'all amplitudes, real or complex, all numbers of leads, baths and orbitals, all indexing schemes',
 'The tests compare one set of amplitudes; signs and conjugates depend on the orbital, on the occupation and on the phase of the amplitude.',
 [Q+'leadstun.py',Q+'baths.py'],[('bit flip with a prefix-sum sign','leadstun.py: construct_Tba'),('one-body phonon operator','baths.py: elph_construct_Vbbp')],[],['leads.Tba0','baths.Vbbp0'])
p('C05','Incremental changes equal building the system from the final parameters',
 'After any sequence of additions, changes and replacements of single-particle, Coulomb, tunnelling, lead and phonon-bath parameters, the observable system (Hamiltonian, energies, tunnelling and phonon matrices, lead properties, currents) is the one obtained by building a new system from the resulting parameters. Parameters that were not named stay as they were, and the caller\'s containers are not modified.',
 ['histories','inputs'],'all sequences of add, change and update calls with dictionaries, lists or arrays',
 'The tests apply one or two calls to one system; drift between stored parameters and derived arrays needs longer histories or particular keys.',
 [Q+'qdot.py',Q+'leadstun.py',Q+'baths.py',Q+'builder/builder_base.py',Q+'builder/builder_elph.py'],[('difference-based updates','qdot.py: QuantumDot.add, change; leadstun.py: LeadsTunneling.add, change; baths.py: PhononBaths.add, change')],[],['builder.add','builder.change'])
p('C06','Diagonalisation and rotation are exact changes of basis',
 'The reported energies and eigenvectors diagonalise the many-body Hamiltonian sector by sector, and the couplings used for transport are the Fock-basis couplings expressed in exactly that eigenbasis, so they stay Hermitian and keep the charge selection rules. With total-spin indexing every eigenvector is also an eigenvector of the total spin it is labelled with, and the members of a multiplet have equal energies.',
 ['inputs','configurations'],'all Hamiltonians and couplings (spin-conserving ones, with spin-polarised leads, for the spin indexing schemes), all indexing schemes, also after Fock states are removed',
 'The tests compare energies and rotated matrices of one system; they do not constrain phases, degenerate levels, or other sectors.',
 [Q+'qdot.py',Q+'leadstun.py',Q+'baths.py'],[('block diagonalisation and assembly','qdot.py: QuantumDot.diagonalise, set_Ea, construct_ssq_eigvec'),('block-wise rotation','leadstun.py: rotate_Tba, construct_full_pmtr; baths.py: elph_rotate_Vbbp')],[],['Ea','qd.vecslst','Tba','Vbbp'])
p('C07','Every first-order master equation preserves trace and Hermiticity',
 'For Pauli, Lindblad, Redfield and first-order von Neumann, compiled or not, with or without phonon baths, the generator applied to any Hermitian density matrix gives a Hermitian matrix of zero trace, whatever the energies, couplings, retained states and retained coherences. Hence, before the normalisation replaces an equation, the population equations sum to zero.',
 ['inputs','configurations'],'all energies, all coupling matrices (any phase), all rate factors, all retained states and coherences',
 'The tests compare currents at a few parameter points; a wrong index or sign can keep them within rounding there, or only show with coherences or complex couplings.',
 base+cbase+el+cel+[Q+'approach/kernel_handler.py',Q+'approach/c_kernel_handler.pyx'],[('gain and loss terms of each kernel','generate_coupling_terms of each approach'),('real and imaginary packing','kernel_handler.py: set_matrix_element, set_energy')],[('kern','real representation of the generator','Approach')],['kern','phi0'])
p('C08','Particle currents obey the continuity equation',
 'For every first-order approach, compiled or not, and for any state of the dot, the sum over leads of the particle currents equals the rate of change of the mean dot charge given by the same master equation. In a stationary state the particle currents therefore add up to zero.',
 ['inputs','configurations'],'all energies, coupling matrices, lead parameters and density matrices',
 'The tests check two-lead currents at single parameter points; a lead- or sector-dependent error in either the kernel or the current formula escapes them.',
 base+cbase+[Q+'approach/kernel_handler.py'],[('current formulas','generate_current of each approach'),('kernels','generate_coupling_terms of each approach')],[('phi1','first-order amplitudes','approach')],['current'])
p('C09','Energy and heat currents are consistent with particle currents',
 'In every approach the heat current of each lead equals its energy current minus its chemical potential times its particle current. In the Pauli approach the energy currents add up to the rate of change of the dot energy, and leads in one common equilibrium carry no particle, energy or heat current.',
 ['inputs','configurations'],'all energies, couplings, temperatures, chemical potentials and numbers of leads',
 'The tests compare energy currents of one system; a lead mix-up or a missing term shows only for unequal chemical potentials or temperatures.',
 base+cbase+[Q+'approach/base/RTD.py',Q+'approach/base/c_RTD.pyx',Q+'approach/base/neumann2.py'],[('current formulas','generate_current of each approach'),('factors','generate_fct of each approach')],[],['energy_current','heat_current'])
p('C10','Compiled and pure Python approaches compute the same results',
 'For every approach that exists in a compiled and a pure Python form, both forms give the same generator, density matrix and currents (up to rounding) for the same system, options and history of calls, including removed states and coherences, many-body input, phonon baths and matrix-free solution.',
 ['inputs','configurations','histories'],'all systems, options and call histories',
 'The tests compare a few currents of both forms to five or so digits for one system; indices, retained states, and complex couplings are not varied.',
 cbase+cel+base+el+[Q+'approach/c_kernel_handler.pyx',Q+'approach/c_aprclass.pyx',Q+'specfunc/c_specfunc.pyx',Q+'specfunc/specfunc.py',Q+'specfunc/c_specfunc_elph.pyx',Q+'approach/base/c_RTD.pyx',Q+'approach/base/c_neumann2.pyx'],[('same equations in both languages','matching methods of the .py and .pyx files')],[],['phi0','current','energy_current','heat_current','kern'])
p('C11','The matrix-free generator acts as the stored matrix does',
 'For every first-order approach, the matrix-free action on any vector equals the product of the explicitly stored generator with that vector, except in the one equation that is replaced by the normalisation, where it returns the trace minus one. A successful matrix-free solution gives the density matrix and currents of the stored-matrix solution.',
 ['inputs','configurations'],'all vectors, energies, couplings, retained states and coherences, replaced equations and iterative solvers',
 'The tests solve one system with the default iterative solver; agreement there does not constrain the action on other vectors.',
 [Q+'approach/kernel_handler.py',Q+'approach/c_kernel_handler.pyx',Q+'approach/aprclass.py',Q+'approach/c_aprclass.pyx'],[('the two handlers of matrix elements','kernel_handler.py: KernelHandler, KernelHandlerMatrixFree'),('generate_vec, solve_matrix_free','aprclass.py')],[],['phi0','current'])
p('C12','Tunnelling rate factors obey sum rule, positivity and detailed balance',
 'For every energy, temperature, chemical potential and bandwidth, the in- and out-tunnelling rate factors are non-negative, add up to the golden-rule value 2*pi inside the band and (for finite-band options) to zero outside it, and satisfy detailed balance with respect to the lead. The first-order von Neumann factors have exactly the corresponding imaginary parts, for all integration options.',
 ['inputs','configurations'],'all energies, temperatures, chemical potentials, band edges and integration options',
 'The tests evaluate the factors at a handful of points for one integration option each.',
 [Q+'specfunc/specfunc.py',Q+'specfunc/c_specfunc.pyx'],[('rate factors','func_pauli, func_1vN'),('Fermi function and principal-value terms','fermi_func, phi, delta_phi')],[],['func_pauli','func_1vN'])
p('C13','Phonon baths exchange energy but no particles, and thermalise the dot',
 'Phonon baths change neither the total probability nor the mean dot charge, for every approach that supports them, compiled or not. Their absorption and emission rates are non-negative and obey detailed balance at the bath temperature, and the rates they add in the rate equation depend only on the coupling and the energy difference.',
 ['inputs','configurations'],'all electron-phonon couplings, bath temperatures, bandwidths and spectral functions, all retained states',
 'The tests compare a few currents for one system; they do not separate the phonon part or vary temperature and spectrum.',
 el+cel+[Q+'specfunc/specfunc_elph.py',Q+'specfunc/c_specfunc_elph.pyx'],[('phonon terms of the kernels','approach/elph: generate_coupling_terms'),('phonon rate factors','specfunc_elph.py: FuncPauliElPh, Func1vNElPh')],[],['kern','current'])
p('C14','A reported solution is normalised, stationary and solver independent',
 'When a solution is reported as successful, the density matrix has trace one and makes the generator vanish, whichever population equation was replaced by the normalisation and whichever dense solver or equation count was chosen. When the linear solver fails, the failure is reported and the density matrix and currents are zero rather than those of an earlier solution.',
 ['inputs','configurations','fault_sequences'],'all systems, replaced equations, solvers, and failing linear systems',
 'The tests use one system with the default replaced equation, and never a failing solver.',
 [Q+'approach/aprclass.py',Q+'approach/c_aprclass.pyx',Q+'wrappers/c_lapack.pyx'],[('replacement of an equation, solution, failure path','aprclass.py: solve_kern; c_aprclass.pyx: solve_kern')],[('success','whether the last solution succeeded','Approach')],['success','phi0','kern'])
p('C15','Results depend on the current parameters only, not on earlier solutions',
 'Solving the same object again, after any earlier solutions, parameter changes, changes of solver or matrix-free options, of approach, or of retained states and coherences, gives the results of a new object built with the final parameters. In particular solving twice gives the same results, and no buffer of an earlier solution leaks into a later one.',
 ['histories'],'all sequences of solve calls, parameter changes, option switches and state removals on one object',
 'The tests build a new object for nearly every solution.',
 [Q+'approach/aprclass.py',Q+'approach/c_aprclass.pyx',Q+'builder/builder_base.py',Q+'builder/builder_elph.py',Q+'builder/various.py'],[('buffers cleaned or rebuilt','prepare_kern, clean_arrays, prepare_arrays'),('invalidation','states_changed, is_prepared')],[('is_prepared, states_changed','whether buffers fit the retained states','Approach, StateIndexing')],['phi0','current'])
p('C16','Indexing schemes and spin symmetry do not change the physics',
 'Linear, charge and spin-projection indexing of the same spin-conserving system give the same currents and the same probabilities of corresponding states. For a spin-rotation-invariant system total-spin indexing, with multiplets and spin symmetry of the leads used to reduce the equations, gives those currents as well.',
 ['configurations','inputs'],'all spin-conserving (spin-rotation-invariant) systems',
 'The tests compare a few numbers per indexing for one system.',
 [Q+'indexing.py',Q+'qdot.py',Q+'leadstun.py',Q+'approach/kernel_handler.py'],[('sector lists and symmetry maps','indexing.py: StateIndexingDM.set_mapdm; qdot.py: construct_ssq_eigvec')],[],['current','phi0'])
p('C17','The second-order RTD generator conserves probability and charge',
 'For the RTD approach, compiled or not, each lead\'s contribution to the generator conserves probability, the particle currents of the leads add up to zero in the stationary state, and heat currents follow from energy and particle currents. Without off-diagonal corrections and to lowest order in the coupling it reduces to the Pauli master equation.',
 ['inputs','configurations'],'all energies, couplings, temperatures and chemical potentials, with and without off-diagonal corrections, all retained states',
 'The tests compare the currents of one system to stored numbers.',
 [Q+'approach/base/RTD.py',Q+'approach/base/c_RTD.pyx',Q+'approach/kernel_handler.py',Q+'approach/c_kernel_handler.pyx',Q+'specfunc/specfunc.py',Q+'specfunc/c_specfunc.pyx'],[('signed insertion of second-order terms','kernel_handler.py: add_element_2nd_order'),('row and column generation','RTD.py')],[],['kern','current'])
p('C18','Density-matrix accessors return a consistent Hermitian density matrix',
 'Reading the density matrix element by element gives a Hermitian matrix of trace one that is zero between states of different charge or left-out elements, in every approach, indexing, ordering of states and builder, and the amplitudes read between neighbouring charges are conjugate under exchange of their states and reproduce the particle currents. Sorting states only permutes what is read.',
 ['inputs','configurations','histories'],'all systems, approaches, sort orders and retained states',
 'The tests read a few elements of one system.',
 [Q+'builder/various.py',Q+'builder/builder_base.py'],[('index and conjugation lookup','various.py: get_phi0, get_phi1, get_charge, sort_eigenstates')],[],['get_phi0','get_phi1'])
p('C19','Second-order von Neumann iterations conserve charge and trace',
 'In the second-order von Neumann approach, compiled or not, every iteration yields a Hermitian density matrix of trace one, particle currents of the leads that add up to zero, and heat currents consistent with energy and particle currents. The Hilbert transform used between iterations is linear and real, and iterating n+m times equals iterating n times and continuing m times.',
 ['inputs','histories'],'all systems, energy grids and numbers of iterations',
 'The tests compare the currents of one system after a few iterations to stored numbers.',
 [Q+'approach/base/neumann2.py',Q+'approach/base/c_neumann2.pyx',Q+'approach/aprclass.py',Q+'specfunc/specfunc.py'],[('kernel from integrated amplitudes','neumann2.py: generate_kern, determine_phi1_phi0, iterate'),('Hilbert transform','specfunc.py: hilbert_fredriksen')],[],['current','phi0','iters'])
p('C20','Systems given by many-body input equal those built from orbitals',
 'A system constructed directly from many-body energies, particle numbers and couplings gives the density matrix and currents of the orbital-level system that has those many-body properties, in every approach. A common shift of all particle numbers, any relabelling of the states and any change of their phases change nothing but the labels and phases of what is read.',
 ['inputs','configurations'],'all many-body spectra, couplings, particle numbers and orders of states, with and without phonon baths',
 'The tests use one many-body system whose states are already in the order the code prefers.',
 [Q+'builder/builder_base.py',Q+'builder/builder_elph.py',Q+'indexing.py'],[('sector lists from particle numbers','builder_base.py: BuilderManyBody._init_state_indexing, _set_state_indexing')],[],['current','phi0'])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
import jsonschema
for x in P: jsonschema.validate(x,s)
print(len(P))
