DV = 'contract-based deductive verification of the functions in /repo: obligations generated from the current source on every run, '
Z = 'path-enumerating symbolic execution of each function against its contract, callees by contract, discharged by Z3'
SP = 'symbolic execution of the generating loops at one generic element, discharged by the normal form of polynomials with symbolic sums'
STAND = ' The runtime contracts (bounded) replay what fails and stand in for what is named as not proved.'


def _(p, tech, note, level='proof'):
    T[p] = (DV + tech, level, note + STAND)


_('C01', Z, 'All four schemes: construction, inverse map, label lists, get_state/get_ind, removal of Fock states, once or again, for every number of orbitals. Bits of an integer are given by their defining axioms.')
_('C02', Z + ', with counting lemmas', 'Numbering of StateIndexingPauli/DM/DMc, all index maps, removal of states and coherences. With spin symmetry the grouping of multiplets is assumed to be an equivalence (it comes from the multiplet lists, C06).')
_('C03', Z + ', fermionic signs by lemmas', 'Every amplitude adds its operator product, all options, containers and schemes (total-spin: before the rotation). The sum over a container is the sum over its entries (loop rule).')
_('C04', Z + ', fermionic signs by lemmas', 'As C03 for tunnelling and phonon couplings; Hermiticity and selection rules are lemmas over the contracts.')
_('C05', Z, 'add/change of QuantumDot, LeadsTunneling, PhononBaths against the state a new object has, all containers; forwarding by the builders.')
_('C06', Z, 'numpy.linalg.eigh and matrix products are trusted by their contracts. That the total-spin blocks are spin eigenspaces (Clebsch-Gordan recursion) is checked by the runtime contracts only.')
_('C07', SP + '; kernel handlers by Z3', 'All 16 first-order classes, any energies, couplings, retained elements; not the spin-reduced generator (total-spin indexing), which the runtime contracts check.')
_('C08', SP + '; kernel handlers by Z3', 'All 16 first-order classes; as C07 without the spin reduction.')
_('C09', SP + '; rate functions by Z3', 'Heat = energy - mu*particle in the first-order classes and RTD, energy balance of Pauli. That equilibrium carries no current rests on detailed balance (proved) and is evaluated by the runtime contracts; 2vN as in C19.')
_('C10', 'both forms executed by the same engine and compared: ' + SP + '; kernel handlers and drivers by Z3', 'First-order classes with and without phonons, handlers, drivers; 2vN (equations, iterated coherences, interpolation, integrals, sweep); of RTD the first-order part and the current; the rest of RTD by the runtime contracts.')
_('C11', SP + '; handlers and drivers by Z3', 'The same coupling terms are used by both forms and both handlers implement the same linear action. scipy.optimize.root is trusted to report success only at a root.')
_('C12', 'symbolic execution of the rate functions, discharged by Z3 over the reals with exp as an axiomatised function', 'All integration options. digamma, logarithm and principal-value quadrature are opaque real functions.')
_('C13', SP + '; phonon rate functions by Z3', 'All 8 classes with phonons. Thermal stationarity of the complete solution is evaluated by the runtime contracts.')
_('C14', Z + '; the solvers of NumPy/SciPy/LAPACK by contract', 'Trusted: a solver that reports success has solved the system it was given. That the replaced equation follows from the others is C07.')
_('C15', Z + ': what every stage leaves behind, for an arbitrary earlier state of the object', 'First-order classes and the 2vN driver (iteration, restart, energy grid). For RTD the runtime contracts only.')
_('C16', SP + ': the equations depend on labels only through the state lists', 'Proved: the relabelling part. That the total-spin reduction gives the same physics is checked by the runtime contracts (bounded).', 'exploration')
_('C17', SP, 'Compiled and pure Python RTD: first-order and second-order terms, off-diagonal corrections, heat currents, Pauli limit. The integrals are opaque real functions.')
_('C18', Z + ' and ' + SP, 'Accessors of every approach and handler, sorting, reproduction of the currents by phi1 in the first-order classes.')
_('C19', SP + '; interpolation, iteration sweep and driver by Z3', 'Compiled and pure Python form: equations, iterated coherences, integration over the grid, interpolation, sweep, driver. The Hilbert transform and the Fredriksen kernel enter by linearity and realness only; scipy.fft is trusted. The distribution functions on the grid are not under contract.')
_('C20', SP + ': the equations depend on labels and particle numbers only through the state lists; builders by Z3', 'Proved: construction of the state lists from many-body input, and that first-order equations use nothing else. RTD and 2vN by the runtime contracts (bounded); one known finding (2vN, complex phases).', 'exploration')
