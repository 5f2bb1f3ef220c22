"""Writes properties.jsonl (kept as a script so that the file stays well-formed)."""
import json

P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe=None):
    assert len(title) <= 80, (id, len(title))
    d = dict(
        id=id,
        title=title,
        statement=statement,
        quantifier=dict(over=over, text=qtext),
        why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]),
    )
    if observe:
        d["anchors"]["observe_at"] = observe
    P.append(d)


prop(
    "C01",
    "Embedding with a complete bath reproduces the full-system method",
    "When every fragment's cluster spans the whole orbital space, the embedded wave-function calculation gives, for every "
    "partition of a complete set of local orbitals into fragments, the same correlation energy, total energy, (for MP2 and CCSD) cluster "
    "amplitudes reassembled into global amplitudes, and one- and two-body density matrices as the same correlated method "
    "(MP2, CISD, CCSD, FCI) applied to the whole system. This holds for restricted and unrestricted references, with "
    "exact or density-fitted integrals, and for every supported way of evaluating the energy (from the projected wave "
    "function, from density matrices, or by democratic partitioning).",
    ["configurations", "inputs"],
    "all set partitions of the local orbitals (or atoms) x solver x spin symmetry/spin state x integral type x energy functional",
    "Tests compare a handful of atom-per-fragment systems; a wrong factor for one fragment shape, spin imbalance or functional passes them.",
    ["vayesta/ewf/ewf.py", "vayesta/ewf/rdm.py", "vayesta/ewf/urdm.py", "vayesta/ewf/amplitudes.py", "vayesta/ewf/fragment.py", "vayesta/ewf/ufragment.py", "vayesta/core/qemb/rdm.py", "vayesta/core/qemb/fragment.py"],
    [("projection of amplitudes on the fragment's first index and summation over fragments", "vayesta/ewf/amplitudes.py, vayesta/ewf/fragment.py:get_fragment_energy"), ("projected-lambda / global-wf density matrices", "vayesta/ewf/rdm.py, urdm.py"), ("democratic partitioning", "vayesta/core/qemb/rdm.py")],
    ["EWF.e_corr, e_tot, get_e_corr, make_rdm1, make_rdm2, make_rdm1_demo, make_rdm2_demo, get_global_t1/t2/l1/l2"],
)
prop(
    "C02",
    "Fragments partition every extensive quantity without loss or double counting",
    "For every fragmentation into orthonormal local orbitals (symmetrically orthogonalised, intrinsic atomic, intrinsic plus projected "
    "atomic, or lattice sites), whatever combination of atoms and orbital selections defines the fragments, fragment "
    "orbitals are orthonormal and describe exactly the requested orbitals, and the fragments' electron numbers, mean-field "
    "energies and populations add up to those of the whole system whenever the fragmentation is complete. The embedding's own verdict on whether the "
    "fragmentation is orthonormal and complete (in the occupied and in the virtual space) is correct for every set of fragments, including overlapping and incomplete ones.",
    ["configurations", "inputs"],
    "all subsets/partitions of atoms and orbitals of the bounded systems x fragmentation type x spin symmetry",
    "Tests fix one fragmentation per system (mostly all atoms); verdicts on incomplete or overlapping fragment sets are hardly tested.",
    ["vayesta/core/fragmentation/", "vayesta/core/qemb/qemb.py", "vayesta/core/qemb/fragment.py"],
    [("fragment construction from atoms/orbital labels", "vayesta/core/fragmentation/fragmentation.py"), ("completeness check", "vayesta/core/qemb/qemb.py:_check_fragmentation"), ("fragment mean-field energy / electrons", "vayesta/core/qemb/fragment.py, ufragment.py")],
)
prop(
    "C03",
    "Symmetry-derived fragments give the same results as explicit fragments",
    "Every symmetry operation (inversion, reflection, rotation, translation incl. boundary phases) acts on orbitals as an isometry that "
    "leaves a symmetric mean-field invariant and maps each atom's basis functions to those of its image. Fragments generated from a "
    "parent fragment by such operations span the image of the parent's orbital space, and any calculation which only solves "
    "the parents yields the same energies, density matrices, amplitudes and expectation values as one which treats every fragment "
    "explicitly; operations that are not symmetries of the system are rejected.",
    ["configurations", "inputs"],
    "all (system, operation, axis, order, centre, nested operation) combinations of the bounded set x solver x spin symmetry x quantity",
    "Tests check energies of a few symmetric systems; nested operations, all angular momenta and all derived quantities are not covered.",
    ["vayesta/core/symmetry/operation.py", "vayesta/core/symmetry/tsymmetry.py", "vayesta/core/qemb/qemb.py", "vayesta/core/qemb/fragment.py"],
    [("operation on AO coefficients", "vayesta/core/symmetry/operation.py"), ("symmetry children / tree loops", "vayesta/core/qemb/fragment.py:loop_symmetry_children")],
)
prop(
    "C04",
    "Clusters are valid subspaces for every bath type and truncation",
    "For every bath type, threshold, truncation rule and spin symmetry, each cluster's active and frozen orbitals together are "
    "orthonormal and span the full space, occupied (virtual) ones stay exactly within the mean-field occupied (virtual) space, and the "
    "active space contains the fragment and its DMET bath. A looser truncation gives a cluster contained in that of a tighter one, "
    "truncation to a number, fraction or amount of electrons returns what was asked for, and the limits (nothing kept / everything kept) "
    "reduce to the pure DMET and complete clusters.",
    ["configurations", "inputs"],
    "all bath types x occupied/virtual-specific options x truncation rules x thresholds placed between all consecutive eigenvalues x fragments x spin symmetry",
    "Tests use one or two thresholds per bath and compare energies only.",
    ["vayesta/core/bath/", "vayesta/core/qemb/fragment.py", "vayesta/core/types/cluster.py"],
    [("DMET bath", "vayesta/core/bath/dmet.py"), ("BNO threshold/truncation", "vayesta/core/bath/bno.py"), ("cluster assembly", "vayesta/core/qemb/fragment.py:make_cluster")],
)
prop(
    "C05",
    "Results depend on the current settings only, not on the history of calls",
    "After any sequence of user operations on an embedding object - running, re-running, changing options, resetting, replacing the mean-field orbitals, "
    "setting a chemical potential, evaluating density matrices, amplitudes or energies, changing returned arrays - the quantities it reports equal those of a freshly "
    "constructed object with the same final settings (after re-running, where settings were changed). Evaluating a quantity never changes any other quantity.",
    ["histories"],
    "all sequences up to the bounded depth over the operation alphabet x solver x spin symmetry, each compared with a fresh object",
    "Tests run each object once; stale caches only show after particular multi-step sequences.",
    ["vayesta/ewf/ewf.py", "vayesta/core/qemb/qemb.py", "vayesta/core/qemb/fragment.py", "vayesta/core/util.py"],
    [("cached results cleared on reset / re-run", "vayesta/ewf/ewf.py:_reset,kernel; vayesta/core/qemb/fragment.py:reset"), ("cache decorator", "vayesta/core/util.py:cache")],
)
prop(
    "C06",
    "The user's inputs are never modified",
    "No embedding, RPA, self-consistency or utility call changes the mean-field object handed in by the user (orbitals, energies, "
    "occupations, total energy, integrals), the molecule, option dictionaries, orbital index lists or arrays passed as arguments; "
    "arrays returned to the user are either fresh or protected, so changing them cannot alter later results.",
    ["histories", "inputs"],
    "every public operation x spin symmetry x argument type, with a deep snapshot of all user-owned objects before and after",
    "Tests never compare inputs before and after a call.",
    ["vayesta/core/qemb/qemb.py", "vayesta/core/util.py", "vayesta/core/types/", "vayesta/core/scmf/"],
    [("copy of the mean-field", "vayesta/core/qemb/qemb.py:init_mf"), ("options merging", "vayesta/core/util.py:OptionsBase")],
)
prop(
    "C07",
    "Parallel runs terminate and give the serial result for every process count",
    "An embedding calculation run on any number of MPI processes, with any distribution of fragments over them and any message "
    "timing or buffering behaviour permitted by MPI, terminates without deadlock or unmatched messages, and every rank that is meant to receive "
    "a result (energies, amplitudes, density matrices, populations) obtains the serial value, while no other rank fails.",
    ["schedules", "configurations"],
    "process counts x solvers x spin symmetry x operations x schedules (all orders in which pending communication may complete; eager and synchronous sends)",
    "The test suite never runs under MPI.",
    ["vayesta/mpi/interface.py", "vayesta/mpi/rma.py", "vayesta/ewf/", "vayesta/core/qemb/"],
    [("with_send / with_allreduce / with_reduce decorators", "vayesta/mpi/interface.py"), ("fragment distribution by rank", "vayesta/core/qemb/register.py"), ("cluster communication", "vayesta/core/qemb/qemb.py:communicate_clusters")],
)
prop(
    "C08",
    "The distributed dictionary is coherent across processes",
    "After all processes synchronise, every process sees the same set of keys in the distributed one-sided-access dictionary and reads, for each key, exactly the array (values, "
    "shape, data type) last written by its owner before the synchronisation, whatever the interleaving of the processes; removing, overwriting and clearing entries keeps this true and releases the entry everywhere.",
    ["schedules", "histories"],
    "all bounded programs of put/overwrite/delete/clear/synchronise/read per process x all interleavings of the one-sided operations",
    "The test suite never runs under MPI.",
    ["vayesta/mpi/rma.py"],
    [("metadata synchronisation and windows", "vayesta/mpi/rma.py:RMA_Dict")],
)
prop(
    "C09",
    "Restricted and unrestricted calculations agree for closed shells",
    "For every closed-shell system, fragmentation, bath and solver, a calculation starting from the unrestricted form of a restricted "
    "mean-field gives the same energies, and its spin-summed density matrices, populations, spin and charge correlation functions and "
    "cluster sizes equal the restricted ones. Exchanging the two spin channels of an open-shell reference exchanges the spin channels of every result and leaves energies unchanged.",
    ["configurations", "inputs"],
    "systems x fragmentations x bath types x solvers x energy functionals x all spin-dependent quantities; spin-flipped open shells",
    "Restricted and unrestricted code paths are separate implementations, and only a few energies are cross-checked.",
    ["vayesta/ewf/", "vayesta/core/qemb/", "vayesta/core/types/wf/", "vayesta/solver/"],
    [("parallel restricted/unrestricted implementations", "vayesta/ewf/urdm.py, vayesta/core/qemb/uqemb.py, ufragment.py")],
)
prop(
    "C10",
    "Wave-function objects keep their physical content under every transformation",
    "Converting a cluster wave function between representations (MP2, CISD, CCSD, CISDTQ, FCI; restricted or unrestricted), rotating its orbitals, projecting, "
    "restoring, copying, packing and unpacking, in any order, preserves amplitudes, normalisation and spin blocks wherever the operation is "
    "exact: round trips return the original, two routes to the same representation agree, and the density matrices "
    "derived from any representation equal those of the underlying state.",
    ["histories", "inputs"],
    "all operation sequences up to a bounded depth x wave-function types x all (n_occ, n_vir) shapes per spin within the bound x projector choices",
    "Tests convert a couple of closed-shell wave functions once; open shells, empty or unequal spin blocks and operation sequences are untested.",
    ["vayesta/core/types/wf/", "vayesta/core/types/orbitals.py"],
    [("conversions", "vayesta/core/types/wf/*.py:as_*"), ("pack/unpack", "vayesta/core/types/wf/*.py"), ("projection/restore", "vayesta/core/types/wf/project.py")],
)
prop(
    "C11",
    "All integral paths give the exact cluster Hamiltonian",
    "For every cluster, the two-electron integrals, density-fitted factors, one-body and Fock operators obtained through "
    "any route (stored or recomputed, full or block-wise, exact or density fitted, compressed, truncated from a larger cluster, or wrapped as a solver's mean-field) for molecules and lattices are "
    "the same numbers as transforming the full-system operators directly, for restricted and unrestricted orbitals alike. The cluster's mean-field "
    "energy and Fock matrix reproduce those of the full system restricted to the cluster.",
    ["configurations", "inputs", "histories"],
    "systems x integral types x spin symmetry x active/frozen splits x all integral blocks x access orders",
    "Tests only see integrals through converged energies of default paths.",
    ["vayesta/core/eris.py", "vayesta/core/ao2mo/", "vayesta/solver/hamiltonian.py"],
    [("integral transformation", "vayesta/core/ao2mo/postscf_ao2mo.py, vayesta/core/qemb"), ("cluster Hamiltonian", "vayesta/solver/hamiltonian.py")],
)
prop(
    "C12",
    "Lattice models are self-consistent for every size, boundary and site order",
    "For every lattice size, boundary condition, tiling and site ordering, the one-body Hamiltonian connects exactly the sites that are "
    "nearest neighbours according to the reported site coordinates and lattice vectors, with the sign given by the boundary condition of the direction that is crossed; "
    "consecutive sites of a tiling form the tiles. The interaction is the same on-site repulsion through every interface (four-index, transformed, factorised, mean-field potential), "
    "and every lattice translation is a symmetry of the model.",
    ["configurations"],
    "all sizes, boundary conditions, tile shapes and orderings within the bound",
    "Tests use square lattices with equal boundaries and 1D chains in natural order.",
    ["vayesta/lattmod/latt.py", "vayesta/core/symmetry/operation.py"],
    [("site indexing", "vayesta/lattmod/latt.py:get_index, atom_coords, get_tiles_order")],
)
prop(
    "C13",
    "k-point sampled mean-fields fold exactly to the Born-von Karman supercell",
    "Folding any k-point sampled mean-field to its supercell yields real orbitals, occupations, energies, overlap, core Hamiltonian, "
    "Fock and density matrices that satisfy the supercell equations and reproduce the energy per primitive cell, for every k-mesh and for restricted and "
    "unrestricted references; integrals transformed from k-space equal those of the supercell, with or without the compiled library. An embedding calculation on the k-point object gives the same energy per cell as one on the equivalent supercell.",
    ["configurations", "inputs"],
    "cells x k-meshes x spin symmetry x integral blocks x library/no library",
    "Tests check a few meshes and only final energies.",
    ["vayesta/core/foldscf.py", "vayesta/core/ao2mo/kao2gmo.py", "vayesta/libs/core/src/j3c_kao2gmo.c"],
    [("Bloch to supercell transformation", "vayesta/core/foldscf.py"), ("k-space integral transformation", "vayesta/core/ao2mo/kao2gmo.py")],
)
prop(
    "C14",
    "RPA solvers agree with exact diagonalisation of the response problem",
    "For every system, spin state and choice of exchange treatment supported, excitation energies, response moments of every order and sign, and correlation energies from "
    "the full and from the density-fitted, numerically integrated RPA implementations agree with direct diagonalisation of the RPA matrices built from the integrals, "
    "and with one another, whatever the rotation of the target space, interaction strength, storage and compression settings; numerical integration converges with the number of points, and on converging grids the reported error is not smaller than the actual one.",
    ["configurations", "inputs"],
    "systems x spin x direct/exchange x moment orders x integration settings x rotations of the target space",
    "Tests check few systems and moments; results depend on quadrature branches chosen at run time.",
    ["vayesta/rpa/"],
    [("moment construction", "vayesta/rpa/ssrpa.py, ssurpa.py"), ("numerical integration", "vayesta/rpa/rirpa/")],
)
prop(
    "C15",
    "Fragment selection and option settings mean exactly what they say",
    "Selecting fragments by any combination of names, identifiers, attributes, options and flags returns exactly those fragments that satisfy every criterion, in "
    "order. Options given at construction, per fragment, or changed later take effect for exactly the objects and keys named - nested "
    "dictionaries are merged key by key, occupied/virtual-specific values override common ones, unknown keys are rejected - and never leak into other objects or into defaults.",
    ["configurations", "histories"],
    "all filter combinations over the attribute alphabet; all sequences of option updates up to the bounded depth on several objects",
    "Tests set a few options once; filters are only used internally with single criteria.",
    ["vayesta/core/qemb/qemb.py", "vayesta/core/util.py", "vayesta/core/qemb/fragment.py"],
    [("fragment filters", "vayesta/core/qemb/qemb.py:get_fragments"), ("options merging", "vayesta/core/util.py:OptionsBase")],
)
prop(
    "C16",
    "Chemical-potential optimisation delivers the requested electron number",
    "Whenever the search for a fragment chemical potential reports success, the electron number of the fragment (or, for a global potential, of the whole "
    "partitioned system) equals the target within the stated tolerance and the stored results belong to the reported potential, in wave-function and density-matrix embedding, for any monotonic electron-number response, initial guess and target; it never "
    "reports convergence otherwise and always terminates.",
    ["inputs", "histories"],
    "all response functions of the bounded family x targets x guesses x tolerances x robust/fast search; embedding calculations with targets",
    "Tests run two lattice examples with good starting guesses.",
    ["vayesta/misc/cptbisect.py", "vayesta/solver/solver.py", "vayesta/core/qemb/qemb.py"],
    [("bracketing and bisection", "vayesta/misc/cptbisect.py"), ("cluster potential optimisation", "vayesta/solver/solver.py:optimize_cpt")],
)
prop(
    "C17",
    "Tensor and spin-algebra utilities equal their mathematical definition",
    "The package's tensor contraction, matrix-product, block iteration, packing/unpacking, antisymmetric (de)compression, orthonormalisation, eigen-decomposition, localisation-metric and spin-resolved "
    "arithmetic helpers return the mathematically defined result for every admissible shape, axis, subscript pattern, data type and mixture of restricted and unrestricted operands.",
    ["inputs"],
    "all shapes, axes, subscripts and operand kinds within the bound",
    "Tests cover single examples of some helpers; many branch on shape or operand kind.",
    ["vayesta/core/util.py", "vayesta/core/helper.py", "vayesta/core/linalg.py", "vayesta/core/spinalg.py"],
    [("helpers", "vayesta/core/util.py, helper.py, linalg.py, spinalg.py")],
)
prop(
    "C18",
    "Dumped cluster files contain each cluster's complete, exact Hamiltonian",
    "The file written for external solvers contains, for every fragment that was requested and no other, orbitals, overlaps, one- and two-electron integrals and metadata "
    "from which an external program recovers the same cluster energy and wave function as the built-in solver, for restricted and unrestricted references; feeding such "
    "externally computed results back gives the same embedding energies and density matrices as the built-in solver. Writing several fragments, files or runs never loses or overwrites another fragment's data.",
    ["configurations", "histories"],
    "systems x spin symmetry x fragmentations x sequences of dump runs x solver used on the dumped data",
    "One test dumps one system once and does not solve the dumped problem.",
    ["vayesta/solver/dump.py", "vayesta/solver/callback.py", "vayesta/solver/hamiltonian.py"],
    [("HDF5 writer", "vayesta/solver/dump.py"), ("callback solver", "vayesta/solver/callback.py")],
)
prop(
    "C19",
    "Self-consistent mean-field loops leave the embedding in a valid state",
    "During and after any self-consistency loop (projected DMET, Brueckner) the embedding's mean-field orbitals stay orthonormal with the correct electron number, the reported "
    "energies belong to the final orbitals, and reported convergence means that the last update changed the orbitals by less than the "
    "tolerance; restarting or running the loop again from its result changes nothing beyond the tolerance, and the loop leaves the original mean-field untouched.",
    ["histories", "configurations"],
    "systems x spin symmetry x solver x loop kind x mixing/iteration limits x sequences of loop and evaluation calls",
    "Tests compare one energy per method.",
    ["vayesta/core/scmf/", "vayesta/core/qemb/qemb.py"],
    [("loop", "vayesta/core/scmf/scmf.py"), ("updates", "vayesta/core/scmf/pdmet.py, brueckner.py")],
)
prop(
    "C20",
    "DMET is exact in its exact limits and conserves particle number",
    "For every tiling of a system into fragments, density-matrix embedding reproduces the exact energy when the interaction vanishes, when "
    "one fragment contains the whole system, and when the fragments are non-interacting copies; the fragments' electrons add up to the total, and the reported energies equal the democratically partitioned expectation values of the full-system operators. The result does not depend on the order or labelling of fragments, nor on treating "
    "equivalent fragments by symmetry or explicitly.",
    ["configurations", "inputs"],
    "all tilings/partitions of the bounded systems x fillings x solvers x spin symmetry x charge consistency",
    "Tests check a few lattice points per parameter set.",
    ["vayesta/dmet/", "vayesta/core/bath/dmet.py", "vayesta/core/qemb/fragment.py"],
    [("DMET loop", "vayesta/dmet/dmet.py"), ("fragment energy", "vayesta/core/qemb/fragment.py:get_fragment_dmet_energy")],
)
prop(
    "C21",
    "Cluster solvers return the solution of the cluster Hamiltonian they are given",
    "For every cluster, spin symmetry and integral type, the energy and wave function of each solver (MP2, CISD, CCSD, externally corrected and tailored CCSD, FCI, EBCC-CCSD, callback) is the solution of that cluster's Hamiltonian by the named method, independent of initial guess, storage and "
    "iteration settings, as obtained by an independent implementation with the remaining orbitals frozen; external corrections, tailoring and fragment potentials change it exactly as "
    "defined and vanish when they should.",
    ["configurations", "inputs"],
    "systems x spin symmetry x integral type x active/frozen splits x solvers x solver options",
    "Tests compare total embedding energies at default settings.",
    ["vayesta/solver/"],
    [("solvers", "vayesta/solver/*.py")],
)
prop(
    "C22",
    "Populations and correlation functions obey their sum rules",
    "For every fragmentation, projection and set of atoms, populations add up to the number of electrons of each spin, and atom-resolved spin and charge correlation functions sum over atoms to the "
    "total-spin and particle-number expectation values of the same density matrices; mean-field functions equal those of the mean-field determinant and, with a complete bath, correlated ones equal those of the full wave function, however the atoms are grouped or ordered.",
    ["configurations", "inputs"],
    "systems x spin symmetry x solvers x all atom subsets/orders/groupings x projections x correlation kinds",
    "Tests store a few numbers for one molecule.",
    ["vayesta/core/qemb/corrfunc.py", "vayesta/core/qemb/qemb.py"],
    [("correlation functions", "vayesta/core/qemb/corrfunc.py"), ("population analysis", "vayesta/core/qemb/qemb.py:pop_analysis")],
)

with open(__import__("os").path.join(__import__("os").path.dirname(__import__("os").path.abspath(__file__)), "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
