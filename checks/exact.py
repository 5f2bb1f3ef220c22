"""C01  Complete-bath embedding = full-system method, for every partition of the local orbitals into fragments."""
import functools
import itertools
import numpy as np

from vlib import systems as S
from vlib import probe

PROPERTY = "C01"
LEVEL = "exploration"
RULE = (
    "one case per (system, spin state, integral type, solver, fragmentation type, set partition of the local orbitals); each case runs "
    "the real embedding with a complete bath and compares every supported energy functional, global amplitude and "
    "density matrix with an independent full-system PySCF calculation"
)
ASSUMPTIONS = ["PySCF's full-system MP2/CISD/CCSD/CCSD(T)/FCI are correct"]
BOUNDS = "all set partitions of 3-4 local orbitals / atoms (quick); up to 6 orbitals (thorough); solvers MP2, CISD, CCSD, FCI; RHF, UHF with S_z = -1..1; exact and density-fitted integrals"


def partitions(items):
    if len(items) == 1:
        yield [items]
        return
    first = items[0]
    for smaller in partitions(items[1:]):
        for n, subset in enumerate(smaller):
            yield smaller[:n] + [[first] + subset] + smaller[n + 1 :]
        yield [[first]] + smaller


#      system  basis    spin kind df  fragmentation  n(units)
QUICK = [
    ("h4", "sto-3g", 0, "rhf", False, "sao", 4),
    ("h4", "sto-3g", 2, "uhf", False, "sao", 4),
    ("h4", "sto-3g", -2, "uhf", False, "sao", 4),
    ("h3", "sto-3g", 1, "uhf", False, "sao", 3),
    ("h3", "sto-3g", -1, "uhf", True, "sao", 3),
    ("h3", "6-31g", 1, "uhf", False, "iaopao-atom", 3),
    ("h3", "6-31g", 1, "uhf", False, "iao-atom", 3),
    ("h4", "sto-3g", 0, "rhf", True, "sao", 4),
    ("h2o_asym", "sto-3g", 0, "rhf", False, "iao-atom", 3),
    ("h2o_asym", "sto-3g", 0, "rhf", True, "sao-atom", 3),
    ("h3", "6-31g", 0, "rhf+", False, "iao-atom", 3),
    ("h3", "6-31g", 0, "rhf+", False, "iaopao-atom", 3),
    ("lih", "sto-3g", 0, "uhf", False, "sao-atom", 2),
    ("oh", "sto-3g", 1, "uhf", False, "iao-atom", 2),
    # reference determinants other than the Hartree-Fock one (~)
    ("h4", "sto-3g", 0, "rhf~", False, "sao", 4),
    ("h3", "sto-3g", 1, "uhf~", False, "sao", 3),
    ("h3", "sto-3g", -1, "uhf~", True, "sao", 3),
    ("beh", "sto-3g", 1, "uhf", False, "sao-atom", 2),
    ("beh", "sto-3g", -1, "uhf", True, "iao-atom", 2),
    ("beh", "sto-3g", 1, "uhf", False, "sao-pair", 3),
]
THOROUGH = QUICK + [
    ("lih", "sto-3g", 0, "rhf", False, "sao", 6),
    ("lih", "sto-3g", 2, "uhf", False, "sao", 6),
    ("h4", "6-31g", 0, "rhf", False, "iao", 4),
    ("h4", "6-31g", 0, "rhf", True, "iaopao-atom", 4),
    ("h4", "6-31g", 2, "uhf", True, "iaopao-atom", 4),
    ("h4", "6-31g", 2, "uhf", False, "iao", 4),
    ("oh", "sto-3g", 1, "uhf", True, "sao", 6),
    ("h2o_asym", "6-31g", 0, "rhf", False, "iao-atom", 3),
]
SOLVERS = ["MP2", "CISD", "CCSD", "FCI"]


def cases(tier):
    out = []
    for sysdef in QUICK if tier == "quick" else THOROUGH:
        name, basis, spin, kind, df, frag, n = sysdef
        for solver in SOLVERS:
            if name in ("h2o_asym", "oh", "lih", "beh") and solver == "FCI" and tier == "quick":
                continue
            if "~" in kind and solver == "MP2":
                continue
            if name == "h2o_asym" and basis != "sto-3g" and solver in ("FCI", "CISD"):
                continue
            for p in partitions(list(range(n))):
                out.append(dict(sys=list(sysdef), solver=solver, part=sorted(p)))
    return out


def cost(c):
    return {"MP2": 1, "CISD": 2, "FCI": 3, "CCSD": 8}[c["solver"]] * (1 + len(c["part"])) * (3 if c["sys"][3] == "uhf" else 1) * (3 if c["sys"][0] == "h2o_asym" else 1)


@functools.lru_cache(maxsize=None)
def meanfield(name, basis, spin, kind, df):
    charge = 0
    if kind == "rhf+":
        charge, kind = 1, "rhf"
    if "~" in kind:
        return S.rotated_mf(name, basis, spin, charge, kind[:3], df)
    m = S.mf(name, basis, spin, charge, kind, df)
    return m


@functools.lru_cache(maxsize=None)
def reference(name, basis, spin, kind, df, solver):
    import pyscf.mp, pyscf.ci, pyscf.cc, pyscf.fci, pyscf.ao2mo

    mf = meanfield(name, basis, spin, kind, df)
    kind = "rhf" if kind.startswith("rhf") else "uhf"
    r = {}
    C = mf.mo_coeff
    if kind == "rhf":
        nocc = int(np.sum(mf.mo_occ > 0))
        hf1 = np.diag(mf.mo_occ)
    else:
        nocc = (int(np.sum(mf.mo_occ[0] > 0)), int(np.sum(mf.mo_occ[1] > 0)))
        hf1 = [np.diag(x) for x in mf.mo_occ]

    def ao1(d):
        if kind == "rhf":
            return C @ d @ C.T
        return [C[s] @ d[s] @ C[s].T for s in range(2)]

    def sub(d):
        return d - hf1 if kind == "rhf" else [d[s] - hf1[s] for s in range(2)]

    def ao2(d):
        f = lambda x, a, b: np.einsum("ijkl,pi,qj,rk,sl->pqrs", x, a, a, b, b, optimize=True)
        if kind == "rhf":
            return f(d, C, C)
        return [f(d[0], C[0], C[0]), f(d[1], C[0], C[1]), f(d[2], C[1], C[1])]

    dm1 = dm2 = None
    if solver == "MP2":
        mp = (pyscf.mp.MP2 if kind == "rhf" else pyscf.mp.UMP2)(mf)
        mp.kernel()
        ec = mp.e_corr
        r["t2"] = mp.t2
        r["l2"] = mp.t2
        zero = np.zeros((nocc, C.shape[1] - nocc)) if kind == "rhf" else [np.zeros((nocc[s], C[s].shape[1] - nocc[s])) for s in range(2)]
        r["t1"] = r["l1"] = zero
        dm1 = mp.make_rdm1()
        dm2 = mp.make_rdm2()
        r["e_dm"] = r["e_dm_2p1l"] = ec
    elif solver == "CISD":
        ci = (pyscf.ci.CISD if kind == "rhf" else pyscf.ci.UCISD)(mf)
        ci.conv_tol = 1e-12
        ci.max_cycle = 200
        ci.kernel()
        assert ci.converged
        ec = ci.e_corr
        # (T2 = C2 - T1*T1 of a *projected* CI wave function is nonlinear: no exact reassembly is claimed for T2)
        c0, c1, c2 = ci.cisdvec_to_amplitudes(ci.ci)
        r["t1"] = c1 / c0 if kind == "rhf" else (c1[0] / c0, c1[1] / c0)
    elif solver == "CCSD":
        cc = (pyscf.cc.RCCSD if kind == "rhf" else pyscf.cc.UCCSD)(mf)
        cc.conv_tol = 1e-11
        cc.conv_tol_normt = 1e-9
        cc.max_cycle = 300
        cc.kernel()
        cc.solve_lambda()
        assert cc.converged and cc.converged_lambda
        ec = cc.e_corr
        r["t1"], r["t2"], r["l1"], r["l2"] = cc.t1, cc.t2, cc.l1, cc.l2
        dm1 = cc.make_rdm1()
        dm2 = cc.make_rdm2()
        r["dm1_tl"] = cc.make_rdm1(cc.t1, cc.t2, cc.t1, cc.t2)
        for k in ("e_dm", "e_dm_gg", "e_dm_2p1l", "e_ccsd", "e_ccsd_full"):
            r[k] = ec
        if kind == "rhf":
            r["e_ccsd_t"] = cc.ccsd_t()
    elif solver == "FCI":
        h1 = mf.get_hcore()
        eri = pyscf.ao2mo.restore(1, mf._eri if mf._eri is not None else mf.with_df.get_eri() if df else mf.mol.intor("int2e"), mf.mol.nao)
        if df:
            eri = pyscf.ao2mo.restore(1, mf.with_df.get_eri(), mf.mol.nao)
        nelec = mf.mol.nelec
        norb = mf.mol.nao
        f = lambda a, b: np.einsum("pqrs,pi,qj,rk,sl->ijkl", eri, a, a, b, b, optimize=True)
        from pyscf.fci import direct_spin1, direct_uhf, cistring

        if kind == "rhf":
            sol = direct_spin1.FCI()
            hh, gg = C.T @ h1 @ C, f(C, C)
        else:
            sol = direct_uhf.FCI()
            hh = [C[s].T @ h1 @ C[s] for s in range(2)]
            gg = [f(C[0], C[0]), f(C[0], C[1]), f(C[1], C[1])]
        sol.conv_tol = 1e-14
        sol.pspace_size = 4000
        na, nb = cistring.num_strings(norb, nelec[0]), cistring.num_strings(norb, nelec[1])
        e, ci = sol.kernel(hh, gg, norb, nelec, ci0=None, nroots=1)
        ci = np.asarray(ci).reshape(na, nb)
        ec = e + mf.mol.energy_nuc() - mf.e_tot
        if abs(ci[0, 0]) < 0.2:
            return None
        if kind == "rhf":
            dm1, dm2 = sol.make_rdm12(ci, norb, nelec)
        else:
            dm1, dm2 = sol.make_rdm12s(ci, norb, nelec)
    r["e_corr"] = r["e_wf"] = ec
    r["e_tot"] = r["e_wf_tot"] = ec + mf.e_tot
    if "e_dm" in r:
        r["e_dm_tot"] = r["e_dm"] + mf.e_tot
    r["e_mf"] = mf.e_tot
    r["e_fbc"] = 0.0
    if dm1 is not None:
        for k in ("dm1", "dm1_slow", "dm1_nosym", "dm1_early", "dm1_2p1l", "dm1_pl"):
            if solver != "FCI" or k == "dm1":
                r[k] = dm1
        r["dm1_ao"] = ao1(dm1)
        r["dm1_nomf"] = sub(dm1)
        if solver != "FCI":
            r["dm1_2p1l_ao"] = r["dm1_pl_ao"] = ao1(sub(dm1))
        if solver in ("CCSD", "FCI", "MP2"):
            r["dm1_demo"] = dm1
            r["dm1_demo_ao"] = ao1(dm1)
            r["e_dmet"] = ec
            r["e_dmet_00"] = r["e_dmet_10"] = r["e_dmet_01"] = ec + mf.e_tot
            r["e_dmet_elec"] = ec + mf.e_tot - mf.mol.energy_nuc()
    if dm2 is not None:
        for k in ("dm2_demo", "dm2_demo_00", "dm2_demo_10"):
            r[k] = dm2
        r["dm2_demo_ao"] = ao2(dm2)
        if solver != "FCI":
            for k in ("dm2", "dm2_exactcum", "dm2_gw", "dm2_gw_nosym"):
                r[k] = dm2
            r["dm2_ao"] = r["dm2_gw_ao"] = ao2(dm2)
    return r


DEMO = ("e_dmet", "e_dmet_00", "e_dmet_10", "e_dmet_01", "e_dmet_elec", "dm1_demo", "dm1_demo_ao", "dm2_demo", "dm2_demo_ao", "dm2_demo_00", "dm2_demo_10")


def setup(tier):
    import vayesta.ewf


def build(case):
    import vayesta.ewf

    name, basis, spin, kind, df, frag, n = case["sys"]
    mf = meanfield(name, basis, spin, kind, df)
    solver = case["solver"]
    so = dict(conv_tol=1e-11)
    if solver == "CCSD":
        so["conv_tol_normt"] = 1e-9
    if solver == "FCI":
        so["conv_tol"] = 1e-14
    emb = vayesta.ewf.EWF(mf, solver=solver, bath_options=dict(bathtype="full"), solver_options=so)
    ftype = frag.split("-")[0]
    with getattr(emb, ftype + "_fragmentation")() as f:
        for p in case["part"]:
            if frag.endswith("-pair"):
                f.add_orbital_fragment(sorted(i for k in p for i in (2 * k, 2 * k + 1) if i < mf.mol.nao))
            elif frag.endswith("-atom"):
                f.add_atomic_fragment(p)
            else:
                f.add_orbital_fragment(p)
    return mf, emb


def spinlist(x):
    return list(x) if isinstance(x, (tuple, list)) else [x]


def run(case, rec):
    name, basis, spin, kind, df, frag, n = case["sys"]
    solver = case["solver"]
    from vlib.engine import Skip

    ref = reference(name, basis, spin, kind, df, solver)
    if ref is None:
        raise Skip("no dominant reference determinant")
    mf, emb = rec.call("build", build, case)
    rec.call("kernel", emb.kernel)
    rec.step()
    if not emb.converged:
        raise Skip("not converged")
    kk = "rhf" if kind.startswith("rhf") else "uhf"
    # a minimal basis is completely spanned by the IAOs
    complete_vir = frag.split("-")[0] != "iao" or basis == "sto-3g"
    tol = dict(FCI=2e-5, CISD=2e-5).get(solver, 2e-6)
    for q in probe.supported(solver, kk):
        if q not in ref:
            continue
        if (q in DEMO or (solver == "FCI" and q.startswith("dm1"))) and not complete_vir:
            continue
        try:
            val = probe.evaluate(emb, q)
        except probe.Missing:
            continue
        except Exception as e:
            rec.fail(q, "raised %s: %s" % (type(e).__name__, e))
            continue
        rec.step()
        a, b = spinlist(val), spinlist(ref[q])
        if not rec.check(len(a) == len(b), q, "%d vs %d spin blocks" % (len(a), len(b))):
            continue
        for s, (x, y) in enumerate(zip(a, b)):
            rec.close(x, y, tol if np.ndim(x) else tol, q if len(a) == 1 else "%s[%d]" % (q, s))
    rec.out(case["part"], round(float(emb.e_corr), 6))
    rec.state(case)
