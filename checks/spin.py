"""C09  Restricted = unrestricted for closed shells; exchanging the spin channels exchanges the results."""
import copy
import functools
import itertools
import numpy as np

from vlib import systems as S
from vlib import probe
from vlib.engine import Skip

PROPERTY = "C09"
LEVEL = "exploration"
TECHNIQUE = (
    "exhaustive enumeration of (system, partition, bath, solver) executed twice on the real code - restricted/unrestricted or with the two spin "
    "channels exchanged - comparing every observable of both executions"
)
RULE = "one case per (system, reference pair, fragment family, bath setting, solver); each runs two complete embedding calculations and compares all supported quantities"
BOUNDS = "molecules of 2-4 atoms, all set partitions of atoms into fragments (3 atoms) or listed ones, 7 bath settings, solvers MP2/CISD/CCSD/FCI, S_z up to 1"
ASSUMPTIONS = ["quantities documented as unavailable for one of the two spin symmetries are not compared"]

BATHS = {
    "dmet": dict(bathtype="dmet"),
    "full": dict(bathtype="full"),
    "mp2-4": dict(bathtype="mp2", threshold=1e-4),
    "mp2-3o1": dict(bathtype="mp2", threshold=1e-3, project_dmet_order=1, project_dmet_mode="entropy"),
    "mp2-p0": dict(bathtype="mp2", threshold=1e-3, project_dmet_order=0),
    "mp2-occ": dict(bathtype="mp2", threshold_occ=1e-3, threshold_vir=-1, project_dmet_order=1, project_dmet_mode="linear"),
    "mp2-n": dict(bathtype="mp2", threshold=1, truncation="number"),
}

RU = [
    ("h4", "sto-3g", 0, False, "sao", [[[0], [1], [2], [3]], [[0, 1], [2, 3]], [[0, 3], [1], [2]]]),
    ("h2o_asym", "sto-3g", 0, False, "iao", [[[0], [1], [2]], [[0, 1], [2]]]),
    ("h4", "6-31g", 0, False, "iao", [[[0, 1], [2, 3]]]),
    ("lih", "6-31g", 0, True, "iaopao", [[[0], [1]]]),
    ("h4", "6-31g", 0, True, "iao", [[[0], [1, 2, 3]], [[1]]]),
    ("h4~", "sto-3g", 0, False, "sao", [[[0, 2], [1, 3]]]),
]
FLIP = [
    ("h3", "6-31g", 1, False, "iao", [[[0], [1], [2]], [[0, 1], [2]]]),
    ("h4", "sto-3g", 2, False, "sao", [[[0], [1], [2], [3]], [[0, 1], [2, 3]], [[0, 3], [1], [2]]]),
    ("h3", "6-31g", 1, True, "iaopao", [[[0, 2], [1]]]),
    ("oh", "sto-3g", 1, False, "iao", [[[0], [1]]]),
    ("h3~", "sto-3g", 1, False, "sao", [[[0], [1, 2]]]),
]
SOLVERS = ["MP2", "CISD", "CCSD", "FCI"]


def cases(tier):
    out = []
    for mode, sysl in (("ru", RU), ("flip", FLIP)):
        for d in sysl:
            for k, p in enumerate(d[5]):
                for b in BATHS:
                    for s in SOLVERS:
                        if s == "MP2" and "~" in d[0]:
                            continue
                        if d[0] == "oh" and s == "FCI":
                            continue  # near-degenerate pi occupations: converges to 1e-5 only
                        if s == "FCI" and d[1] != "sto-3g" and tier == "quick" and b not in ("dmet", "mp2-n"):
                            continue
                        if s == "FCI" and d[0] in ("h2o_asym",) and b in ("full", "mp2-4") and tier == "quick":
                            continue
                        if tier == "quick" and k and b not in ("mp2-4", "mp2-3o1", "dmet"):
                            continue
                        if tier == "quick" and s == "CISD" and b not in ("mp2-4",):
                            continue
                        if tier == "quick" and s == "CCSD" and b in (("full", "mp2-n", "mp2-4", "dmet") if k % 2 else ("full", "mp2-n", "mp2-p0")) and len(p) > 1:
                            continue
                        out.append(dict(mode=mode, sys=list(d[:5]), part=p, bath=b, solver=s))
    return out


def cost(c):
    return {"MP2": 1, "CISD": 2, "FCI": 3, "CCSD": 8}[c["solver"]] * (1 + len(c["part"])) * (3 if c["bath"] == "full" else 1)


@functools.lru_cache(maxsize=None)
def meanfields(mode, name, basis, spin, df):
    kind = "rhf" if mode == "ru" else "uhf"
    if name.endswith("~"):
        mf = S.rotated_mf(name[:-1], basis, spin, 0, kind, df)
    else:
        mf = S.mf(name, basis, spin, 0, kind, df)
    if mode == "ru":
        import pyscf.scf

        m2 = pyscf.scf.UHF(mf.mol)
        if df:
            m2 = m2.density_fit()
            m2.with_df = mf.with_df
        m2.mo_coeff = np.asarray([mf.mo_coeff, mf.mo_coeff])
        m2.mo_energy = np.asarray([mf.mo_energy, mf.mo_energy])
        m2.mo_occ = np.asarray([mf.mo_occ / 2, mf.mo_occ / 2])
        m2.e_tot, m2.converged = mf.e_tot, True
        return mf, m2
    m2 = copy.copy(mf)
    mol = mf.mol.copy()
    mol.spin = -mol.spin
    mol.build(False, False)
    m2.mol = mol
    for k in ("mo_coeff", "mo_energy", "mo_occ"):
        setattr(m2, k, np.asarray(getattr(mf, k))[::-1].copy())
    m2.nelec = tuple(mf.nelec)[::-1]
    return mf, m2


def setup(tier):
    global EWF
    from vayesta.ewf import EWF


def embed(mf, case):
    solver = case["solver"]
    so = dict(conv_tol=1e-11)
    if solver == "CCSD":
        so["conv_tol_normt"] = 1e-9
    if solver == "FCI":
        so["conv_tol"] = 1e-14
    emb = EWF(mf, solver=solver, bath_options=dict(BATHS[case["bath"]]), solver_options=so)
    with getattr(emb, case["sys"][4] + "_fragmentation")() as f:
        for p in case["part"]:
            f.add_atomic_fragment(p)
    emb.kernel()
    return emb


def tolist(x):
    return list(x) if isinstance(x, (tuple, list)) else [x]


TWO = ("t2", "l2", "t2_ao")


def restricted_form(q, v):
    """Spin-summed (density matrices) or opposite-spin (amplitudes) form of an unrestricted quantity."""
    if np.ndim(v[0]) == 0:
        return v
    if q.startswith("dm1"):
        return v[0] + v[1]
    if q.startswith("dm2"):
        ba = v[1].transpose(2, 3, 0, 1) if len(v) == 3 else v[2]
        return v[0] + v[1] + ba + v[-1]
    if q in ("t1", "l1", "t1_ao"):
        return v[0]
    if q in TWO:
        return v[1]
    raise KeyError(q)


def flip(q, v):
    v = tolist(v)
    if len(v) == 1:
        return v
    if len(v) == 2:
        return v[::-1]
    if q.startswith("dm2"):
        f = lambda x: x.transpose(2, 3, 0, 1)
    else:
        f = lambda x: x.transpose(1, 0, 3, 2)
    if len(v) == 3:
        return [v[2], f(v[1]), v[0]]
    return [v[3], v[2], v[1], v[0]]


def run(case, rec):
    mode = case["mode"]
    name, basis, spin, df, ftype = case["sys"]
    m1, m2 = meanfields(mode, name, basis, spin, df)
    e1 = rec.call("first calculation", embed, m1, case)
    rec.step()
    e2 = rec.call("second calculation", embed, m2, case)
    rec.step()
    if not (e1.converged and e2.converged):
        rec.check(e1.converged == e2.converged, "convergence", (e1.converged, e2.converged))
        raise Skip("not converged")
    solver = case["solver"]
    tol = dict(FCI=3e-5, CISD=1e-5).get(solver, 5e-6)
    # clusters
    for x, y in zip(e1.fragments, e2.fragments):
        for k in ("norb_active", "nocc_active", "nvir_active", "norb_frozen", "nocc_frozen", "nvir_frozen"):
            a, b = getattr(x.cluster, k), getattr(y.cluster, k)
            if mode == "ru":
                rec.check((a, a) == tuple(b), "cluster size %s" % k, (a, b))
            else:
                rec.check(tuple(a) == tuple(b)[::-1], "cluster size %s" % k, (a, b))
        ca, cb = x.cluster.c_active, y.cluster.c_active
        ca = [ca, ca] if mode == "ru" else list(ca)[::-1]
        for s in range(2):
            if ca[s].shape == cb[s].shape:
                rec.close(ca[s] @ ca[s].T, cb[s] @ cb[s].T, 1e-5, "cluster space[%d]" % s)
        rec.close(float(np.sum(x.nelectron)), float(np.sum(y.nelectron)), 1e-8, "fragment electrons")
        rec.close(float(np.sum(x.get_fragment_mf_energy())), float(np.sum(y.get_fragment_mf_energy())), 1e-7, "fragment mean-field energy")
        rec.step()
    q1 = probe.supported(solver, "rhf" if mode == "ru" else "uhf")
    q2 = probe.supported(solver, "uhf")
    for q in [q for q in q1 if q in q2]:
        vals = []
        try:
            for e in (e1, e2):
                vals.append(probe.evaluate(e, q))
        except probe.Missing:
            continue
        except Exception as err:
            rec.fail(q, "raised %s: %s" % (type(err).__name__, err))
            continue
        rec.step()
        if mode == "ru":
            if "2p1l" in q and case["bath"] != "full":
                continue  # documented: the unrestricted single-loop expression cannot be symmetrized between ab and ba
            v = tolist(vals[1])
            if q.startswith("dm2"):
                vals[0] = (vals[0] + vals[0].transpose(2, 3, 0, 1)) / 2
                v = [(x + x.transpose(2, 3, 0, 1)) / 2 if i in (0, len(v) - 1) else x for i, x in enumerate(v)]
            rec.close(vals[0], restricted_form(q, v) if np.ndim(vals[0]) else vals[1], tol, q)
            if np.ndim(vals[0]):
                for i, (a, b) in enumerate(zip(v, flip(q, v))):
                    rec.close(a, b, tol, "%s: spin channels of a closed shell agree" % q)
        else:
            a, b = flip(q, vals[0]), tolist(vals[1])
            if rec.check(len(a) == len(b), q, "%d vs %d blocks" % (len(a), len(b))):
                for i in range(len(a)):
                    rec.close(a[i], b[i], tol, "%s[%d]" % (q, i))
    # populations and correlation functions
    for f, nm in extras(mode, solver):
        try:
            a, b = f(e1), f(e2)
        except Exception as err:
            rec.fail(nm, "raised %s: %s" % (type(err).__name__, err))
            continue
        rec.step()
        if nm.startswith("pop"):
            if mode == "ru":
                rec.close(np.asarray(a[0]), np.asarray(b[0]).sum(axis=0) if np.ndim(b[0]) == 2 else b[0], tol, nm)
                rec.close(a[1][0], b[1][0], tol, nm + " charges")
                rec.close(b[1][1], 0 * b[1][1], tol, nm + " spins")
            else:
                rec.close(np.asarray(a[0])[::-1], np.asarray(b[0]), tol, nm)
                rec.close(a[1][0], b[1][0], tol, nm + " charges")
                rec.close(a[1][1], -b[1][1], tol, nm + " spins")
        else:
            rec.close(a, b, tol, nm)
    rec.out(round(float(e1.e_corr), 7))


def extras(mode, solver):
    out = []

    def pop(lo, kind):
        def f(e):
            dm = e.mf.make_rdm1() if kind == "mf" else e.make_rdm1(ao_basis=True)
            p = e.pop_analysis(dm, local_orbitals=lo, write=False)
            return p, e.get_atomic_charges(p)

        return f

    kinds = ["mf"] + (["corr"] if solver in ("MP2", "CCSD") else [])
    for lo in ("mulliken", "lowdin", "iao+pao"):
        for k in kinds:
            out.append((pop(lo, k), "pop %s %s" % (lo, k)))
    for pr in ("sao", "iao+pao"):
        out.append((lambda e, pr=pr: e.get_corrfunc_mf("Sz,Sz", projection=pr), "mean-field SzSz %s" % pr))
        if solver in ("MP2", "CCSD"):
            out.append((lambda e, pr=pr: e.get_corrfunc("Sz,Sz", projection=pr), "SzSz %s" % pr))
    if solver in ("MP2", "CCSD"):
        out.append((lambda e: e.get_corrfunc("Sz,Sz", dm2=e.make_rdm2()), "SzSz from given DM2"))
        out.append((lambda e: e.get_corrfunc("Sz,Sz", dm2=e.make_rdm2(with_dm1=False)), "SzSz from given cumulant"))
        out.append((lambda e: e.get_corrfunc("Sz,Sz", atoms=[[0], [1, 0]]), "SzSz of selected atoms"))
    return out
