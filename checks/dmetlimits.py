"""C20  DMET is exact in its exact limits and conserves particle number.

Every partition (set partition of the sites/atoms) of bounded model systems is run through the real DMET code:
  u0       interaction switched off: energy, density matrix and electron number are those of the mean field for every partition
  one      one fragment holding everything: exact diagonalisation (independent determinant-space Hamiltonian)
  copies   fragments that do not interact: sum of the exact energies
  perm     all orders of the fragments, of the orbitals inside, and all label permutations give the same result
  sym      fragments generated by translations / rotations give the same result as explicit ones
  formula  energy and density matrices agree with the democratic partitioning formula evaluated from AO integrals and the cluster density matrices
"""
import functools
import itertools
import sys

import numpy as np

from checks import solvers as V
from vlib import systems as S

PROPERTY = "C20"
LEVEL = "exploration"
RULE = "one case per (system, partition, spin symmetry, solver, charge consistency, iterations); all partitions of the site set are enumerated"
BOUNDS = (
    "all 52 partitions of 5 sites (quick: 15 of 4 sites and those of 5 sites with 2 blocks) with generic hoppings, 1D/2D Hubbard rings of 4-8 sites, 2-4 atom molecules, 1-3 far-apart copies; U in {0, 1, 4}; 1-3 DMET iterations; FCI and CCSD; restricted and unrestricted"
)
ASSUMPTIONS = ["closed-shell (restricted) or gapped mean fields", "the correlation potential is fitted by the installed convex solver (tolerance 1e-5 after the first iteration)"]
TECHNIQUE = "bounded exhaustive enumeration of partitions and orders on the real code; oracle: determinant-space Hamiltonian and AO-integral formula"


def partitions(items):
    if not items:
        yield []
        return
    first, rest = items[0], items[1:]
    for p in partitions(rest):
        yield [[first]] + p
        for i in range(len(p)):
            yield p[:i] + [[first] + p[i]] + p[i + 1 :]


# --- systems
class NoLog:
    pass


@functools.lru_cache(maxsize=32)
def lattice(name, u, kind):
    from vayesta import lattmod

    geom, n, nel, spin = {
        "gen4": ("gen", 4, 4, 0),
        "gen4u": ("gen", 4, 4, 2),
        "gen5": ("gen", 5, 4, 0),
        "gen5u": ("gen", 5, 5, 1),
        "gen6": ("gen", 6, 6, 0),
        "ring6": ("1d", 6, 6, 0),
        "ring6d": ("1d", 6, 2, 0),
        "ring4": ("1d", 4, 2, 0),
        "ring8": ("1d", 8, 6, 0),
        "sq42": ("2d", (4, 2), 4, 0),
    }[name]
    if geom == "2d":
        mol = lattmod.Hubbard2D(n, nelectron=nel, spin=spin, hubbard_u=u, boundary=("PBC", "PBC"))
    else:
        mol = lattmod.Hubbard1D(n, nelectron=nel, spin=spin, hubbard_u=u, boundary="PBC")
    if geom == "gen":
        rng = np.random.RandomState(n)
        h = rng.rand(n, n) - 0.5
        h = h + h.T - np.diag(np.arange(n) * 0.7)
        mol.h1e = h
    mf = (lattmod.LatticeRHF if kind == "rhf" else lattmod.LatticeUHF)(mol)
    mf.conv_tol = 1e-13
    mf.max_cycle = 1000
    mf.level_shift = 0.3
    mf.kernel()
    if not mf.converged:
        mf = None
    return mf


GEOM = {
    "h2x2": "H 0 0 0; H 0 0 0.78; H 0 0 300; H 0 0 300.9",
    "h2x3": "H 0 0 0; H 0 0 0.78; H 0 0 300; H 0 0 300.78; H 300 0 0; H 300.9 0 0",
    "h2h4": "H 0 0 0; H 0 0 0.78; H 0 300 0; H 0 300 1.0; H 0 301.3 0.1; H 0 301.4 1.3",
    "h2lih": "H 0 0 0; H 0 0 0.9; Li 300 0 0; H 300 0 1.55",
}
COPIES = {"h2x2": [[0, 1], [2, 3]], "h2x3": [[0, 1], [2, 3], [4, 5]], "h2h4": [[0, 1], [2, 3, 4, 5]], "h2lih": [[0, 1], [2, 3]]}


def getmf(sysn, u, kind):
    if sysn in GEOM:
        S.GEOM.setdefault(sysn, GEOM[sysn])
        return S.mf(sysn, kind=kind)
    if sysn.startswith("mol:"):
        _, name, spin = sysn.split(":")
        return S.mf(name, kind=kind, spin=int(spin))
    return lattice(sysn, u, kind)


def integrals(mf):
    mol = mf.mol
    h = mf.get_hcore()
    g = mol.get_eri() if hasattr(mol, "get_eri") else mol.intor("int2e")
    return h, np.asarray(g).reshape([len(h)] * 4)


def mos(mf):
    return (mf.mo_coeff, mf.mo_coeff) if np.ndim(mf.mo_coeff[0]) == 1 else tuple(mf.mo_coeff)


def exact(mf, atoms=None):
    """Lowest energy of the determinant-space Hamiltonian (of the given atoms only, with their share of the electrons)."""
    h, g = integrals(mf)
    c = mos(mf)
    hs = [x.T @ h @ x for x in c]
    gs = {(a, b): np.einsum("abcd,ap,bq,cr,ds->pqrs", g, c[a], c[a], c[b], c[b], optimize=True) for a, b in ((0, 0), (0, 1), (1, 1))}
    det = V.Det((len(h), len(h)), mf.mol.nelec, hs, gs)
    return det.ground()[0][()] + mf.mol.energy_nuc()


def rgs(p, n):
    out = [0] * n
    for i, b in enumerate(p):
        for x in b:
            out[x] = i
    return out


def cases(tier):
    out = []
    full = tier == "thorough"
    for sysn, n, kind in (("gen4", 4, "rhf"), ("gen4", 4, "uhf"), ("gen4u", 4, "uhf"), ("gen5", 5, "rhf"), ("gen5u", 5, "uhf"), ("ring6", 6, "rhf"), ("ring6d", 6, "rhf")):
        for p in partitions(list(range(n))):
            if not full and (n == 5 and len(p) not in (2, 5) or n == 6 and sorted(map(len, p)) not in ([3, 3], [2, 2, 2])):
                continue
            for cc, mi in itertools.product((True, False), (1, 3)):
                if not full and (mi == 3 and (n > 4 or cc is False) or cc and mi == 1 and n == 6):
                    continue
                for sol in ("FCI", "CCSD") if mi == 1 and cc else ("FCI",):
                    out.append(dict(k="u0", sys=sysn, kind=kind, part=p, cc=cc, maxiter=mi, solver=sol))
    for sysn, kind in (("gen4", "rhf"), ("gen4", "uhf"), ("gen4u", "uhf"), ("gen5", "rhf"), ("gen5u", "uhf"), ("ring6", "rhf"), ("ring6", "uhf")):
        for u in (1.0, 4.0):
            for mi in (1, 2):
                out.append(dict(k="one", sys=sysn, u=u, kind=kind, maxiter=mi))
    for m, kind in (("mol:h4:0", "rhf"), ("mol:lih:0", "rhf"), ("mol:h3:1", "uhf"), ("mol:h4:2", "uhf"), ("mol:beh:1", "uhf"), ("mol:lih:0", "uhf"), ("mol:h2:0", "rhf")):
        out.append(dict(k="one", sys=m, u=0.0, kind=kind, maxiter=1))
    for sysn, kind in itertools.product(COPIES, ("rhf", "uhf")):
        for order in itertools.permutations(range(len(COPIES[sysn]))):
            for cc in (True, False):
                if not full and not cc and kind == "uhf":
                    continue
                out.append(dict(k="copies", sys=sysn, kind=kind, order=list(order), cc=cc))
    for sysn, kind, n in (("gen4", "rhf", 4), ("gen4u", "uhf", 4), ("mol:h4:0", "rhf", 4), ("mol:h3:1", "uhf", 3)):
        for p in partitions(list(range(n))):
            if len(p) == 1:
                continue
            for mi in (1, 2):
                if not full and mi == 2 and (len(p) != 2 or sysn == "mol:h3:1") or not full and kind == "uhf" and len(p) != 2:
                    continue
                out.append(dict(k="perm", sys=sysn, u=2.0, kind=kind, part=p, maxiter=mi))
    for sysn, size, nel in (("ring6", 1, 6), ("ring6", 2, 6), ("ring6", 3, 6), ("ring6d", 2, 2), ("ring8", 2, 6), ("ring8", 4, 6), ("sq42", 2, 4), ("sq42", 4, 4)):
        for u, cc, mi in itertools.product((1.0, 4.0), (True, False), (1, 2)):
            for kind in ("rhf", "uhf"):
                if not full and (kind == "uhf" and (u == 4.0 or not cc) or size == 4 and mi == 2):
                    continue
                out.append(dict(k="sym", sys=sysn, size=size, u=u, cc=cc, maxiter=mi, kind=kind))
    for sysn, kind, n, u in (("gen4", "rhf", 4, 3.0), ("gen4u", "uhf", 4, 3.0), ("gen5u", "uhf", 5, 2.0), ("mol:h4:0", "rhf", 4, 0.0), ("mol:h4:2", "uhf", 4, 0.0), ("mol:lih:0", "rhf", 2, 0.0), ("mol:beh:1", "uhf", 2, 0.0), ("mol:h2o:0", "rhf", 3, 0.0)):
        for p in partitions(list(range(n))):
            if not full and n == 5 and len(p) != 2:
                continue
            for cc, sol, bath in itertools.product((True, False), ("FCI", "CCSD"), ("dmet", "full")):
                if bath == "full" and (len(p) == 1 or n > 4 or sysn == "mol:h2o:0"):
                    continue
                if not full and (cc and sol == "CCSD" or not cc and (bath == "full" or kind == "uhf") or n == 5 and sol != "FCI"):
                    continue
                out.append(dict(k="formula", sys=sysn, u=u, kind=kind, part=p, cc=cc, solver=sol, bath=bath))
    return out


def cost(c):
    return {"u0": 5, "one": 5, "copies": 5, "perm": 25, "sym": 15, "formula": 6}[c["k"]] * (3 if c.get("maxiter", 1) > 1 else 1) * (2 if c["kind"] == "uhf" else 1)


def run(c, rec):
    {"u0": run_u0, "one": run_one, "copies": run_copies, "perm": run_perm, "sym": run_sym, "formula": run_formula}[c["k"]](c, rec)


SOPT = {"FCI": dict(conv_tol=1e-14, max_cycle=500), "CCSD": dict(conv_tol=1e-11, conv_tol_normt=1e-9, max_cycle=300, solve_lambda=True)}


def new(mf, solver="FCI", cc=True, maxiter=1, bath="dmet", **kw):
    import vayesta.dmet

    return vayesta.dmet.DMET(mf, solver=solver, charge_consistent=cc, maxiter=maxiter, oneshot=maxiter == 1, bath_options=dict(bathtype=bath), solver_options=SOPT[solver], max_elec_err=1e-8 if bath == "dmet" else 1e-6, **kw)


STATUS = []


def setup(tier):
    """Record how each convex fit ended: the property assumes that the fits of the self-consistency succeed."""
    import cvxpy

    if not hasattr(cvxpy.Problem, "verif_solve"):
        cvxpy.Problem.verif_solve = cvxpy.Problem.solve

        def solve(self, *args, **kwargs):
            try:
                return self.verif_solve(*args, **kwargs)
            finally:
                STATUS.append(self.status)

        cvxpy.Problem.solve = solve


def kernel(emb, rec, gap=False):
    STATUS.clear()
    try:
        emb.kernel()
    except Exception:
        if any(x != "optimal" for x in STATUS):
            V.raise_skip("the correlation potential could not be fitted: %s" % STATUS)
        rec.call("kernel", _reraise, sys.exc_info()[1])
    if any(x != "optimal" for x in STATUS):
        V.raise_skip("the correlation potential could not be fitted: %s" % STATUS)
    if gap:
        for e, n in zip(emb.mo_energy if np.ndim(emb.mo_energy) == 2 else (emb.mo_energy,), emb.mf.mol.nelec):
            if 0 < n < len(e) and e[n] - e[n - 1] < 0.02:
                V.raise_skip("the fitted correlation potential closes the gap: the next mean field is not unique")


def _reraise(e):
    raise e


def fragments(emb, part, sysn, names=None):
    site = not (sysn.startswith("mol:") or sysn in GEOM)
    with emb.site_fragmentation() if site else emb.sao_fragmentation() as f:
        for i, b in enumerate(part):
            kw = {} if names is None else dict(name=names[i])
            f.add_atomic_fragment(list(b) if len(b) > 1 else b[0], **kw)


def electrons(emb, c):
    n = 0
    s = emb.get_ovlp()
    uhf = np.ndim(emb.mo_coeff[0]) == 2
    for x in emb.fragments:
        y = x if x.sym_parent is None else x.get_symmetry_parent()
        for cf, ca, d in zip(y.c_frag, y.cluster.c_active, y.results.dm1) if uhf else [(y.c_frag, y.cluster.c_active, y.results.dm1)]:
            r = cf.T @ s @ ca
            n += np.trace(r @ d @ r.T)
    return n


def stack(d):
    return np.asarray(d)


def run_u0(c, rec):
    mf = getmf(c["sys"], 0.0, c["kind"])
    rec.check(mf is not None, "mf-converged")
    emb = new(mf, c["solver"], c["cc"], c["maxiter"])
    fragments(emb, c["part"], c["sys"])
    kernel(emb, rec)
    rec.step()
    rec.state(c["sys"], c["kind"], rgs(c["part"], mf.mol.nsite))
    tol = 1e-7 if c["maxiter"] == 1 else 2e-5
    e0 = np.sum([np.linalg.eigvalsh(mf.get_hcore())[:n].sum() for n in mf.mol.nelec])
    rec.close(emb.e_tot, e0, tol, "energy")
    rec.close(emb.e_corr, 0.0, tol, "correlation")
    rec.close(electrons(emb, c), mf.mol.nelectron, 1e-6, "electrons")
    d = rec.call("dm1", emb.make_rdm1, ao_basis=True)
    rec.close(stack(d), stack(mf.make_rdm1()), 1e-5 if c["maxiter"] == 1 else 2e-3, "dm1")
    if c["maxiter"] == 1:
        rec.close(rec.call("dmet", emb.get_dmet_energy, part_cumulant=False, approx_cumulant=False), e0, 1e-6, "get-dmet-energy")


def run_one(c, rec):
    mf = getmf(c["sys"], c["u"], c["kind"])
    if mf is None:
        V.raise_skip("mean field not converged")
    emb = new(mf, "FCI", True, c["maxiter"])
    n = mf.mol.natm
    fragments(emb, [list(range(n))], c["sys"])
    kernel(emb, rec)
    rec.step()
    e = exact(mf)
    rec.state(c["sys"], c["u"], c["kind"])
    rec.close(emb.e_tot, e, 1e-6, "energy")
    rec.close(rec.call("dmet", emb.get_dmet_energy, part_cumulant=False, approx_cumulant=False), e, 1e-6, "get-dmet-energy")
    if c["kind"] == "rhf":
        rec.close(rec.call("dmet", emb.get_dmet_energy), e, 1e-6, "get-dmet-energy-cumulant")
    rec.close(electrons(emb, c), mf.mol.nelectron, 1e-6, "electrons")


def run_copies(c, rec):
    mf = getmf(c["sys"], 0.0, c["kind"])
    part = [COPIES[c["sys"]][i] for i in c["order"]]
    emb = new(mf, "FCI", c["cc"])
    fragments(emb, part, c["sys"])
    kernel(emb, rec)
    rec.step()
    e = exact_separate(c["sys"])
    rec.state(c["sys"], c["kind"], c["order"])
    rec.close(emb.e_tot, e, 3e-6, "energy")
    rec.close(rec.call("dmet", emb.get_dmet_energy, part_cumulant=False, approx_cumulant=False), e, 3e-6, "get-dmet-energy")
    rec.close(electrons(emb, c), mf.mol.nelectron, 1e-6, "electrons")
    for x in emb.fragments:
        rec.close(x.get_nelectron_hl(), sum(mf.mol.atom_charge(a) for a in x.atoms), 1e-5, "neutral")


@functools.lru_cache(maxsize=None)
def exact_separate(sysn):
    import pyscf.gto
    import pyscf.scf

    e = 0
    at = [x.strip() for x in GEOM[sysn].split(";")]
    for p in COPIES[sysn]:
        m = pyscf.gto.M(atom="; ".join(at[i] for i in p), basis="sto-3g", verbose=0)
        mf = pyscf.scf.RHF(m)
        mf.conv_tol = 1e-12
        mf.kernel()
        e += exact(mf)
    return e


def run_perm(c, rec):
    mf = getmf(c["sys"], c["u"], c["kind"])
    if mf is None:
        V.raise_skip("mean field not converged")
    base = None
    full = c["maxiter"] == 1
    for order in itertools.permutations(range(len(c["part"]))):
        for rev in (False, True) if full and order[0] == 0 else (False,):
            part = [c["part"][i][::-1] if rev else c["part"][i] for i in order]
            emb = new(mf, "FCI", True, c["maxiter"])
            fragments(emb, part, c["sys"], names=None if not rev else ["x%d" % i for i in range(len(part))])
            kernel(emb, rec, c["maxiter"] > 1)
            rec.step()
            fr = [None] * len(part)
            for i, x in zip(order, emb.fragments):
                fr[i] = (x.results.e1 + x.results.e2, x.get_nelectron_hl(), x.cluster.norb_active)
            now = (emb.e_tot, [y for f in fr for y in np.ravel(f[:2])], [f[2] for f in fr], stack(emb.make_rdm1(ao_basis=True)))
            if base is None:
                base = now
                continue
            tol = 1e-6 if full else 1e-4
            rec.state(c["sys"], c["part"], order)
            rec.close(now[0], base[0], tol, "energy", "order %r" % (order,))
            rec.close(now[1], base[1], tol * 10, "fragment-results", "order %r" % (order,))
            rec.check(now[2] == base[2], "cluster-sizes", "order %r" % (order,))
            rec.close(now[3], base[3], tol * 10, "dm1", "order %r" % (order,))


def run_sym(c, rec):
    mf = getmf(c["sys"], c["u"], c["kind"])
    if mf is None:
        V.raise_skip("mean field not converged")
    n = mf.mol.nsite
    k = c["size"]
    res = []
    for explicit in (False, True):
        emb = new(mf, "FCI", c["cc"], c["maxiter"])
        if explicit:
            blocks = [list(range(i, i + k)) for i in range(0, n, k)]
            if c["sys"] == "sq42":
                blocks = sq_blocks(k)
            fragments(emb, blocks, c["sys"])
        else:
            with emb.site_fragmentation() as f:
                blk = list(range(k)) if c["sys"] != "sq42" else sq_blocks(k)[0]
                x = f.add_atomic_fragment(blk if len(blk) > 1 else blk[0])
                tv = [n // k, 1, 1] if c["sys"] != "sq42" else sq_tvecs(k)
                x.add_tsymmetric_fragments(tvecs=tv)
            rec.check(len(emb.fragments) == n // k, "nfrag", "%d fragments" % len(emb.fragments))
        kernel(emb, rec, c["maxiter"] > 1)
        rec.step()
        res.append((emb.e_tot, electrons(emb, c), stack(rec.call("dm1", emb.make_rdm1, ao_basis=True)), rec.call("dmet", emb.get_dmet_energy, part_cumulant=False, approx_cumulant=False)))
    a, b = res
    tol = 2e-6 if c["maxiter"] == 1 else 1e-4
    rec.state(c["sys"], k, c["u"], c["cc"], c["maxiter"], c["kind"])
    for i, lab in enumerate(("energy", "electrons", "dm1", "dmet-energy")):
        rec.close(a[i], b[i], tol * (10 if i == 2 else 1), lab)
    if c["maxiter"] == 1:
        rec.close(a[1], mf.mol.nelectron, 1e-6, "electron-number")


def sq_blocks(k):
    # 4 x 2 sites, site index 4*? is taken from the coordinates so that no order is assumed
    co = getmf("sq42", 1.0, "rhf").mol.atom_coords()
    xs, ys = sorted(set(co[:, 0].round(6))), sorted(set(co[:, 1].round(6)))
    at = {(xs.index(round(x, 6)), ys.index(round(y, 6))): i for i, (x, y) in enumerate(co[:, :2])}
    if k == 2:
        return [[at[i, 0], at[i, 1]] for i in range(len(xs))]
    return [[at[i, 0], at[i, 1], at[i + 1, 0], at[i + 1, 1]] for i in range(0, len(xs), 2)]


def sq_tvecs(k):
    return [4 * 2 // k, 1, 1]


def run_formula(c, rec):
    mf = getmf(c["sys"], c["u"], c["kind"])
    if mf is None:
        V.raise_skip("mean field not converged")
    emb = new(mf, c["solver"], c["cc"], bath=c["bath"])
    fragments(emb, c["part"], c["sys"])
    kernel(emb, rec)
    rec.step()
    uhf = c["kind"] == "uhf"
    h, g = integrals(mf)
    s = mf.get_ovlp()
    e = 0
    nao = len(h)
    dm = np.zeros((2, nao, nao))
    two = (lambda x: x) if uhf else (lambda x: (x, x))
    for x in emb.fragments:
        cl = x.cluster
        c_act, c_fro, c_frag = two(cl.c_active), two(cl.c_frozen_occ), two(x.c_frag)
        dfro = [y @ y.T for y in c_fro]
        if uhf:
            d1, d2 = x.results.dm1, x.results.dm2
        else:
            d1 = (x.results.dm1 / 2,) * 2
        j = np.einsum("abcd,cd->ab", g, dfro[0] + dfro[1])
        ef = 0
        for t in (0, 1):
            vc = j - np.einsum("acdb,cd->ab", g, dfro[t])
            p = c_frag[t].T @ s @ c_act[t]
            p = p.T @ p
            hh = c_act[t].T @ (h + vc / 2) @ c_act[t]
            ef += np.trace(p @ hh @ d1[t])
        ga = lambda a, b: np.einsum("abcd,ap,bq,cr,ds->pqrs", g, c_act[a], c_act[a], c_act[b], c_act[b], optimize=True)
        pr = [(y.T @ s @ z).T @ (y.T @ s @ z) for y, z in zip(c_frag, c_act)]
        if uhf:
            gaa, gab, gbb = ga(0, 0), ga(0, 1), ga(1, 1)
            ef += 0.5 * np.einsum("tp,pqrs,tqrs->", pr[0], gaa, d2[0])
            ef += 0.5 * np.einsum("tp,pqrs,tqrs->", pr[1], gbb, d2[2])
            ef += 0.5 * np.einsum("tp,pqrs,tqrs->", pr[0], gab, d2[1])
            ef += 0.5 * np.einsum("tr,pqrs,pqts->", pr[1], gab, d2[1])
        else:
            ef += 0.5 * np.einsum("tp,pqrs,tqrs->", pr[0], ga(0, 0), x.results.dm2)
        rec.close(x.results.e1 + x.results.e2, ef, 1e-8, "fragment-energy")
        e += ef
        for t in (0, 1):
            pf = s @ c_frag[t] @ c_frag[t].T
            y = pf @ c_act[t] @ d1[t] @ c_act[t].T
            dfr = pf @ dfro[t]
            y = y + dfr
            dm[t] += (y + y.T) / 2
    e += mf.mol.energy_nuc()
    rec.state(c["sys"], c["kind"], rgs(c["part"], mf.mol.natm))
    rec.close(emb.e_tot, e, 1e-7, "energy")
    # P_F D with P_F = S C_F C_F^T: bring to the AO representation C.C^T  (dm = S^-1 (S D) )
    ref = np.array([np.linalg.solve(s, z) if False else sym_dm(s, emb, t, two, uhf) for t, z in enumerate(dm)])
    got = stack(rec.call("dm1", emb.make_rdm1, ao_basis=True))
    rec.close(got, ref if uhf else ref[0] + ref[1], 1e-7, "dm1")
    for pc, ac in ((False, False), (True, True), (True, False)):
        if uhf and pc and not ac:
            continue
        en = rec.call("dmet", emb.get_dmet_energy, part_cumulant=pc, approx_cumulant=ac)
        if not pc:
            rec.close(en, e, 1e-7, "get-dmet-energy")
    n = electrons(emb, c)
    tol = 1e-6 if c["bath"] == "dmet" else 1e-5
    rec.close(n, mf.mol.nelectron, tol, "electrons")
    rec.close(np.sum([np.trace(z @ s) for z in ref]), mf.mol.nelectron, tol, "dm-trace")


def sym_dm(s, emb, t, two, uhf):
    """Democratically partitioned 1-DM in the AO basis."""
    out = 0
    for x in emb.fragments:
        cl = x.cluster
        ca, cf, cfr = two(cl.c_active)[t], two(cl.c_frozen_occ)[t], two(x.c_frag)[t]
        d = x.results.dm1[t] if uhf else x.results.dm1 / 2
        full = ca @ d @ ca.T + cf @ cf.T
        y = cfr @ cfr.T @ s @ full
        out = out + (y + y.T) / 2
    return out
