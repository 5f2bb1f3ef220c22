"""C22  Populations and correlation functions obey their sum rules.

Every combination of state x kind of correlation function x projection x way of giving the atoms x way of giving the density matrices is evaluated on
the real embedding object and compared with expectation values of explicit operators in the space of all determinants (vlib.fock), or, for
embedding calculations, with the definition applied to the embedding's own density matrices; sum rules over the atoms are checked in addition.
"""
import functools
import itertools
import os
import tempfile

import numpy as np

from vlib import systems as S
from vlib.fock import Space

PROPERTY = "C22"
LEVEL = "model_checking"
RULE = "one case per (system, state or solver/bath, projection); in each all kinds, atom arguments and density-matrix arguments are evaluated and compared with determinant-space expectation values"
BOUNDS = (
    "2-9 electrons in 2-8 orbitals; mean-field, FCI-ground and generic states (singlets for restricted embeddings); SAO, IAO, IAO+PAO projectors; all atom subsets/orders/pairs of lists up to 4 atoms; "
    "EWF with MP2/CCSD and DMET with FCI for small and complete baths, with and without fragment symmetry; populations: all local-orbital choices, representations, output forms"
)
ASSUMPTIONS = ["Sz,Sz of restricted embeddings assumes singlet density matrices (documented); N,N and dN,dN are documented as not implemented for unrestricted embeddings"]
TECHNIQUE = "bounded exhaustive enumeration on the real code; oracle: operators in the complete determinant space"
TOL = 1e-8

SYS = {
    "h2": dict(name="h2", kind="rhf"),
    "h2-631g": dict(name="h2", basis="6-31g", kind="rhf"),
    "h4": dict(name="h4", kind="rhf"),
    "lih": dict(name="lih", kind="rhf"),
    "hehp": dict(name="hehp", basis="6-31g", charge=1, kind="rhf"),
    "h3": dict(name="h3", kind="uhf", spin=1),
    "h4u": dict(name="h4", kind="uhf", spin=2),
    "oh": dict(name="oh", kind="uhf", spin=1),
    "beh": dict(name="beh", kind="uhf", spin=1),
    "h2u-631g": dict(name="h2", basis="6-31g", kind="uhf", spin=2),
}
PROJ = ("sao", "iao", "iao+pao", "IAO/PAO")


def getmf(key):
    return S.mf(**SYS[key])


def has_pao(key):
    return key not in ("beh", "lih")  # PySCF's valence set differs from the IAO reference for these (unsupported by the package)


def new_emb(key, cls="EWF", **kw):
    import vayesta.dmet
    import vayesta.ewf

    c = {"EWF": vayesta.ewf.EWF, "DMET": vayesta.dmet.DMET}[cls]
    return c(getmf(key), **kw)


def atom_args(natm):
    al = list(range(natm))
    out = [None, [0], al[::-1], [natm - 1, 0], [np.int64(x) for x in al], [0, 0, 1], [[0], al], [al[1:], [natm - 1]], [al[::-1], al[1:]], ([0, 1], [1]), [tuple(al), tuple(al)]]
    return out


def atom_lists(atoms, natm):
    if atoms is None:
        return list(range(natm)), list(range(natm))
    if isinstance(atoms[0], (int, np.integer)):
        return list(atoms), list(atoms)
    return list(atoms[0]), list(atoms[1])


def cases(tier):
    out = []
    for key, d in SYS.items():
        uhf = d["kind"] == "uhf"
        for proj in PROJ:
            if "pao" in proj.lower() and not has_pao(key):
                continue
            out.append(dict(k="mf", sys=key, proj=proj))
            for st in ("fci", "gen0", "gen1") + (("gen2", "gen3") if tier == "thorough" else ()):
                out.append(dict(k="ci", sys=key, proj=proj, state=st))
        for st in ("fci", "gen0", "gen1"):
            out.append(dict(k="misc", sys=key, state=st))
        for st in ("fci", "gen0"):
            for lo in ("lowdin", "mulliken", "iao+pao", "Lowdin", "array"):
                if "pao" in lo and not has_pao(key):
                    continue
                out.append(dict(k="pop", sys=key, state=st, lo=lo))
        for sol, bath in itertools.product(("MP2", "CCSD"), ("dmet", "full")):
            for frag in ("atoms", "grouped", "sao") if len(S.GEOM[d["name"]].split(";")) > 2 or tier == "thorough" else ("atoms", "sao"):
                for proj in ("sao", "iao+pao"):
                    if "pao" in proj and not has_pao(key):
                        continue
                    out.append(dict(k="ewf", sys=key, solver=sol, bath=bath, frag=frag, proj=proj))
        if not uhf:
            for bath in ("dmet", "full"):
                for proj in ("sao", "iao+pao"):
                    if "pao" in proj and not has_pao(key):
                        continue
                    out.append(dict(k="dmet", sys=key, bath=bath, proj=proj))
    for sysn, kind, nsym in (("h4rect2", "rhf", 2), ("h4rect2", "uhf", 2), ("h6ring", "rhf", 6), ("h6ring", "uhf", 2), ("h6ring", "rhf", 3), ("beh2", "rhf", 0)):
        for sol, bath in itertools.product(("MP2", "CCSD"), ("dmet", "full") if sysn != "h6ring" or tier == "thorough" else ("dmet",)):
            out.append(dict(k="sym", sys=sysn, kind=kind, nsym=nsym, solver=sol, bath=bath))
    return out


def cost(c):
    return {"ewf": 5, "sym": 10, "ci": 3}.get(c["k"], 1) * (4 if c["sys"] in ("oh", "lih", "beh", "beh2", "h6ring") else 1)


def run(c, rec):
    {"mf": run_mf, "ci": run_ci, "misc": run_misc, "pop": run_pop, "ewf": run_ewf, "dmet": run_dmet, "sym": run_sym}[c["k"]](c, rec)


# --- independent atom projectors
def projectors(key, proj, filt=None):
    """{atom: (Pa, Pb)} in the MO basis of the mean field."""
    mf = getmf(key)
    mol = mf.mol
    s = mol.intor("int1e_ovlp")
    uhf = SYS[key]["kind"] == "uhf"
    mos = mf.mo_coeff if uhf else (mf.mo_coeff, mf.mo_coeff)
    out = {}
    if proj == "sao":
        e, v = np.linalg.eigh(s)
        lo = (v / np.sqrt(e)) @ v.T
        lab = mol.ao_labels(None)
        los, labs = (lo, lo), [x[0] for x in lab]
        keep = [i for i, x in enumerate(lab) if filt is None or (x[2] + x[3]).startswith(filt)]
    else:
        los, labs = iao_orbitals(key, proj)
        keep = range(len(labs))
    for a in range(mol.natm):
        idx = [i for i in keep if labs[i] == a]
        ps = []
        for sp in (0, 1):
            r = mos[sp].T @ s @ los[sp][:, idx]
            ps.append(r @ r.T)
        out[a] = tuple(ps)
    return out


def iao_orbitals(key, proj):
    """Loewdin-orthogonalised IAOs (Knizia 2013) and, for the +PAO variants, projected AOs of the remaining AOs."""
    import pyscf.gto

    mf = getmf(key)
    mol = mf.mol
    uhf = SYS[key]["kind"] == "uhf"
    s = mol.intor("int1e_ovlp")
    ref = pyscf.gto.M(atom=mol._atom, unit="B", basis=minao(mol), spin=mol.spin, charge=mol.charge, cart=mol.cart, verbose=0)
    s2 = ref.intor("int1e_ovlp")
    s12 = pyscf.gto.intor_cross("int1e_ovlp", mol, ref)
    mos = mf.mo_coeff if uhf else (mf.mo_coeff, mf.mo_coeff)
    occ = mf.mo_occ if uhf else (mf.mo_occ, mf.mo_occ)

    def lowdin(c):
        e, v = np.linalg.eigh(c.T @ s @ c)
        return c @ (v / np.sqrt(e)) @ v.T

    los = []
    full = mol.ao_labels(None)
    labs = [x[0] for x in ref.ao_labels(None)]
    names = [tuple(x[2:]) for x in ref.ao_labels(None)]
    rest = [i for i, x in enumerate(full) if not any(l == x[0] and n == tuple(x[2:]) for l, n in zip(labs, names))]
    for sp in (0, 1):
        c = mos[sp][:, occ[sp] > 0]
        p12 = np.linalg.solve(s, s12)
        ct = p12 @ np.linalg.solve(s2, s12.T @ c)
        ct = lowdin(ct)
        cc, tt = c @ c.T @ s, ct @ ct.T @ s
        iao = lowdin(p12 + 2 * cc @ tt @ p12 - cc @ p12 - tt @ p12)
        if proj != "iao":
            pao = (np.eye(len(s)) - iao @ iao.T @ s)[:, rest]
            iao = np.hstack([iao, lowdin(pao)]) if rest else iao
        los.append(iao)
    if proj != "iao":
        labs = labs + [full[i][0] for i in rest]
    return los, labs


def minao(mol):
    return "sto-3g" if mol.basis == "sto-3g" else "minao"


def ao_ordered(key, los):
    """IAO+PAOs in the order of the AOs."""
    import pyscf.gto

    mol = getmf(key).mol
    ref = pyscf.gto.M(atom=mol._atom, unit="B", basis=minao(mol), spin=mol.spin, charge=mol.charge, cart=mol.cart, verbose=0)
    full = [tuple(x) for x in mol.ao_labels(None)]
    iao = [tuple(x) for x in ref.ao_labels(None)]
    pos = iao + [x for x in full if x not in iao]
    order = [pos.index(x) for x in full]
    return [lo[:, order] for lo in los]


# --- states
@functools.lru_cache(maxsize=4)
def space(key):
    mf = getmf(key)
    n = mf.mol.nao
    na, nb = mf.mol.nelec
    sp = Space((n, n), (na, nb))
    sp.uhf = SYS[key]["kind"] == "uhf"
    return sp


@functools.lru_cache(maxsize=8)
def state(key, st):
    """Normalised state of the space of determinants of the mean field's orbitals (alpha and beta sets)."""
    sp = space(key)
    if st == "fci":
        return fci_state(key)
    rng = np.random.RandomState(11 + int(st[3:]))
    if sp.uhf:
        v = rng.rand(*sp.shape) - 0.5
    else:
        m = sp.s2()
        e, u = np.linalg.eigh((m + m.T) / 2)
        z = u[:, abs(e) < 1e-8]
        v = (z @ (rng.rand(z.shape[1]) - 0.5)).reshape(sp.shape)
    v[0, 0] += 1.0 if sp.uhf else 0.0
    return v / np.linalg.norm(v)


def fci_state(key):
    import pyscf.ao2mo
    import pyscf.fci

    mf = getmf(key)
    sp = space(key)
    mol = mf.mol
    mos = mf.mo_coeff if sp.uhf else (mf.mo_coeff, mf.mo_coeff)
    h = [m.T @ mf.get_hcore() @ m for m in mos]
    eri = mol.intor("int2e")
    g = lambda a, b: np.einsum("abcd,ap,bq,cr,ds->pqrs", eri, mos[a], mos[a], mos[b], mos[b], optimize=True)
    s = pyscf.fci.direct_uhf.FCI()
    s.conv_tol = 1e-14
    s.max_cycle = 500
    s.pspace_size = 400
    e, v = s.kernel(h, (g(0, 0), g(0, 1), g(1, 1)), mol.nao, mol.nelec)
    v = np.asarray(v).reshape(sp.shape)
    return v / np.linalg.norm(v)


def op(sp, p, sign, psi):
    """X|psi> with X = sum_pq Pa_pq a+_p a_q + sign * sum_pq Pb_pq b+_p b_q"""
    return np.einsum("pq,pqIJ,JK->IK", p[0], sp.ea, psi, optimize=True) + sign * np.einsum("pq,pqKL,IL->IK", p[1], sp.eb, psi, optimize=True)


def expect(sp, kind, psi, pa, pb):
    sg, f = (-1, 0.5) if kind == "sz,sz" else (1, 1.0)
    xa, xb = f * op(sp, pa, sg, psi), f * op(sp, pb, sg, psi)
    r = np.sum(xa * xb)
    if kind == "dn,dn":
        r -= np.sum(psi * xa) * np.sum(psi * xb)
    return r


def kinds(uhf):
    return ("sz,sz",) if uhf else ("sz,sz", "n,n", "dn,dn")


def dms(key, st):
    sp = space(key)
    psi = state(key, st)
    d1, d2 = sp.dm1(psi, psi), sp.dm2(psi, psi)
    if sp.uhf:
        return d1, d2
    aa, ab, bb = d2
    return d1[0] + d1[1], aa + bb + ab + ab.transpose(2, 3, 0, 1)


def noncumulant(key, d1):
    """2-DM part which the approximate cumulant does not contain: products of the mean-field 1-DM and the 1-DM difference."""
    sp = space(key)
    d1 = d1 if sp.uhf else (d1 / 2, d1 / 2)
    d0 = [np.diag([1.0] * o + [0.0] * (n - o)) for n, o in zip(sp.norb, sp.nocc)]
    x = lambda a, b: np.einsum("pq,rs->pqrs", a, b)
    same = []
    for s in (0, 1):
        m = x(d0[s], d1[s]) + x(d1[s], d0[s]) - x(d0[s], d0[s])
        same.append(m - m.transpose(0, 3, 2, 1))
    ab = x(d0[0], d1[1]) + x(d1[0], d0[1]) - x(d0[0], d0[1])
    if sp.uhf:
        return same[0], ab, same[1]
    return same[0] + same[1] + ab + ab.transpose(2, 3, 0, 1)


def table(key, proj, kind, psi, atoms, filt=None):
    sp = space(key)
    p = projectors(key, proj.lower().replace("/", "+") if "pao" in proj.lower() else proj, filt)
    a1, a2 = atom_lists(atoms, len(p))
    return np.asarray([[expect(sp, kind, psi, p[i], p[j]) for j in a2] for i in a1])


def name(kind, i):
    return (kind, kind.upper(), kind.title())[i % 3]


def compare(rec, got, ref, lab, tol=TOL):
    got = np.asarray(got)
    if rec.check(got.shape == ref.shape, lab + "shape", "%r instead of %r" % (got.shape, ref.shape)):
        d = abs(got - ref).max() if ref.size else 0.0
        rec.close(d, 0, tol, lab)


def copies(x):
    return tuple(y.copy() for y in x) if isinstance(x, tuple) else x.copy()


def run_mf(c, rec):
    key, proj = c["sys"], c["proj"]
    emb = new_emb(key)
    sp = space(key)
    natm = emb.mol.natm
    for i, atoms in enumerate(atom_args(natm)):
        for kind in kinds(sp.uhf):
            rec.step()
            ref = table(key, proj, kind, sp.ref, atoms)
            got = rec.call("mf[%s]" % kind, emb.get_corrfunc_mf, name(kind, i), atoms=atoms, projection=proj)
            compare(rec, got, ref, "mf[%s,%s]" % (kind, "atoms%d" % i))
            d0 = tuple(np.diag([1.0] * o + [0.0] * (n - o)) for n, o in zip(sp.norb, sp.nocc))
            d0 = d0 if sp.uhf else d0[0] + d0[1]
            got = rec.call("mfdm[%s]" % kind, emb.get_corrfunc_mf, kind, dm1=d0, atoms=atoms, projection=proj)
            compare(rec, got, ref, "mf-dm[%s,%s]" % (kind, "atoms%d" % i))
    # a rotated determinant
    rng = np.random.RandomState(4)
    import scipy.linalg

    us = []
    for s in (0, 1):
        x = rng.rand(sp.norb[s], sp.norb[s]) - 0.5
        us.append(scipy.linalg.expm(0.4 * (x - x.T)))
    if not sp.uhf:
        us[1] = us[0]
    d = [u[:, :o] @ u[:, :o].T for u, o in zip(us, sp.nocc)]
    p = projectors(key, proj.lower().replace("/", "+") if "pao" in proj.lower() else proj)
    for kind in kinds(sp.uhf):
        got = rec.call("rot[%s]" % kind, emb.get_corrfunc_mf, kind, dm1=tuple(d) if sp.uhf else d[0] + d[1], projection=proj)
        # Wick's theorem
        ref = np.zeros((natm, natm))
        sg, f = (-1, 0.25) if kind == "sz,sz" else (1, 1.0)
        for a, b in itertools.product(range(natm), repeat=2):
            for s in (0, 1):
                pa, pb, ds = p[a][s], p[b][s], d[s]
                ref[a, b] += f * (np.trace(pa @ pb @ ds) - np.trace(pa @ ds @ pb @ ds))
            if kind != "dn,dn":
                x = [np.trace(p[z][0] @ d[0]) + sg * np.trace(p[z][1] @ d[1]) for z in (a, b)]
                ref[a, b] += f * x[0] * x[1]
        compare(rec, got, ref, "rot[%s]" % kind)
    for bad in ("xx", "n", ""):
        try:
            emb.get_corrfunc_mf(bad)
            rec.fail("invalid-kind", "kind %r accepted" % bad)
        except (ValueError, NotImplementedError):
            pass


def run_ci(c, rec):
    key, proj = c["sys"], c["proj"]
    emb = new_emb(key)
    sp = space(key)
    psi = state(key, c["state"])
    d1, d2 = dms(key, c["state"])
    non = noncumulant(key, d1)
    cum = tuple(a - b for a, b in zip(d2, non)) if sp.uhf else d2 - non
    natm = emb.mol.natm
    for i, atoms in enumerate(atom_args(natm)):
        for kind in kinds(sp.uhf):
            ref = table(key, proj, kind, psi, atoms)
            lab = "ci[%s,atoms%d]" % (kind, i)
            variants = [("full", d2, True), ("cumulant", cum, False)]
            if c["state"] == "fci":
                variants += [("full-auto", d2, None), ("cumulant-auto", cum, None)]
            for nm, x, flag in variants:
                rec.step()
                got = rec.call(lab + nm, emb.get_corrfunc, name(kind, i), dm1=copies(d1), dm2=copies(x), atoms=atoms, projection=proj, dm2_with_dm1=flag)
                compare(rec, got, ref, lab + nm)
            if atoms is None and proj != "iao":
                # sum rules
                na, nb = sp.nocc
                tot = {"sz,sz": (na - nb) ** 2 / 4, "n,n": (na + nb) ** 2, "dn,dn": 0.0}[kind]
                rec.close(np.sum(got), tot, 1e-8, "sum[%s]" % kind)
    if proj == "sao":
        ls = sorted({x[2][0] if False else x[2] for x in emb.mol.ao_labels(None)})
        for f in ls:
            have = [a for a in range(natm) if any(x[0] == a and x[2] == f for x in emb.mol.ao_labels(None))]
            lack = [a for a in range(natm) if a not in have]
            for kind in kinds(sp.uhf):
                ref = table(key, proj, kind, psi, have, filt=f)
                for filt in (f, [f]):
                    got = rec.call("filter", emb.get_corrfunc, kind, dm1=copies(d1), dm2=copies(d2), atoms=have, projection=proj, dm2_with_dm1=True, orbital_filter=filt)
                    compare(rec, got, ref, "filter[%s,%s]" % (f, kind))
                    if c["state"] == "fci":
                        got = rec.call("filter-mf", emb.get_corrfunc_mf, kind, atoms=have, projection=proj, orbital_filter=filt)
                        compare(rec, got, table(key, proj, kind, sp.ref, have, filt=f), "filter-mf[%s,%s]" % (f, kind))
            for a in lack:
                try:
                    emb.get_corrfunc_mf("sz,sz", atoms=[a], orbital_filter=f)
                    rec.fail("filter-empty", "no error for atom %d without %s orbitals" % (a, f))
                except ValueError:
                    pass
    for bad in ("xx", "n", ""):
        try:
            emb.get_corrfunc(bad, dm1=d1, dm2=d2)
            rec.fail("invalid-kind", "kind %r accepted" % bad)
        except (ValueError, NotImplementedError):
            pass


def run_misc(c, rec):
    """Stand-alone functions of vayesta.misc.corrfunc."""
    from vayesta.misc import corrfunc as F

    key = c["sys"]
    sp = space(key)
    psi = state(key, c["state"])
    d1, d2 = dms(key, c["state"])
    p = projectors(key, "sao")
    one = tuple(np.eye(n) for n in sp.norb)
    pair = lambda x: x if sp.uhf else x[0]
    sz = F.spin_z_unrestricted if sp.uhf else F.spin_z
    ssz = F.spinspin_z_unrestricted if sp.uhf else F.spinspin_z
    szval = lambda q, v: np.sum(v * op(sp, q, -1, v)) / 2
    rec.close(rec.call("sz", sz, d1), szval(one, psi), TOL, "sz")
    rec.close(rec.call("ssz", ssz, d1, d2), expect(sp, "sz,sz", psi, one, one), TOL, "ssz")
    if not sp.uhf:
        for sub in (True, False):
            rec.close(rec.call("nn", F.chargecharge, d1, d2, subtract_indep=sub), expect(sp, "dn,dn" if sub else "n,n", psi, one, one), TOL, "nn%d" % sub)
    d0 = tuple(np.diag([1.0] * o + [0.0] * (n - o)) for n, o in zip(sp.norb, sp.nocc))
    d0 = d0 if sp.uhf else d0[0] + d0[1]
    rec.close(rec.call("ssz-mf", ssz, d0, None), expect(sp, "sz,sz", sp.ref, one, one), TOL, "ssz-mf")
    for a in p:
        rec.close(rec.call("sz-a", sz, d1, proj=pair(p[a])), szval(p[a], psi), TOL, "sz-atom")
        for b in list(p) + [None]:
            rec.step()
            pb = p[a] if b is None else p[b]
            args = dict(proj1=pair(p[a]), proj2=None if b is None else pair(pb))
            rec.close(rec.call("ssz-ab", ssz, d1, d2, **args), expect(sp, "sz,sz", psi, p[a], pb), TOL, "ssz-ab")
            rec.close(rec.call("ssz-mf-ab", ssz, d0, None, **args), expect(sp, "sz,sz", sp.ref, p[a], pb), TOL, "ssz-mf-ab")
            if not sp.uhf:
                for sub in (True, False):
                    k = "dn,dn" if sub else "n,n"
                    rec.close(rec.call("nn-ab", F.chargecharge, d1, d2, subtract_indep=sub, **args), expect(sp, k, psi, p[a], pb), TOL, "nn-ab%d" % sub)
                    rec.close(rec.call("nn-mf-ab", F.chargecharge, d0, None, subtract_indep=sub, **args), expect(sp, k, sp.ref, p[a], pb), TOL, "nn-mf-ab%d" % sub)


# --- embedding calculations
def fragment(emb, frag):
    n = emb.mol.natm
    with (emb.sao_fragmentation() if frag == "sao" else emb.iao_fragmentation(add_virtuals=True) if False else emb.sao_fragmentation()) as f:
        if frag == "grouped":
            f.add_atomic_fragment(list(range(n - 1)))
            f.add_atomic_fragment([n - 1])
        elif frag == "sao":
            ao = emb.mol.nao
            f.add_orbital_fragment(list(range(0, ao, 2)))
            f.add_orbital_fragment(list(range(1, ao, 2)))
        else:
            for a in range(n):
                f.add_atomic_fragment(a)


def from_dms(uhf, kind, d1, d2, pa, pb):
    """Definition applied to density matrices in the MO basis."""
    if uhf:
        aa, ab, bb = d2
    else:
        aa = (d2 - d2.transpose(0, 3, 2, 1)) / 6
        bb, ab = aa, d2 / 2 - aa
        ab = (ab + ab.transpose(2, 3, 0, 1)) / 2
        d1 = (d1 / 2, d1 / 2)
    sg, f = (-1, 0.25) if kind == "sz,sz" else (1, 1.0)
    e = lambda x, d, y: np.einsum("ij,ijkl,kl->", x, d, y, optimize=True)
    r = e(pa[0], aa, pb[0]) + e(pa[1], bb, pb[1]) + sg * (e(pa[0], ab, pb[1]) + e(pb[0], ab, pa[1]))
    r += sum(np.einsum("ij,ik,jk->", d1[s], pa[s], pb[s]) for s in (0, 1))
    r *= f
    if kind == "dn,dn":
        n = [sum(np.sum(d1[s] * p[s]) for s in (0, 1)) for p in (pa, pb)]
        r -= n[0] * n[1]
    return r


def table_dms(key, proj, kind, d1, d2, atoms):
    p = projectors(key, proj)
    a1, a2 = atom_lists(atoms, len(p))
    return np.asarray([[from_dms(space_uhf(key), kind, d1, d2, p[i], p[j]) for j in a2] for i in a1])


def space_uhf(key):
    return SYS[key]["kind"] == "uhf"


SOPT = dict(CCSD=dict(conv_tol=1e-11, conv_tol_normt=1e-9, max_cycle=200, solve_lambda=True), MP2=dict(), FCI=dict(conv_tol=1e-13, max_cycle=300))


def run_ewf(c, rec):
    key, proj = c["sys"], c["proj"]
    uhf = space_uhf(key)
    emb = new_emb(key, solver=c["solver"], bath_options=dict(bathtype=c["bath"]), solver_options=SOPT[c["solver"]])
    fragment(emb, c["frag"])
    emb.kernel()
    d1 = emb.make_rdm1()
    natm = emb.mol.natm
    d2 = emb.make_rdm2()
    mos = emb.mo_coeff
    for i, atoms in enumerate(atom_args(natm)):
        for kind in kinds(uhf):
            rec.step()
            ref = table_dms(key, proj, kind, d1, d2, atoms)
            lab = "ewf[%s,atoms%d]" % (kind, i)
            got = rec.call(lab, emb.get_corrfunc, name(kind, i), atoms=atoms, projection=proj)
            compare(rec, got, ref, lab)
            got = rec.call(lab, emb.get_corrfunc, kind, dm1=copies(d1), atoms=atoms, projection=proj, use_symmetry=False)
            compare(rec, got, ref, lab + "dm1")
            if i < 3:
                got = rec.call(lab, emb.get_corrfunc, kind, dm1=copies(d1), dm2=copies(d2), atoms=atoms, projection=proj)
                compare(rec, got, ref, lab + "dm12")
                got = rec.call(lab, emb.get_corrfunc, kind, dm2=emb.make_rdm2(with_dm1=False), atoms=atoms, projection=proj)
                compare(rec, got, ref, lab + "cum")
            if atoms is None and c["bath"] == "full":
                na, nb = emb.mol.nelec
                tot = {"sz,sz": (na - nb) ** 2 / 4, "n,n": (na + nb) ** 2, "dn,dn": 0.0}[kind]
                if c["solver"] == "CCSD":
                    rec.close(np.sum(got), tot, 1e-5, "sum[%s]" % kind)
    if c["bath"] == "full" and c["solver"] == "CCSD":
        # the full wave function: PySCF
        cc_d1, cc_d2 = pyscf_ccsd(key)
        for kind in kinds(uhf):
            got = emb.get_corrfunc(kind, projection=proj)
            if c["frag"] is not None:
                ref = table_dms(key, proj, kind, cc_d1, cc_d2, None)
                compare(rec, got, ref, "pyscf[%s]" % kind, 1e-5)
    # populations of the same density matrix
    pop = emb.pop_analysis(emb.make_rdm1(ao_basis=True), write=False)
    p = projectors(key, "sao")
    q, s = emb.get_atomic_charges(pop)
    for a in range(natm):
        n = [np.sum(d1[t] * p[a][t]) for t in (0, 1)] if uhf else [np.sum(d1 * p[a][0]) / 2] * 2
        rec.close(q[a], emb.mol.atom_charge(a) - n[0] - n[1], TOL, "charge")
        rec.close(s[a], n[0] - n[1], TOL, "spin")
    # cluster populations
    for fx in emb.fragments if c["solver"] == "CCSD" else ():
        dmc = fx.results.wf.make_rdm1()
        cl = fx.cluster
        froz = cl.c_frozen_occ if uhf else (cl.c_frozen_occ, cl.c_frozen_occ)
        act = cl.c_active if uhf else (cl.c_active, cl.c_active)
        dd = dmc if uhf else (dmc / 2, dmc / 2)
        ao = tuple(f @ f.T + a @ d @ a.T for f, a, d in zip(froz, act, dd))
        ref = emb.pop_analysis(ao if uhf else ao[0] + ao[1], write=False)
        got = rec.call("frag-pop", fx.pop_analysis, write=False)
        rec.close(np.max(np.abs(np.asarray(got) - np.asarray(ref))), 0, TOL, "frag-pop")
        got = rec.call("frag-pop-dm1", fx.pop_analysis, dm1=copies(dmc), write=False, local_orbitals="mulliken")
        ref = emb.pop_analysis(ao if uhf else ao[0] + ao[1], write=False, local_orbitals="mulliken")
        rec.close(np.max(np.abs(np.asarray(got) - np.asarray(ref))), 0, TOL, "frag-pop-dm1")
        if c["bath"] == "full":
            rec.close(np.sum(got), emb.mol.nelectron, 1e-6, "frag-pop-sum")


@functools.lru_cache(maxsize=2)
def pyscf_ccsd(key):
    import pyscf.cc

    cc = pyscf.cc.CCSD(getmf(key))
    cc.conv_tol, cc.conv_tol_normt, cc.max_cycle = 1e-11, 1e-9, 200
    cc.kernel()
    cc.solve_lambda()
    return cc.make_rdm1(), cc.make_rdm2()


def run_dmet(c, rec):
    key, proj = c["sys"], c["proj"]
    emb = new_emb(key, "DMET", solver="FCI", bath_options=dict(bathtype=c["bath"]), charge_consistent=False, maxiter=1, solver_options=SOPT["FCI"])
    fragment(emb, "atoms")
    emb.kernel()
    d1, d2 = emb.make_rdm1(), emb.make_rdm2()
    for i, atoms in enumerate(atom_args(emb.mol.natm)):
        for kind in kinds(False):
            rec.step()
            ref = table_dms(key, proj, kind, d1, (d2 + d2.transpose(2, 3, 0, 1)) / 2, atoms)
            got = np.asarray(rec.call("dmet", emb.get_corrfunc, kind, atoms=atoms, projection=proj))
            if atoms is not None and len(atom_lists(atoms, 9)[0]) != len(atom_lists(atoms, 9)[1]) or atom_lists(atoms, 4)[0] != atom_lists(atoms, 4)[1]:
                # the democratically partitioned 2-DM is not symmetric in the particles: build the transposed table
                got2 = np.asarray(emb.get_corrfunc(kind, atoms=[list(x) for x in atom_lists(atoms, emb.mol.natm)][::-1], projection=proj)).T
            else:
                got2 = got.T
            compare(rec, (got + got2) / 2, ref, "dmet[%s,atoms%d]" % (kind, i))
    if c["bath"] == "full":
        psi = state(key, "fci")
        for kind in kinds(False):
            compare(rec, emb.get_corrfunc(kind, projection=proj), table(key, proj, kind, psi, None), "dmet-fci[%s]" % kind, 1e-5)


def run_sym(c, rec):
    import vayesta.ewf

    mf = S.mf(c["sys"], kind=c["kind"])
    mk = lambda: vayesta.ewf.EWF(mf, solver=c["solver"], bath_options=dict(bathtype=c["bath"]), solver_options=SOPT[c["solver"]])
    emb, ref = mk(), mk()
    with emb.sao_fragmentation() as f:
        if c["nsym"]:
            n = c["nsym"]
            with f.rotational_symmetry(n, "z"):
                f.add_atomic_fragment(list(range(emb.mol.natm // n)))
        else:
            f.add_atomic_fragment(0)
            with f.mirror_symmetry("z"):
                f.add_atomic_fragment(1)
    fragment_explicit(ref, emb.mol.natm // c["nsym"] if c["nsym"] else 1)
    emb.kernel()
    ref.kernel()
    for kind in kinds(c["kind"] == "uhf"):
        for atoms in (None, [0, 1], [[1], [0, emb.mol.natm - 1]]):
            rec.step()
            a = rec.call("sym", emb.get_corrfunc, kind, atoms=atoms)
            b = rec.call("explicit", ref.get_corrfunc, kind, atoms=atoms)
            compare(rec, a, b, "sym[%s]" % kind, 1e-6)
            b = rec.call("nosym", ref.get_corrfunc, kind, atoms=atoms, use_symmetry=False)
            compare(rec, a, b, "explicit[%s]" % kind, 1e-6)


def fragment_explicit(emb, size):
    with emb.sao_fragmentation() as f:
        for k in range(0, emb.mol.natm, size):
            f.add_atomic_fragment(list(range(k, k + size)))


# --- populations
def run_pop(c, rec):
    key, lo = c["sys"], c["lo"]
    emb = new_emb(key)
    sp = space(key)
    mf = getmf(key)
    mol = mf.mol
    s = mol.intor("int1e_ovlp")
    d1 = sp.dm1(state(key, c["state"]), state(key, c["state"]))
    mos = mf.mo_coeff if sp.uhf else (mf.mo_coeff, mf.mo_coeff)
    ao = [m @ d @ m.T for m, d in zip(mos, d1)]
    if lo == "mulliken":
        ref = [np.diag(d @ s) for d in ao]
        arg = lo
    else:
        if lo == "iao+pao":
            los, arg = ao_ordered(key, iao_orbitals(key, "iao+pao")[0]), lo
        elif lo.lower() == "lowdin":
            e, v = np.linalg.eigh(s)
            los, arg = [(v / np.sqrt(e)) @ v.T] * 2, lo
        else:
            rng = np.random.RandomState(2)
            los = []
            for sgn in (0, 1):
                x = rng.rand(mol.nao, mol.nao) - 0.5
                q = np.linalg.qr(x)[0]
                los.append(mos[sgn] @ q)
            if not sp.uhf:
                los[1] = los[0]
            arg = tuple(los) if sp.uhf else los[0]
        ref = [np.einsum("ai,ab,bi->i", s @ l, d, s @ l) for l, d in zip(los, ao)]
    uin = (lambda x: tuple(x)) if sp.uhf else (lambda x: x[0] + x[1])
    ref_ = np.asarray(ref) if sp.uhf else ref[0] + ref[1]
    tmp = tempfile.mkdtemp()
    for rep in ("ao", "mo"):
        dm = uin(ao) if rep == "ao" else uin(d1)
        mo = None if rep == "ao" else (tuple(mos) if sp.uhf else mos[0])
        for out in ("no", "log", "file", "file-orb", "log-orb"):
            rec.step()
            kw = dict(write=out != "no")
            fn = os.path.join(tmp, rep + out, "pop.txt")
            if out.startswith("file"):
                kw["filename"] = fn
            if out.endswith("orb"):
                kw["orbital_resolved"] = True
            if lo != "lowdin" or out != "no":
                kw["local_orbitals"] = arg
            pop = rec.call("pop[%s,%s]" % (rep, out), emb.pop_analysis, copies(dm), mo_coeff=mo, **kw)
            compare(rec, np.asarray(pop), ref_, "pop[%s,%s]" % (rep, out))
            q, sn = rec.call("charges", emb.get_atomic_charges, pop)
            rec.close(np.sum(q), mol.charge, 1e-7, "sum-charge")
            rec.close(np.sum(sn), mol.spin, 1e-7, "sum-spin")
            lab = [x[0] for x in mol.ao_labels(None)]
            for a in range(mol.natm):
                n = [sum(r[i] for i in range(len(lab)) if lab[i] == a) for r in ref]
                rec.close(q[a], mol.atom_charge(a) - sum(n), TOL, "charge")
                rec.close(sn[a], n[0] - n[1], TOL, "spin")
            if out.startswith("file"):
                read(rec, fn, mol, q, sn, np.asarray(pop), out.endswith("orb"), sp.uhf)
                if out == "file":
                    # append / overwrite
                    kw2 = dict(kw)
                    emb.pop_analysis(copies(dm), mo_coeff=mo, **kw2)
                    rec.check(open(fn).read().count("Population analysis") == 2, "append", "second population not appended")
                    kw2["filemode"] = "w"
                    emb.pop_analysis(copies(dm), mo_coeff=mo, **kw2)
                    rec.check(open(fn).read().count("Population analysis") == 1, "overwrite", "file not overwritten")


def read(rec, fn, mol, q, sn, pop, orb, uhf):
    atoms, aos = [], []
    for l in open(fn):
        if l.startswith("#") or not l.strip():
            continue
        if "q=" in l:
            a = l.split()
            v = l.split("q=")[1]
            atoms.append((int(a[0]), a[1], float(v.split("s=")[0]), float(v.split("s=")[1])))
        else:
            x, v = l.split("=")
            aos.append((int(x.split()[0]), " ".join(x.split()[1:]), [float(t) for t in v.split()], atoms[-1][0]))
    rec.check([a[0] for a in atoms] == list(range(mol.natm)), "file-atoms", "atoms in file: %r" % (atoms,))
    for a in atoms:
        rec.check(a[1] == mol.atom_symbol(a[0]) + ":", "file-symbol", "%r" % (a,))
        rec.close(a[2], q[a[0]], 2e-8, "file-charge")
        rec.close(a[3], sn[a[0]], 2e-8, "file-spin")
    if orb:
        rec.check([x[0] for x in aos] == list(range(mol.nao)), "file-aos", "orbitals in file %r" % [x[0] for x in aos])
        for i, label, v, at in aos:
            ref = pop[:, i] if uhf else [pop[i]]
            rec.check(label.split() == mol.ao_labels()[i].split(), "file-label", label)
            rec.check(mol.ao_labels(None)[i][0] == at, "file-order", "orbital %d listed under atom %d" % (i, at))
            if rec.check(len(v) == len(ref), "file-ncol", "%r" % (v,)):
                rec.close(np.max(np.abs(np.asarray(v) - np.asarray(ref))), 0, 2e-8, "file-pop")
    else:
        rec.check(not aos, "file-noorb", "unexpected lines")
