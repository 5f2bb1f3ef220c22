"""C11  All integral paths give the exact cluster Hamiltonian."""
import functools
import itertools
import numpy as np

from vlib import systems as S

PROPERTY = "C11"
LEVEL = "exploration"
TECHNIQUE = (
    "exhaustive enumeration of (system, integral type, spin symmetry, active/frozen split, orbital choice, storage option) and of all access-order "
    "words up to a depth on the real cluster Hamiltonian, every returned block compared with a direct transformation of the AO operators"
)
RULE = (
    "'ham': one case per (system, reference, split, orbitals, storage), reading every block and every wrapper; 'words': all sequences of accessor calls "
    "of length 3; 'emb': all integral routes of the embedding object incl. frozen lists; 'helper': ERI containers and contractions"
)
BOUNDS = "molecules with 4-9 orbitals; every split with 1..n active occupied/virtual orbitals (incl. none) from a listed grid; access words of length 3 over 9-10 operations; frozen lists up to 3 orbitals per spin"
ASSUMPTIONS = ["AO integrals and density-fitting factors from PySCF are correct"]
TOL = 1e-8


def setup(tier):
    global EWF, Cluster, helper, pyscf_eris, OptBase
    import vayesta
    from vayesta.ewf import EWF
    from vayesta.core.types import Cluster
    from vayesta.core.ao2mo import helper, pyscf_eris


# ---------------------------------------------------------------------------------------------------------- systems
SYS = {
    "h4r": ("h4", "6-31g", 0, "rhf", False),
    "h4rd": ("h4", "6-31g", 0, "rhf", True),
    "lihr~": ("lih", "sto-3g", 0, "rhf~", False),
    "lihrd": ("lih", "6-31g", 0, "rhf", True),
    "h3u": ("h3", "6-31g", 1, "uhf", False),
    "h3ud": ("h3", "6-31g", 1, "uhf", True),
    "h4u2": ("h4", "sto-3g", 2, "uhf", False),
    "behu": ("beh", "sto-3g", 1, "uhf", True),
    "h3u-": ("h3", "6-31g", -1, "uhf~", False),
    "h4u": ("h4", "6-31g", 0, "uhf~", False),
}


def get_mf(key):
    name, basis, spin, kind, df = SYS[key]
    if kind.endswith("~"):
        return S.rotated_mf(name, basis, spin, 0, kind[:-1], df)
    return S.mf(name, basis, spin, 0, kind, df)


@functools.lru_cache(maxsize=None)
def cderi_ao(key):
    import pyscf.lib

    return pyscf.lib.unpack_tril(np.vstack([x for x in get_mf(key).with_df.loop()]))


@functools.lru_cache(maxsize=None)
def ops_ao(key):
    """h, ERIs and Fock matrices in the AO basis, built without the code under test."""
    mf = get_mf(key)
    mol = mf.mol
    h = mol.intor("int1e_kin") + mol.intor("int1e_nuc")
    if SYS[key][4]:
        l = cderi_ao(key)
        g = np.einsum("Lij,Lkl->ijkl", l, l)
    else:
        g = mol.intor("int2e").reshape(4 * [mol.nao])
    uhf = SYS[key][3].startswith("uhf")
    if uhf:
        dm = [mf.mo_coeff[s][:, mf.mo_occ[s] > 0] @ mf.mo_coeff[s][:, mf.mo_occ[s] > 0].T for s in (0, 1)]
    else:
        c = mf.mo_coeff[:, mf.mo_occ > 0]
        dm = [c @ c.T] * 2
    j = np.einsum("ijkl,lk->ij", g, dm[0] + dm[1])
    f = [h + j - np.einsum("ikjl,kl->ij", g, dm[s]) for s in (0, 1)]
    return h, g, f, dm


def orth_mix(n, seed):
    import scipy.linalg

    x = np.random.RandomState(seed).rand(n, n) - 0.5
    return scipy.linalg.expm(2 * (x - x.T))


def splits(key):
    """Listed active/frozen splits: number of active occupied/virtual orbitals (per spin)."""
    mf = get_mf(key)
    if SYS[key][3].startswith("uhf"):
        no = [int((mf.mo_occ[s] > 0).sum()) for s in (0, 1)]
        nv = [mf.mo_coeff[s].shape[1] - no[s] for s in (0, 1)]
        grid = [sorted({0, 1, no[s] - 1, no[s]} & set(range(no[s] + 1))) for s in (0, 1)]
        gridv = [sorted({0, 1, 2, nv[s]} & set(range(nv[s] + 1))) for s in (0, 1)]
        out = []
        for oa, ob in itertools.product(*grid):
            for va, vb in itertools.product(*gridv):
                if oa + ob == 0 or oa + va == 0 or ob + vb == 0:
                    continue
                if oa == 0 or va == 0 or ob == 0 or vb == 0:
                    # empty blocks: only one of the four may be empty
                    if [oa, va, ob, vb].count(0) > 1:
                        continue
                if abs((oa + va) - (ob + vb)) > 3:
                    continue
                out.append([[oa, ob], [va, vb]])
        return out
    no = int((mf.mo_occ > 0).sum())
    nv = mf.mo_coeff.shape[1] - no
    return [[o, v] for o in range(1, no + 1) for v in sorted({0, 1, 2, nv - 1, nv} & set(range(nv + 1)))]


def make_cluster(key, split, orbs):
    """Active/frozen orbitals: 'canon' leaves the MO order, 'mix' rotates the complete occupied and virtual spaces."""
    mf = get_mf(key)

    def one(c, occ, no, nv, seed):
        co, cv = c[:, occ > 0], c[:, occ == 0]
        if orbs == "mix":
            co = co @ orth_mix(co.shape[1], seed)
            cv = cv @ orth_mix(cv.shape[1], seed + 50)
            return co[:, :no], cv[:, :nv], co[:, no:], cv[:, nv:]
        k = co.shape[1] - no
        return co[:, k:], cv[:, :nv], co[:, :k], cv[:, nv:]

    if SYS[key][3].startswith("uhf"):
        a = one(mf.mo_coeff[0], mf.mo_occ[0], split[0][0], split[1][0], 1)
        b = one(mf.mo_coeff[1], mf.mo_occ[1], split[0][1], split[1][1], 2)
        parts = list(zip(a, b))
    else:
        parts = one(mf.mo_coeff, mf.mo_occ, split[0], split[1], 1)
    return Cluster.from_coeffs(*parts)


def make_fragment(key, cluster, **opts):
    emb = EWF(get_mf(key), bath_options=dict(bathtype="dmet"), **opts)
    with emb.sao_fragmentation() as f:
        fx = f.add_atomic_fragment(0)
    fx.cluster = cluster
    return emb, fx


class Oracle:
    """Cluster operators by direct transformation."""

    def __init__(self, key, cluster):
        self.key = key
        self.uhf = SYS[key][3].startswith("uhf")
        h, g, f, dm = ops_ao(key)
        c = cluster.c_active
        self.c = c = list(c) if self.uhf else [c, c]
        self.no = list(cluster.nocc_active) if self.uhf else [cluster.nocc_active] * 2
        self.n = [x.shape[1] for x in c]
        self.g = {}
        for s, t in itertools.product((0, 1), repeat=2):
            self.g[s, t] = np.einsum("abcd,ai,bj,ck,dl->ijkl", g, c[s], c[s], c[t], c[t], optimize=True)
        self.f = [c[s].T @ f[s] @ c[s] for s in (0, 1)]
        # one-body Hamiltonian: bare plus the field of the frozen occupied orbitals
        cf = cluster.c_frozen_occ
        cf = list(cf) if self.uhf else [cf, cf]
        df = [x @ x.T for x in cf]
        j = np.einsum("ijkl,lk->ij", g, df[0] + df[1])
        self.h = [c[s].T @ (h + j - np.einsum("ikjl,kl->ij", g, df[s])) @ c[s] for s in (0, 1)]
        self.sl = {}
        for s, (o, v) in enumerate((("o", "v"), ("O", "V"))):
            self.sl[o] = slice(self.no[s])
            self.sl[v] = slice(self.no[s], self.n[s])

    def full(self):
        return (self.g[0, 0], self.g[0, 1], self.g[1, 1]) if self.uhf else self.g[0, 0]

    def one(self, x):
        return x if self.uhf else x[0]

    def blocks(self):
        if not self.uhf:
            return ["".join(b) for b in itertools.product("ov", repeat=4)]
        p = ["".join(b) for b in itertools.product("ov", repeat=2)]
        out = []
        for s, t in itertools.product((0, 1), repeat=2):
            for a, b in itertools.product(p, p):
                out.append((a.upper() if s else a) + (b.upper() if t else b))
        return out

    def block(self, b):
        s, t = int(b[0].isupper()), int(b[2].isupper())
        if not self.uhf:
            s = t = 0
            b = b.lower()
        return self.g[s, t][tuple(self.sl[x] for x in b)]


def close(rec, a, b, label, tol=TOL):
    """Nested comparison; shapes must agree."""
    if isinstance(b, (tuple, list)):
        if not rec.check(len(a) == len(b), label, "number of components %r != %r" % (len(a), len(b))):
            return
        for k, (x, y) in enumerate(zip(a, b)):
            close(rec, x, y, label + "[%d]" % k, tol)
        return
    a = np.asarray(a)
    b = np.asarray(b)
    if not rec.check(a.shape == b.shape, label, "shape %r != %r" % (a.shape, b.shape)):
        return
    if a.size:
        rec.close(a, b, tol, label)


def vext(orc, seed=7):
    out = []
    for s in (0, 1):
        x = np.random.RandomState(seed + (s if orc.uhf else 0)).rand(orc.n[s], orc.n[s]) - 0.5
        out.append(0.2 * (x + x.T))
    return out


# ------------------------------------------------------------------------------------------------------------- cases
WORDSYS = [("h4rd", [1, 2], "mix"), ("lihr~", [1, 3], "mix"), ("h3ud", [[1, 1], [1, 2]], "mix"), ("h4u2", [[2, 1], [1, 2]], "mix")]
OPS = ["eris", "blk1", "blk2", "fock", "heff", "setv", "unsetv", "mf", "dummy", "cderi"]


def cases(tier):
    import os

    # the active space dimensions depend on electron counts only; listed here to keep this function import-light
    dims = {"h4r": (2, 6), "h4rd": (2, 6), "lihr~": (2, 4), "lihrd": (2, 9)}
    udims = {"h3u": ((2, 1), (4, 5)), "h3ud": ((2, 1), (4, 5)), "h4u2": ((3, 1), (1, 3)), "behu": ((3, 2), (3, 4)), "h3u-": ((1, 2), (5, 4)), "h4u": ((2, 2), (6, 6))}
    out = []
    for key, (no, nv) in dims.items():
        for o in range(1, no + 1):
            for v in sorted({0, 1, 2, nv - 1, nv}):
                if v == 0 and SYS[key][4]:
                    continue  # PySCF's density-fitted transformation does not accept empty orbital sets
                for orbs in ("canon", "mix"):
                    for store in (True, False):
                        out.append(dict(k="ham", sys=key, split=[o, v], orbs=orbs, store=store))
    for key, (no, nv) in udims.items():
        go = [sorted({0, 1, no[s] - 1, no[s]}) for s in (0, 1)]
        gv = [sorted({0, 1, 2, nv[s]} & set(range(nv[s] + 1))) for s in (0, 1)]
        for oa, ob in itertools.product(*go):
            for va, vb in itertools.product(*gv):
                if [oa, va, ob, vb].count(0) > (0 if SYS[key][4] else 1) or abs(oa + va - ob - vb) > 3:
                    continue
                if tier == "quick" and key in ("h4u", "h3u-", "behu") and 2 in (va, vb):
                    continue
                for orbs in ("canon", "mix") if tier == "thorough" else ("mix",):
                    for store in (True, False):
                        out.append(dict(k="ham", sys=key, split=[[oa, ob], [va, vb]], orbs=orbs, store=store))
    for key, split, orbs in WORDSYS:
        for store in (True, False):
            ops = [o for o in OPS if o != "cderi" or key.endswith("d")]
            for first in ops:
                out.append(dict(k="words", sys=key, split=split, orbs=orbs, store=store, first=first, depth=3 if tier == "quick" else 4))
    for key in SYS:
        out.append(dict(k="emb", sys=key))
        for meth in ("MP2", "CCSD", "CISD", "RCCSD", "DFCCSD"):
            if key[2:].startswith("u") or "u" in key:
                if meth in ("RCCSD", "DFCCSD"):
                    continue
            out.append(dict(k="obj", sys=key, meth=meth))
    for key in SYS:
        out.append(dict(k="helper", sys=key))
    return out


def cost(c):
    return {"ham": 2, "words": 8, "emb": 3, "obj": 6, "helper": 5}[c["k"]] * (2 if "u" in c["sys"] else 1)


def run(c, rec):
    {"ham": run_ham, "words": run_words, "emb": run_emb, "obj": run_obj, "helper": run_helper}[c["k"]](c, rec)


# ------------------------------------------------------------------------------------------------------- Hamiltonian
def check_cderi(rec, ham, orc, key, lab):
    l = cderi_ao(key)
    for only_ov in (False, True):
        raw = []
        for s in (0, 1):
            left = orc.c[s][:, : orc.no[s]] if only_ov else orc.c[s]
            right = orc.c[s][:, orc.no[s] :] if only_ov else orc.c[s]
            raw.append(np.einsum("Lab,ai,bj->Lij", l, left, right))
        for compress in (False, True):
            if compress and min(x.size for x in raw) == 0:
                continue
            r = rec.call(lab + "cderi", ham.get_cderi_bare, only_ov=only_ov, compress=compress)
            if r is None:
                continue
            cd, neg = r
            rec.step()
            if orc.uhf:
                rec.check(neg[0] is None and neg[1] is None, lab + "cderi-neg", "unexpected negative part")
            else:
                rec.check(neg is None, lab + "cderi-neg", "unexpected negative part")
                cd = (cd, cd)
            for s in (0, 1) if orc.uhf else (0,):
                tag = lab + "cderi%d[ov=%d,compress=%d]" % (s, only_ov, compress)
                # the factors are only defined up to a rotation of the auxiliary index: compare what they stand for
                close(rec, np.einsum("Lij,Lkl->ijkl", cd[s], cd[s]), np.einsum("Lij,Lkl->ijkl", raw[s], raw[s]), tag)
                if not compress:
                    close(rec, cd[s], raw[s], tag + "raw")
            if orc.uhf:
                tag = lab + "cderi-ab[ov=%d,compress=%d]" % (only_ov, compress)
                if rec.check(len(cd[0]) == len(cd[1]), tag + "aux", "different auxiliary spaces for both channels"):
                    close(rec, np.einsum("Lij,Lkl->ijkl", cd[0], cd[1]), np.einsum("Lij,Lkl->ijkl", raw[0], raw[1]), tag)


def check_mf(rec, ham, orc, vx, lab, tol=TOL):
    """The wrapped mean field has the cluster's integrals, Fock matrix, occupations and energies."""
    f = [x + y for x, y in zip(orc.f, vx)]
    h = [x + y for x, y in zip(orc.h, vx)]
    nmo, nsm = max(orc.n), min(orc.n)
    for allow_df, bare, over in itertools.product((False, True), repeat=3):
        tag = lab + "mf[df=%d,bare=%d,over=%d]" % (allow_df, bare, over)
        r = rec.call(tag, ham.to_pyscf_mf, allow_dummy_orbs=True, allow_df=allow_df, force_bare_eris=bare, overwrite_fock=over)
        rec.step()
        if r is None:
            continue
        mf, frozen = r
        hc = mf.get_hcore()
        eri = mf._eri
        fk = mf.get_fock(dm=mf.make_rdm1())
        e = mf.energy_elec(mf.make_rdm1())[0]
        rec.check(tuple(mf.mol.nelec) == tuple(orc.no), tag + "nelec", "electron number %r" % (mf.mol.nelec,))
        if not orc.uhf:
            rec.check(frozen is None, tag + "frozen", "frozen %r" % (frozen,))
            close(rec, hc, h[0], tag + "hcore", tol)
            close(rec, fk, f[0], tag + "fock", tol)
            close(rec, mf.mo_energy, np.diag(f[0]), tag + "mo_energy", tol)
            close(rec, mf.mo_occ, np.array([2.0] * orc.no[0] + [0.0] * (orc.n[0] - orc.no[0])), tag + "mo_occ")
            close(rec, mf.mo_coeff, np.eye(nmo), tag + "mo_coeff")
            if eri is not None and not getattr(mf, "with_df", None):
                close(rec, eri, orc.full(), tag + "eri", tol)
            o = slice(orc.no[0])
            g = orc.g[0, 0]
            eref = 2 * np.einsum("ii", h[0][o, o]) + 2 * np.einsum("iijj", g[o, o, o, o]) - np.einsum("ijji", g[o, o, o, o])
            rec.close(e, eref, max(tol, 1e-7), tag + "energy")
            continue
        pad = None if nsm == nmo else orc.n.index(nsm)
        if pad is None:
            rec.check(frozen is None, tag + "frozen", "frozen %r" % (frozen,))
        else:
            ref = [[], []]
            ref[pad] = list(range(nsm, nmo))
            rec.check([list(x) for x in frozen] == ref, tag + "frozen", "frozen %r, expected %r" % (frozen, ref))
        top = max(np.diag(x).max() for x in f)
        for s in (0, 1):
            n = orc.n[s]
            for nm, got, ref in (("hcore", hc[s], h[s]), ("fock", fk[s], f[s])):
                got = np.asarray(got)
                if not rec.check(got.shape == (nmo, nmo), tag + nm, "shape %r" % (got.shape,)):
                    continue
                close(rec, got[:n, :n], ref, tag + nm + str(s), tol)
                if n < nmo:
                    rec.check(abs(got[:n, n:]).max(initial=0) < 1e-12, tag + nm + "-pad", "dummy orbital couples to the cluster")
                    rec.check(abs(got[n:, n:] - np.diag(np.diag(got[n:, n:]))).max() < 1e-12, tag + nm + "-pad", "dummy block not diagonal")
                    rec.check(np.diag(got[n:, n:]).min() > top, tag + nm + "-pad", "dummy orbital is not above the cluster's orbitals")
            close(rec, mf.mo_energy[s][:n], np.diag(f[s]), tag + "mo_energy%d" % s, tol)
            close(rec, mf.mo_occ[s], np.array([1.0] * orc.no[s] + [0.0] * (nmo - orc.no[s])), tag + "mo_occ%d" % s)
        for k, (s, t) in enumerate(((0, 0), (0, 1), (1, 1))):
            got = np.asarray(eri[k])
            if rec.check(got.shape == (nmo,) * 4, tag + "eri", "shape %r" % (got.shape,)):
                n, m = orc.n[s], orc.n[t]
                close(rec, got[:n, :n, :m, :m], orc.g[s, t], tag + "eri%d%d" % (s, t), tol)
                rest = got.copy()
                rest[:n, :n, :m, :m] = 0
                rec.check(abs(rest).max(initial=0) == 0, tag + "eri-pad", "dummy integrals not zero")
        # energy of the determinant, independent of the overwritten get_fock
        eref = 0
        for s in (0, 1):
            o = slice(orc.no[s])
            eref += 0.5 * (np.trace(h[s][o, o]) + np.trace(f[s][o, o]))
        rec.close(e, eref, max(tol, 1e-7), tag + "energy")


def run_ham(c, rec):
    key = c["sys"]
    rec.state(c["sys"], c["split"], c["orbs"])
    cl = make_cluster(key, c["split"], c["orbs"])
    orc = Oracle(key, cl)
    emb, fx = make_fragment(key, cl, store_eris=c["store"])
    ham = fx.get_frag_hamil()
    rec.check(ham.ncas == tuple(orc.n), "ncas", "%r" % (ham.ncas,))
    rec.check(tuple(ham.nelec) == tuple(orc.no), "nelec", "%r" % (ham.nelec,))
    rec.check(bool(ham.opts.cache_eris) == c["store"], "store", "store_eris option not passed on")
    blocks = orc.blocks()
    # 1) blocks before anything was cached, 2) full array, 3) blocks again, 4) wrapper objects
    for b in blocks:
        close(rec, ham.get_eris_bare(b), orc.block(b), "blk0:" + b)
    rec.check(ham._eris is None, "cache", "full integrals cached by block access")
    dummy = ham.get_dummy_eri_object(force_bare=True)
    if orc.block("ovov").size:
        close(rec, dummy.ovov, orc.block("ovov"), "dummy0")
    close(rec, ham.get_eris_bare(), orc.full(), "full")
    close(rec, ham.get_eris_bare(), orc.full(), "full2")
    for b in blocks:
        close(rec, ham.get_eris_bare(b), orc.block(b), "blk1:" + b)
        close(rec, ham.get_eris_screened(b), orc.block(b), "scr:" + b)
        close(rec, getattr(dummy, b), orc.block(b), "dummy:" + b)
    close(rec, ham.get_eris_screened(), orc.full(), "scr-full")
    close(rec, dummy.fock, orc.one(orc.f), "dummy-fock")
    rec.check(not hasattr(dummy, "vvL") and not hasattr(dummy, "ovx"), "dummy-keys", "unexpected attributes")
    rec.step(3 * len(blocks))
    # one-body operators
    zero = [np.zeros_like(x) for x in orc.f]
    close(rec, ham.get_fock(), orc.one(orc.f), "fock")
    close(rec, ham.get_heff(), orc.one(orc.h), "heff")
    hh, gg = ham.get_integrals()
    close(rec, hh, orc.one(orc.h), "integrals-h")
    close(rec, gg, orc.full(), "integrals-g")
    empty = min(orc.no) == 0
    if not empty or True:
        check_mf(rec, ham, orc, zero, "")
    # external potential
    vx = vext(orc)
    ham.v_ext = tuple(vx) if orc.uhf else vx[0]
    keep = [x.copy() for x in vx]
    fv = [x + y for x, y in zip(orc.f, vx)]
    hv = [x + y for x, y in zip(orc.h, vx)]
    close(rec, ham.get_fock(), orc.one(fv), "fock+v")
    close(rec, ham.get_fock(with_vext=False), orc.one(orc.f), "fock-v")
    close(rec, ham.get_heff(), orc.one(hv), "heff+v")
    close(rec, ham.get_heff(with_vext=False), orc.one(orc.h), "heff-v")
    close(rec, ham.get_integrals()[0], orc.one(hv), "integrals+v")
    close(rec, ham.get_integrals(with_vext=False)[0], orc.one(orc.h), "integrals-v")
    close(rec, ham.get_dummy_eri_object(force_bare=True, with_vext=False).fock, orc.one(orc.f), "dummy-fock-v")
    close(rec, ham.get_dummy_eri_object().fock, orc.one(fv), "dummy-fock+v")
    check_mf(rec, ham, orc, vx, "v:")
    close(rec, vx, keep, "v_ext-modified", 0)
    close(rec, ham.get_eris_bare(), orc.full(), "full-end")
    ham.v_ext = None
    if key.endswith("d"):
        check_cderi(rec, ham, orc, key, "")
    # screened interactions in place of bare ones: the difference between Fock and one-body operator is their mean field
    if not empty:
        check_screened(rec, key, cl, orc, c)
    # sub-cluster of this cluster
    check_sub(rec, key, cl, ham, c)


def mean_field(orc, g):
    """Mean field of the cluster's occupied orbitals with interactions g (per spin)."""
    (gaa, gab, gbb) = g if orc.uhf else (g, g, g)
    oa, ob = slice(orc.no[0]), slice(orc.no[1])
    va = np.einsum("iipq->pq", gaa[oa, oa]) + np.einsum("pqii->pq", gab[:, :, ob, ob]) - np.einsum("ipqi->pq", gaa[oa, :, :, oa])
    vb = np.einsum("iipq->pq", gbb[ob, ob]) + np.einsum("iipq->pq", gab[oa, oa]) - np.einsum("ipqi->pq", gbb[ob, :, :, ob])
    return [va, vb]


def check_screened(rec, key, cl, orc, c):
    rng = np.random.RandomState(3)

    def sym(n, m):
        x = rng.rand(n, n, m, m) - 0.5
        x = x + x.transpose(1, 0, 2, 3)
        x = x + x.transpose(0, 1, 3, 2)
        return 0.02 * (x + x.transpose(2, 3, 0, 1)) if n == m else 0.02 * x

    na, nb = orc.n
    if orc.uhf:
        d = (sym(na, na), 0.02 * sym(na, nb) / 0.02, sym(nb, nb))
        w = tuple(x + y for x, y in zip(orc.full(), d))
    else:
        w = orc.full() + sym(na, na)
    vw, vb = mean_field(orc, w), mean_field(orc, orc.full())
    for match in (False, True):
        for store in (True, False):
            emb, fx = make_fragment(key, cl, store_eris=store, screening="mrpa", match_cluster_fock=match)
            ham = fx.get_frag_hamil()
            ham._seris = w
            tag = "w[match=%d]:" % match
            for b in ("ovov", "ovvv", "vooo") + (("ovOV", "OOvv", "VOOO") if orc.uhf else ()):
                s, t = int(b[0].isupper()), int(b[2].isupper())
                full = w if not orc.uhf else {(0, 0): w[0], (0, 1): w[1], (1, 0): w[1].transpose(2, 3, 0, 1), (1, 1): w[2]}[s, t]
                close(rec, ham.get_eris_screened(b), full[tuple(orc.sl[x] for x in b)], tag + b)
                close(rec, ham.get_eris_bare(b), orc.block(b), tag + "bare:" + b)
            # match: the Fock matrix is kept and the one-body part changes; otherwise the one-body part is kept
            if match:
                f, h = orc.f, [x - y for x, y in zip(orc.f, vw)]
            else:
                f, h = [x - y + z for x, y, z in zip(orc.f, vb, vw)], orc.h
            close(rec, ham.get_fock(), orc.one(f), tag + "fock")
            close(rec, ham.get_fock(use_seris=False), orc.one(orc.f), tag + "fock-bare")
            hh, gg = ham.get_integrals()
            close(rec, hh, orc.one(h), tag + "integrals-h")
            close(rec, gg, w, tag + "integrals-g")
            mf, _ = ham.to_pyscf_mf(allow_dummy_orbs=True)
            hc, eri = mf.get_hcore(), mf._eri
            if not orc.uhf:
                close(rec, hc, h[0], tag + "mf-h")
                close(rec, eri, w, tag + "mf-g")
                close(rec, mf.get_fock(dm=mf.make_rdm1()), f[0], tag + "mf-f")
            else:
                for s in (0, 1):
                    n = orc.n[s]
                    close(rec, np.asarray(hc[s])[:n, :n], h[s], tag + "mf-h%d" % s)
                    close(rec, np.asarray(mf.get_fock()[s])[:n, :n], f[s], tag + "mf-f%d" % s)
                    close(rec, np.asarray(eri[0 if s == 0 else 2])[:n, :n, :n, :n], w[0 if s == 0 else 2], tag + "mf-g%d" % s)
            rec.step(8)


def check_sub(rec, key, cl, ham, c):
    """Cluster truncated from a larger cluster: active orbitals moved to the frozen space."""
    sp = c["split"]
    if SYS[key][3].startswith("uhf"):
        subs = [[[max(1, a - 1) for a in sp[0]], [max(1, a - 1) for a in sp[1]]]]
        if min(sp[0] + sp[1]) < 1:
            return
    else:
        if min(sp) < 1:
            return
        subs = [[max(1, sp[0] - 1), sp[1]], [sp[0], max(1, sp[1] - 1)]]
    for sub in subs:
        cs = make_cluster(key, sub, c["orbs"])
        orc = Oracle(key, cs)
        h2 = ham.with_new_cluster(cs)
        close(rec, h2.get_eris_bare(), orc.full(), "sub:full")
        close(rec, h2.get_fock(), orc.one(orc.f), "sub:fock")
        close(rec, h2.get_heff(), orc.one(orc.h), "sub:heff")
        rec.step(3)


# -------------------------------------------------------------------------------------------------------------- words
def run_words(c, rec):
    key = c["sys"]
    cl = make_cluster(key, c["split"], c["orbs"])
    orc = Oracle(key, cl)
    emb, fx = make_fragment(key, cl, store_eris=c["store"])
    ops = [o for o in OPS if o != "cderi" or key.endswith("d")]
    b1, b2 = ("ovOV", "VVvo") if orc.uhf else ("ovov", "vvvo")
    vx = vext(orc)
    l = cderi_ao(key) if key.endswith("d") else None
    for rest in itertools.product(ops, repeat=c["depth"] - 1):
        word = (c["first"],) + rest
        ham = fx.get_frag_hamil()
        on = False
        for op in word:
            f = [x + on * y for x, y in zip(orc.f, vx)]
            h = [x + on * y for x, y in zip(orc.h, vx)]
            lab = "%s@%s" % (op, ">".join(word))
            rec.step()
            if op == "eris":
                close(rec, ham.get_eris_bare(), orc.full(), lab)
            elif op == "blk1":
                close(rec, ham.get_eris_bare(b1), orc.block(b1), lab)
            elif op == "blk2":
                close(rec, ham.get_eris_screened(b2), orc.block(b2), lab)
            elif op == "fock":
                close(rec, ham.get_fock(), orc.one(f), lab)
            elif op == "heff":
                close(rec, ham.get_heff(), orc.one(h), lab)
            elif op == "setv":
                ham.v_ext = tuple(x.copy() for x in vx) if orc.uhf else vx[0].copy()
                on = True
            elif op == "unsetv":
                ham.v_ext = None
                on = False
            elif op == "mf":
                mf, fr = ham.to_pyscf_mf(allow_dummy_orbs=True)
                hc = mf.get_hcore()
                for s in (0, 1) if orc.uhf else (0,):
                    n = orc.n[s]
                    close(rec, np.asarray(hc[s] if orc.uhf else hc)[:n, :n], h[s], lab)
            elif op == "dummy":
                d = ham.get_dummy_eri_object()
                close(rec, d.fock, orc.one(f), lab)
                close(rec, d.vvoo, orc.block("vvoo"), lab)
            elif op == "cderi":
                cd = ham.get_cderi_bare(compress=True)[0]
                for s in (0, 1) if orc.uhf else (0,):
                    x = cd[s] if orc.uhf else cd
                    close(rec, np.einsum("Lij,Lkl->ijkl", x, x), orc.g[s, s], lab)
            rec.state(word)
        rec.trace()


# ---------------------------------------------------------------------------------------------------------- embedding
def run_emb(c, rec):
    """Integral routes of the embedding object itself."""
    import pyscf.ao2mo

    key = c["sys"]
    uhf = SYS[key][3].startswith("uhf")
    mf = get_mf(key)
    emb = EWF(mf, bath_options=dict(bathtype="dmet"))
    h, g, f, dm = ops_ao(key)
    n = mf.mol.nao
    pool = [np.linalg.qr(np.random.RandomState(s).rand(n, n) - 0.5)[0][:, :k] for s, k in enumerate((3, 1, 2, n))]
    t = lambda a, b, x, y: np.einsum("abcd,ai,bj,ck,dl->ijkl", g, a, b, x, y, optimize=True)
    get = emb.get_eris_array if not uhf else super(type(emb), emb).get_eris_array
    for idx in itertools.product(range(4), repeat=4):
        cs = [pool[i] for i in idx]
        close(rec, emb.get_eris_array(cs), t(*cs), "array%r" % (idx,))
        rec.state(idx)
        rec.step()
    for k in range(4):
        close(rec, emb.get_eris_array(pool[k]), t(*(4 * [pool[k]])), "array-one%d" % k)
    for i, j in itertools.product(range(4), repeat=2):
        got = emb.get_eris_array([pool[i], pool[i], pool[j], pool[j]], compact=True)
        ref = t(pool[i], pool[i], pool[j], pool[j])
        rows, cols = np.tril_indices(ref.shape[0]), np.tril_indices(ref.shape[2])
        ref = ref[rows][:, cols[0], cols[1]]
        close(rec, np.asarray(got).reshape(ref.shape), ref, "compact%d%d" % (i, j))
    if uhf:
        for i, j, k, l in itertools.product(range(4), repeat=4):
            got = emb.get_eris_array_uhf((pool[i], pool[j]), (pool[k], pool[l]))
            ref = (t(pool[i], pool[k], pool[i], pool[k]), t(pool[i], pool[k], pool[j], pool[l]), t(pool[j], pool[l], pool[j], pool[l]))
            close(rec, got, ref, "uhf%d%d%d%d" % (i, j, k, l))
            rec.step()
        for i, j in itertools.product(range(4), repeat=2):
            got = emb.get_eris_array_uhf((pool[i], pool[j]))
            close(rec, got, (t(*(4 * [pool[i]])), t(pool[i], pool[i], pool[j], pool[j]), t(*(4 * [pool[j]]))), "uhf%d%d" % (i, j))
    if key.endswith("d"):
        l = cderi_ao(key)
        for i, j in itertools.product(range(4), repeat=2):
            for blk in (None, 1, 7):
                cd, neg = emb.get_cderi((pool[i], pool[j])) if blk is None else emb.get_cderi((pool[i], pool[j]), blksize=blk)
                rec.check(neg is None, "cderi-neg", "negative part")
                close(rec, cd, np.einsum("Lab,ai,bj->Lij", l, pool[i], pool[j]), "cderi%d%d" % (i, j))
                rec.step()
        for k in range(4):
            close(rec, emb.get_cderi(pool[k])[0], np.einsum("Lab,ai,bj->Lij", l, pool[k], pool[k]), "cderi%d" % k)
        ex = np.random.RandomState(0).rand(3, n, n)
        for blk in (None, 1, 7):
            close(rec, emb.get_cderi_exspace(ex, blksize=blk)[0], np.einsum("Lab,nab->Ln", l, ex), "exspace")
    # one-body operators
    close(rec, emb.get_hcore(), h, "hcore")
    close(rec, emb.get_fock(), f if uhf else f[0], "fock")
    close(rec, emb.get_fock(with_exxdiv=False), f if uhf else f[0], "fock-noexx")
    v = [x - h for x in f]
    close(rec, emb.get_veff(), v if uhf else v[0], "veff")
    close(rec, emb.get_ovlp(), mf.mol.intor("int1e_ovlp"), "ovlp")
    e = 0.5 * sum(np.einsum("ij,ji", h + f[s], dm[s]) for s in (0, 1)) + mf.mol.energy_nuc()
    rec.close(emb.e_mf * emb.ncells, e, 1e-7, "e_mf")


FROZEN = {
    "r": [None, 1, [0], [1], [-1], [0, 5], [2, 4]],
    "u": [None, 1, [[0], [0]], [[0], [3]], [[], [2]], [[3], []], [[0, 3], [4]]],
}


def run_obj(c, rec):
    """ERI objects for post-SCF methods, with frozen orbitals, compared block by block."""
    import pyscf.cc
    import pyscf.ci
    import pyscf.mp

    key, meth = c["sys"], c["meth"]
    uhf = SYS[key][3].startswith("uhf")
    df = SYS[key][4]
    mf = get_mf(key)
    emb = EWF(mf, bath_options=dict(bathtype="dmet"))
    h, g, f, dm = ops_ao(key)
    if uhf:
        mk = {"MP2": pyscf.mp.UMP2, "CCSD": pyscf.cc.UCCSD, "CISD": pyscf.ci.UCISD}[meth]
        if meth == "CCSD":
            mk = pyscf.cc.uccsd.UCCSD  # the density-fitted UCCSD containers are not among the documented ones
    else:
        from pyscf.cc import dfccsd, rccsd

        mk = {"MP2": pyscf.mp.MP2, "CCSD": pyscf.cc.CCSD, "CISD": pyscf.ci.CISD, "RCCSD": rccsd.RCCSD, "DFCCSD": dfccsd.RCCSD}[meth]
    if meth == "DFCCSD" and not df or meth == "RCCSD" and df:
        return  # combinations which PySCF itself does not implement
    if meth == "MP2" and df:
        # the density-fitted MP2 classes keep three-index factors only; the exact-integral class is what the embedding uses
        mk = pyscf.mp.ump2.UMP2 if uhf else pyscf.mp.mp2.MP2
    nmo = mf.mo_coeff[0].shape[1] if uhf else mf.mo_coeff.shape[1]
    nocc = [int((x > 0).sum()) for x in (mf.mo_occ if uhf else [mf.mo_occ] * 2)]
    for fr in FROZEN["u" if uhf else "r"]:
        idx = []
        for s in (0, 1):
            if fr is None:
                z = []
            elif isinstance(fr, int):
                z = list(range(fr))
            else:
                z = [x % nmo for x in (fr[s] if uhf else fr)]
            idx.append([p for p in range(nmo) if p not in z])
        if any(max(fr[s] if uhf else fr, default=0) >= nmo for s in (0, 1)) if isinstance(fr, list) else False:
            continue
        no = [sum(p < nocc[s] for p in idx[s]) for s in (0, 1)]
        if min(no) < (1 if not uhf else 0) or sum(no) == 0 or min(len(idx[s]) - no[s] for s in (0, 1)) < 1:
            continue
        if uhf and min(no) < 1:
            continue
        for rot in (False, True):
            if rot:
                # a block rotation that mixes active occupied and active virtual orbitals among themselves
                mo = []
                for s in (0, 1):
                    cc = np.array(mf.mo_coeff[s] if uhf else mf.mo_coeff)
                    io, iv = [p for p in idx[s] if p < nocc[s]], [p for p in idx[s] if p >= nocc[s]]
                    cc[:, io] = cc[:, io] @ orth_mix(len(io), 11 + (s if uhf else 0))
                    cc[:, iv] = cc[:, iv] @ orth_mix(len(iv), 21 + (s if uhf else 0))
                    mo.append(cc)
                mo = np.array(mo) if uhf else mo[0]
            else:
                mo = mf.mo_coeff
            lab = "%s fr=%r rot=%d " % (meth, fr, rot)
            pt = mk(mf, frozen=fr, mo_coeff=mo)
            rec.step()
            eris = rec.call(lab, emb.get_eris_object, pt)
            if eris is None:
                continue
            rec.state(meth, fr, rot)
            cs = [(mo[s] if uhf else mo)[:, idx[s]] for s in (0, 1)]
            gg = {}
            for s, t in ((0, 0), (0, 1), (1, 1)):
                gg[s, t] = np.einsum("abcd,ai,bj,ck,dl->ijkl", g, cs[s], cs[s], cs[t], cs[t], optimize=True)
            fo = [cs[s].T @ f[s] @ cs[s] for s in (0, 1)]
            me = [np.diag(x) for x in fo]
            close(rec, eris.mo_energy, tuple(me) if uhf else me[0], lab + "mo_energy")
            if meth == "MP2":
                o = [slice(x) for x in no]
                v = [slice(x, None) for x in no]
                if not uhf:
                    close(rec, np.asarray(eris.ovov).reshape(no[0], -1, no[0], len(idx[0]) - no[0]), gg[0, 0][o[0], v[0], o[0], v[0]], lab + "ovov")
                else:
                    for nm, s, t in (("ovov", 0, 0), ("ovOV", 0, 1), ("OVOV", 1, 1)):
                        ref = gg[s, t][o[s], v[s], o[t], v[t]]
                        close(rec, np.asarray(getattr(eris, nm)).reshape(ref.shape), ref, lab + nm)
                continue
            close(rec, eris.fock, tuple(fo) if uhf else fo[0], lab + "fock")
            full = rec.call(lab + "full", helper.get_full_array, eris)
            close(rec, full, (gg[0, 0], gg[0, 1], gg[1, 1]) if uhf else gg[0, 0], lab + "full")
            check_contract(rec, eris, (gg[0, 0], gg[0, 1], gg[1, 1]) if uhf else gg[0, 0], uhf, lab)
            if not uhf and meth == "CCSD" and not hasattr(eris, "vvL"):
                check_project(rec, pt, emb, mf, cs[0], no[0], g, f[0], lab)


def check_project(rec, pt, emb, mf, c, no, g, f, lab):
    """All sub-spaces (first i rotated occupied, first j rotated virtual orbitals) of the correlated space."""
    nv = c.shape[1] - no
    co = c[:, :no] @ orth_mix(no, 31)
    cv = c[:, no:] @ orth_mix(nv, 32)
    for i in range(1, no + 1):
        for j in sorted({1, nv // 2 or 1, nv}):
            for orbs in ((c[:, :i], c[:, no : no + j]), (co[:, :i], cv[:, :j])):
                sub = np.hstack(orbs)
                eris = emb.get_eris_object(pt)
                r = rec.call(lab + "project", helper.project_ccsd_eris, eris, sub, i, mf.get_ovlp())
                rec.step()
                if r is None:
                    continue
                ref = np.einsum("abcd,ai,bj,ck,dl->ijkl", g, sub, sub, sub, sub, optimize=True)
                close(rec, helper.get_full_array(r), ref, lab + "project%d,%d" % (i, j))
                close(rec, r.mo_coeff, sub, lab + "project-mo")
                # occupied-virtual coupling is outside of the block rotation only when the Fock matrix couples them
                close(rec, r.fock, sub.T @ f @ sub, lab + "project-fock")


def sym_dm2(n, m, seed, electrons=True):
    x = np.random.RandomState(seed).rand(n, n, m, m) - 0.5
    x = x + x.transpose(1, 0, 3, 2)
    if n == m and electrons:
        x = x + x.transpose(2, 3, 0, 1)
    return x


def check_contract(rec, eris, full, uhf, lab):
    if not uhf:
        d = sym_dm2(full.shape[0], full.shape[0], 1)
        e = rec.call(lab + "contract", helper.contract_dm2_eris, d, eris)
        rec.close(e, np.einsum("pqrs,pqrs", d, full), 1e-7, lab + "contract")
    else:
        gaa, gab, gbb = full
        na, nb = gaa.shape[0], gbb.shape[0]
        d = (sym_dm2(na, na, 1), sym_dm2(na, nb, 2, False), sym_dm2(nb, nb, 3))
        e = rec.call(lab + "contract", helper.contract_dm2_eris, d, eris)
        ref = np.einsum("pqrs,pqrs", d[0], gaa) + 2 * np.einsum("pqrs,pqrs", d[1], gab) + np.einsum("pqrs,pqrs", d[2], gbb)
        rec.close(e, ref, 1e-7, lab + "contract")
    rec.step()


def run_helper(c, rec):
    """Containers built from arrays, contraction of the two-body intermediates of a correlated wave function."""
    import pyscf.cc
    from pyscf.cc import ccsd_rdm, uccsd_rdm

    key = c["sys"]
    uhf = SYS[key][3].startswith("uhf")
    mf = get_mf(key)
    h, g, f, dm = ops_ao(key)
    sp = splits(key)
    sp = [s for s in sp if (min(s[0] + s[1]) if uhf else min(s)) > 0]
    for split in sp:
        cl = make_cluster(key, split, "mix")
        orc = Oracle(key, cl)
        rec.state(split)
        rec.step()
        no = tuple(orc.no) if uhf else orc.no[0]
        mk = pyscf_eris.make_uccsd_eris if uhf else pyscf_eris.make_ccsd_eris
        for me in (None, [np.arange(x) * 1.0 for x in orc.n]):
            eris = mk(orc.one(orc.f), orc.full(), no, mo_energy=None if me is None else orc.one(me))
            close(rec, helper.get_full_array(eris), orc.full(), "make-full%r" % (split,))
            close(rec, eris.fock, orc.one(orc.f), "make-fock")
            ref = [np.diag(x) for x in orc.f] if me is None else me
            close(rec, eris.mo_energy, orc.one(ref), "make-mo_energy")
        out = [np.full((orc.n[0],) * 4, np.nan), np.full((orc.n[0],) * 2 + (orc.n[1],) * 2, np.nan), np.full((orc.n[1],) * 4, np.nan)]
        got = helper.get_full_array(eris, out=out if uhf else out[0])
        close(rec, got, orc.full(), "make-out")
        close(rec, tuple(out) if uhf else out[0], orc.full(), "make-out-inplace")
        for b in ("ovvv", "vvvv") + (("ovVV", "OVvv", "vvVV", "OVVV", "VVVV") if uhf else ()) + ("ovov",):
            close(rec, helper.get_block(eris, b), orc.block(b), "block:" + b)
        check_contract(rec, eris, orc.full(), uhf, "make:")
        # two-body intermediates of an arbitrary (symmetric) set of amplitudes
        emb, fx = make_fragment(key, cl)
        mfc, fr = fx.get_frag_hamil().to_pyscf_mf(allow_dummy_orbs=True)
        if fr is not None and uhf:
            continue
        cc = (pyscf.cc.uccsd.UCCSD if uhf else pyscf.cc.ccsd.CCSD)(mfc)
        rng = np.random.RandomState(9)
        amp = []
        for k in range(2):
            if not uhf:
                o, v = orc.no[0], orc.n[0] - orc.no[0]
                t1 = 0.1 * (rng.rand(o, v) - 0.5)
                t2 = 0.1 * (rng.rand(o, o, v, v) - 0.5)
                amp += [t1, t2 + t2.transpose(1, 0, 3, 2)]
            else:
                (oa, ob), (va, vb) = orc.no, [orc.n[s] - orc.no[s] for s in (0, 1)]
                t1 = (0.1 * (rng.rand(oa, va) - 0.5), 0.1 * (rng.rand(ob, vb) - 0.5))

                def asym(o, v):
                    x = 0.1 * (rng.rand(o, o, v, v) - 0.5)
                    x = x - x.transpose(1, 0, 2, 3)
                    return x - x.transpose(0, 1, 3, 2)

                amp += [t1, (asym(oa, va), 0.1 * (rng.rand(oa, ob, va, vb) - 0.5), asym(ob, vb))]
        t1, t2, l1, l2 = amp
        mod = uccsd_rdm if uhf else ccsd_rdm
        for objs in ("container", "dummy"):
            d2 = mod._gamma2_intermediates(cc, t1, t2, l1, l2) if uhf else mod._gamma2_intermediates(cc, t1, t2, l1, l2)
            z = [np.zeros((x, x)) for x in orc.n]
            fulld = mod._make_rdm2(cc, None, d2, with_dm1=False, with_frozen=False)
            if uhf:
                ref = np.einsum("pqrs,pqrs", fulld[0], orc.g[0, 0]) + 2 * np.einsum("pqrs,pqrs", fulld[1], orc.g[0, 1]) + np.einsum("pqrs,pqrs", fulld[2], orc.g[1, 1])
            else:
                ref = np.einsum("pqrs,pqrs", fulld, orc.g[0, 0])
            e2 = eris if objs == "container" else fx.get_frag_hamil().get_dummy_eri_object(force_bare=True)
            fn = helper.contract_dm2intermeds_eris_uhf if uhf else helper.contract_dm2intermeds_eris_rhf
            e = rec.call("intermeds-" + objs, fn, d2, e2)
            if e is not None:
                rec.close(e, ref, 1e-7, "intermeds-%s%r" % (objs, split))
            rec.step()
