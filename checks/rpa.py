"""C14  RPA solvers agree with exact diagonalisation of the response problem.

Every (system, spin state, kernel, rotation of the excitation space, moment order, integration setting, storage option) of a bounded space is run on the
real RPA classes; the oracle builds A and B from the AO integrals and takes matrix functions of (A-B)(A+B) directly.
"""
import functools
import itertools

import numpy as np
import scipy.linalg

from vlib import systems as S
from vlib.engine import Skip

PROPERTY = "C14"
LEVEL = "exploration"
TECHNIQUE = (
    "exhaustive enumeration of (system, spin, kernel, excitation-space rotation, moments, quadrature and compression settings) on the real RPA classes, "
    "compared with matrix functions of the explicitly built response matrices"
)
RULE = "one case per (class, system, spin symmetry, kernel, setting group); inside a case all moments, ranks of rotations and settings of the group are visited"
BOUNDS = (
    "molecules with 1-12 spin-orbital excitations per channel, S_z 0 to 2, Hubbard rings; moments 0-6; direct, exchange, and arbitrary low-rank or four-index kernels; "
    "all ranks of the rotated excitation space; 4-64 quadrature points, 3 deductions, adaptive quadrature, compression levels 0-6, coupling strengths {0, 0.3, 0.5, 1}"
)
ASSUMPTIONS = ["stable mean fields (positive definite A+B and A-B)"]


@functools.lru_cache(maxsize=None)
def getmf(sysn, kind, df):
    if sysn.startswith("hub"):
        from vayesta import lattmod

        n, u = {"hub4": (4, 2.0), "hub6": (6, 4.0)}[sysn]
        mol = lattmod.Hubbard1D(n, nelectron={4: 2, 6: 6}[n], hubbard_u=u, boundary="PBC")
        mf = (lattmod.LatticeRHF if kind == "rhf" else lattmod.LatticeUHF)(mol)
        if df:
            mf.density_fit()
        mf.kernel()
        return mf
    name, basis, spin, charge = SYS[sysn]
    return S.mf(name, basis=basis, spin=spin, charge=charge, kind=kind, df=df)


SYS = {
    "h2": ("h2", "sto-3g", 0, 0),
    "h2b": ("h2", "6-31g", 0, 0),
    "hehp": ("hehp", "6-31g", 0, 1),
    "h4": ("h4", "sto-3g", 0, 0),
    "lih": ("lih", "sto-3g", 0, 0),
    "h2o": ("h2o_asym", "sto-3g", 0, 0),
    "h2t": ("h2", "6-31g", 2, 0),
    "h3": ("h3", "sto-3g", 1, 0),
    "h3b": ("h3", "6-31g", 1, 0),
    "h3q": ("h3", "6-31g", 3, 0),
    "beh": ("beh", "sto-3g", 1, 0),
    "liht": ("lih", "sto-3g", 2, 0),
    "lihm": ("lih", "sto-3g", 1, 1),
    "oh": ("oh", "sto-3g", 1, 0),
}
CLOSED = ["h2", "h2b", "hehp", "h4", "lih", "h2o", "hub6", "hub4"]
OPEN = ["h2t", "h3", "h3b", "h3q", "beh", "liht", "lihm", "oh"]


class Ref:
    """Response matrices in the basis (alpha excitations, beta excitations), index i*nvir+a."""

    def __init__(self, mf):
        uhf = np.ndim(mf.mo_coeff[0]) == 2
        c = mf.mo_coeff if uhf else (mf.mo_coeff,) * 2
        e = mf.mo_energy if uhf else (mf.mo_energy,) * 2
        self.n = n = mf.mol.nelec if hasattr(mf.mol, "nelec") else mf.nelec
        nao = len(c[0])
        if hasattr(mf, "with_df") and mf.with_df is not None and not hasattr(mf.mol, "get_eri"):
            lpq = np.concatenate([x for x in mf.with_df.loop()])
            import pyscf.lib

            lpq = pyscf.lib.unpack_tril(lpq).reshape(-1, nao, nao)
            g = np.einsum("Lpq,Lrs->pqrs", lpq, lpq)
        elif hasattr(mf.mol, "get_eri"):
            g = np.asarray(mf.mol.get_eri()).reshape([nao] * 4)
        else:
            g = mf.mol.intor("int2e").reshape([nao] * 4)
        self.g = g
        self.co = [x[:, :m] for x, m in zip(c, n)]
        self.cv = [x[:, m:] for x, m in zip(c, n)]
        self.eps = [(y[None, m:] - y[:m, None]).ravel() for y, m in zip(e, n)]
        self.ov = [len(x) for x in self.eps]
        self.d = np.concatenate(self.eps)
        self.v = self.block([(g, g), (g, g)], "pqrs")

    def block(self, k, order):
        """Matrix K[ia s, jb t] from AO kernels k[s][t] (None = zero)."""
        rows = []
        for s in (0, 1):
            row = []
            for t in (0, 1):
                if k[s][t] is None:
                    row.append(np.zeros((self.ov[s], self.ov[t])))
                    continue
                x = np.einsum(order + ",pi,qa,rj,sb->iajb", k[s][t], self.co[s], self.cv[s], self.co[t], self.cv[t], optimize=True)
                row.append(x.reshape(self.ov[s], self.ov[t]))
            rows.append(row)
        return np.block(rows)

    def set_xc(self, k):
        """k: (aa, ab, bb) AO kernels or None.  A gets V_pqrs, B gets V_pqsr."""
        n = len(self.d)
        self.axc = self.bxc = np.zeros((n, n))
        if k is not None:
            kk = [(k[0], k[1]), (None if k[1] is None else k[1].transpose(2, 3, 0, 1), k[2])]
            self.axc = self.block(kk, "pqrs")
            self.bxc = self.block(kk, "pqsr")
            assert abs(self.axc - self.axc.T).max() < 1e-10 and abs(self.bxc - self.bxc.T).max() < 1e-10
        return self

    def pm(self, alpha=1.0):
        p = np.diag(self.d) + alpha * (2 * self.v + self.axc + self.bxc)
        m = np.diag(self.d) + alpha * (self.axc - self.bxc)
        return p, m

    def positive(self, alpha=1.0):
        return all(len(x) == 0 or np.linalg.eigvalsh(x).min() > 1e-3 for x in self.pm(alpha))

    def moments(self, nmax, alpha=1.0, rot=None):
        p, m = self.pm(alpha)
        if rot is not None:
            p, m = rot @ p @ rot.T, rot @ m @ rot.T
        return moments(p, m, nmax)

    def plasmon(self, alpha=1.0, rot=None):
        p, m = self.pm(alpha)
        if rot is not None:
            p, m = rot @ p @ rot.T, rot @ m @ rot.T
        w = freqs(p, m)
        return 0.5 * (w.sum() - np.trace(p + m) / 2)


def freqs(p, m):
    """Positive eigenvalues of the non-Hermitian problem [[A, B], [-B, -A]]."""
    a, b = (p + m) / 2, (p - m) / 2
    w = np.linalg.eigvals(np.block([[a, b], [-b, -a]]))
    assert abs(w.imag).max() < 1e-6 if len(w) else True
    return np.sort(w.real[w.real > 0])


def moments(p, m, nmax):
    if len(p) == 0:
        return np.zeros((nmax + 1, 0, 0))
    mp = m @ p
    r = scipy.linalg.sqrtm(mp).real
    out = [np.linalg.solve(p.T, r.T).T]
    for _ in range(nmax):
        out.append(r @ out[-1])
    return np.array(out)


# ---------------------------------------------------------------- kernels
def low_rank(nao, uhf, seed, scale=0.04, antisym=False):
    """Signed low-rank kernel: pairs (left, right) per spin, each factor symmetric (or antisymmetric) in the orbital pair."""
    rng = np.random.RandomState(seed)
    k = 3
    v = [rng.rand(k, nao, nao) - 0.5 for _ in (0, 1)]
    sgn = np.array([1.0, -1.0, 1.0])
    par = np.array([1.0, 1.0, -1.0 if antisym else 1.0])
    v = [x + par[:, None, None] * x.transpose(0, 2, 1) for x in v]
    if not uhf:
        v[1] = v[0]
    return tuple((scale * x, sgn[:, None, None] * x) for x in v)


def four_index(lr):
    (la, ra), (lb, rb) = lr
    f = lambda x, y: np.einsum("npq,nrs->pqrs", x, y)
    return [f(la, ra), f(la, rb), f(lb, rb)]


def kernel_of(name, ref, uhf):
    nao = len(ref.g)
    if name == "none":
        return None, None
    if name == "zero":
        z = np.zeros([nao] * 4)
        return [z, z, z], [z, z, z]
    if name == "exch":
        k = -ref.g.transpose(0, 2, 1, 3)
        z = np.zeros_like(k)
        return [k, z, k], [k, z, k]
    lr = low_rank(nao, uhf, 5, antisym=name.endswith("anti"))
    four = four_index(lr)
    return (lr if name.startswith("lr") else four), four


# ---------------------------------------------------------------- cases
def cases(tier):
    full = tier == "thorough"
    out = []
    sy = [(s, k) for s in CLOSED for k in ("rhf", "uhf") if not (s == "hub4" and k == "uhf")] + [(s, "uhf") for s in OPEN]
    for (s, kind), df in itertools.product(sy, (False, True)):
        for xc in ("none", "zero", "exch", "lr", "four", "lranti"):
            out.append(dict(k="ss", sys=s, kind=kind, df=df, xc=xc))
            if xc in ("none", "lr", "four"):
                out.append(dict(k="rot", sys=s, kind=kind, df=df, xc=xc))
    for s, df in itertools.product(CLOSED, (False, True)):
        if not (df or s.startswith("hub")):
            out.append(dict(k="rpa", sys=s, kind="rhf", df=df, xc="none"))
    for s, kind in sy:
        if not full and s in ("oh", "liht"):
            continue
        for cls in ("auto", "generic") if kind == "rhf" else ("auto",):
            for xc in ("none", "lr", "lranti"):
                # (quadratures converge slowly if the excitation energies of the core are in the presence of an exchange-correlation kernel)
                if xc != "none" and (s.startswith("hub") or s in ("h2o", "oh") or cls == "generic"):
                    continue
                if not full and kind == "uhf" and s in CLOSED and xc != ("lr" if s in ("lih", "h2b") else "none"):
                    continue
                for grp in ("target", "quad", "points", "store", "energy", "gap", "alpha"):
                    if not full and (cls == "generic" and grp not in ("target", "gap", "store") or xc == "lranti" and grp in ("points", "store", "energy", "alpha")):
                        continue
                    if not full and s in ("hehp", "hub4") and grp != "target":
                        continue
                    out.append(dict(k="ri", sys=s, kind=kind, df=True, cls=cls, xc=xc, grp=grp))
    return out


def cost(c):
    n = {"h2o": 6, "oh": 4, "lih": 3, "liht": 3, "beh": 3, "lihm": 3, "hub6": 3}.get(c["sys"], 1)
    return n * (dict(quad=5, energy=2, alpha=2).get(c.get("grp"), 1))


def run(c, rec):
    mf = getmf(c["sys"], c["kind"], c["df"])
    if hasattr(mf, "converged") and not mf.converged:
        raise Skip("mean field not converged")
    ref = Ref(mf)
    if min(ref.d, default=0) < 1e-3:
        raise Skip("mean field without a gap")
    uhf = c["kind"] == "uhf"
    arg, four = kernel_of(c["xc"], ref, uhf)
    ref.set_xc(four)
    if not ref.positive():
        raise Skip("response matrices not positive definite")
    rec.state(c["sys"], c["kind"], c["df"], c["xc"])
    {"ss": run_ss, "rot": run_rot, "rpa": run_rpa, "ri": run_ri}[c["k"]](c, rec, mf, ref, arg, uhf)


def cat(x):
    return np.concatenate([np.asarray(y) for y in x], axis=0)


def common(rec, obj, p, m, nmax, xc, rot, lab=""):
    """Eigenvalues, eigenvectors and moments of a solved object; rot = rows in which they are given (None: canonical)."""
    w = np.asarray(obj.freqs_ss)
    rec.close(np.sort(w), freqs(p, m), 1e-8, "frequencies" + lab)
    xpy, xmy = cat(obj.XpY_ss), cat(obj.XmY_ss)
    tr = (lambda x: x) if rot is None else (lambda x: rot.T @ x)
    rec.close(xpy.T @ xmy, np.eye(len(w)), 1e-8, "normalisation" + lab)
    xpy, xmy = tr(xpy), tr(xmy)
    # (A+B)(X+Y) = (X-Y) w ; (A-B)(X-Y) = (X+Y) w    (within the space spanned by rot)
    proj = np.eye(len(p)) if rot is None else rot.T @ rot
    rec.close(proj @ p @ xpy, xmy * w, 1e-8, "A+B equation" + lab) if rot is not None else rec.close(p @ xpy, xmy * w, 1e-8, "A+B equation" + lab)
    rec.close(proj @ m @ xmy, xpy * w, 1e-8, "A-B equation" + lab)


def run_ss(c, rec, mf, ref, arg, uhf):
    import vayesta.rpa

    obj = rec.call("init", vayesta.rpa.ssRPA, mf)
    e = rec.call("kernel", obj.kernel, xc_kernel=arg)
    rec.step()
    p, m = ref.pm()
    common(rec, obj, p, m, 6, arg, None)
    nmax = 6
    mom = ref.moments(nmax)
    for n in range(nmax + 1):
        got = rec.call("moments", obj.gen_moms, n, arg)
        rec.check(len(got) == n + 1, "number of moments")
        for x, y in zip(got, mom):
            rec.close(x, y, 1e-7 * max(1, abs(y).max(initial=0)), "moment")
    rec.close(obj.ov, sum(ref.ov), 0, "ov")
    rec.close([obj.ova, obj.ovb], ref.ov, 0, "ova")
    if c["xc"] == "none":
        rec.close(e, ref.plasmon(), 1e-8, "energy")
        rec.raises = None
    else:
        rec.close(e, versions(ref, 3), 1e-8, "energy")
        for v in range(6):
            x = rec.call("energy version %d" % v, obj.calc_energy_correction, arg, version=v)
            fun = None
            if isinstance(x, tuple):
                x, fun = x
            rec.close(x, versions(ref, v), 1e-7, "energy version %d" % v)
            if c["xc"] == "zero" and v in (0, 1, 2, 3, 4):
                rec.close(x, ref.plasmon(), 1e-4, "energy version %d without kernel" % v)
    rec.close(obj.e_corr, e, 0, "e_corr")
    rec.close(obj.e_tot, mf.e_tot + e, 1e-10, "e_tot")
    # scaled interaction
    for al in (0.0, 0.3):
        x = vayesta.rpa.ssRPA(mf)
        rec.call("kernel", x.kernel, xc_kernel=arg, alpha=al)
        pa, ma = ref.pm(al)
        rec.close(np.sort(x.freqs_ss), freqs(pa, ma), 1e-8, "frequencies alpha")
        rec.close(x.gen_moms(2)[2], ref.moments(2, al)[2], 1e-7 * max(1, abs(ref.d).max() ** 2), "moment alpha")
    # repeated call on the same object
    rec.close(rec.call("kernel again", obj.kernel, xc_kernel=arg), e, 1e-10, "energy again")


def gauss(f, deg=5):
    x, w = np.polynomial.legendre.leggauss(deg)
    return sum(b / 2 * f((a + 1) / 2) for a, b in zip(x, w))


def versions(ref, v):
    """Documented energy expressions, evaluated with the reference moments."""
    one = np.eye(len(ref.d))
    eta = lambda a: ref.moments(0, a)[0]
    p, m = ref.pm()
    a_, b_ = ref.axc, ref.bxc
    pl = ref.plasmon() + 0.5 * np.trace(a_)  # 1/2 [tr eta (A+B) - tr (A - A_xc)]
    tr = lambda x, y: np.sum(x * y.T)
    if v == 0:
        return pl - gauss(lambda x: (tr(a_ + b_, eta(x)) + tr(a_ - b_, np.linalg.inv(eta(x)))) / 4)
    if v == 1:
        return pl - gauss(lambda x: (np.trace(a_) + tr(b_, eta(x) - one)) / 2)
    if v == 2:
        return pl - (tr(a_ + b_, eta(1) + one) + tr(a_ - b_, np.linalg.inv(eta(1)) + one)) / 8
    if v == 3:
        return pl - 0.5 * np.trace(a_) - 0.25 * tr(b_, eta(1)) + 0.25 * np.trace(b_)
    if v == 4:
        return 0.5 * gauss(lambda x: tr(eta(x) - one, ref.v))
    if v == 5:
        return 0.25 * tr(eta(1) - one, ref.v)


def run_rot(c, rec, mf, ref, arg, uhf):
    """Excitation spaces: all ranks per spin of a fixed non-trivial orthonormal set, and the canonical ones."""
    import vayesta.rpa

    rng = np.random.RandomState(2)
    q = [scipy.linalg.qr(rng.rand(n, n) - 0.5)[0] if n else np.zeros((0, 0)) for n in ref.ov]
    p, m = ref.pm()
    ranks = [sorted({0, 1, n // 2, n - 1, n} & set(range(n + 1))) for n in ref.ov]
    for ra, rb in itertools.product(*ranks):
        if ra + rb == 0:
            continue
        for kind in ("rot", "can"):
            r = [(x[:k] if kind == "rot" else np.eye(n)[n - k :]) for x, k, n in zip(q, (ra, rb), ref.ov)]
            full = scipy.linalg.block_diag(*r)
            lab = " (ranks %d %d %s)" % (ra, rb, kind)
            obj = vayesta.rpa.ssRPA(mf, ov_rot=tuple(x.copy() for x in r))
            e = rec.call("kernel" + lab, obj.kernel, **({} if arg is None else dict(xc_kernel=arg)))
            rec.step()
            new = scipy.linalg.block_diag(*obj.ov_rot)
            rec.close(new.T @ new, full.T @ full, 1e-9, "rotation spans the same space")
            pp, mm = full @ p @ full.T, full @ m @ full.T
            w = np.asarray(obj.freqs_ss)
            rec.close(np.sort(w), freqs(pp, mm), 1e-8, "frequencies", lab)
            mom = moments(pp, mm, 3)
            got = rec.call("moments" + lab, obj.gen_moms, 3)
            for x, y in zip(got, mom):
                rec.close(new.T @ x @ new, full.T @ y @ full, 1e-7 * max(1, abs(y).max(initial=0)), "moments", lab)
            xpy, xmy = cat(obj.XpY_ss), cat(obj.XmY_ss)
            rec.close(xpy.T @ xmy, np.eye(len(w)), 1e-8, "normalisation", lab)
            rec.check(len(obj.XpY_ss[0]) == ra and len(obj.XpY_ss[1]) == rb, "spin blocks", lab)
            if arg is None:
                rec.close(e, 0.5 * (freqs(pp, mm).sum() - np.trace(pp + mm) / 2), 1e-8, "energy", lab)


def run_rpa(c, rec, mf, ref, arg, uhf):
    import vayesta.rpa

    r = vayesta.rpa.RPA(mf)
    no, nv = ref.n[0], len(mf.mo_energy) - ref.n[0]
    n = no * nv
    # spin-adapted matrices
    i = np.einsum("pqrs,pi,qj,ra,sb->iajb", ref.g, ref.co[0], ref.co[0], ref.cv[0], ref.cv[0], optimize=True).reshape(n, n)
    k = np.einsum("pqrs,pi,qb,rj,sa->iajb", ref.g, ref.co[0], ref.cv[0], ref.co[0], ref.cv[0], optimize=True).reshape(n, n)
    v = ref.v[:n, :n]
    d = np.diag(ref.eps[0])
    want = {}
    for xc in (None, "drpa", "dRPA", "rpax"):
        x = xc is not None and xc.lower() == "rpax"
        sing = freqs(d + 4 * v - (i + k if x else 0), d - (i - k if x else 0))
        trip = freqs(d - (i + k if x else 0), d - (i - k if x else 0)) if not x or min(np.linalg.eigvalsh(d - i - k).min(), np.linalg.eigvalsh(d - i + k).min()) > 1e-3 else None
        if trip is None:
            rec.out()
            continue
        e = rec.call("kernel", r.kernel, xc)
        rec.step()
        rec.close(np.sort(r.freqs_ss), np.sort(np.concatenate([sing, trip])), 1e-7, "frequencies", str(xc))
        rec.close(np.sort(r.freqs_sf), np.sort(np.concatenate([trip, trip])), 1e-7, "spin-flip frequencies", str(xc))
        # plasmon energies
        a_s = np.trace(d + 2 * v - (i if x else 0))
        a_t = np.trace(d - (i if x else 0))
        e_ss = 0.5 * (sing.sum() + trip.sum() - a_s - a_t)
        e_sf = 0.5 * (2 * trip.sum() - 2 * a_t)
        fac = 0.5 if x else 1.0
        rec.close(r.e_corr_ss, fac * e_ss, 1e-7, "energy", str(xc))
        rec.close(r.e_corr_sf, fac * e_sf, 1e-7, "spin-flip energy", str(xc))
        rec.close(e, fac * (e_ss + e_sf), 1e-7, "total", str(xc))
        rec.close(r.e_tot, mf.e_tot + e, 1e-10, "e_tot", str(xc))
        for lab, w, xpy, xmy in (("ss", r.freqs_ss, r.XpY_ss, r.XmY_ss), ("sf", r.freqs_sf, r.XpY_sf, r.XmY_sf)):
            rec.close(cat(xpy).T @ cat(xmy), np.eye(2 * n), 1e-7, "normalisation", "%s %s" % (xc, lab))
    z = np.zeros_like(v)
    e = rec.call("kernel", r.kernel, ((2 * v, 2 * v), (z, z), (z, z), (z, z))) if False else None


def make(c, mf, arg, **kw):
    from vayesta.rpa import ssRIRPA, rirpa

    if c["cls"] == "auto":
        return ssRIRPA(mf, rixc=arg, **kw) if arg is not None else ssRIRPA(mf, **kw)
    return rirpa.ssRIRRPA(mf, rixc=arg, **kw)


def known_shift(obj, drpa):
    """Energy shift caused by the recorded defect: auxiliary matrix contracted in transposed form in the trace of the square root."""
    (sl, sr), _, _ = obj.get_compressed_MP()
    d = obj.eps if drpa else obj.D
    f = 2 if drpa else 1
    x, w = np.polynomial.legendre.leggauss(400)
    t = (x + 1) * np.pi / 4
    tot = 0
    for fr, wt in zip(np.tan(t), w * np.pi / 4 / np.cos(t) ** 2):
        g = 1 / (d**2 + fr**2)
        v = np.linalg.inv(np.eye(len(sl)) + f * (sr * g) @ sl.T) - np.eye(len(sl))
        y = (sr * g**2) @ sl.T
        tot += 2 * wt * fr**2 / np.pi * f * (np.sum(v * y) - np.sum(v.T * y))
    return tot / 2


def close_energy(rec, obj, drpa, got, want, tol, lab, msg=""):
    if abs(got - want) > tol and abs(got - want - known_shift(obj, drpa)) < 1e-5:
        rec.fail(lab + ": transposed auxiliary matrix", "%.10f instead of %.10f %s" % (got, want, msg))
        return
    rec.close(got, want, tol, lab, msg)


def run_ri(c, rec, mf, ref, arg, uhf):
    ntot = sum(ref.ov)
    if min(ref.ov) == 0 and False:
        raise Skip("no excitations in one spin channel")
    rng = np.random.RandomState(7)
    mom = ref.moments(5)
    obj = rec.call("init", make, c, mf, arg)
    drpa = not uhf and c["cls"] == "auto" and arg is None
    scale = max(1, abs(ref.d).max())

    def cmp(got, rot, lab, tol=2e-7, order=None, m=mom):
        for n, x in enumerate(got):
            rec.close(x, rot @ m[n], tol * scale**n * max(1, abs(rot).max(initial=0)), "moment %d" % n if order is None else order, lab)

    if c["grp"] == "target":
        targets = {
            "none": None,
            "one": np.eye(ntot)[-1:],
            "rand3": rng.rand(3, ntot) - 0.5,
            "dup": np.repeat(rng.rand(1, ntot) - 0.5, 3, axis=0) * np.array([[1.0], [2.0], [-0.5]]),
            "tall": rng.rand(2 * ntot + 1, ntot) - 0.5,
            "zero": np.zeros((2, ntot)),
            "spin": np.concatenate([rng.rand(2, ref.ov[0]), np.zeros((2, ref.ov[1]))], axis=1),
            "small": 1e-3 * (rng.rand(2, ntot) - 0.5),
        }
        for name, t in targets.items():
            for nmax in (0, 5) if name in ("none", "rand3") else (4,):
                t0 = None if t is None else t.copy()
                got, err = rec.call("kernel_moms %s" % name, obj.kernel_moms, nmax, target_rot=t)
                rec.step()
                rec.check(len(got) == nmax + 1, "number of moments")
                cmp(got, np.eye(ntot) if t is None else t, "target %s" % name)
                if t is not None:
                    rec.close(t, t0, 0, "target not changed")
        if drpa:
            n = ref.ov[0]
            spat = [x[:n, :n] + x[:n, n:] for x in mom]
            for name, t in (("none", None), ("one", np.eye(n)[-1:]), ("rand3", rng.rand(3, n) - 0.5), ("tall", rng.rand(2 * n + 1, n))):
                for nmax in (0, 5):
                    got, _ = rec.call("kernel_moms spatial", obj.kernel_moms, nmax, target_rot=t, return_spatial=True)
                    rr = np.eye(n) if t is None else t
                    cmp(got, rr, "spatial %s" % name, m=spat)
                    if t is not None and nmax == 5:
                        got, _ = rec.call("kernel_moms alpha", obj.kernel_moms, nmax, target_rot=t)
                        cmp(got, np.concatenate([rr, np.zeros_like(rr)], axis=1), "alpha-only %s" % name)
    elif c["grp"] == "quad":
        t = rng.rand(2, ntot) - 0.5
        for ded, opt in itertools.product(("HO",) if drpa else ("HO", "D", None), (True, False)):
            devs = []
            for npts in (24, 48, 96):
                kw = dict(integral_deduct=ded, opt_quad=opt, npoints=npts, ainit=10.0 if opt else 1.0)
                got, err = rec.call("kernel_moms %r" % kw, obj.kernel_moms, 3, target_rot=t, **kw)
                rec.step()
                devs.append(abs(got[0] - t @ mom[0]).max())
                if ded == "HO" and (npts >= 48 and opt or npts == 96):
                    cmp(got, t, "%r" % kw, tol=1e-6, order="moments")
            # the other deductions only converge algebraically
            rec.check(devs[-1] <= max(1e-6, 0.5 * devs[0]), "convergence with the number of points", "%r: %r" % (kw, devs))
            rec.check(devs[-1] <= (1e-6 if ded == "HO" else 2e-2 if opt else 0.1), "error of the zeroth moment", "%r: %r" % (kw, devs))
        if not drpa:
            for ded in ("HO", "D"):
                got, err = rec.call("adaptive %s" % ded, obj.kernel_moms, 2, target_rot=t, adaptive_quad=True, integral_deduct=ded)
                cmp(got, t, "adaptive %s" % ded, tol=1e-3, order="adaptive moments")
            got, err = rec.call("lower bound", obj.kernel_moms, 0, target_rot=np.eye(ntot), analytic_lower_bound=True)
            rec.check(err[1] is None or not err[1] > np.linalg.norm(got[0] - mom[0]) + 1e-9, "lower bound", "%r" % (err,))
    elif c["grp"] == "points":
        t = np.eye(ntot)
        last = None
        for npts in (4, 10, 16, 24, 32, 48):
            try:
                got, err = obj.kernel_moms(0, target_rot=t, npoints=npts)
            except BaseException as e:
                if type(e).__name__ == "NIException":
                    continue
                raise
            rec.step()
            dev = np.linalg.norm(got[0] - mom[0])
            if err[0] is not None and not np.isnan(err[0]) and npts >= 16:
                rec.check(dev <= err[0] + 1e-6, "error bound exceeded", "%d points: error %.3e, bound %.3e" % (npts, dev, err[0]))
            last = dev
        rec.close(last, 0, 1e-6, "converged with 48 points")
    elif c["grp"] == "store":
        t = rng.rand(3, ntot) - 0.5
        lov = None
        for comp in (0, 1, 4, 6):
            x = make(c, mf, arg, compress=comp)
            got, _ = rec.call("compress %d" % comp, x.kernel_moms, 3, target_rot=t)
            rec.step()
            cmp(got, t, "compress %d" % comp, order="compressed moments", tol=1e-5)
        x = make(c, mf, arg)
        pos, neg = rec.call("cderi", x.get_cderi)
        forms = [(pos, neg)] + ([pos] if not uhf else [])
        for i, f in enumerate(forms):
            y = make(c, mf, arg, lov=f)
            got, _ = rec.call("given cderi", y.kernel_moms, 2, target_rot=t)
            cmp(got, t, "given integrals, form %d" % i, order="moments with given integrals")
        if arg is None:  # last, since a failure ends the case (known_findings.txt)
            for comp in (0, 1, 4, 6):
                x = make(c, mf, arg, compress=comp)
                e, _ = rec.call("energy compress", x.kernel_energy)
                close_energy(rec, x, drpa, e, ref.plasmon(), 1e-6, "compressed energy" if comp else "energy", "level %d" % comp)
    elif c["grp"] == "energy":
        if arg is None:
            want = ref.plasmon()
            for npts in (48, 64):
                e, err = rec.call("kernel_energy", obj.kernel_energy, npoints=npts)
                rec.close(e, want, 1e-7, "energy", "%d points" % npts)
                rec.close(obj.e_corr, e, 0, "e_corr")
                rec.close(obj.e_tot, mf.e_tot + e, 1e-10, "e_tot")
            for npts in (16, 24, 32):
                try:
                    e, err = obj.kernel_energy(npoints=npts)
                except BaseException as x:
                    if type(x).__name__ == "NIException":
                        continue
                    raise
                if not np.isnan(err):
                    rec.check(abs(e - want) <= err + 1e-6, "energy error bound", "%d points: error %.3e, bound %.3e" % (npts, abs(e - want), err))
        else:
            e, err = rec.call("kernel_energy", obj.kernel_energy, correction="linear")
            close_energy(rec, obj, drpa, e, versions(ref, 3), 1e-7, "energy with kernel")
        p, m = ref.pm()
        x, _ = rec.call("trace", obj.kernel_trMPrt)
        close_energy(rec, obj, drpa, x / 2, freqs(p, m).sum() / 2, 1e-6, "trace of the square root")
    elif c["grp"] == "alpha":
        t = rng.rand(2, ntot) - 0.5
        for al in (0.0, 0.3, 1.0):
            got, _ = rec.call("alpha %s" % al, obj.kernel_moms, 3, target_rot=t, alpha=al)
            cmp(got, t, "alpha %s" % al, m=ref.moments(3, al), order="scaled interaction moments")
        x, fun = rec.call("direct integration", obj.direct_AC_integration)
        rec.close(np.sum(x), versions(ref, 4), 1e-6, "adiabatic connection energy")
        # fragments: projectors in a rotated excitation space which resolve the identity
        q = scipy.linalg.qr(rng.rand(ntot, ntot) - 0.5)[0]
        if ntot >= 2:
            half = ntot // 2
            loc = [q[:half], q[half:]]
            proj = [np.eye(half), np.eye(ntot - half)]
            for con in (False, True):
                x, fun = rec.call("direct integration", obj.direct_AC_integration, local_rot=loc, fragment_projectors=proj, cluster_constrain=con)
                rec.close(x[0], versions(ref, 4), 1e-6, "adiabatic connection energy, all", "constrain %s" % con)
                if not con:
                    rec.close(x[1], versions(ref, 4), 1e-6, "adiabatic connection energy, sum of fragments")
    elif c["grp"] == "gap":
        p, m = ref.pm()
        w = freqs(p, m)
        if ntot < 2:
            raise Skip("one excitation")
        g = rec.call("gap", obj.get_gap)
        rec.close(np.ravel(g)[0], w[0], 1e-4, "gap")
        g, xpy, xmy = rec.call("gap vectors", obj.get_gap, calc_xy=True)
        xpy, xmy = np.ravel(xpy), np.ravel(xmy)
        rec.close(np.ravel(g)[0], w[0], 1e-4, "gap")
        rec.close(xpy @ xmy, 1.0, 1e-6, "gap vectors normalised")
        if drpa:
            rec.check(len(xpy) == ntot, "gap vectors in the spin-orbital basis")
        rec.close(p @ xpy, w[0] * xmy, 1e-4 * scale, "gap vectors, relative scale")
        rec.close(m @ xmy, w[0] * xpy, 1e-3 * scale, "gap vectors, relative scale")
