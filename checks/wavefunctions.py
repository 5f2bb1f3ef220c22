"""C10  Wave-function objects: every word of conversions, projections, rotations and packings keeps the wave function.

An abstract model (plain amplitude tensors + orbital coefficients + projector) is stepped alongside the real objects
along *every* operation word of bounded length; after every step the real object must equal the model state, and no
other live object may have changed. On every unprojected state the density matrices of the real object are compared
with explicit second-quantised expectation values in the determinant space (vlib/fock.py).
"""
import itertools
import numpy as np
from vlib import fock

PROPERTY = "C10"
LEVEL = "model_checking"
TECHNIQUE = "explicit-state exploration of an amplitude-level model of the wave-function objects, every model trace replayed on the real objects (conformance after each step); density-matrix oracle by exhaustive determinant expansion"
RULE = "one case per (kind, spin, shape, first operation); all operation words up to the depth bound are executed without merging (aliasing is part of the state)"
ASSUMPTIONS = ["generic (deterministic pseudo-random) amplitudes; orthonormal orbital coefficients"]
BOUNDS = (
    "kinds MP2, CCSD (with/without lambda), CISD, FCI, FCI with dummy orbitals, EBCC(CCSD), RDM, HF; restricted and unrestricted; "
    "occupied/virtual dimensions 1..3 (restricted) and all unequal per-spin dimensions 1..2 (unrestricted); operation words of length 3 (quick) or 4 "
    "over 8-12 operations (unrestricted, copy, pack, CISD, CISD rescaled, CCSD, FCI, two rotations, scaling, two projections, restore, in-place variants); "
    "FCI to CISDTQ/CCSDTQ up to quadruple excitations for (nocc, nvir) up to (2,2) per spin and (4,4)-electron spaces in the thorough tier"
)
TOL = 1e-9


def rnd(shape, salt):
    n = int(np.prod(shape)) if len(shape) else 1
    x = np.sin(1.0 + 1.7 * np.arange(n) + 0.77 * salt) + 0.3 * np.cos(0.9 * np.arange(n) ** 2 + salt)
    return 0.3 * x.reshape(shape)


def orth(n, salt):
    if n == 0:
        return np.zeros((0, 0))
    return np.linalg.qr(rnd((n, n), salt) + 0.2 * np.eye(n))[0]


def antis(t):
    t = t - t.transpose(1, 0, 2, 3)
    return t - t.transpose(0, 1, 3, 2)


# ------------------------------------------------------------------------------------------------------- model states
class M:
    """Model state. R: c1 (o,v), c2 (o,o,v,v). U: c1 (a,b), c2 (aa,ab,ba|None,bb)."""

    def __init__(self, kind, spin, coeff, nocc, c0=None, c1=None, c2=None, l1=None, l2=None, proj=None, ci=None, raw=False):
        self.raw = raw  # restored without symmetrisation: not (yet) a physical wave function
        self.kind, self.spin, self.coeff, self.nocc = kind, spin, coeff, nocc
        self.c0, self.c1, self.c2, self.l1, self.l2, self.proj, self.ci = c0, c1, c2, l1, l2, proj, ci

    def replace(self, **kw):
        d = dict(self.__dict__)
        d.update(kw)
        return M(**d)

    @property
    def norb(self):
        return tuple(c.shape[1] for c in self.ucoeff())

    def ucoeff(self):
        return (self.coeff, self.coeff) if self.spin == "R" else self.coeff

    def uocc(self):
        return (self.nocc, self.nocc) if self.spin == "R" else self.nocc

    def u1(self, x):
        return (x, x) if self.spin == "R" else x

    def u2(self, x):
        """(aa, ab, bb) of an unprojected tensor"""
        if self.spin == "R":
            aa = x - x.transpose(0, 1, 3, 2)
            return aa, x, aa
        return x[0], x[1], x[3]


def t2c(m, t1, t2, sign=1):
    """Doubles +- disconnected singles."""
    ein = np.einsum
    if m.spin == "R":
        return t2 + sign * ein("ia,jb->ijab", t1, t1)
    a, b = t1
    aa = t2[0] + sign * (ein("ia,jb->ijab", a, a) - ein("ib,ja->ijab", a, a))
    bb = t2[3] + sign * (ein("ia,jb->ijab", b, b) - ein("ib,ja->ijab", b, b))
    ab = t2[1] + sign * ein("ia,jb->ijab", a, b)
    ba = None if t2[2] is None else t2[2] + sign * ein("ia,jb->ijab", b, a)
    return aa, ab, ba, bb


def smul(f, x):
    if x is None:
        return None
    if isinstance(x, tuple):
        return tuple(smul(f, y) for y in x)
    return f * x


def proj1(m, x, p):
    if x is None:
        return None
    if m.spin == "R":
        return p @ x
    return p[0] @ x[0], p[1] @ x[1]


def proj2(m, x, p):
    if x is None:
        return None
    f = lambda q, y: np.einsum("xi,ijab->xjab", q, y)
    if m.spin == "R":
        return f(p, x)
    ba = x[2] if x[2] is not None else x[1].transpose(1, 0, 3, 2)
    return f(p[0], x[0]), f(p[0], x[1]), f(p[1], ba), f(p[1], x[3])


def symm2(m, x):
    if x is None:
        return None
    s = lambda y: (y + y.transpose(1, 0, 3, 2)) / 2
    if m.spin == "R":
        return s(x)
    ab = (x[1] + x[2].transpose(1, 0, 3, 2)) / 2 if x[2] is not None else x[1]
    return s(x[0]), ab, None, s(x[3])


def m_project(m, p):
    return m.replace(c1=proj1(m, m.c1, p), c2=proj2(m, m.c2, p), l1=proj1(m, m.l1, p), l2=proj2(m, m.l2, p), proj=p)


def tr(m, p):
    return p.T if m.spin == "R" else (p[0].T, p[1].T)


def m_restore(m, sym=True):
    n = m_project(m, tr(m, m.proj)).replace(proj=None)
    if sym:
        return n.replace(c2=symm2(n, n.c2), l2=symm2(n, n.l2))
    return n.replace(raw=True)


def rot(m, to, tv):
    from scipy.linalg import block_diag

    if m.spin == "R":
        r1 = lambda x: None if x is None else to.T @ x @ tv
        r2 = lambda x: None if x is None else np.einsum("ijab,iI,jJ,aA,bB->IJAB", x, to, to, tv, tv, optimize=True)
        c = m.coeff @ block_diag(to, tv)
    else:
        r1 = lambda x: None if x is None else tuple(to[s].T @ x[s] @ tv[s] for s in range(2))

        def r2(x):
            if x is None:
                return None
            out = []
            for (s, t), y in zip(((0, 0), (0, 1), (1, 0), (1, 1)), x):
                out.append(None if y is None else np.einsum("ijab,iI,jJ,aA,bB->IJAB", y, to[s], to[t], tv[s], tv[t], optimize=True))
            return tuple(out)

        c = tuple(m.coeff[s] @ block_diag(to[s], tv[s]) for s in range(2))
    return m.replace(coeff=c, c1=r1(m.c1), c2=r2(m.c2), l1=r1(m.l1), l2=r2(m.l2))


def rotation(m, which):
    if m.spin == "R":
        no = m.nocc
        return orth(no, 3 + which), orth(m.norb[0] - no, 5 + which)
    return (
        tuple(orth(m.nocc[s], 3 + which + 10 * s) for s in range(2)),
        tuple(orth(m.norb[s] - m.nocc[s], 5 + which + 10 * s) for s in range(2)),
    )


def projectors(m):
    """A complete set of fragment projectors (orthonormal rows, all occupied directions covered once)."""
    if m.spin == "R":
        q = orth(m.nocc, 21)
        n = (m.nocc + 1) // 2
        return [q[:n], q[n:]]
    q = [orth(m.nocc[s], 21 + s) for s in range(2)]
    n = [(m.nocc[s] + 1) // 2 for s in range(2)]
    return [(q[0][: n[0]], q[1][: n[1]]), (q[0][n[0] :], q[1][n[1] :])]


FAC = 1.3


def model_step(m, op):
    """Model transition; None if the operation is not enabled in this state."""
    k = m.kind
    amp = k in ("MP2", "CCSD", "EBCC")
    if m.raw and op not in ("copy", "pack", "scale"):
        return None
    if op in ("copy",):
        return m
    if op == "pack":
        return m if k in ("MP2", "CCSD") else None
    if op == "unres":
        if m.spin != "R" or m.proj is not None or k not in ("MP2", "CCSD", "FCI"):
            return None
        u1 = lambda x: None if x is None else (x, x)
        u2 = lambda x: None if x is None else (x - x.transpose(0, 1, 3, 2), x, None, x - x.transpose(0, 1, 3, 2))
        return m.replace(spin="U", coeff=(m.coeff, m.coeff), nocc=(m.nocc, m.nocc), c1=u1(m.c1), c2=u2(m.c2), l1=u1(m.l1), l2=u2(m.l2))
    if op in ("cisd", "cisd2"):
        c0 = 2.0
        if k == "MP2":
            c0 = 1.0 if op == "cisd" else c0
            z = lambda i, v: np.zeros((i, v))
            if m.spin == "R":
                c1 = np.zeros((m.c2.shape[0], m.norb[0] - m.nocc))
            else:
                c1 = tuple(np.zeros((m.c2[j].shape[0], m.norb[s] - m.nocc[s])) for s, j in ((0, 0), (1, 3)))
            return m.replace(kind="CISD", c0=c0, c1=c1, c2=smul(c0, m.c2), l1=None, l2=None)
        if k in ("CCSD", "EBCC"):
            if m.proj is not None:
                return None
            c0 = 1.0 if op == "cisd" else c0
            return m.replace(kind="CISD", c0=c0, c1=smul(c0, m.c1), c2=smul(c0, t2c(m, m.c1, m.c2)), l1=None, l2=None)
        if k == "CISD":
            if op == "cisd":
                return m
            f = c0 / m.c0
            return m.replace(c0=c0, c1=smul(f, m.c1), c2=smul(f, m.c2))
        if k in ("FCI", "FCID"):
            d0, c1, c2 = fock.Space(*spaceof(m)).amplitudes(full_ci(m))
            if k == "FCID":  # only the physical virtual orbitals
                va, vb = (n - o for n, o in zip(m.norb, m.uocc()))
                c1 = (c1[0][:, :va], c1[1][:, :vb])
                c2 = (c2[0][:, :, :va, :va], c2[1][:, :, :va, :vb], c2[2][:, :, :vb, :vb])
            f = 1.0 if op == "cisd" else c0 / d0
            c0 = d0 if op == "cisd" else c0
            if m.spin == "R":
                c1, c2 = c1[0], c2[1]
            else:
                c2 = (c2[0], c2[1], None, c2[2])
            return m.replace(kind="CISD", c0=c0, c1=smul(f, c1), c2=smul(f, c2), ci=None)
        return None
    if op == "ccsd":
        if k == "MP2":
            if m.spin == "R":
                t1 = np.zeros((m.c2.shape[0], m.norb[0] - m.nocc))
            else:
                t1 = tuple(np.zeros((m.c2[j].shape[0], m.norb[s] - m.nocc[s])) for s, j in ((0, 0), (1, 3)))
            return m.replace(kind="CCSD", c1=t1, l1=t1, l2=m.c2, c0=None)
        if k in ("CCSD", "EBCC"):
            return m
        if k == "CISD":
            p = m.proj
            n = m_restore(m) if p is not None else m
            t1 = smul(1 / n.c0, n.c1)
            t2 = t2c(n, t1, smul(1 / n.c0, n.c2), -1)
            n = n.replace(kind="CCSD", c0=None, c1=t1, c2=t2, l1=t1, l2=t2)
            return m_project(n, p) if p is not None else n
        if k in ("FCI", "FCID"):
            return model_step(model_step(m, "cisd"), "ccsd")
        return None
    if op == "fci":
        if k in ("FCI",):
            return m
        if k != "CISD" or m.proj is not None:
            return None
        if m.spin == "U" and m.norb[0] != m.norb[1]:
            return None
        if min(m.uocc()) < 1 or min(np.subtract(m.norb, m.uocc())) < 1:
            return None
        sp = fock.Space(m.norb, m.uocc())
        ci = m.c0 * sp.ref + sp.apply(m.u1(m.c1), m.u2(m.c2), sp.ref)
        return m.replace(kind="FCI", ci=ci, c0=None, c1=None, c2=None)
    if op in ("rotov", "rotfull", "rotov!"):
        if k not in ("CCSD", "EBCC") or m.proj is not None:
            return None
        return rot(m, *rotation(m, 1 if op == "rotfull" else 0))
    if op == "scale":
        return m.replace(c1=smul(FAC, m.c1), c2=smul(FAC, m.c2), l1=smul(FAC, m.l1), l2=smul(FAC, m.l2)) if amp else None
    if op in ("proj0", "proj1", "proj0!"):
        if m.proj is not None or k in ("FCI", "FCID", "RDM", "HF"):
            return None
        ps = projectors(m)
        return m_project(m, ps[int(op[4])])
    if op in ("restore", "restore!", "restore-"):
        if m.proj is None or k in ("FCI", "FCID", "RDM", "HF"):
            return None
        return m_restore(m, sym=op != "restore-")
    raise KeyError(op)


OPS = ["unres", "copy", "pack", "cisd", "cisd2", "ccsd", "fci", "rotov", "rotfull", "rotov!", "scale", "proj0", "proj1", "proj0!", "restore", "restore!", "restore-"]


def real_step(m, wf, op):
    if op == "copy":
        return wf.copy()
    if op == "pack":
        return type(wf).unpack(wf.pack())
    if op == "unres":
        return wf.as_unrestricted()
    if op == "cisd":
        return wf.as_cisd()
    if op == "cisd2":
        return wf.as_cisd(c0=2.0)
    if op == "ccsd":
        return wf.as_ccsd()
    if op == "fci":
        return wf.as_fci()
    if op in ("rotov", "rotov!"):
        return wf.rotate_ov(*rotation(m, 0), inplace=op.endswith("!"))
    if op == "rotfull":
        from scipy.linalg import block_diag

        to, tv = rotation(m, 1)
        t = block_diag(to, tv) if m.spin == "R" else tuple(block_diag(to[s], tv[s]) for s in range(2))
        return wf.rotate(t)
    if op == "scale":
        wf.multiply(FAC)
        return wf
    if op.startswith("proj"):
        return wf.project(projectors(m)[int(op[4])], inplace=op.endswith("!"))
    if op == "restore-":
        return wf.restore(sym=False)
    return wf.restore(inplace=op.endswith("!"))


INPLACE = ("scale", "rotov!", "proj0!", "restore!")


# ------------------------------------------------------------------------------------------------ real <-> model
def spaceof(m):
    if m.kind == "FCID":
        n = max(m.norb)
        return (n, n), m.uocc()
    return m.norb, m.uocc()


def full_ci(m):
    return m.ci


CLS = {"MP2": "MP2_WaveFunction", "CCSD": "CCSD_WaveFunction", "CISD": "CISD_WaveFunction", "FCI": "FCI_WaveFunction", "EBCC": "EBCC_WaveFunction", "FCID": "FCI_WaveFunction_w_dummy"}


def arrays(x):
    if x is None:
        return []
    if isinstance(x, (tuple, list)):
        return [z for y in x for z in arrays(y)]
    return [x]


def live(wf):
    """Everything observable of a real wave function, flattened to (name, array)."""
    out = []
    names = ("t1", "t2", "l1", "l2") if hasattr(wf, "t2") else ("c1", "c2") if hasattr(wf, "c2") else ("ci",) if hasattr(wf, "ci") else ("dm1", "dm2")
    for n in names:
        if hasattr(wf, n):
            for i, a in enumerate(arrays(getattr(wf, n))):
                out.append(("%s%d" % (n, i), a))
    for i, a in enumerate(arrays(wf.projector)):
        out.append(("proj%d" % i, a))
    for i, a in enumerate(arrays(wf.mo.coeff)):
        out.append(("coeff%d" % i, a))
    if hasattr(wf, "c0"):
        out.append(("c0", np.asarray(wf.c0)))
    return out


def snapshot(wf):
    return [(n, np.array(a, copy=True)) for n, a in live(wf)]


def same(x, y):
    return len(x) == len(y) and all(a == c and b.shape == d.shape and np.array_equal(b, d) for (a, b), (c, d) in zip(x, y))


def conform(rec, m, wf, lab):
    """The real object represents the model state."""
    want = {"R": "R", "U": "U"}[m.spin] + CLS[m.kind]
    if not rec.check(type(wf).__name__ == want, lab + ":type", "%s instead of %s" % (type(wf).__name__, want)):
        return False
    ok = True
    cmp1 = lambda a, b, n: cmp(rec, a, b, lab + ":" + n)
    ok &= cmp1(wf.mo.coeff, m.coeff, "orbitals")
    nocc = m.nocc if m.spin == "R" else tuple(m.nocc)
    ok &= rec.check(tuple(np.atleast_1d(wf.nocc)) == tuple(np.atleast_1d(nocc)), lab + ":nocc", "%s != %s" % (wf.nocc, nocc))
    ok &= cmp1(wf.projector, m.proj, "projector")
    if m.kind in ("FCI", "FCID"):
        return ok & cmp1(wf.ci, m.ci, "ci")
    if m.kind == "CISD":
        ok &= rec.close(wf.c0, m.c0, TOL, lab + ":c0")
        ok &= cmp1(wf.c1, m.c1, "c1") & cmp1(blocks(wf.c2, m), blocks(m.c2, m), "c2")
        return ok
    if m.kind != "MP2":
        ok &= cmp1(wf.t1, m.c1, "t1") & cmp1(wf.l1, m.l1, "l1") & cmp1(blocks(wf.l2, m), blocks(m.l2, m), "l2")
    return ok & cmp1(blocks(wf.t2, m), blocks(m.c2, m), "t2")


def blocks(x, m):
    """All four spin blocks (a missing ba block is the transpose of ab)."""
    if x is None or m.spin == "R":
        return x
    x = tuple(x)
    if len(x) == 3:
        x = (x[0], x[1], None, x[2])
    if x[2] is None:
        x = (x[0], x[1], x[1].transpose(1, 0, 3, 2), x[3])
    return x


def cmp(rec, a, b, lab):
    if a is None or b is None:
        return rec.check(a is None and b is None, lab, "%s instead of %s" % ("None" if a is None else "value", "None" if b is None else "value"))
    if isinstance(b, tuple):
        if not rec.check(isinstance(a, (tuple, list)) and len(a) == len(b), lab, "spin blocks"):
            return False
        return all([cmp(rec, x, y, lab) for x, y in zip(a, b)])
    return rec.close(a, b, TOL, lab)


def make_real(m):
    from vayesta.core.types import Orbitals
    from vayesta.core.types import wf as W

    if m.spin == "R":
        mo = Orbitals(m.coeff.copy(), occ=int(m.nocc))
    else:
        from vayesta.core.types.orbitals import SpinOrbitals

        mo = SpinOrbitals([c.copy() for c in m.coeff], occ=[int(x) for x in m.nocc])
    cp = lambda x: None if x is None else tuple(y.copy() for y in x if y is not None) if isinstance(x, tuple) else x.copy()
    if m.kind == "MP2":
        return W.MP2_WaveFunction(mo, cp(m.c2))
    if m.kind == "CCSD":
        return W.CCSD_WaveFunction(mo, cp(m.c1), cp(m.c2), l1=cp(m.l1), l2=cp(m.l2))
    if m.kind == "CISD":
        return W.CISD_WaveFunction(mo, m.c0, cp(m.c1), cp(m.c2))
    if m.kind == "FCI":
        return W.FCI_WaveFunction(mo, m.ci.copy())
    if m.kind == "FCID":
        n = max(m.norb)
        dummy = [list(range(m.norb[s], n)) for s in range(2)]
        from vayesta.core.types.wf.fci import UFCI_WaveFunction_w_dummy

        return UFCI_WaveFunction_w_dummy(mo, m.ci.copy(), dummy)
    if m.kind == "EBCC":
        import ebcc
        from vayesta.core.types import EBCC_WaveFunction

        N = ebcc.util.Namespace
        if m.spin == "R":
            amp = N(t1=m.c1.copy(), t2=m.c2.copy())
            lam = N(l1=m.l1.T.copy(), l2=m.l2.transpose(2, 3, 0, 1).copy()) if m.l1 is not None else None
        else:
            f2 = lambda x: dict(aaaa=x[0] / 2, abab=x[1].copy(), bbbb=x[3] / 2)
            amp = N(t1=N(aa=m.c1[0].copy(), bb=m.c1[1].copy()), t2=N(**f2(m.c2)))
            t = lambda x: np.ascontiguousarray(x.transpose(2, 3, 0, 1))
            lam = None
            if m.l1 is not None:
                lam = N(l1=N(aa=m.l1[0].T.copy(), bb=m.l1[1].T.copy()), l2=N(**{k: t(v) for k, v in f2(m.l2).items()}))
        return EBCC_WaveFunction(mo, "CCSD", amp, lambdas=lam)
    raise KeyError(m.kind)


def root(kind, spin, occ, vir, lam, salt=0):
    """Generic model state; occ/vir are ints (R) or pairs (U)."""
    nao = max(np.max(np.add(occ, vir)), 1)
    if spin == "R":
        coeff = orth(nao, 40 + salt)
        sym = lambda x: x + x.transpose(1, 0, 3, 2)
        c1 = rnd((occ, vir), 50 + salt)
        c2 = sym(rnd((occ, occ, vir, vir), 51 + salt))
        l1 = rnd((occ, vir), 52 + salt)
        l2 = sym(rnd((occ, occ, vir, vir), 53 + salt))
    else:
        coeff = tuple(orth(nao, 40 + s + salt)[:, : occ[s] + vir[s]] for s in range(2))

        def two(k):
            return (
                antis(rnd((occ[0], occ[0], vir[0], vir[0]), k)),
                rnd((occ[0], occ[1], vir[0], vir[1]), k + 1),
                None,
                antis(rnd((occ[1], occ[1], vir[1], vir[1]), k + 2)),
            )

        one = lambda k: tuple(rnd((occ[s], vir[s]), k + s) for s in range(2))
        c1, c2, l1, l2 = one(50 + salt), two(60 + salt), one(70 + salt), two(80 + salt)
    m = M(kind, spin, coeff, occ)
    if kind == "MP2":
        return m.replace(c2=c2)
    if kind in ("CCSD", "EBCC"):
        return m.replace(c1=c1, c2=c2, l1=l1 if lam else None, l2=l2 if lam else None)
    if kind == "CISD":
        return m.replace(c0=0.7, c1=c1, c2=c2)
    if kind in ("FCI", "FCID"):
        norb, nocc = spaceof(m)
        sp = fock.Space(norb, nocc)
        psi = rnd(sp.shape, 90 + salt) / 2
        if kind == "FCID":  # no weight on the dummy (highest) orbitals
            st = [fock.strings(norb[s], nocc[s]) for s in range(2)]
            psi = np.where(np.array([x < 2 ** m.norb[0] for x in st[0]])[:, None] & np.array([x < 2 ** m.norb[1] for x in st[1]])[None], psi, 0)
        psi[0, 0] = 0.9
        if spin == "R":
            # singlet projection: restricted conversions assume a closed-shell singlet
            w, v = np.linalg.eigh(sp.s2())
            v = v[:, abs(w) < 1e-8]
            psi = (v @ (v.T @ psi.ravel())).reshape(sp.shape)
            psi = (psi + psi.T) / 2
        return m.replace(ci=psi / np.linalg.norm(psi))
    raise KeyError(kind)


# ------------------------------------------------------------------------------------------------ density matrices
def spinsum1(m, d):
    return d[0] + d[1] if m.spin == "R" else d


def spinsum2(m, d):
    return d[0] + d[1] + d[1].transpose(2, 3, 0, 1) + d[2] if m.spin == "R" else d


def hf1(m):
    return tuple(np.diag([1.0] * o + [0.0] * (n - o)) for n, o in zip(m.norb, m.uocc()))


def noncum(x, y):
    """Linearised products x*y - exchange, per spin pair (x, y pairs of spin DMs)."""
    ein = np.einsum
    aa = ein("ij,kl->ijkl", x[0], y[0]) - ein("ij,kl->iklj", x[0], y[0])
    bb = ein("ij,kl->ijkl", x[1], y[1]) - ein("ij,kl->iklj", x[1], y[1])
    return aa, ein("ij,kl->ijkl", x[0], y[1]), bb


def mf_noncum(m, dm1):
    """Mean-field part plus the terms linear in the correlation DM1 (what the approximate cumulant leaves out)."""
    g0 = hf1(m)
    dl = tuple(dm1[s] - g0[s] for s in range(2))
    a, b, c = noncum(g0, g0), noncum(g0, dl), noncum(dl, g0)
    return tuple(x + y + z for x, y, z in zip(a, b, c))


def ao1(m, d):
    c = m.ucoeff()
    return c[0] @ d[0] @ c[0].T, c[1] @ d[1] @ c[1].T


def ao2(m, d):
    a, b = m.ucoeff()
    f = lambda x, p, q: np.einsum("ijkl,ai,bj,ck,dl->abcd", x, p, p, q, q, optimize=True)
    return f(d[0], a, a), f(d[1], a, b), f(d[2], b, b)


def expect(m, tlam=False):
    """Exact (dm1, dm2) spin blocks of the state in the MO basis by determinant expansion."""
    norb, nocc = spaceof(m)
    sp = fock.Space(norb, nocc)
    if m.kind in ("FCI", "FCID"):
        psi = full_ci(m)
        return sp.dm1(psi, psi), sp.dm2(psi, psi)
    t1, t2 = m.u1(m.c1), m.u2(m.c2)
    l1, l2 = (t1, t2) if tlam else (m.u1(m.l1), m.u2(m.l2))
    r = sp.expT(t1, t2)
    left = sp.ref + sp.apply(l1, l2, sp.ref)
    t = sp.matrix(t1, t2)
    x = left.ravel()
    acc = x.copy()
    for k in range(1, sum(nocc) + 1):
        x = -(t.T @ x) / k
        acc = acc + x
    left = acc.reshape(sp.shape)
    d1 = tuple(fock.sym1(d) for d in sp.dm1(left, r))
    d2 = tuple(fock.sym2(d) for d in sp.dm2(left, r))
    return d1, d2


def check_dms(rec, m, wf, lab):
    if m.proj is not None or m.raw:
        return
    tol = 1e-8
    if m.kind == "MP2" and m.spin == "R":
        sp = fock.Space(m.norb, m.uocc())
        phi = sp.apply(None, m.u2(m.c2), sp.ref)
        g0 = hf1(m)
        n2 = np.sum(phi * phi)
        dl = tuple(d - n2 * g for d, g in zip(sp.dm1(phi, phi), g0))
        d1 = tuple(g + x for g, x in zip(g0, dl))
        f = sp.dm2(sp.ref, phi)
        first = tuple(x + x.transpose(1, 0, 3, 2) for x in f)
        compare1(rec, m, wf, d1, dl, lab, tol, {})
        compare2(rec, m, wf, d1, tuple(x + y for x, y in zip(first, mf_noncum(m, d1))), lab, tol, {}, exact=False)
        return
    if m.kind in ("CCSD",):
        for tlam in (False, True):
            if not tlam and m.l1 is None:
                from vayesta.core.util import NotCalculatedError

                for f in ("make_rdm1", "make_rdm2"):
                    try:
                        getattr(wf, f)()
                        rec.fail(lab + ":no-lambda", "%s without lambda amplitudes did not raise" % f)
                    except NotCalculatedError:
                        rec.checks += 1
                continue
            d1, d2 = expect(m, tlam)
            dl = tuple(d - g for d, g in zip(d1, hf1(m)))
            kw = dict(t_as_lambda=tlam)
            compare1(rec, m, wf, d1, dl, lab + ":tlam%d" % tlam, tol, kw)
            compare2(rec, m, wf, d1, d2, lab + ":tlam%d" % tlam, tol, kw)
        return
    if m.kind in ("FCI", "FCID"):
        if m.kind == "FCI" and m.spin == "U" and m.norb[0] != m.norb[1]:
            return
        d1, d2 = expect(m)
        if m.kind == "FCID":
            s = [slice(0, n) for n in m.norb]
            d1 = tuple(d[s[i], s[i]] for i, d in enumerate(d1))
            d2 = tuple(d[s[i], s[i], s[j], s[j]] for (i, j), d in zip(((0, 0), (0, 1), (1, 1)), d2))
        # the mean-field part is the (unit norm) reference
        nrm = np.sum(m.ci**2)
        if abs(nrm - 1) > 1e-10:
            return
        dl = tuple(d - g for d, g in zip(d1, hf1(m)))
        compare1(rec, m, wf, d1, dl, lab, tol, {})
        compare2(rec, m, wf, d1, d2, lab, tol, {})
    if m.kind == "EBCC" and m.l1 is not None:
        d1, d2 = expect(m)
        g1 = rec.call(lab + ":ebdm1", wf.make_rdm1)
        g2 = rec.call(lab + ":ebdm2", wf.make_rdm2)
        if m.spin == "R":
            rec.close(g1, spinsum1(m, d1), tol, lab + ":ebdm1")
            rec.close(g2, spinsum2(m, d2), tol, lab + ":ebdm2")
        else:
            cmp(rec, g1, d1, lab + ":ebdm1")
            cmp(rec, g2, d2, lab + ":ebdm2")


def compare1(rec, m, wf, d1, dl, lab, tol, kw):
    for mf in (True, False):
        ref = d1 if mf else dl
        for ao in (False, True):
            got = rec.call(lab + ":rdm1", wf.make_rdm1, with_mf=mf, ao_basis=ao, **kw)
            want = spinsum1(m, ao1(m, ref) if ao else ref)
            cmp(rec, got, want, lab + ":rdm1:mf%d:ao%d" % (mf, ao))


def compare2(rec, m, wf, d1, d2, lab, tol, kw, exact=True):
    non = mf_noncum(m, d1)
    full = noncum(d1, d1)
    if m.spin == "R":
        # spin-traced definition of the exact cumulant
        g = d1[0] + d1[1]
        ex = spinsum2(m, d2) - (np.einsum("ij,kl->ijkl", g, g) - np.einsum("ij,kl->iklj", g, g) / 2)
    else:
        ex = tuple(x - y for x, y in zip(d2, full))
    ap = spinsum2(m, tuple(x - y for x, y in zip(d2, non)))
    al = spinsum2(m, d2)
    c = m.ucoeff()
    for ao in (False, True):
        for name, want, k2 in (("full", al, dict(with_dm1=True)), ("approx", ap, dict(with_dm1=False)), ("exact", ex, dict(with_dm1=False, approx_cumulant=False))):
            if name == "exact" and not exact:
                continue
            got = rec.call(lab + ":rdm2", wf.make_rdm2, ao_basis=ao, **k2, **kw)
            if ao:
                if m.spin == "R":
                    want = np.einsum("ijkl,ai,bj,ck,dl->abcd", want, *(4 * [m.coeff]), optimize=True)
                else:
                    want = ao2(m, want)
            cmp(rec, got, want, lab + ":rdm2:%s:ao%d" % (name, ao))


# ------------------------------------------------------------------------------------------------------------- cases
def cases(tier):
    out = []
    deep = tier == "thorough"
    rshapes = [(1, 1), (1, 2), (2, 1), (2, 2), (3, 2), (2, 3)]
    ush = list(itertools.product((1, 2), repeat=4))
    if deep:
        ush += [((3), 2, 2, 1), (2, 3, 1, 2)]
    kinds = [("MP2", 0), ("CCSD", 1), ("CCSD", 0), ("CISD", 0), ("FCI", 0), ("EBCC", 1)]
    for kind, lam in kinds:
        for sh in rshapes if lam or kind != "CCSD" else rshapes[:4]:
            for op in OPS:
                out.append(dict(k="word", kind=kind, spin="R", sh=list(sh), lam=lam, op=op))
        for oa, ob, va, vb in ush:
            if kind == "FCI" and oa + va != ob + vb:
                continue
            for op in OPS:
                out.append(dict(k="word", kind=kind, spin="U", sh=[oa, ob, va, vb], lam=lam, op=op))
    for oa, ob, va, vb in ush:
        if oa + va != ob + vb:
            for op in OPS:
                out.append(dict(k="word", kind="FCID", spin="U", sh=[oa, ob, va, vb], lam=0, op=op))
    out = [c for c in out if model_step_enabled(c)]
    # zero-sized blocks
    for sh in ((0, 1), (1, 0), (2, 0), (0, 2)):
        out.append(dict(k="zero", sh=list(sh)))
    # FCI -> CISDTQ -> CCSDTQ
    tq = [(1, 1), (1, 2), (2, 1), (2, 2), (2, 3), (3, 2)] + ([(3, 3), (4, 3), (3, 4)] if deep else [(3, 3)])
    for sh in tq:
        out.append(dict(k="tq", spin="R", sh=list(sh)))
    tqu = [(oa, ob, va, vb) for oa, ob, va, vb in itertools.product((1, 2, 3), repeat=4) if oa + va == ob + vb and oa + va <= 4]
    if deep:
        tqu += [(3, 2, 3, 4), (4, 1, 2, 5), (4, 4, 1, 1)]
    for sh in tqu:
        out.append(dict(k="tq", spin="U", sh=list(sh)))
    for sh in rshapes:
        out.append(dict(k="rdm", spin="R", sh=list(sh)))
        out.append(dict(k="pocc", spin="R", sh=list(sh)))
    for sh in ush:
        if sh[0] + sh[2] == sh[1] + sh[3]:
            out.append(dict(k="rdm", spin="U", sh=list(sh)))
            out.append(dict(k="pocc", spin="U", sh=list(sh)))
    for c in out:
        if c["k"] == "word":
            c["d"] = 3 if tier == "quick" or sum(c["sh"]) > (4 if c["spin"] == "R" else 6) else 4
    return out


def shape(case):
    sh = case["sh"]
    if case["spin"] == "R":
        return sh[0], sh[1]
    return (sh[0], sh[1]), (sh[2], sh[3])


def model_step_enabled(c):
    m = root(c["kind"], c["spin"], *shape(c), c["lam"])
    return model_step(m, c["op"]) is not None


def cost(case):
    return {"tq": 30 * np.prod(case["sh"]), "word": 5 * sum(case["sh"])}.get(case["k"], 1)


def run(case, rec):
    globals()["run_" + case["k"]](case, rec)


def mdigest(m):
    r = lambda x: None if x is None else tuple(np.round(a, 8).tobytes() for a in arrays(x))
    return (m.kind, m.spin, r(m.coeff), r(m.c1), r(m.c2), r(m.l1), r(m.l2), r(m.ci), r(m.proj), m.c0 and round(float(m.c0), 8))


def run_word(case, rec):
    occ, vir = shape(case)
    depth = case["d"]
    m0 = root(case["kind"], case["spin"], occ, vir, case["lam"])
    seen = set()

    def dms(m, wf, lab):
        key = mdigest(m)
        rec.state(key)
        if key in seen:
            return
        seen.add(key)
        # density matrices: every distinct state reached by words of length <= 2 (<= 3 thorough)
        if lab == "root" or lab.count(">") <= depth - 2:
            check_dms(rec, m, wf, lab)

    def walk(m, wf, word, anc):
        """anc: [(model, real object)] of every live predecessor"""
        if len(word) == depth:
            return
        for op in OPS if word else [case["op"]]:
            n = model_step(m, op)
            if n is None:
                continue
            lab = ">".join(word + (op,))
            # in-place operations work on the object itself: rebuild the chain so that siblings are unaffected
            if op in INPLACE:
                w2, a2 = replay(m0, word)
            else:
                w2, a2 = wf, anc
            others = [x for x in a2 if x is not w2] if op in INPLACE else a2 + [w2]
            before = [snapshot(x) for x in others]
            rec.step()
            try:
                nwf = real_step(m, w2, op)
            except Exception as e:  # noqa: BLE001
                rec.fail("step:" + op, "%s raised %s: %s" % (lab, type(e).__name__, e))
                continue
            if op in INPLACE:
                rec.check(nwf is w2, "inplace:" + op, lab + ": in-place operation returned another object")
            for x, b in zip(others, before):
                rec.check(same(snapshot(x), b), "mutates:" + op, lab + ": the operation changed another wave function (%s)" % type(x).__name__)
            if op in ("copy", "pack"):
                shared = [(p, q) for p, u in live(nwf) for q, v in live(w2) if u.size and v.size and np.shares_memory(u, v)]
                rec.check(not shared, "shares:" + op, lab + ": result shares memory with the original: %s" % shared)
            if not conform(rec, n, nwf, lab):
                continue
            dms(n, nwf, lab)
            walk(n, nwf, word + (op,), a2 + [w2])

    def replay(m, word):
        wf = make_real(m)
        anc = []
        for op in word:
            nwf = real_step(m, wf, op)
            if nwf is not wf:
                anc = anc + [wf]
            m = model_step(m, op)
            wf = nwf
        return wf, anc

    wf0 = make_real(m0)
    if not conform(rec, m0, wf0, "root"):
        return
    dms(m0, wf0, "root")
    walk(m0, wf0, (), [])
    rec.trace()
    # completeness of projections: the restored projections of a complete set add up to the original
    if case["op"] == "proj0":
        m, wf = m0, wf0
        for mid in ((), ("copy",), ("pack",), ("scale",)):
            if any(model_step(m_project(m0, projectors(m0)[0]), o) is None for o in mid):
                continue
            tot = None
            for k in range(2):
                w = make_real(m0)
                mm = m0
                for o in ("proj%d" % k,) + mid + ("restore",):
                    w2 = real_step(mm, w, o)
                    mm = model_step(mm, o)
                    w = w2
                parts = [np.array(a) for n, a in live(w) if n[:2] in ("t1", "t2", "c1", "c2", "l1", "l2")]
                tot = parts if tot is None else [x + y for x, y in zip(tot, parts)]
            f = FAC if "scale" in mid else 1.0
            ref = [f * np.array(a) for n, a in live(make_real(m0)) if n[:2] in ("t1", "t2", "c1", "c2", "l1", "l2")]
            rec.check(len(tot) == len(ref), "partition:blocks", "%d != %d blocks" % (len(tot), len(ref)))
            for x, y in zip(tot, ref):
                rec.close(x, y, TOL, "partition:" + "-".join(mid))


def run_zero(case, rec):
    """Empty occupied or virtual blocks survive the conversions."""
    o, v = case["sh"]
    for spin in "RU":
        sh = (o, v) if spin == "R" else ((o, o), (v, v))
        for kind, lam in (("MP2", 0), ("CCSD", 1), ("CISD", 0)):
            m = root(kind, spin, *sh, lam)
            wf = make_real(m)
            for op in ("copy", "pack", "cisd", "ccsd", "scale"):
                n = model_step(m, op)
                if n is None:
                    continue
                rec.step()
                try:
                    w = real_step(m, make_real(m), op)
                except Exception as e:  # noqa: BLE001
                    rec.fail("zero:" + op, "%s%s %s raised %s: %s" % (spin, kind, case["sh"], type(e).__name__, e))
                    continue
                conform(rec, n, w, "zero:" + op)


def run_tq(case, rec):
    """FCI -> CISDTQ -> CCSDTQ (and back to CISD/CCSD): all amplitudes up to quadruples."""
    occ, vir = shape(case)
    m = root("FCI", case["spin"], occ, vir, 0)
    wf = make_real(m)
    sp = fock.Space(m.norb, m.uocc())
    r = m.spin == "R"
    for c0 in (None, 1.0, 2.0):
        w = rec.call("cisdtq", wf.as_cisdtq, c0=c0)
        f = 1.0 if c0 is None else c0 / m.ci[0, 0]
        rec.step()
        rec.close(w.c0, m.ci[0, 0] * f, TOL, "cisdtq:c0")
        names = (["a"], ["ab"], ["aba"], ["abaa", "abab"]) if r else (["a", "b"], ["aa", "ab", "bb"], ["aaa", "aba", "bab", "bbb"], ["aaaa", "aaab", "abab", "abbb", "bbbb"])
        for lev, nm in enumerate(names):
            got = getattr(w, "c%d" % (lev + 1))
            got = got if isinstance(got, tuple) else (got,)
            rec.check(len(got) == len(nm), "cisdtq:blocks")
            for g, s in zip(got, nm):
                if np.size(g) > 3000:
                    continue
                rec.close(g, f * sp.excitation(s, m.ci), TOL, "cisdtq:c" + s)
        # T amplitudes: exp(T)|0> must reproduce the intermediately normalised vector through quadruples
        tq = rec.call("ccsdtq", w.as_ccsdtq)
        check_tq(rec, m, sp, tq, "ccsdtq")
    tq = rec.call("fci-ccsdtq", wf.as_ccsdtq)
    check_tq(rec, m, sp, tq, "fci-ccsdtq")
    rec.check(tq.as_ccsdtq() is tq, "ccsdtq:id")
    cc = rec.call("ccsdtq-ccsd", tq.as_ccsd)
    n = model_step(m, "ccsd").replace(l1=None, l2=None)
    conform(rec, n, cc, "ccsdtq-ccsd")
    for c0 in (1.0, 2.0):
        ci = rec.call("ccsdtq-cisd", tq.as_cisd, c0=c0)
        n = model_step(m, "cisd2")
        conform(rec, n.replace(c0=c0, c1=smul(c0 / 2, n.c1), c2=smul(c0 / 2, n.c2)), ci, "ccsdtq-cisd")
    rec.trace()
    rec.state(tuple(case["sh"]))


def excite(sp, spins, amp, psi, norm):
    """norm * sum amp[i..,a..] E_a1i1 E_a2i2 ... psi"""
    n = len(spins)
    oa, ob = sp.nocc
    out = np.zeros_like(psi)
    for idx in zip(*np.nonzero(np.abs(amp) > 1e-14)):
        i, a = idx[:n], idx[n:]
        x = psi
        for s, ii, aa in zip(spins[::-1], i[::-1], a[::-1]):
            x = sp.ea[oa + aa, ii] @ x if s == "a" else x @ sp.eb[ob + aa, ii].T
        out += amp[idx] * x
    return norm * out


def check_tq(rec, m, sp, tq, lab):
    import math

    if m.spin == "R":
        t1 = {"a": tq.t1, "b": tq.t1}
        aa = tq.t2 - tq.t2.transpose(0, 1, 3, 2)
        t2 = {"aa": aa, "ab": tq.t2, "bb": aa}
        t3 = {"aba": tq.t3}
        t4 = {"abaa": tq.t4[0], "abab": tq.t4[1]}
    else:
        t1 = dict(zip(("a", "b"), tq.t1))
        t2 = dict(zip(("aa", "ab", "bb"), tq.t2))
        t3 = dict(zip(("aaa", "aba", "bab", "bbb"), tq.t3))
        t4 = dict(zip(("aaaa", "aaab", "abab", "abbb", "bbbb"), tq.t4))
    # exact log of the wave function: operator-valued recursion over excitation levels
    psi = m.ci / m.ci[0, 0]
    t = np.zeros_like(psi)  # T|0>
    lev = level(sp)
    # T acts as a matrix; build it level by level from T|0> using the commuting excitation algebra
    comps = {}
    for k in range(1, 5):
        mats = [comps[j] for j in range(1, k)]
        e = exp_components(sp, mats)
        tk = np.where(lev == k, psi - e, 0.0)
        comps[k] = operator_from_state(sp, tk, k)
    for k, amps in ((1, t1), (2, t2), (3, t3), (4, t4)):
        tk = (comps[k] @ sp.ref.ravel()).reshape(sp.shape)
        for s, g in amps.items():
            if np.size(g) > 3000:
                continue
            rec.close(g, sp.excitation(s, tk), 1e-8, "%s:t%s" % (lab, s))


def level(sp):
    ref = [(1 << o) - 1 for o in sp.nocc]
    la = np.array([bin(s & ~ref[0]).count("1") for s in fock.strings(sp.norb[0], sp.nocc[0])])
    lb = np.array([bin(s & ~ref[1]).count("1") for s in fock.strings(sp.norb[1], sp.nocc[1])])
    return la[:, None] + lb[None]


def exp_components(sp, mats):
    v = sp.ref.ravel()
    if not mats:
        return v.reshape(sp.shape)
    t = sum(mats)
    out, term = v.copy(), v.copy()
    for k in range(1, sum(sp.nocc) + 1):
        term = t @ term / k
        out = out + term
    return out.reshape(sp.shape)


def operator_from_state(sp, tk, k):
    """The excitation operator X (matrix) with X|0> = tk, a combination of products of E_ai."""
    oa, ob = sp.nocc
    sa, sb = fock.strings(sp.norb[0], oa), fock.strings(sp.norb[1], ob)
    na, nb = sp.shape
    out = np.zeros((na * nb, na * nb))

    def ops(e, st, o, idx):
        """Matrix and sign of the excitation taking the reference to string idx."""
        s = st[idx]
        ref = (1 << o) - 1
        holes = [i for i in range(o) if not s >> i & 1]
        parts = [p for p in range(o, s.bit_length()) if s >> p & 1]
        mat = np.eye(len(st))
        for h, p in zip(holes, parts):
            mat = e[p, h] @ mat
        return mat, mat[idx, 0]

    for i, j in zip(*np.nonzero(np.abs(tk) > 1e-15)):
        a, fa = ops(sp.ea, sa, oa, i)
        b, fb = ops(sp.eb, sb, ob, j)
        out += tk[i, j] * fa * fb * np.kron(a, b)
    return out


def run_rdm(case, rec):
    """RDM-only wave functions hand back what was stored, and the same cumulants as the FCI wave function."""
    from vayesta.core.types import wf as W

    occ, vir = shape(case)
    m = root("FCI", case["spin"], occ, vir, 0)
    d1, d2 = expect(m)
    f = make_real(m)
    s1, s2 = spinsum1(m, d1), spinsum2(m, d2)
    cls = W.RDM_WaveFunction
    cp = lambda x: tuple(y.copy() for y in x) if isinstance(x, tuple) else x.copy()
    wf = cls(f.mo, cp(s1), cp(s2))
    dl = tuple(d - g for d, g in zip(d1, hf1(m)))
    before = snapshot(wf)
    variants = [("", wf), ("copy:", wf.copy())]
    if m.spin == "R":
        variants.append(("pack:", rec.call("pack", lambda: type(wf).unpack(wf.pack()))))
    else:
        ba = wf.dm2ba
        rec.close(ba, d2[1].transpose(2, 3, 0, 1), TOL, "dm2ba")
    for lab, w in variants:
        compare1(rec, m, w, d1, dl, lab + "rdm", 1e-9, {})
        compare2(rec, m, w, d1, d2, lab + "rdm", 1e-9, {})
        rec.step()
    rec.check(same(before, snapshot(wf)), "rdm:mutated")
    # HF wave function
    hf = W.HF_WaveFunction(f.mo)
    g0 = hf1(m)
    for ao in (False, True):
        a = rec.call("hf", hf.make_rdm1, ao_basis=ao)
        b = rec.call("hf", hf.make_rdm2, ao_basis=ao)
        x, y = (ao1(m, g0), ao2(m, noncum(g0, g0))) if ao else (g0, noncum(g0, g0))
        cmp(rec, a, spinsum1(m, x), "hf:rdm1")
        cmp(rec, b, spinsum2(m, y), "hf:rdm2")
    rec.trace()


def run_pocc(case, rec):
    """Occupied projection of FCI vectors: projects each occupied index of the intermediately normalised coefficients."""
    occ, vir = shape(case)
    m = root("FCI", case["spin"], occ, vir, 0)
    sp = fock.Space(m.norb, m.uocc())
    wf = make_real(m)
    before = snapshot(wf)
    _, c1, c2 = sp.amplitudes(m.ci / m.ci[0, 0])
    tot1, tot2 = 0, 0
    ps = projectors(m)
    for p in ps:
        p = p.T @ p if m.spin == "R" else tuple(q.T @ q for q in p)
        for inplace in (False, True):
            w = make_real(m) if inplace else wf
            g = rec.call("project_occ", w.project_occ, p, inplace=inplace)
            rec.step()
            if inplace:
                rec.check(g is w, "inplace:project_occ")
            _, g1, g2 = sp.amplitudes(g.ci)
            pu = (p, p) if m.spin == "R" else p
            for s in range(2):
                rec.close(g1[s], pu[s] @ c1[s], TOL, "project_occ:c1")
            e = lambda q, x: np.einsum("xi,ijab->xjab", q, x)
            for (s, t), x, y in zip(((0, 0), (0, 1), (1, 1)), g2, c2):
                want = (e(pu[s], y) + e(pu[t], y.transpose(1, 0, 3, 2)).transpose(1, 0, 3, 2)) / 2
                rec.close(x, want, TOL, "project_occ:c2")
        rec.check(same(before, snapshot(wf)), "mutates:project_occ")
    rec.trace()
