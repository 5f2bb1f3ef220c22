"""Independent second-quantised oracle: explicit determinant spaces, excitation operators and density matrices.

Strings are ordered by their integer value (the PySCF order: the reference determinant has address 0). All
operators are built from the one-body generators E_pq = p^+ q of each spin, so that no sign convention of the code
under test enters.
"""
import functools
import itertools
import numpy as np


@functools.lru_cache(None)
def strings(norb, nel):
    return tuple(sorted(sum(1 << p for p in occ) for occ in itertools.combinations(range(norb), nel)))


@functools.lru_cache(None)
def gen(norb, nel):
    """E[p,q] (norb,norb,n,n) with E_pq|J> = sum_I E[p,q,I,J]|I>"""
    st = strings(norb, nel)
    idx = {s: i for i, s in enumerate(st)}
    e = np.zeros((norb, norb, len(st), len(st)))
    for j, s in enumerate(st):
        for q in range(norb):
            if not s >> q & 1:
                continue
            r = s ^ (1 << q)
            sq = bin(s & ((1 << q) - 1)).count("1")
            for p in range(norb):
                if r >> p & 1:
                    continue
                sp = bin(r & ((1 << p) - 1)).count("1")
                e[p, q, idx[r | (1 << p)], j] = (-1) ** (sp + sq)
    return e


class Space:
    """Determinant space of na/nb electrons in norba/norbb orbitals; vectors have shape (n_alpha, n_beta)."""

    def __init__(self, norb, nocc):
        self.norb, self.nocc = tuple(norb), tuple(nocc)
        self.ea, self.eb = gen(norb[0], nocc[0]), gen(norb[1], nocc[1])
        self.shape = (self.ea.shape[2], self.eb.shape[2])
        self.ref = np.zeros(self.shape)
        self.ref[0, 0] = 1.0

    # --- amplitudes: c1 = (a, b), c2 = (aa, ab, bb) in the usual antisymmetrised convention
    def apply(self, c1, c2, psi):
        """(C1 + C2) psi"""
        (oa, ob) = self.nocc
        a, b = self.ea, self.eb
        xa, xb = a[oa:, :oa], b[ob:, :ob]  # E_ai
        out = np.zeros_like(psi)
        if c1 is not None:
            out += np.einsum("ia,aiIJ,JK->IK", c1[0], xa, psi)
            out += np.einsum("ia,aiKL,IL->IK", c1[1], xb, psi)
        if c2 is not None:
            aa, ab, bb = c2
            y = np.einsum("bjIJ,JK->bjIK", xa, psi)
            out += 0.25 * np.einsum("ijab,aiIJ,bjJK->IK", aa, xa, y, optimize=True)
            out += np.einsum("ijab,aiIJ,bjKL,JL->IK", ab, xa, xb, psi, optimize=True)
            z = np.einsum("bjKL,IL->bjIK", xb, psi)
            out += 0.25 * np.einsum("ijab,aiKL,bjIL->IK", bb, xb, z, optimize=True)
        return out

    def matrix(self, c1, c2):
        n = self.shape[0] * self.shape[1]
        m = np.zeros((n, n))
        for k in range(n):
            e = np.zeros(n)
            e[k] = 1
            m[:, k] = self.apply(c1, c2, e.reshape(self.shape)).ravel()
        return m

    def expT(self, c1, c2):
        out = self.ref.copy()
        term = self.ref.copy()
        for k in range(1, sum(self.nocc) + 1):
            term = self.apply(c1, c2, term) / k
            out = out + term
        return out

    def amplitudes(self, psi):
        """Coefficients (c0, c1, c2) of the excitations E_ai..|0> in psi."""
        oa, ob = self.nocc
        xa, xb = self.ea[oa:, :oa], self.eb[ob:, :ob]
        a1, b1 = xa[:, :, :, 0], xb[:, :, :, 0]  # E_ai|0>
        c1 = (np.einsum("aiI,I->ia", a1, psi[:, 0]), np.einsum("aiI,I->ia", b1, psi[0]))
        aa = np.einsum("aiIJ,bjJ,I->ijab", xa, a1, psi[:, 0])
        bb = np.einsum("aiIJ,bjJ,I->ijab", xb, b1, psi[0])
        ab = np.einsum("aiI,bjK,IK->ijab", a1, b1, psi)
        return psi[0, 0], c1, (aa, ab, bb)

    def excitation(self, spins, psi):
        """Coefficient tensor of E_{a1 i1}E_{a2 i2}...|0> for the given spin word, shape (i1,i2,..,a1,a2,..)."""
        n = len(spins)
        oa, ob = self.nocc
        occ = [range(oa) if s == "a" else range(ob) for s in spins]
        vir = [range(self.norb[0] - oa) if s == "a" else range(self.norb[1] - ob) for s in spins]
        out = np.zeros([len(r) for r in occ] + [len(r) for r in vir])
        for i in itertools.product(*occ):
            for a in itertools.product(*vir):
                va, vb = np.zeros(self.shape[0]), np.zeros(self.shape[1])
                va[0] = vb[0] = 1
                for s, ii, aa in zip(spins[::-1], i[::-1], a[::-1]):
                    if s == "a":
                        va = self.ea[oa + aa, ii] @ va
                    else:
                        vb = self.eb[ob + aa, ii] @ vb
                out[i + a] = va @ psi @ vb
        return out

    # --- density matrices <l|..|r> / (no normalisation)
    def dm1(self, l, r):
        return np.einsum("IK,pqIJ,JK->pq", l, self.ea, r, optimize=True), np.einsum("IK,pqKL,IL->pq", l, self.eb, r, optimize=True)

    def dm2(self, l, r):
        """dm2[p,q,r,s] = <p^+ r^+ s q>"""
        ea, eb = self.ea, self.eb
        d1a, d1b = self.dm1(l, r)
        ra = np.einsum("rsJM,MK->rsJK", ea, r)
        la = np.einsum("pqIJ,IK->pqJK", ea, l)
        aa = np.einsum("pqJK,rsJK->pqrs", la, ra)
        aa -= np.einsum("qr,ps->pqrs", np.eye(self.norb[0]), d1a)
        rb = np.einsum("rsLM,IM->rsIL", eb, r)
        lb = np.einsum("pqKL,IK->pqIL", eb, l)
        bb = np.einsum("pqIL,rsIL->pqrs", lb, rb)
        bb -= np.einsum("qr,ps->pqrs", np.eye(self.norb[1]), d1b)
        ab = np.einsum("pqJK,rsJK->pqrs", la, rb)
        return aa, ab, bb

    def s2(self):
        """S^2 (equal numbers of orbitals): S-S+ + Sz(Sz+1), as a dense matrix."""
        na, nb = self.shape
        n = self.norb[0]
        m = np.zeros((na * nb, na * nb))
        # S-S+ = N_b - sum_pq E^a_pq E^b_qp
        for p in range(n):
            for q in range(n):
                m -= np.kron(self.ea[p, q], self.eb[q, p])
        sz = (self.nocc[0] - self.nocc[1]) / 2
        m += np.eye(na * nb) * (self.nocc[1] + sz * (sz + 1))
        return m


def sym1(d):
    return (d + d.T) / 2


def sym2(d):
    return (d + d.transpose(1, 0, 3, 2)) / 2
