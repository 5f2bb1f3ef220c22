"""C21  Cluster solvers return the solution of the cluster problem they are given."""
import itertools
import numpy as np

from vlib import fock as F
from checks import integrals as I

PROPERTY = "C21"
LEVEL = "exploration"
TECHNIQUE = (
    "exhaustive enumeration of (system, active space, orbital choice, external potential, solver, solver option) on the real solvers; each returned wave "
    "function is validated against the equations it must solve, evaluated in the explicit determinant space of the cluster"
)
RULE = (
    "'solve': one case per cluster and solver; 'spin': spin-enforced FCI; 'cpt': chemical potential search from every listed guess; 'ext': all correction "
    "types, projector numbers and donor sets of externally corrected/tailored CCSD; 'callback': every result dictionary; 'tcc': every listed CAS"
)
BOUNDS = "clusters of 2-8 orbitals (at most 784 determinants); every listed split, orbital choice, potential, option value; up to four donor fragments"
ASSUMPTIONS = ["the cluster's one- and two-body operators are those verified in C11"]
TOL = 2e-6


def setup(tier):
    I.setup(tier)
    global get_solver_class, W
    from vayesta.solver import get_solver_class
    from vayesta.core.types import wf as W


# -------------------------------------------------------------------------------------------------- determinant space
class Det:
    """Dense Hamiltonian of a cluster problem and the equations the solvers must satisfy."""

    def __init__(self, n, no, h, g):
        self.n, self.no = tuple(n), tuple(no)
        self.sp = sp = F.Space(self.n, self.no)
        na, nb = sp.shape
        ea, eb = sp.ea, sp.eb
        k = []
        for s in (0, 1):
            k.append(h[s] - 0.5 * np.einsum("prrq->pq", g[s, s]))

        def onespin(e, k, g):
            out = np.einsum("pq,pqIJ->IJ", k, e)
            x = np.einsum("pqrs,rsIJ->pqIJ", g, e, optimize=True)
            return out + 0.5 * np.einsum("pqIK,pqKJ->IJ", e, x, optimize=True)

        ha, hb = onespin(ea, k[0], g[0, 0]), onespin(eb, k[1], g[1, 1])
        x = np.einsum("pqrs,rsKL->pqKL", g[0, 1], eb, optimize=True).reshape(self.n[0] ** 2, -1)
        m = (ea.reshape(self.n[0] ** 2, -1).T @ x).reshape(na, na, nb, nb).transpose(0, 2, 1, 3).copy()
        m += np.einsum("IJ,KL->IKJL", ha, np.eye(nb)) + np.einsum("IJ,KL->IKJL", np.eye(na), hb)
        self.h = m.reshape(na * nb, na * nb)
        # mean field of the reference
        oa, ob = slice(no[0]), slice(no[1])
        self.f = [
            h[0] + np.einsum("iipq->pq", g[0, 0][oa, oa]) + np.einsum("pqii->pq", g[0, 1][:, :, ob, ob]) - np.einsum("ipqi->pq", g[0, 0][oa, :, :, oa]),
            h[1] + np.einsum("iipq->pq", g[1, 1][ob, ob]) + np.einsum("iipq->pq", g[0, 1][oa, oa]) - np.einsum("ipqi->pq", g[1, 1][ob, :, :, ob]),
        ]
        self.g = g
        self.d1 = [np.diag(self.f[s])[: no[s], None] - np.diag(self.f[s])[None, no[s] :] for s in (0, 1)]
        self.d2 = [
            self.d1[s][:, None, :, None] + self.d1[t][None, :, None, :] for s, t in ((0, 0), (0, 1), (1, 1))
        ]

    def exp(self, t1, t2, psi, sign=1):
        out, term = psi.copy(), psi
        for k in range(1, sum(self.no) + 1):
            term = sign * self.sp.apply(t1, t2, term) / k
            out = out + term
        return out

    def hbar0(self, t1, t2):
        """e^-T H e^T |0>"""
        psi = self.exp(t1, t2, self.sp.ref)
        psi = (self.h @ psi.ravel()).reshape(self.sp.shape)
        return self.exp(t1, t2, psi, -1)

    def residual(self, t1, t2):
        e, r1, r2 = self.sp.amplitudes(self.hbar0(t1, t2))
        return e, r1, r2

    def cc_amplitudes(self, psi):
        """Cluster amplitudes T1, T2 of a wave function."""
        psi = psi / psi[0, 0]
        _, c1, c2 = self.sp.amplitudes(psi)
        a, b = c1
        aa = c2[0] - np.einsum("ia,jb->ijab", a, a) + np.einsum("ib,ja->ijab", a, a)
        bb = c2[2] - np.einsum("ia,jb->ijab", b, b) + np.einsum("ib,ja->ijab", b, b)
        return c1, (aa, c2[1] - np.einsum("ia,jb->ijab", a, b), bb)

    def ccsd(self, maxit=300, tol=1e-10):
        """Independent CCSD solution (Jacobi iterations with DIIS)."""
        t1 = [0 * x for x in self.d1]
        t2 = [0 * x for x in self.d2]
        vecs, errs = [], []
        for it in range(maxit):
            _, r1, r2 = self.residual(t1, t2)
            d = np.concatenate([(r / d).ravel() for r, d in zip(list(r1) + list(r2), self.d1 + self.d2)])
            if abs(d).max(initial=0) < tol:
                return tuple(t1), tuple(t2)
            x = np.concatenate([t.ravel() for t in list(t1) + list(t2)]) + d
            vecs.append(x)
            errs.append(d)
            vecs, errs = vecs[-8:], errs[-8:]
            m = len(vecs)
            b = -np.ones((m + 1, m + 1))
            b[m, m] = 0
            for i in range(m):
                for j in range(m):
                    b[i, j] = errs[i] @ errs[j]
            b[:m, :m] /= max(b[:m, :m].max(), 1e-30)
            rhs = np.zeros(m + 1)
            rhs[m] = -1
            c = np.linalg.lstsq(b, rhs, rcond=None)[0][:m]
            x = sum(ci * v for ci, v in zip(c, vecs))
            out, p = [], 0
            for t in list(t1) + list(t2):
                out.append(x[p : p + t.size].reshape(t.shape))
                p += t.size
            t1, t2 = out[:2], out[2:]
        return None

    def ground(self, ss=None):
        """Lowest energy and the complete eigenspace, optionally restricted to a value of S^2."""
        h = self.h
        if ss is not None:
            s2 = self.sp.s2()
            e, v = np.linalg.eigh(s2)
            v = v[:, abs(e - ss) < 1e-6]
            e, u = np.linalg.eigh(v.T @ h @ v)
            u = v @ u
        else:
            e, u = np.linalg.eigh(h)
        return e[0], u[:, e < e[0] + 1e-6]

    def rank(self):
        """Excitation rank of every determinant."""
        ra = np.array([self.no[0] - bin(x & ((1 << self.no[0]) - 1)).count("1") for x in F.strings(self.n[0], self.no[0])])
        rb = np.array([self.no[1] - bin(x & ((1 << self.no[1]) - 1)).count("1") for x in F.strings(self.n[1], self.no[1])])
        return (ra[:, None] + rb[None]).ravel()


def as_u(wf_t1, wf_t2, uhf):
    if uhf:
        return tuple(np.asarray(x) for x in wf_t1), tuple(np.asarray(x) for x in wf_t2)
    t1, t2 = np.asarray(wf_t1), np.asarray(wf_t2)
    aa = t2 - t2.transpose(1, 0, 2, 3)
    return (t1, t1), (aa, t2, aa)


def flat(*ts):
    return np.concatenate([np.asarray(x).ravel() for t in ts for x in t])


def ci_vector(wf, det, rec, lab):
    """CI vector in the physical determinant space."""
    ci = np.asarray(wf.ci)
    if ci.shape == det.sp.shape:
        return ci
    dummy = getattr(wf, "dummy_orbs", None)
    if dummy is None:
        rec.fail(lab + "shape", "CI vector %r, expected %r" % (ci.shape, det.sp.shape))
        return None
    norb = max(det.n)
    full = ci
    for s in (0, 1):
        st = F.strings(norb, det.no[s])
        keep = [i for i, x in enumerate(st) if x < (1 << det.n[s])]
        rest = [i for i in range(len(st)) if i not in keep]
        rec.check(abs(np.take(ci, rest, axis=s)).max(initial=0) < 1e-5, lab + "dummy", "dummy orbitals populated")
        full = np.take(full, keep, axis=s)
    return full


# -------------------------------------------------------------------------------------------------------------- cases
RSYS = {
    "h4r": [[1, 2], [2, 2], [2, 3], [1, 6]],
    "h4rd": [[2, 2], [1, 3]],
    "lihr~": [[1, 2], [2, 2], [1, 4], [2, 4]],
    "lihrd": [[2, 3]],
}
USYS = {
    "h3u": [[[1, 1], [2, 2]], [[2, 1], [2, 3]], [[2, 1], [1, 3]], [[1, 1], [1, 3]], [[2, 1], [4, 5]]],
    "h3ud": [[[2, 1], [2, 3]], [[2, 1], [2, 2]]],
    "h4u2": [[[3, 1], [1, 3]], [[2, 1], [1, 2]], [[2, 1], [1, 3]]],
    "behu": [[[2, 2], [2, 2]], [[3, 2], [3, 4]], [[3, 2], [1, 2]]],
    "h3u-": [[[1, 2], [3, 2]], [[1, 2], [2, 2]]],
    "h4u": [[[2, 2], [2, 2]], [[2, 1], [2, 3]], [[1, 2], [3, 1]]],
}
TIGHT = dict(conv_tol=1e-12, conv_tol_normt=1e-9, max_cycle=300)
SOLVE = {
    "MP2": [{}, {"compress_cderi": True}],
    "CISD": [{"conv_tol": 1e-14}],
    "CCSD": [
        dict(TIGHT),
        dict(TIGHT, init_guess="CISD"),
        dict(TIGHT, solve_lambda=False),
        dict(TIGHT, diis_space=3, diis_start_cycle=2),
        dict(TIGHT, level_shift=0.2),
        dict(TIGHT, iterative_damping=0.8),
    ],
    "extCCSD": [dict(TIGHT)],
    "FCI": [{}, {"init_guess": "mf"}, {"solver_spin": False}, {"init_guess_noise": 0.0}, {"fix_spin": False}, {"davidson_only": False}],
    "EBCCSD": [dict(conv_tol=1e-12, conv_tol_normt=1e-10, solve_lambda=True, store_as_ccsd=True), dict(conv_tol=1e-12, conv_tol_normt=1e-10, store_as_ccsd=True)],
}


def cases(tier):
    out = []
    for key, sp in list(RSYS.items()) + list(USYS.items()):
        uhf = key in USYS
        for split, orbs, v in itertools.product(sp, ("canon", "mix"), (False, True)):
            if tier == "quick" and (orbs, v) in (("canon", True), ("mix", False)):
                continue
            for sol, optl in SOLVE.items():
                if sol == "EBCCSD" and key in ("h4rd", "lihrd", "h3ud", "behu"):
                    continue  # density fitting is not supported by ebcc
                for opts in optl:
                    if sol == "MP2" and opts and not key.endswith("d"):
                        continue
                    if sol == "FCI" and uhf and (opts.get("solver_spin") is False or opts.get("fix_spin") is False):
                        continue
                    if sol == "EBCCSD" and (orbs == "canon" or uhf and len({o + w for o, w in zip(*split)}) > 1):
                        continue  # unequal numbers of orbitals are documented as not implemented
                    if tier == "quick" and sol in ("CCSD", "FCI") and opts not in optl[:2] and orbs == "canon":
                        continue
                    out.append(dict(k="solve", sys=key, split=split, orbs=orbs, v=v, solver=sol, opts=opts))
    for key, split in (("h4r", [1, 1]), ("h4r", [1, 2]), ("lihr~", [1, 1]), ("h4r", [2, 2])):
        for fs in (None, 0.0, False, 2.0):
            for spin1 in (True, False):
                if fs == 2.0 and not spin1:
                    continue
                for g in ("default", "mf"):
                    if fs == 2.0 and g == "mf":
                        continue  # the mean-field guess is a singlet, and nothing mixes in triplets
                    out.append(dict(k="spin", sys=key, split=split, fs=fs, spin1=spin1, guess=g))
    for key, atom, bath in (("h4r", 0, "dmet"), ("h4r", 1, "dmet"), ("lihr~", 1, "full"), ("lihr~", 1, "dmet"), ("h3u", 1, "dmet"), ("h4u", 0, "dmet"), ("h4u2", 1, "full"), ("h4rd", 1, "dmet")):
        for sol in ("FCI", "CCSD"):
            for dn in (0.0, 0.05, -0.05, 0.0005):
                base = dict(k="cpt", sys=key, atom=atom, bath=bath, solver=sol, dn=dn)
                out.append(dict(base, via="fragment"))
                for guess in (0, 0.1, -0.1, 0.5, -0.5):
                    for v in (False, True):
                        if tier == "quick" and (v and dn != 0.05 or sol == "CCSD" and (v or abs(guess) < 0.2)):
                            continue
                        out.append(dict(base, via="solver", guess=guess, v=v))
    for key in ("h4r", "lihr~", "h3u", "h4u2", "h4u"):
        for res in ("civec", "t", "tl", "c", "dm", "t-unconv", "moments", "none"):
            out.append(dict(k="callback", sys=key, res=res))
    for key, split in (("h4r", [2, 4]), ("lihr~", [2, 4]), ("lihr~", [2, 3]), ("h4rd", [2, 3])):
        for cas in ([1, 1], [1, 2], [2, 1], [2, 2], list(split)):
            for mix in (False, True):
                for v in (False, True):
                    out.append(dict(k="tcc", sys=key, split=split, cas=cas, mix=mix, v=v))
    for key in ("h4r", "lihr~"):
        for fo in (None, "max_cycle"):
            out.append(dict(k="tccemb", sys=key, fo=fo))
    for key in ("h4r", "h4rd", "h3u", "h4u"):
        baths = ("dmet", "part", "full") if key != "h4u" else ("dmet", "part")
        if tier == "quick" and key == "h4rd":
            baths = ("part",)
        for xb in baths:
            for ct, proj in itertools.product(("tailor", "delta-tailor", "external-low", "external-high", "mixed"), (0, 1, 2)):
                for donors in ("self", "all", "other"):
                    if ct == "mixed" and (donors == "self" or key == "h4rd"):
                        continue
                    if tier == "quick" and key == "h4u" and (donors == "other" or xb == "part"):
                        continue
                    out.append(dict(k="ext", sys=key, xb=xb, ct=ct, proj=proj, donors=donors))
    return out


def cost(c):
    return {"ext": 12, "cpt": 4, "tcc": 3}.get(c["k"], 1) * (4 if c.get("sys") == "h4u" else 1)


def run(c, rec):
    {"solve": run_solve, "spin": run_spin, "cpt": run_cpt, "callback": run_callback, "tcc": run_tcc, "tccemb": run_tccemb, "ext": run_ext}[c["k"]](c, rec)


def problem(key, split, orbs, v, **emb_opts):
    cl = I.make_cluster(key, split, orbs)
    orc = I.Oracle(key, cl)
    emb, fx = I.make_fragment(key, cl, **emb_opts)
    ham = fx.get_frag_hamil()
    vx = [np.zeros_like(x) for x in orc.f]
    if v:
        vx = [0.3 * x for x in I.vext(orc)]
        ham.v_ext = tuple(vx) if orc.uhf else vx[0]
    return cl, orc, emb, fx, ham, vx


def det_of(orc, vx):
    return Det(orc.n, orc.no, [x + y for x, y in zip(orc.h, vx)], orc.g)


def run_solve(c, rec):
    key = c["sys"]
    cl, orc, emb, fx, ham, vx = problem(key, c["split"], c["orbs"], c["v"])
    rec.state(key, c["split"], c["orbs"], c["v"])
    keep = [x.copy() for x in vx]
    sol = rec.call("create", get_solver_class(ham, c["solver"]), ham, **c["opts"])
    rec.call("kernel", sol.kernel)
    rec.step()
    det = det_of(orc, vx)
    check_wf(rec, c, sol, det, orc)
    if c["v"]:
        got = list(ham.v_ext) if orc.uhf else [ham.v_ext] * 2
        rec.close(np.concatenate([x.ravel() for x in got]), np.concatenate([x.ravel() for x in keep]), 0, "v_ext-modified")


def check_wf(rec, c, sol, det, orc):
    wf, name, opts = sol.wf, c["solver"], c["opts"]
    if not sol.converged and {"iterative_damping", "level_shift", "diis_space"} & set(opts):
        raise_skip("not converged with these convergence options")
    rec.check(bool(sol.converged), "converged", "solver did not report convergence")
    rec.check(wf is not None, "wf", "no wave function")
    mo = wf.mo.coeff
    for s in (0, 1):
        rec.close(mo[s] if orc.uhf else mo, orc.c[s], 1e-12, "mo")
    if name == "MP2":
        t1, t2 = as_u(np.zeros(det.d1[0].shape) if not orc.uhf else det.d1, wf.t2, orc.uhf)
        g = det.g
        oa, ob, va, vb = slice(det.no[0]), slice(det.no[1]), slice(det.no[0], None), slice(det.no[1], None)
        ref = [g[0, 0][oa, va, oa, va].transpose(0, 2, 1, 3), g[0, 1][oa, va, ob, vb].transpose(0, 2, 1, 3), g[1, 1][ob, vb, ob, vb].transpose(0, 2, 1, 3)]
        ref[0] = ref[0] - ref[0].transpose(1, 0, 2, 3)
        ref[2] = ref[2] - ref[2].transpose(1, 0, 2, 3)
        for k in range(3):
            rec.close(t2[k], ref[k] / det.d2[k], 1e-8, "mp2-t2%d" % k)
    elif name == "CISD":
        uhf = orc.uhf
        c1, c2 = as_u(wf.c1, wf.c2, uhf)
        psi = wf.c0 * det.sp.ref + det.sp.apply(c1, c2, det.sp.ref)
        psi = psi.ravel() / np.linalg.norm(psi)
        m = det.rank() <= 2
        h = det.h[np.ix_(m, m)]
        e = np.linalg.eigvalsh(h + (0 if uhf else 20 * det.sp.s2()[np.ix_(m, m)]))[0]
        x = psi[m]
        en = x @ h @ x
        rec.close(en, e, 1e-7, "cisd-energy")
        rec.close(h @ x, en * x, 1e-5, "cisd-eigenvector")
    elif name in ("CCSD", "extCCSD", "EBCCSD"):
        check_ccsd(rec, wf, det, orc, lam=opts.get("solve_lambda", name != "EBCCSD"), have_l=name != "EBCCSD" or opts.get("solve_lambda"))
    elif name == "FCI":
        psi = ci_vector(wf, det, rec, "fci-")
        if psi is None:
            return
        psi = psi.ravel()
        rec.close(np.linalg.norm(psi), 1.0, 1e-6, "fci-norm")
        ss = None
        if not orc.uhf and opts.get("fix_spin", 0.0) is not False:
            ss = 0.0
        e, v = det.ground(ss)
        rec.close(psi @ det.h @ psi, e, 1e-8, "fci-energy")
        rec.close(np.linalg.norm(v.T @ psi), 1.0, 1e-6, "fci-vector")


def check_ccsd(rec, wf, det, orc, lam=True, have_l=True, tol=TOL):
    t1, t2 = as_u(wf.t1, wf.t2, orc.uhf)
    e, r1, r2 = det.residual(t1, t2)
    for k, r in enumerate(list(r1) + list(r2)):
        rec.check(abs(r).max(initial=0) < tol, "t-equations", "component %d: residual %.2e" % (k, abs(r).max(initial=0)))
    ref = det.ccsd()
    if ref is not None:
        for k, (a, b) in enumerate(zip(t1 + t2, ref[0] + ref[1])):
            if a.size:
                rec.close(a, b, 1e-5, "t-amplitudes%d" % k)
    if not have_l:
        return
    l1, l2 = as_u(wf.l1, wf.l2, orc.uhf)
    if not lam:
        for k, (a, b) in enumerate(zip(l1 + l2, t1 + t2)):
            rec.close(a, b, 0, "lambda=t%d" % k)
        return
    row = (det.sp.ref + det.sp.apply(l1, l2, det.sp.ref)).ravel()
    # <0|(1+L) (e^-T H e^T - E) |mu> = 0 for all singles and doubles mu
    x = det_adj(det, t1, t2, row) - e * row
    s, d = det.sp.amplitudes(x.reshape(det.sp.shape))[1:]
    for k, r in enumerate(list(s) + list(d)):
        rec.check(abs(r).max(initial=0) < 10 * tol, "lambda-equations", "component %d: residual %.2e" % (k, abs(r).max(initial=0)))


def det_adj(det, t1, t2, row):
    """row e^-T H e^T as a vector."""
    n = row.size
    # transposed exponentials through the (nilpotent) matrix of T
    tm = det.sp.matrix(t1, t2)

    def expm(v, sign):
        out, term = v.copy(), v
        for k in range(1, sum(det.no) + 1):
            term = sign * (tm.T @ term) / k
            out = out + term
        return out

    return expm(det.h @ expm(row, -1), 1)


# --------------------------------------------------------------------------------------------------------------- spin
def run_spin(c, rec):
    """Nearly degenerate frontier orbitals: the ground state of the cluster is a triplet."""
    key = c["sys"]
    cl, orc, emb, fx, ham, vx = problem(key, c["split"], "canon", False)
    no = orc.no[0]
    best = None
    for shift in np.arange(0, 2.5, 0.1):
        # lift the highest occupied orbital towards the lowest virtual one
        v = np.zeros_like(orc.f[0])
        v[no - 1, no - 1] = shift
        det = det_of(orc, [v, v])
        gap = det.ground(0.0)[0] - det.ground(2.0)[0]
        if best is None or gap > best[0]:
            best = gap, v
    v = best[1]
    if best[0] < 1e-3:
        raise_skip("no triplet ground state")
    ham.v_ext = v
    det = det_of(orc, [v, v])
    opts = dict(init_guess=c["guess"], solver_spin=c["spin1"])
    if c["fs"] is not None:
        opts["fix_spin"] = c["fs"]
    np.random.seed(1)
    sol = rec.call("create", get_solver_class(ham, "FCI"), ham, **opts)
    rec.call("kernel", sol.kernel)
    psi = np.asarray(sol.wf.ci).ravel()
    et, es = det.ground(2.0)[0], det.ground(0.0)[0]
    rec.state(key, c["split"], et < es)
    target = 0.0 if c["fs"] is None else c["fs"]
    en = psi @ det.h @ psi
    s2 = psi @ det.sp.s2() @ psi
    if target is False:
        rec.check(min(abs(en - et), abs(en - es)) < 1e-7, "spin-free", "energy %.8f is neither the singlet %.8f nor the triplet %.8f" % (en, es, et))
        return
    rec.check(bool(sol.converged), "converged", "")
    rec.close(s2, target, 1e-5, "spin", "S^2 of the solution (triplet %.6f, singlet %.6f, energy %.6f)" % (et, es, en))
    if target == 0.0:
        rec.close(en, det.ground(target)[0], 1e-7, "spin-energy")
    rec.close(det.h @ psi, en * psi, 1e-5, "spin-eigenvector")


# ---------------------------------------------------------------------------------------------------------------- cpt
def run_cpt(c, rec):
    import vayesta.ewf

    key = c["sys"]
    mf = I.get_mf(key)
    solver_opts = {"CCSD": dict(TIGHT, solve_lambda=True), "FCI": {}}[c["solver"]]
    emb = vayesta.ewf.EWF(mf, solver=c["solver"], bath_options=dict(bathtype=c["bath"]), solver_options=solver_opts)
    opts = {}
    if c["via"] == "fragment":
        # unconstrained number first
        n0, _ = fragment_electrons(emb, c, None)
        target = n0 + c["dn"]
        emb = vayesta.ewf.EWF(mf, solver=c["solver"], bath_options=dict(bathtype=c["bath"]), solver_options=solver_opts)
        n1, fx = fragment_electrons(emb, c, dict(nelectron_target=target, nelectron_target_atol=1e-6, nelectron_target_rtol=0), rec)
        rec.step()
        rec.state(key, c["solver"], c["bath"], c["dn"])
        rec.close(n1, target, 2e-6, "cpt-electrons", "unconstrained %.6f" % n0)
        return
    n0, fx = fragment_electrons(emb, c, None)
    ham = fx.hamil
    orc = I.Oracle(key, fx.cluster)
    vx = [np.zeros_like(x) for x in orc.f]
    if c["v"]:
        vx = [0.1 * x for x in I.vext(orc)]
        ham.v_ext = tuple(vx) if orc.uhf else vx[0]
    p = frag_proj(mf, fx, orc)
    cls = get_solver_class(ham, c["solver"])
    sol = cls(ham, **solver_opts)
    sol.kernel()
    n0 = count(sol.wf, p, orc.uhf)
    target = n0 + c["dn"]
    sol = cls(ham, **solver_opts)
    sol.optimize_cpt(target, fx.c_frag, cpt_guess=c["guess"], atol=1e-6, rtol=0)
    before = ham.v_ext
    rec.call("cpt-kernel", sol.kernel)
    rec.step()
    n1 = count(sol.wf, p, orc.uhf)
    rec.state(key, c["solver"], np.sign(c["guess"]), np.sign(c["dn"]))
    rec.close(n1, target, 2e-6, "cpt-electrons", "unconstrained %.6f" % n0)
    rec.check(ham.v_ext is before, "cpt-vext", "external potential not restored")
    rec.check(bool(sol.converged), "converged", "")
    if c["solver"] != "FCI":
        return
    # the solution is an eigenstate of H - mu P for some mu
    det = det_of(orc, vx)
    psi = ci_vector(sol.wf, det, rec, "cpt-").ravel()
    pm = np.einsum("pq,pqIJ,KL->IKJL", p[0], det.sp.ea, np.eye(det.sp.shape[1]), optimize=True)
    pm = pm + np.einsum("pq,pqKL,IJ->IKJL", p[1], det.sp.eb, np.eye(det.sp.shape[0]), optimize=True)
    pm = pm.reshape(det.h.shape)
    a = np.stack([psi, pm @ psi], axis=1)
    y = det.h @ psi
    x = np.linalg.lstsq(a, y, rcond=None)[0]
    rec.close(a @ x, y, 1e-5, "cpt-eigenvector")
    if c["dn"]:
        rec.check(np.sign(x[1]) == np.sign(c["dn"]), "cpt-sign", "chemical potential %.4f for electron change %.3f" % (x[1], c["dn"]))


def frag_proj(mf, fx, orc):
    s = mf.get_ovlp()
    cf = list(fx.c_frag) if orc.uhf else [fx.c_frag, fx.c_frag]
    p = []
    for sp in (0, 1):
        x = orc.c[sp].T @ s @ cf[sp]
        p.append(x @ x.T)
    return p


def count(wf, p, uhf):
    d = wf.make_rdm1()
    return np.sum(p[0] * d[0]) + np.sum(p[1] * d[1]) if uhf else np.sum(p[0] * d)


def fragment_electrons(emb, c, opts, rec=None):
    with emb.sao_fragmentation() as f:
        fx = f.add_atomic_fragment(c["atom"], **(opts or {}))
    if rec is None:
        emb.kernel()
    else:
        rec.call("cpt-kernel", emb.kernel)
    orc = I.Oracle(c["sys"], fx.cluster)
    return count(fx.results.wf, frag_proj(emb.mf, fx, orc), orc.uhf), fx


# ----------------------------------------------------------------------------------------------------------- callback
def run_callback(c, rec):
    key = c["sys"]
    split = {"h4r": [2, 2], "lihr~": [1, 3], "h3u": [[2, 1], [1, 2]], "h4u2": [[2, 1], [1, 2]], "h4u": [[2, 2], [2, 2]]}[key]
    cl, orc, emb, fx, ham, vx = problem(key, split, "mix", True)
    det = det_of(orc, vx)
    e, v = det.ground()
    psi = v[:, 0].reshape(det.sp.shape)
    res = c["res"]
    seen = []
    t1, t2 = det.cc_amplitudes(psi)
    ok = abs(psi[0, 0]) > 1e-3
    u = orc.uhf
    r = lambda x, k=0: tuple(x) if u else x[k]
    c0, c1, c2 = det.sp.amplitudes(psi)
    rng = np.random.RandomState(1)
    l1 = [0.1 * (rng.rand(*x.shape) - 0.5) for x in t1]
    l2 = [0.1 * (rng.rand(*x.shape) - 0.5) for x in t2]
    dm1 = det.sp.dm1(psi, psi)
    dm2 = det.sp.dm2(psi, psi)
    full = {
        "civec": dict(civec=psi, converged=True),
        "t": dict(t1=r(t1), t2=r(t2, 1), converged=True),
        "tl": dict(t1=r(t1), t2=r(t2, 1), l1=r(l1), l2=r(l2, 1), converged=True),
        "c": dict(c0=c0, c1=r(c1), c2=r(c2, 1), converged=True),
        "dm": dict(dm1=tuple(dm1) if u else dm1[0] + dm1[1], dm2=tuple(dm2) if u else dm2[0] + 2 * dm2[1] + dm2[2], converged=True),
        "t-unconv": dict(t1=r(t1), t2=r(t2, 1)),
        "moments": dict(t1=r(t1), t2=r(t2, 1), hole_moments=np.ones((2, 3, 3)), particle_moments=2 * np.ones((2, 3, 3)), converged=True),
        "none": dict(energy=1.0, converged=True),
    }[res]

    def callback(mf):
        seen.append(mf)
        return dict(full)

    sol = get_solver_class(ham, "CALLBACK")(ham, callback=callback)
    rec.state(key, res)
    rec.call("callback-kernel", sol.kernel)
    rec.step()
    rec.check(len(seen) == 1, "calls", "callback called %d times" % len(seen))
    mf = seen[0]
    hc = mf.get_hcore()
    for s in (0, 1):
        x = (hc[s] if u else hc)[: orc.n[s], : orc.n[s]]
        rec.close(x, orc.h[s] + vx[s], 1e-8, "callback-hcore")
    rec.check(bool(sol.converged) == bool(full.get("converged", False)), "converged", "")
    wf = sol.wf
    if res == "none":
        rec.check(wf is None, "no-wf", "wave function %r invented" % (wf,))
        # the same through the embedding class: one call per fragment, results stored
        import vayesta.ewf

        calls = []

        def cb(mf):
            calls.append(mf)
            return dict(hole_moments=len(calls) * np.ones((1, 2, 2)), converged=True)

        emb = vayesta.ewf.EWF(I.get_mf(key), solver="CALLBACK", bath_options=dict(bathtype="dmet"), solver_options=dict(callback=cb))
        with emb.sao_fragmentation() as f:
            f.add_all_atomic_fragments()
        rec.call("callback-emb", emb.kernel)
        rec.check(len(calls) == len(emb.fragments), "callback-emb-calls", "%d calls" % len(calls))
        for k, x in enumerate(emb.fragments):
            rec.close(x.results.moms[0], (k + 1) * np.ones((1, 2, 2)), 0, "callback-emb-moments")
            rec.check(x.results.callback_results["converged"] is True and x.results.converged, "callback-emb-results", "")
        rec.check(bool(emb.converged) and np.isnan(emb.e_corr), "callback-emb-energy", "%r" % (emb.e_corr,))
        return
    cls = {"civec": "FCI", "t": "CCSD", "tl": "CCSD", "c": "CISD", "dm": "RDM", "t-unconv": "CCSD", "moments": "CCSD"}[res]
    rec.check(cls in type(wf).__name__, "type", type(wf).__name__)
    for k in ("t1", "t2", "c0", "c1", "c2"):
        if k in full:
            I.close(rec, getattr(wf, k), full[k], "callback-" + k, 0)
    if res == "tl":
        I.close(rec, wf.l1, full["l1"], "callback-l1", 0)
        I.close(rec, wf.l2, full["l2"], "callback-l2", 0)
    if res == "civec":
        I.close(rec, wf.ci, psi, "callback-ci", 0)
    if res == "dm":
        I.close(rec, wf.make_rdm1(), full["dm1"], "callback-dm1", 0)
        I.close(rec, wf.make_rdm2(), full["dm2"], "callback-dm2", 0)
    if res == "moments":
        I.close(rec, sol.hole_moments, full["hole_moments"], "callback-hole", 0)
        I.close(rec, sol.particle_moments, full["particle_moments"], "callback-particle", 0)


# ----------------------------------------------------------------------------------------------------------- tailored
def run_tcc(c, rec):
    key = c["sys"]
    cl, orc, emb, fx, ham, vx = problem(key, c["split"], "mix", c["v"])
    if c["cas"][0] > c["split"][0] or c["cas"][1] > c["split"][1]:
        raise_skip("CAS larger than cluster")
    co, cv = cl.c_active_occ, cl.c_active_vir
    ro, rv = np.eye(co.shape[1]), np.eye(cv.shape[1])
    if c["mix"]:
        ro, rv = I.orth_mix(co.shape[1], 11), I.orth_mix(cv.shape[1], 12)
    ro, rv = ro[:, : c["cas"][0]], rv[:, : c["cas"][1]]
    sol = rec.call("create", get_solver_class(ham, "TCCSD"), ham, c_cas_occ=co @ ro, c_cas_vir=cv @ rv, **TIGHT)
    sol.opts.solve_lambda = False
    rec.call("kernel", sol.kernel)
    rec.step()
    rec.state(key, c["split"], c["cas"], c["mix"], c["v"])
    if not sol.converged:
        raise_skip("tailored CCSD did not converge")
    # CAS problem
    from vayesta.core.types import Cluster

    so, sv = full_complement(ro), full_complement(rv)
    ccl = Cluster.from_coeffs(co @ ro, cv @ rv, np.hstack([cl.c_frozen_occ, co @ so]), np.hstack([cl.c_frozen_vir, cv @ sv]))
    corc = I.Oracle(key, ccl)
    r = block(ro, rv)
    cas = det_of(corc, [r.T @ vx[0] @ r] * 2)
    e, v = cas.ground(0.0)
    if v.shape[1] > 1 or abs(v[0, 0]) < 0.3:
        raise_skip("multi-reference CAS ground state")
    t1c, t2c = cas.cc_amplitudes(v[:, 0].reshape(cas.sp.shape))
    t1, t2 = sol.wf.t1, sol.wf.t2
    rec.close(np.einsum("IA,Ii,Aa->ia", t1, ro, rv), t1c[0], TOL, "tcc-cas-t1")
    rec.close(np.einsum("IJAB,Ii,Jj,Aa,Bb->ijab", t2, ro, ro, rv, rv), t2c[1], TOL, "tcc-cas-t2")
    det = det_of(orc, vx)
    _, r1, r2 = det.residual(*as_u(t1, t2, False))
    po, pv = ro @ ro.T, rv @ rv.T
    x1 = r1[0] / det.d1[0]
    x2 = r2[1] / det.d2[1]
    x1 = x1 - po @ x1 @ pv
    x2 = x2 - np.einsum("ijab,ik,jl,ac,bd->klcd", x2, po, po, pv, pv)
    rec.check(abs(x1).max(initial=0) < TOL and abs(x2).max(initial=0) < TOL, "tcc-equations", "residual outside of the CAS %.2e %.2e" % (abs(x1).max(initial=0), abs(x2).max(initial=0)))


def run_tccemb(c, rec):
    """Tailored CCSD through the embedding class: default CAS, options of the FCI solver."""
    import vayesta.ewf

    key = c["sys"]
    fo = {None: {}, "max_cycle": dict(max_cycle=1, init_guess="mf")}[c["fo"]]
    emb = vayesta.ewf.EWF(I.get_mf(key), solver="TCCSD", bath_options=dict(bathtype="full"), solver_options=dict(TIGHT, solve_lambda=False))
    with emb.sao_fragmentation() as f:
        fx = f.add_atomic_fragment(1)
    fx.opts.tcc_fci_opts.update(fo)
    rec.call("kernel", emb.kernel)
    rec.step()
    rec.state(key, c["fo"])
    ccl_o, ccl_v = fx._dmet_bath.c_cluster_occ, fx._dmet_bath.c_cluster_vir
    s = emb.get_ovlp()
    ro, rv = fx.cluster.c_active_occ.T @ s @ ccl_o, fx.cluster.c_active_vir.T @ s @ ccl_v
    from vayesta.core.types import Cluster

    ccl = Cluster.from_coeffs(ccl_o, ccl_v, fx.cluster.c_active_occ @ full_complement(ro), fx.cluster.c_active_vir @ full_complement(rv))
    cas = det_of(I.Oracle(key, ccl), [0, 0])
    v = cas.ground(0.0)[1]
    t1c, t2c = cas.cc_amplitudes(v[:, 0].reshape(cas.sp.shape))
    t2 = np.einsum("IJAB,Ii,Jj,Aa,Bb->ijab", fx.results.wf.t2, ro, ro, rv, rv)
    dev = abs(t2 - t2c[1]).max()
    if c["fo"] is None:
        rec.check(fx.results.converged, "converged", "")
        rec.close(t2, t2c[1], 1e-5, "tcc-cas-t2")
    else:
        rec.check(dev > 1e-5, "tcc-option", "FCI option %r has no effect" % (fo,))


def raise_skip(msg):
    from vlib.engine import Skip

    raise Skip(msg)


def full_complement(x):
    u = np.linalg.svd(x, full_matrices=True)[0]
    return u[:, x.shape[1] :]


def block(a, b):
    import scipy.linalg

    return scipy.linalg.block_diag(a, b)


# ---------------------------------------------------------------------------------------------------- external correction
def cluster_det(key, fy):
    orc = I.Oracle(key, fy.cluster)
    return orc, det_of(orc, [0 * x for x in orc.f])


def rot_t(t1, t2, ro, rv):
    """Amplitudes (per spin) rotated with t'_IA = R_Ii R_Aa t_ia."""
    o1 = tuple(ro[s] @ t1[s] @ rv[s].T for s in (0, 1))
    o2 = tuple(np.einsum("ijab,Ii,Jj,Aa,Bb->IJAB", t2[k], ro[s], ro[t], rv[s], rv[t], optimize=True) for k, (s, t) in enumerate(((0, 0), (0, 1), (1, 1))))
    return o1, o2


def proj_t(t1, t2, p, n):
    if n == 0:
        return t1, t2
    t1 = tuple(p[s] @ t1[s] for s in (0, 1))
    return t1, proj2(t2, p, n)


def proj2(t2, p, n):
    if n == 0:
        return t2
    out = []
    for k, (s, t) in enumerate(((0, 0), (0, 1), (1, 1))):
        x = t2[k]
        if n == 1:
            out.append(0.5 * (np.einsum("xi,ijab->xjab", p[s], x) + np.einsum("xj,ijab->ixab", p[t], x)))
        else:
            out.append(np.einsum("xi,yj,ijab->xyab", p[s], p[t], x))
    return tuple(out)


def t3_tensors(det, psi, t1, t2):
    phi = det.exp(t1, t2, psi / psi[0, 0], -1)
    return {w: det.sp.excitation(w, phi) for w in ("aaa", "aab", "abb", "bbb")}


def spin_orbital_t3(t3, no, nv):
    """Fully antisymmetric tensor over spin orbitals (alpha block first)."""
    o = {"a": slice(0, no[0]), "b": slice(no[0], sum(no))}
    v = {"a": slice(0, nv[0]), "b": slice(nv[0], sum(nv))}
    out = np.zeros((sum(no),) * 3 + (sum(nv),) * 3)
    perms = list(itertools.permutations(range(3)))
    sgn = {p: np.linalg.det(np.eye(3)[list(p)]) for p in perms}
    for w, t in t3.items():
        done = set()
        for p in perms:
            for q in perms:
                ow, vw = "".join(w[k] for k in p), "".join(w[k] for k in q)
                if (ow, vw, p, q) in done:
                    continue
                blk = t.transpose(*p, *[3 + k for k in q]) * sgn[p] * sgn[q]
                out[o[ow[0]], o[ow[1]], o[ow[2]], v[vw[0]], v[vw[1]], v[vw[2]]] = blk
    return out


def t3v(key, orcy, t3, cx, no, nv):
    """<ij,ab|[V,T3]|0> with V in the space cx = (occ per spin, vir per spin), its uncontracted index left in that space:
    returns the two contributions (open virtual b; open occupied j), as spin blocks t2[ij; a, B] and t2[i, J; ab]."""
    h, g, f, dm = I.ops_ao(key)
    yo = [orcy.c[s][:, : no[s]] for s in (0, 1)]
    yv = [orcy.c[s][:, no[s] :] for s in (0, 1)]
    t = spin_orbital_t3(t3, no, nv)

    def so(c):
        n = [x.shape[1] for x in c]
        full = np.zeros((2, c[0].shape[0], sum(n)))
        full[0, :, : n[0]] = c[0]
        full[1, :, n[0] :] = c[1]
        return full

    # integrals of the low-level cluster: indices of y are represented within x
    ovlp = I.get_mf(key).get_ovlp()
    yo = [c @ c.T @ ovlp @ x for c, x in zip(cx[0], yo)]
    yv = [c @ c.T @ ovlp @ x for c, x in zip(cx[1], yv)]
    yo, yv, xo, xv = so(yo), so(yv), so(cx[0]), so(cx[1])

    def v(p, q, r, s):
        """<pq||rs>"""
        pr = np.einsum("tap,tbr,abcd->prcd", p, r, g, optimize=True)
        d = np.einsum("prcd,tcq,tds->pqrs", pr, q, s, optimize=True)
        ps = np.einsum("tap,tbs,abcd->pscd", p, s, g, optimize=True)
        e = np.einsum("pscd,tcq,tdr->pqrs", ps, q, r, optimize=True)
        return d - e

    vb = v(xv, yo, yv, yv)  # <Bm||ef>
    r_vir = 0.5 * np.einsum("bmef,ijmaef->ijab", vb, t, optimize=True)  # b in x
    vo = v(yo, yo, xo, yv)  # <mn||Je>
    r_occ = -0.5 * np.einsum("mnje,imnabe->ijab", vo, t, optimize=True)  # j in x
    return r_vir, r_occ


def run_ext(c, rec):
    import vayesta.ewf

    key = c["sys"]
    mf = I.get_mf(key)
    uhf = I.SYS[key][3].startswith("uhf")
    bo = {"dmet": dict(bathtype="dmet"), "full": dict(bathtype="full"), "part": dict(bathtype="mp2", threshold=1e-3)}[c["xb"]]
    emb = vayesta.ewf.EWF(mf, bath_options=bo, solver_options=dict(TIGHT, solve_lambda=False))
    natom = mf.mol.natm
    with emb.sao_fragmentation() as f:
        fcis = [f.add_atomic_fragment(i, solver="FCI", bath_options=dict(bathtype="dmet"), auxiliary=True, solver_options=dict(conv_tol=1e-13)) for i in range(natom)]
        fx = f.add_atomic_fragment(1, solver="extCCSD")
    donors = {"self": [1], "all": list(range(natom)), "other": [i for i in range(natom) if i != 1]}[c["donors"]]
    ct, low, n = c["ct"], None, c["proj"]
    plan = []
    for k, i in enumerate(donors):
        if ct.startswith("external"):
            plan.append((i, "external", ct.endswith("low")))
        elif ct == "mixed":
            plan.append((i, "external" if k % 2 == 0 else "delta-tailor", True))
        else:
            plan.append((i, ct, True))
    for i, typ, low in plan:
        fx.add_external_corrections([fcis[i]], typ, projectors=n, **({} if typ != "external" else dict(low_level_coul=low)))
    try:
        emb.kernel()
    except AssertionError:
        raise_skip("reference CCSD of a donor did not converge")
    rec.step(len(donors))
    if not fx.results.converged:
        raise_skip("corrected CCSD did not converge")
    s = mf.get_ovlp()
    orcx, detx = cluster_det(key, fx)
    if detx.h.shape[0] > 900:
        raise_skip("cluster too large")
    rec.state(key, c["xb"], ct, n, c["donors"], orcx.n)
    t1, t2 = as_u(fx.results.wf.t1, fx.results.wf.t2, uhf)
    _, r1, r2 = detx.residual(t1, t2)
    u1 = tuple(t1[k] + r1[k] / detx.d1[k] for k in (0, 1))
    u2 = tuple(t2[k] + r2[k] / detx.d2[k] for k in (0, 1, 2))
    d1 = [np.zeros_like(x) for x in t1]
    d2 = [np.zeros_like(x) for x in t2]
    biggest = 0
    for i, typ, low in plan:
        fy = fcis[i]
        orcy, dety = cluster_det(key, fy)
        e, v = dety.ground(None if uhf else 0.0)
        if v.shape[1] > 1:
            raise_skip("degenerate donor ground state")
        psi = v[:, 0].reshape(dety.sp.shape)
        if abs(psi[0, 0]) < 0.2:
            raise_skip("multi-reference donor")
        ty1, ty2 = dety.cc_amplitudes(psi)
        cf = list(fy.c_frag) if uhf else [fy.c_frag] * 2
        ro, rv, p, px = [], [], [], []
        for sp in (0, 1):
            xo, xv = orcx.c[sp][:, : orcx.no[sp]], orcx.c[sp][:, orcx.no[sp] :]
            yo, yv = orcy.c[sp][:, : orcy.no[sp]], orcy.c[sp][:, orcy.no[sp] :]
            ro.append(xo.T @ s @ yo)
            rv.append(xv.T @ s @ yv)
            a = yo.T @ s @ cf[sp]
            p.append(a @ a.T)
            b = xo.T @ s @ cf[sp]
            px.append(b @ b.T)
        if typ == "tailor":
            x1, x2 = rot_t(u1, u2, [r.T for r in ro], [r.T for r in rv])
            y1 = tuple(a - b for a, b in zip(ty1, x1))
            y2 = tuple(a - b for a, b in zip(ty2, x2))
        elif typ == "delta-tailor":
            ref = dety.ccsd()
            if ref is None:
                raise_skip("reference CCSD did not converge")
            y1 = tuple(a - b for a, b in zip(ty1, ref[0]))
            y2 = tuple(a - b for a, b in zip(ty2, ref[1]))
        else:
            # the exact wave function has no residual: what T3 and T4 contribute is minus the residual of T1 and T2
            _, q1, q2 = dety.residual(ty1, ty2)
            y1, y2 = tuple(-x for x in q1), tuple(-x for x in q2)
            if low:
                t3 = t3_tensors(dety, psi, ty1, ty2)
                noy, nvy = orcy.no, [a - b for a, b in zip(orcy.n, orcy.no)]
                sub = []
                yc = ([orcy.c[q][:, : noy[q]] for q in (0, 1)], [orcy.c[q][:, noy[q] :] for q in (0, 1)])
                xc = ([orcx.c[q][:, : orcx.no[q]] for q in (0, 1)], [orcx.c[q][:, orcx.no[q] :] for q in (0, 1)])
                yy = t3v(key, orcy, t3, yc, noy, nvy)
                xx = t3v(key, orcy, t3, xc, noy, nvy)
                y2 = tuple(a - b for a, b in zip(y2, blocks2(*yy, noy, nvy, noy, nvy, None)))
                nvx = [a - b for a, b in zip(orcx.n, orcx.no)]
                z2 = blocks2(*xx, noy, nvy, orcx.no, nvx, (ro, rv))
                z2 = proj2(z2, px, n)
        y1, y2 = proj_t(y1, y2, p, n)
        y1, y2 = rot_t(y1, y2, ro, rv)
        if typ == "external":
            if low:
                y2 = tuple(a + b for a, b in zip(y2, z2))
            y1 = tuple(a / b for a, b in zip(y1, detx.d1))
            y2 = tuple(a / b for a, b in zip(y2, detx.d2))
        for k in range(2):
            d1[k] += y1[k]
        for k in range(3):
            d2[k] += y2[k]
        biggest = max(biggest, max(abs(x).max(initial=0) for x in y1 + y2))
    rec.out(biggest > 1e-6)
    for k in range(2):
        rec.close(t1[k], u1[k] + d1[k], 1e-5, "ext-t1", "correction size %.1e" % biggest)
    for k in range(3):
        rec.close(t2[k], u2[k] + d2[k], 1e-5, "ext-t2", "correction size %.1e" % biggest)


def blocks2(r_vir, r_occ, noy, nvy, nox, nvx, rot):
    """Antisymmetrised aa/ab/bb doubles from the two spin-orbital contributions; closed indices are rotated from y to x."""
    if rot is not None:
        ro = block(rot[0][0], rot[0][1])
        rv = block(rot[1][0], rot[1][1])
        r_vir = np.einsum("ijaB,Ii,Jj,Aa->IJAB", r_vir, ro, ro, rv, optimize=True)
        r_occ = np.einsum("iJab,Ii,Aa,Bb->IJAB", r_occ, ro, rv, rv, optimize=True)
    r = r_vir - r_vir.transpose(0, 1, 3, 2) + r_occ - r_occ.transpose(1, 0, 2, 3)
    o = [slice(0, nox[0]), slice(nox[0], sum(nox))]
    v = [slice(0, nvx[0]), slice(nvx[0], sum(nvx))]
    return tuple(r[o[a], o[b], v[a], v[b]] for a, b in ((0, 0), (0, 1), (1, 1)))
