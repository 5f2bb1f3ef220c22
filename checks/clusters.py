"""C04  Clusters are valid subspaces for every bath type and truncation."""
import functools
import itertools
import numpy as np

from vlib import systems as S

PROPERTY = "C04"
LEVEL = "exploration"
TECHNIQUE = (
    "exhaustive enumeration of (fragment, bath construction, chain of truncations) on the real code; each cluster checked against projectors and "
    "an independent spin-orbital MP2 natural-orbital bath built from PySCF integrals"
)
RULE = (
    "one case per (system, reference, fragment, bath construction); each walks the whole chain of truncations from nothing to everything kept and "
    "checks every cluster on the chain"
)
BOUNDS = "molecules with 4-13 orbitals, RHF/UHF, exact and density-fitted integrals, every single-atom and pair fragment; 5 truncation rules with 8-14 values each, 8 projection modes, orders 0-2"
ASSUMPTIONS = ["PySCF integrals and mean-field matrices are correct", "no accidental near-degeneracy at a truncation (those points are not compared)"]

TOL = 1e-6


def setup(tier):
    global EWF, lattmod
    from vayesta.ewf import EWF
    from vayesta import lattmod


@functools.lru_cache(maxsize=None)
def get_mf(name, basis, spin, kind, df):
    if name.startswith("hub"):
        n = int(name[3:])
        mol = lattmod.Hubbard1D(n, nelectron=n, hubbard_u=3.0)
        mol.spin = spin
        mf = (lattmod.LatticeRHF if kind == "rhf" else lattmod.LatticeUHF)(mol)
        mf.conv_tol = 1e-12
        mf.kernel()
        return mf
    if kind.endswith("~"):
        return S.rotated_mf(name, basis, spin, 0, kind[:-1], df)
    return S.mf(name, basis, spin, 0, kind, df)


@functools.lru_cache(maxsize=None)
def ao_eri(name, basis, spin, kind, df):
    import pyscf.ao2mo

    mf = get_mf(name, basis, spin, kind, df)
    if name.startswith("hub"):
        return mf.mol.get_eri()
    nao = mf.mol.nao
    if df:
        l = np.vstack([x for x in mf.with_df.loop()])
        import pyscf.lib

        l = pyscf.lib.unpack_tril(l)
        return np.einsum("Lij,Lkl->ijkl", l, l)
    return mf.mol.intor("int2e").reshape(4 * [nao])


SYS = [
    # name basis spin kind df  ftype  fragments (lists of atoms)
    ("h2o_asym", "6-31g", 0, "rhf", False, "iao", [[0], [1], [0, 2]]),
    ("h4", "6-31g", 0, "rhf", False, "iao", [[0], [1, 2]]),
    ("lih", "6-31g", 0, "rhf", True, "iaopao", [[0], [1]]),
    ("h4", "6-31g", 0, "rhf~", False, "sao", [[1]]),
    ("h3", "6-31g", 1, "uhf", False, "iao", [[0], [1, 2]]),
    ("beh", "6-31g", 1, "uhf", True, "iao", [[0], [1]]),
    ("h4", "6-31g", 2, "uhf", False, "iaopao", [[1], [0, 3]]),
    ("h4", "6-31g", -2, "uhf~", False, "iao", [[0]]),
    ("hub8", "", 0, "rhf", False, "site", [[0], [0, 1, 2]]),
    ("hub8", "", 0, "uhf", False, "site", [[0, 1]]),
]
MORE = [
    ("h2o_asym", "6-31g", 0, "uhf", False, "iao", [[0], [1], [2], [1, 2]]),
    ("oh", "6-31g", 1, "uhf", False, "iao", [[0], [1]]),
    ("h6chain", "6-31g", 0, "rhf", False, "iao", [[0], [1], [2], [0, 1], [2, 3]]),
    ("h4", "cc-pvdz", 0, "rhf", True, "iao", [[0], [1]]),
]
MODES = ["full", "half", "linear", "cosine", "cosine-half", "entropy", "sqrt-entropy", "squared-entropy"]
RULES = {
    "number": [0, 1, 2, 3, 4, 5, 6, 8, 50],
    "occupation": [10.0, 1e-1, 3e-2, 1e-2, 3e-3, 1e-3, 3e-4, 1e-4, 1e-5, 1e-6, 1e-8, -1.0],
    "truncation": [100.0, 1e-1, 3e-2, 1e-2, 3e-3, 1e-3, 3e-4, 1e-4, 1e-6, 0.0],
    "electron-percent": [1.0, 0.5, 1e-1, 1e-2, 3e-3, 1e-3, 3e-4, 1e-4, 1e-6, 0.0],
    "excited-percent": [1.0, 0.9, 0.6, 0.3, 0.1, 1e-2, 1e-3, 1e-5, 0.0],
}
# option: fixed settings and values; every (general, occupied-specific, virtual-specific) combination is compared with
# the one in which both specific values are spelled out
GRID = {
    "threshold": (dict(bathtype="mp2", truncation="number"), [0, 2]),
    "canonicalize": (dict(bathtype="mp2", truncation="number", threshold=2), [False, True]),
    "bathtype": (dict(truncation="number", threshold=1), ["dmet", "mp2", "full"]),
    "truncation": (dict(bathtype="mp2", threshold=1), ["number", "occupation"]),
    "order": (dict(bathtype="ewdmet"), [0, 1]),
    "project_dmet_order": (dict(bathtype="mp2", truncation="number", threshold=1), [0, 1]),
}


def cases(tier):
    out = []
    for d in SYS + (MORE if tier == "thorough" else []):
        for fr in d[6]:
            base = dict(sys=list(d[:6]), frag=fr)
            for t in RULES:
                out.append(dict(base, bath="mp2", rule=t, order=2, mode="squared-entropy"))
                out.append(dict(base, bath="mp2", rule=t, order=0, mode="full"))
            for o in (1, 2):
                for m in MODES:
                    if (o, m) != (2, "squared-entropy"):
                        out.append(dict(base, bath="mp2", rule="occupation", order=o, mode=m))
            if "u" not in d[3][0]:
                out.append(dict(base, bath="mp2", rule="occupation", order=2, mode="full", buffer=True))
                out.append(dict(base, bath="mp2", rule="number", order=0, mode="full", buffer=True))
                out.append(dict(base, bath="ewdmet"))
                if len(fr) == 1 and d[5] != "site":
                    out.append(dict(base, bath="r2", unit="Ang"))
                    out.append(dict(base, bath="r2", unit="Bohr"))
            if d[3] == "rhf" and d[4]:
                for t in ("occupation", "number"):
                    out.append(dict(base, bath="rpa", rule=t))
            # occupied/virtual-specific settings, every combination of kinds
            kinds = ["dmet", "full", "mp2"] + (["ewdmet"] if "u" not in d[3][0] else [])
            for a, b in itertools.product(kinds, repeat=2):
                out.append(dict(base, bath="mixed", occ=a, vir=b))
            for a, b in itertools.product(["number", "occupation", "truncation"], repeat=2):
                out.append(dict(base, bath="mixedrule", occ=a, vir=b))
            for key in GRID:
                if key == "order" and "u" in d[3][0]:
                    continue
                out.append(dict(base, bath="grid", key=key))
    return out


# ------------------------------------------------------------------- reference


def dmet_space(mf, cf):
    """Per spin: (cluster_occ, cluster_vir, dmet orbitals, their occupation in [0,1], env_occ, env_vir, clean?)"""
    s = mf.get_ovlp()
    uhf = np.ndim(mf.mo_coeff[0]) == 2
    out = []
    for sp in range(2):
        c = mf.mo_coeff[sp] if uhf else mf.mo_coeff
        o = (mf.mo_occ[sp] if uhf else mf.mo_occ) > 0
        f = cf[sp]
        ro = c[:, o].T @ s @ f
        rv = c[:, ~o].T @ s @ f
        uo, so, vo = np.linalg.svd(ro, full_matrices=True)
        uv, sv, vv = np.linalg.svd(rv, full_matrices=True)
        so = np.concatenate([so, np.zeros(uo.shape[1] - len(so))])
        sv = np.concatenate([sv, np.zeros(uv.shape[1] - len(sv))])
        clean = not any(np.any((x**2 > 1e-11) & (x**2 < 1e-6)) for x in (so, sv))
        mo, mv = so**2 > 1e-8, sv**2 > 1e-8
        co, cv = c[:, o] @ uo[:, mo], c[:, ~o] @ uv[:, mv]
        eo, ev = c[:, o] @ uo[:, ~mo], c[:, ~o] @ uv[:, ~mv]
        # DMET bath = part of the cluster orthogonal to the fragment
        clu = np.hstack([co, cv])
        p = clu.T @ s @ f
        w, x = np.linalg.eigh(p @ p.T)
        bath = clu @ x[:, w < 0.5]
        d = c[:, o] @ c[:, o].T
        n, x = np.linalg.eigh(bath.T @ s @ d @ s @ bath) if bath.shape[1] else (np.zeros(0), np.zeros((0, 0)))
        out.append((co, cv, bath @ x, np.clip(n, 0, 1), eo, ev, clean))
    return out


def weights(mode, e):
    return {
        "full": lambda: np.zeros(len(e)),
        "half": lambda: np.full(len(e), 0.5),
        "linear": lambda: 2 * np.minimum(e, 1 - e),
        "cosine": lambda: (1 - np.cos(2 * np.pi * e)) / 2,
        "cosine-half": lambda: (1 - np.cos(2 * np.pi * e)) / 4,
        "entropy": lambda: 4 * e * (1 - e),
        "sqrt-entropy": lambda: 2 * np.sqrt(e * (1 - e)),
        "squared-entropy": lambda: (4 * e * (1 - e)) ** 2,
    }[mode]()


def ref_mp2_bno(mf, eri, cf, space, occtype, order, mode, buffer=False):
    """Spin-orbital MP2 density in the environment; returns per spin (occupations descending, orbitals)."""
    s = mf.get_ovlp()
    uhf = np.ndim(mf.mo_coeff[0]) == 2
    fock = mf.get_fock()
    fock = fock if uhf else (fock, fock)
    occ, vir, eo, ev = [], [], [], []
    for sp in range(2):
        co, cv, _, _, no, nv, _ = space[sp]
        if occtype == "occupied":
            o, v = np.hstack([co, no]), cv
        else:
            o, v = (np.hstack([co, no]) if buffer else co), np.hstack([cv, nv])
        e1, x = np.linalg.eigh(o.T @ fock[sp] @ o)
        e2, y = np.linalg.eigh(v.T @ fock[sp] @ v)
        occ.append(o @ x)
        vir.append(v @ y)
        eo.append(e1)
        ev.append(e2)
    no = [x.shape[1] for x in occ]
    nv = [x.shape[1] for x in vir]
    NO, NV = sum(no), sum(nv)
    g = np.zeros((NO, NV, NO, NV))  # (ia|jb), spin-orbital
    so = [slice(0, no[0]), slice(no[0], NO)]
    sv = [slice(0, nv[0]), slice(nv[0], NV)]
    for a in range(2):
        for b in range(2):
            g[so[a], sv[a], so[b], sv[b]] = np.einsum("pqrs,pi,qa,rj,sb->iajb", eri, occ[a], vir[a], occ[b], vir[b], optimize=True)
    e = np.concatenate(eo)[:, None] - np.concatenate(ev)[None]
    d = e[:, :, None, None] + e[None, None]
    t = (g - g.transpose(0, 3, 2, 1)) / d  # t_iajb antisymmetric
    if order:
        which = vir if occtype == "occupied" else occ
        P = np.zeros((NV, NV)) if occtype == "occupied" else np.zeros((NO, NO))
        sl = sv if occtype == "occupied" else so
        for sp in range(2):
            c = np.hstack([cf[sp], space[sp][2]])
            w = np.concatenate([np.ones(cf[sp].shape[1]), weights(mode, space[sp][3])])
            r = which[sp].T @ s @ c
            P[sl[sp], sl[sp]] = (r * w) @ r.T
        if occtype == "occupied":
            t1 = np.einsum("xa,iajb->ixjb", P, t)
            t = (t1 + np.einsum("xb,iajb->iajx", P, t)) / 2 if order == 1 else np.einsum("yb,ixjb->ixjy", P, t1)
        else:
            t1 = np.einsum("xi,iajb->xajb", P, t)
            t = (t1 + np.einsum("xj,iajb->iaxb", P, t)) / 2 if order == 1 else np.einsum("yj,xajb->xayb", P, t1)
    if occtype == "occupied":
        dm = np.einsum("iakb,jakb->ij", t, t) / 2
    else:
        dm = np.einsum("iakc,ibkc->ab", t, t) / 2
    out = []
    for sp in range(2):
        c = occ[sp] if occtype == "occupied" else vir[sp]
        sl = so[sp] if occtype == "occupied" else sv[sp]
        env = space[sp][4] if occtype == "occupied" else space[sp][5]
        r = env.T @ s @ c
        n, x = np.linalg.eigh(r @ dm[sl, sl] @ r.T)
        out.append((n[::-1], env @ x[:, ::-1]))
    return out


def want_number(rule, x, n, nelec):
    """(number to keep or None if numerically undecidable) straight from the documented rules."""
    n = np.asarray(n)
    if len(n) == 0:
        return 0
    eps = 1e-8
    if rule == "number":
        return min(x, len(n))
    if rule == "occupation":
        if np.any(abs(n - x) < eps):
            return None
        return int(np.sum(n >= x))
    pos = np.clip(n, 0, None)
    tot = pos.sum()
    cum = np.concatenate([[0], np.cumsum(pos)])
    left = tot - cum  # neglected electrons if k are kept
    if rule == "truncation":
        lim = x
    elif rule == "electron-percent":
        lim = x * nelec
    else:
        lim = x * tot
    ok = np.nonzero(left <= lim)[0]
    if np.any(abs(left - lim) < 1e-9):
        return None
    return int(ok[0]) if len(ok) else len(n)


# ------------------------------------------------------------------- driver


def make_cluster(rec, mf, ftype, frag, opts, fresh=None):
    emb = rec.call("construct", EWF, mf, bath_options=dict(opts))
    with getattr(emb, ftype + "_fragmentation")() as f:
        fx = f.add_atomic_fragment(frag)
    rec.call("make_bath %r" % opts, fx.make_bath)
    rec.call("make_cluster %r" % opts, fx.make_cluster)
    rec.step()
    return fx


def two(x, uhf):
    return [x[0], x[1]] if uhf else [x, x]


def proj(c):
    return c @ c.T


def basics(rec, mf, fx, space, what):
    s = mf.get_ovlp()
    uhf = np.ndim(mf.mo_coeff[0]) == 2
    cl = fx.cluster
    parts = {k: two(getattr(cl, k), uhf) for k in ("c_active_occ", "c_active_vir", "c_frozen_occ", "c_frozen_vir", "c_active", "c_frozen", "c_total")}
    cf = two(fx.c_frag, uhf)
    for sp in range(2 if uhf else 1):
        c = mf.mo_coeff[sp] if uhf else mf.mo_coeff
        o = (mf.mo_occ[sp] if uhf else mf.mo_occ) > 0
        full = np.hstack([parts[k][sp] for k in ("c_frozen_occ", "c_active_occ", "c_active_vir", "c_frozen_vir")])
        if full.shape[1] != c.shape[1]:
            rec.fail("active and frozen orbitals do not span the space", "%s: %s orbitals of %s" % (what, full.shape[1], c.shape[1]))
            return
        rec.close(full.T @ s @ full, np.eye(full.shape[1]), TOL, "orbitals orthonormal [%s]" % what)
        po = proj(np.hstack([parts["c_frozen_occ"][sp], parts["c_active_occ"][sp]]))
        rec.close(po, proj(c[:, o]), TOL, "occupied cluster space [%s]" % what)
        act = np.hstack([parts["c_active_occ"][sp], parts["c_active_vir"][sp]])
        rec.close(parts["c_active"][sp], act, 1e-12, "c_active = occupied + virtual")
        rec.close(proj(np.hstack([parts["c_frozen_occ"][sp], parts["c_frozen_vir"][sp]])), proj(parts["c_frozen"][sp]), 1e-10, "c_frozen")
        rec.close(proj(parts["c_total"][sp]), proj(full), 1e-8, "c_total")
        # fragment and DMET bath inside the active space
        for tgt, nm in ((cf[sp], "fragment"), (space[sp][0], "DMET occupied"), (space[sp][1], "DMET virtual")):
            res = tgt - act @ (act.T @ s @ tgt)
            rec.check(np.abs(res).max(initial=0) < 1e-5, "%s orbitals in the cluster [%s]" % (nm, what), np.abs(res).max(initial=0))
        idx = cl.get_active_indices()
        idx = idx[sp] if uhf else idx
        ref = list(range(parts["c_frozen_occ"][sp].shape[1], parts["c_frozen_occ"][sp].shape[1] + act.shape[1]))
        rec.check(list(idx) == ref, "get_active_indices", (idx, ref))
    return parts


def nbath(parts, space, uhf):
    return [
        (parts["c_active_occ"][sp].shape[1] - space[sp][0].shape[1], parts["c_active_vir"][sp].shape[1] - space[sp][1].shape[1])
        for sp in range(2 if uhf else 1)
    ]


def run(case, rec):
    name, basis, spin, kind, df, ftype = case["sys"]
    mf = get_mf(name, basis, spin, kind, df)
    uhf = np.ndim(mf.mo_coeff[0]) == 2
    s = mf.get_ovlp()
    eri = ao_eri(name, basis, spin, kind, df)
    fx = make_cluster(rec, mf, ftype, case["frag"], dict(bathtype="dmet"))
    cf = two(fx.c_frag, uhf)
    space = dmet_space(mf, cf)
    if not all(x[6] for x in space):
        rec.out("borderline DMET occupation")
        return
    spins = range(2 if uhf else 1)
    parts = basics(rec, mf, fx, space, "dmet")
    for sp in spins:
        rec.close(proj(parts["c_active_occ"][sp]), proj(space[sp][0]), 1e-5, "DMET-only cluster, occupied")
        rec.close(proj(parts["c_active_vir"][sp]), proj(space[sp][1]), 1e-5, "DMET-only cluster, virtual")
    b = case["bath"]
    prev = None
    nelec = sum(space[sp][0].shape[1] for sp in range(2))

    def step(opts, what):
        nonlocal prev
        f = make_cluster(rec, mf, ftype, case["frag"], opts)
        p = basics(rec, mf, f, space, what)
        if p is None:
            return None
        if prev is not None:
            for sp in spins:
                for k in ("c_active_occ", "c_active_vir"):
                    res = prev[k][sp] - p[k][sp] @ (p[k][sp].T @ s @ prev[k][sp])
                    rec.check(np.abs(res).max(initial=0) < 1e-5, "clusters nested [%s %s]" % (what, k), np.abs(res).max(initial=0))
        prev = p
        return p

    def full_cluster(p, what):
        for sp in spins:
            rec.check(p["c_frozen"][sp].shape[1] == 0, "limit of keeping everything [%s]" % what, p["c_frozen"][sp].shape)

    def dmet_cluster(p, what):
        rec.check(all(x == (0, 0) for x in nbath(p, space, uhf)), "limit of keeping nothing [%s]" % what, nbath(p, space, uhf))

    if b == "mp2":
        refs = {
            o: ref_mp2_bno(mf, eri, cf, space, o, case["order"], case["mode"], case.get("buffer", False)) for o in ("occupied", "virtual")
        }
        vals = RULES[case["rule"]]
        for i, x in enumerate(vals):
            what = "%s %s" % (case["rule"], x)
            p = step(
                dict(bathtype="mp2", threshold=x, truncation=case["rule"], project_dmet_order=case["order"], project_dmet_mode=case["mode"], addbuffer=case.get("buffer", False)),
                what,
            )
            if p is None:
                return
            if i == 0:
                dmet_cluster(p, what)
            if i == len(vals) - 1 and case["rule"] in ("number", "occupation"):
                full_cluster(p, what)
            for sp in spins:
                for j, o in enumerate(("occupied", "virtual")):
                    compare_bno(rec, p, space, refs[o][sp], sp, j, case["rule"], x, nelec, s, what, uhf)
    elif b == "mixedrule":
        refs = {o: ref_mp2_bno(mf, eri, cf, space, o, 2, "squared-entropy") for o in ("occupied", "virtual")}
        for xo, xv in itertools.product(RULES[case["occ"]][1:6:2], RULES[case["vir"]][1:6:2]):
            prev = None
            what = "%s %s / %s %s" % (case["occ"], xo, case["vir"], xv)
            p = step(dict(bathtype="mp2", threshold_occ=xo, threshold_vir=xv, truncation_occ=case["occ"], truncation_vir=case["vir"]), what)
            for sp in spins:
                compare_bno(rec, p, space, refs["occupied"][sp], sp, 0, case["occ"], xo, nelec, s, what, uhf)
                compare_bno(rec, p, space, refs["virtual"][sp], sp, 1, case["vir"], xv, nelec, s, what, uhf)
    elif b == "rpa":
        for i, x in enumerate(RULES[case["rule"]]):
            p = step(dict(bathtype="rpa", threshold=x, truncation=case["rule"]), "rpa %s %s" % (case["rule"], x))
            if p is None:
                return
            if i == 0:
                dmet_cluster(p, "rpa")
            if i == len(RULES[case["rule"]]) - 1:
                full_cluster(p, "rpa")
            if case["rule"] == "number":
                for sp in spins:
                    n = nbath(p, space, uhf)[sp]
                    w = (min(x, space[sp][4].shape[1]), min(x, space[sp][5].shape[1]))
                    rec.check(n == w, "number of bath orbitals [rpa]", (n, w))
    elif b == "r2":
        center = mf.mol.atom_coord(case["frag"][0])
        with mf.mol.with_common_origin(center):
            r2 = mf.mol.intor_symmetric("int1e_r2")
        scale = 1 / 0.529177210903 if case["unit"] == "Ang" else 1.0
        for x in [0.0, 0.5, 1.0, 1.5, 2.0, 2.5, 3.0, 4.0, 6.0, 100.0]:
            p = step(dict(bathtype="r2", rcut=x, unit=case["unit"]), "r2 %s %s" % (x, case["unit"]))
            if p is None:
                return
            for sp in spins:
                for j in range(2):
                    env = space[sp][4 + j]
                    e = np.sqrt(np.clip(np.linalg.eigvalsh(env.T @ r2 @ env), 0, None)) if env.shape[1] else np.zeros(0)
                    if np.any(abs(e - x * scale) < 1e-6):
                        continue
                    n = nbath(p, space, uhf)[sp][j]
                    rec.check(n == int(np.sum(e <= x * scale)), "orbitals within the cut-off radius", "%s %s: %d of %s" % (x, case["unit"], n, e))
            if x == 0.0:
                dmet_cluster(p, "r2")
            if x == 100.0:
                full_cluster(p, "r2")
    elif b == "ewdmet":
        fock = mf.get_fock()
        for k in [0, 1, 2, 3, 4, 20]:
            p = step(dict(bathtype="ewdmet", order=k, threshold=1e-8), "ewdmet %d" % k)
            if p is None:
                return
            if k == 0:
                dmet_cluster(p, "ewdmet")
            for sp in spins:
                for j, key in enumerate(("c_active_occ", "c_active_vir")):
                    env = space[sp][4 + j]
                    if not env.shape[1] or k > 3:
                        continue
                    h = env.T @ fock @ env
                    x = env.T @ fock @ cf[sp]
                    kry = np.zeros((env.shape[1], 0))
                    for _ in range(k):
                        kry = np.hstack([kry, x / max(1e-300, np.linalg.norm(x))])
                        x = h @ x
                    if k:
                        tgt = env @ kry
                        act = p[key][sp]
                        res = tgt - act @ (act.T @ s @ tgt)
                        rec.check(np.abs(res).max() < 1e-5, "moments up to order %d in the cluster" % k, np.abs(res).max())
                        rec.check(nbath(p, space, uhf)[sp][j] <= min(k * cf[sp].shape[1], env.shape[1]), "EwDMET bath size", nbath(p, space, uhf))
    elif b == "grid":
        run_grid(case, rec, mf, ftype, spins, uhf, space)
    elif b == "mixed":
        ref = {o: ref_mp2_bno(mf, eri, cf, space, o, 2, "squared-entropy") for o in ("occupied", "virtual")}
        opts = dict(bathtype_occ=case["occ"], bathtype_vir=case["vir"], threshold=1e-8, order=20)
        if "mp2" in (case["occ"], case["vir"]):
            opts["threshold"] = 1e-3
        p = step(opts, "occupied %s / virtual %s" % (case["occ"], case["vir"]))
        if p is None:
            return
        for sp in spins:
            n = nbath(p, space, uhf)[sp]
            for j, (k, o) in enumerate(((case["occ"], "occupied"), (case["vir"], "virtual"))):
                env = space[sp][4 + j].shape[1]
                if k == "dmet":
                    rec.check(n[j] == 0, "DMET bath only [%s]" % o, n)
                elif k == "full":
                    rec.check(n[j] == env, "full bath [%s]" % o, (n, env))
                elif k == "mp2":
                    compare_bno(rec, p, space, ref[o][sp], sp, j, "occupation", 1e-3, nelec, s, "mixed", uhf)
    rec.out([x for x in nbath(prev or parts, space, uhf)])


def run_grid(case, rec, mf, ftype, spins, uhf, space):
    key = case["key"]
    fixed, vals = GRID[key]
    fock = two(mf.get_fock(), uhf)
    memo = {}

    def cluster(opts, what):
        fx = make_cluster(rec, mf, ftype, case["frag"], dict(fixed, **opts))
        return basics(rec, mf, fx, space, what)

    for o, v in itertools.product(vals, repeat=2):
        memo[o, v] = p = cluster({key + "_occ": o, key + "_vir": v}, "%s_occ=%s, %s_vir=%s" % (key, o, key, v))
        if p is None:
            return
        for sp in spins:
            if key == "canonicalize":
                for k, want in (("c_active_occ", o), ("c_active_vir", v)):
                    f = p[k][sp].T @ fock[sp] @ p[k][sp]
                    d = np.diag(f)
                    if want:
                        rec.close(f, np.diag(d), 1e-8, "canonicalised orbitals diagonalise the Fock matrix [%s]" % k)
                        rec.check(np.all(np.diff(d) > -1e-9), "canonicalised orbitals are sorted", d)
                    else:
                        # cluster orbitals first: the leading ones are the DMET cluster
                        j = ("c_active_occ", "c_active_vir").index(k)
                        n = space[sp][j].shape[1]
                        rec.close(proj(p[k][sp][:, :n]), proj(space[sp][j]), 1e-5, "without canonicalisation, the DMET cluster comes first [%s]" % k)
            elif key in ("threshold", "order"):
                n = nbath(p, space, uhf)[sp]
                for j, x in enumerate((o, v)):
                    rec.check(n[j] <= (x if key == "threshold" else 99 * x), "bath size [%s]" % key, (n, o, v))
                    if key == "threshold":
                        rec.check(n[j] == min(x, space[sp][4 + j].shape[1]), "bath size [%s]" % key, (n, o, v))
    for g, o, v in itertools.product(vals, [None] + vals, [None] + vals):
        opts = {key: g}
        if o is not None:
            opts[key + "_occ"] = o
        if v is not None:
            opts[key + "_vir"] = v
        if o is not None and v is not None and g == vals[0] and key != "threshold":
            continue
        p = cluster(opts, "%r" % opts)
        if p is None:
            continue
        r = memo[g if o is None else o, g if v is None else v]
        for sp in spins:
            for k in ("c_active_occ", "c_active_vir", "c_frozen_occ", "c_frozen_vir"):
                if rec.check(p[k][sp].shape == r[k][sp].shape, "specific option replaces the general one", "%s %r: %s, expected %s" % (k, opts, p[k][sp].shape, r[k][sp].shape)):
                    rec.close(proj(p[k][sp]), proj(r[k][sp]), 1e-7, "specific option replaces the general one [%s %r]" % (k, opts))
                    if key == "canonicalize":
                        rec.close(np.abs(p[k][sp].T @ fock[sp] @ p[k][sp]), np.abs(r[k][sp].T @ fock[sp] @ r[k][sp]), 1e-7, "canonicalisation option [%s %r]" % (k, opts))


def compare_bno(rec, p, space, ref, sp, j, rule, x, nelec, s, what, uhf):
    n, c = ref
    key = ("c_active_occ", "c_active_vir")[j]
    got = p[key][sp].shape[1] - space[sp][j].shape[1]
    w = want_number(rule, x, n, nelec)
    o = ("occupied", "virtual")[j]
    if w is None:
        return
    rec.check(got == w, "number of %s bath orbitals [%s]" % (o, what), "%d, expected %d, occupations %s" % (got, w, np.array2string(n, precision=4)))
    if got != w or w in (0, len(n)):
        return
    if n[w - 1] - n[w] < 1e-4 * n[w - 1] + 1e-9:
        return
    act = p[key][sp]
    rec.close(proj(act), proj(np.hstack([space[sp][j], c[:, :w]])), max(1e-5, 1e-9 / (n[w - 1] - n[w])), "%s bath natural orbitals [%s]" % (o, what))
