"""C18  Dumped cluster files contain each cluster's complete, exact Hamiltonian; external results fed back equal the built-in solver's.

The file is read like an external program would read it; Hamiltonians are recomputed from AO integrals and the orbitals in the file, the dumped problems are
solved and reassembled without the package, and all words of dump runs over files are compared with a model (file -> fragment -> content).
"""
import itertools
import os
import shutil
import tempfile

import numpy as np

from vlib import probe
from vlib import systems as S
from vlib.engine import Skip

PROPERTY = "C18"
LEVEL = "model_checking"
TECHNIQUE = (
    "explicit-state model checking of dump/restore histories: all words of dump runs over two files executed on the real solver and compared with a model of the file contents; "
    "plus exhaustive enumeration of (system, spin, fragmentation, bath, potential, fragment subset, result kind)"
)
RULE = "one case per configuration or per word of dump runs; all fragments and datasets inspected"
BOUNDS = (
    "molecules and lattices with up to 7 orbitals, restricted and unrestricted, 3-4 baths, with and without potential, all subsets of active fragments, symmetry-generated fragments; "
    "words of up to 3 runs over 2 files and 4 runs (quick: 2 of 3 letters); 6 kinds of externally computed results"
)
ASSUMPTIONS = ["dumping a fragment which is already in the file may be refused (exception) but not corrupt the file"]

SYS = {
    # key: (geometry, basis, spin, kind, df)
    "h4": ("h4", "sto-3g", 0, "rhf", False),
    "lih": ("lih", "sto-3g", 0, "rhf", False),
    "lihdf": ("lih", "sto-3g", 0, "rhf", True),
    "h4u": ("h4", "sto-3g", 0, "uhf", False),
    "h3": ("h3", "sto-3g", 1, "uhf", False),
    "h4t": ("h4", "sto-3g", 2, "uhf", False),
    "beh": ("beh", "sto-3g", 1, "uhf", False),
    "behdf": ("beh", "sto-3g", 1, "uhf", True),
    "h2b": ("h2", "6-31g", 0, "rhf", False),
}
SYM = {"h4rect2": ("h4rect2", "sto-3g", 0, "rhf", False), "h4rect2u": ("h4rect2", "sto-3g", 0, "uhf", False)}
BATHS = {
    "dmet": dict(bathtype="dmet"),
    "full": dict(bathtype="full"),
    "mp2": dict(bathtype="mp2", threshold=2e-3),
    "occ": dict(bathtype_occ="full", bathtype_vir="dmet"),
}


def getmf(key):
    n, b, s, k, df = (SYS.get(key) or SYM[key])
    return S.mf(n, basis=b, spin=s, kind=k, df=df)


def isu(key):
    return (SYS.get(key) or SYM[key])[3] == "uhf"


def build(key, frag, bath, solver, so=None, cpt=0.0, active=None, **kw):
    import vayesta.ewf

    mf = getmf(key)
    emb = vayesta.ewf.EWF(mf, solver=solver, bath_options=dict(BATHS[bath]), solver_options=so or {}, global_frag_chempot=cpt, **kw)
    with getattr(emb, frag + "_fragmentation")() as f:
        if key in SYM:
            with f.rotational_symmetry(2, axis="z"):
                f.add_atomic_fragment(0)
                f.add_atomic_fragment(1)
        else:
            f.add_all_atomic_fragments()
    if active is not None:
        for x, a in zip(emb.fragments, active):
            x.active = bool(a)
    return emb


# ---------------------------------------------------------------- cases
def cases(tier):
    full = tier == "thorough"
    out = []
    for key in list(SYS) + list(SYM):
        for frag in ("iao", "sao"):
            if key == "h2b" and frag == "iao":
                frag = "iaopao"
            for bath, cpt in itertools.product(BATHS, (0.0, 0.07)):
                if key in SYM and cpt and not full:
                    continue
                out.append(dict(k="file", sys=key, frag=frag, bath=bath, cpt=cpt, active=None))
    for key in ("h4", "h3", "lih"):
        n = len(getmf_atoms(key))
        for act in itertools.product((0, 1), repeat=n):
            if any(act) and not all(act):
                out.append(dict(k="file", sys=key, frag="sao", bath="dmet", cpt=0.0, active=list(act)))
    letters = [(f, r) for f in (0, 1) for r in ("lih", "lih-0", "h4", "same")]
    for n in (1, 2, 3) if full else (1, 2):
        for w in itertools.product(letters, repeat=n):
            if w[0][0] == 0:
                out.append(dict(k="seq", word=[list(x) for x in w]))
    if not full:
        for w in itertools.product(letters, repeat=3):
            if w[0][0] == 0 and w[0][1] in ("lih-0", "h4") and w[1][0] != w[2][0]:
                out.append(dict(k="seq", word=[list(x) for x in w]))
    for key in ("h4", "h3", "lih"):
        for mode in ("a", "w"):
            out.append(dict(k="object", sys=key, mode=mode))
    for key in list(SYS) + list(SYM):
        for bath, res, cpt in itertools.product(("dmet", "full"), ("civec", "tl", "t", "c", "dm"), (0.0, 0.07)):
            if cpt and (res != "civec" or key in SYM) and not full:
                continue
            out.append(dict(k="cb", sys=key, bath=bath, res=res, cpt=cpt))
    return out


def getmf_atoms(key):
    n = SYS[key][0]
    return S.GEOM[n].split(";")


def cost(c):
    return {"file": 2, "cb": 5 if c.get("bath") == "full" else 3}.get(c["k"], 1)


def run(c, rec):
    d = tempfile.mkdtemp(prefix="dump", dir=os.getcwd())
    try:
        {"file": run_file, "seq": run_seq, "object": run_object, "cb": run_cb}[c["k"]](c, rec, d)
    finally:
        shutil.rmtree(d)


# ---------------------------------------------------------------- contents of one file
def read(path):
    import h5py

    out = {}
    with h5py.File(path, "r") as f:
        for g in f:
            out[g] = dict(attrs={k: np.asarray(v).tolist() for k, v in f[g].attrs.items()}, data={k: f[g][k][()] for k in f[g]})
    return out


def pair(g, name, u):
    return [g["data"][name + "_a"], g["data"][name + "_b"]] if u else [g["data"][name]] * 2


def eris_of(g, u):
    return [g["data"]["eris_" + s] for s in ("aa", "ab", "bb")] if u else [g["data"]["eris"]] * 3


def ao_ops(mf):
    n = mf.mol.nao
    h = mf.mol.intor("int1e_kin") + mf.mol.intor("int1e_nuc")
    if getattr(mf, "with_df", None) is not None:
        import pyscf.lib

        l = np.concatenate([x for x in mf.with_df.loop()])
        l = pyscf.lib.unpack_tril(l).reshape(-1, n, n)
        g = np.einsum("Lpq,Lrs->pqrs", l, l)
    else:
        g = mf.mol.intor("int2e").reshape([n] * 4)
    return h, g, mf.mol.intor("int1e_ovlp")


def vhf(g, da, db):
    j = np.einsum("pqrs,rs->pq", g, da + db)
    return [j - np.einsum("prqs,rs->pq", g, x) for x in (da, db)]


def check_group(rec, g, fx, mf, u, cpt, lab):
    h, v, s = ao_ops(mf)
    at = g["attrs"]
    rec.check(at["id"] == fx.id and at["name"] == fx.name, "identity", lab)
    c = pair(g, "c_cluster", u)
    cf = pair(g, "c_frag", u)
    cd = pair(g, "c_dmet_cluster", u)
    n = lambda k: list(np.ravel(at[k])) * (1 if np.ndim(at[k]) else 2)
    no, nv, nn = n("nocc"), n("nvir"), n("norb")
    mo = mf.mo_coeff if u else (mf.mo_coeff,) * 2
    occ = mf.mo_occ if u else (mf.mo_occ / 2,) * 2
    dm = [(x[:, y > 0]) @ x[:, y > 0].T for x, y in zip(mo, occ)]
    for i in (0, 1):
        rec.close(c[i].T @ s @ c[i], np.eye(nn[i]), 1e-9, "cluster orbitals", lab)
        rec.check(c[i].shape[1] == nn[i] == no[i] + nv[i], "orbital numbers", "%s %r %r %r %r" % (lab, c[i].shape, nn, no, nv))
        # occupied first, virtual last
        rec.close(np.diag(c[i].T @ s @ dm[i] @ s @ c[i]), [1.0] * no[i] + [0.0] * nv[i], 1e-9, "occupied orbitals first", lab)
        p = c[i] @ c[i].T @ s
        rec.close(p @ cf[i], cf[i], 1e-8, "fragment within cluster", lab)
        rec.close(p @ cd[i], cd[i], 1e-8, "DMET cluster within cluster", lab)
        pd = cd[i] @ cd[i].T @ s
        rec.close(pd @ cf[i], cf[i], 1e-8, "fragment within DMET cluster", lab)
        rec.check(cd[i].shape[1] == n("norb_dmet_cluster")[i] == n("nocc_dmet_cluster")[i] + n("nvir_dmet_cluster")[i], "DMET orbital numbers", lab)
        k = n("nocc_dmet_cluster")[i]
        rec.close(np.diag(cd[i].T @ s @ dm[i] @ s @ cd[i]), [1.0] * k + [0.0] * (cd[i].shape[1] - k), 1e-8, "DMET orbitals ordered", lab)
        x = fx.c_frag[i] if u else fx.c_frag
        rec.close(cf[i], x, 1e-12, "fragment orbitals", lab)
    # frozen core from the orbitals in the file
    core = [d - x[:, :k] @ x[:, :k].T for d, x, k in zip(dm, c, no)]
    hc = [h + x for x in vhf(v, *core)]
    fk = [h + x for x in vhf(v, *dm)]
    for i in (0, 1):
        ext = cpt * c[i].T @ s @ cf[i] @ cf[i].T @ s @ c[i]
        rec.close(pair(g, "heff", u)[i], c[i].T @ hc[i] @ c[i] + ext, 1e-8, "one-electron Hamiltonian", lab)
        rec.close(pair(g, "fock", u)[i], c[i].T @ fk[i] @ c[i] + ext, 1e-7, "Fock matrix", lab)
    for x, (i, j) in zip(eris_of(g, u), ((0, 0), (0, 1), (1, 1))):
        y = np.einsum("pqrs,pi,qj,rk,sl->ijkl", v, c[i], c[i], c[j], c[j], optimize=True)
        rec.close(x, y, 1e-8, "two-electron integrals", lab)


def solve(g, u):
    """Full CI of a dumped problem: energy, gap, wave function."""
    import pyscf.fci

    h = pair(g, "heff", u)
    e = eris_of(g, u)
    at = g["attrs"]
    no = list(np.ravel(at["nocc"])) * (1 if np.ndim(at["nocc"]) else 2)
    n = len(h[0])
    sol = pyscf.fci.direct_uhf.FCISolver()
    dim = 1
    import math

    dim = math.comb(n, no[0]) * math.comb(n, no[1])
    ham = pyscf.fci.direct_uhf.pspace(tuple(h), tuple(e), n, tuple(no), np=max(dim, 2))[1]
    addr = pyscf.fci.direct_uhf.pspace(tuple(h), tuple(e), n, tuple(no), np=max(dim, 2))[0]
    w, v = np.linalg.eigh(ham)
    ci = np.zeros(dim)
    ci[addr] = v[:, 0]
    na = math.comb(n, no[0])
    return w[0], (w[1] - w[0] if len(w) > 1 else 1.0), ci.reshape(na, -1), n, tuple(no)


def run_file(c, rec, d):
    u = isu(c["sys"])
    mf = getmf(c["sys"])
    path = os.path.join(d, "out.h5")
    emb = build(c["sys"], c["frag"], c["bath"], "DUMP", dict(dumpfile=path), c["cpt"], c["active"])
    rec.state(c["sys"], c["frag"], c["bath"], c["cpt"], c["active"])
    rec.call("kernel", emb.kernel)
    rec.step()
    got = read(path)
    want = [x for x in emb.fragments if x.active and x.sym_parent is None]
    rec.check(sorted(got) == sorted("fragment_%d" % x.id for x in want), "fragments in file", "%r" % sorted(got))
    rec.check(len({x.id for x in want}) == len(want), "identifiers")
    for x in want:
        g = got["fragment_%d" % x.id]
        check_group(rec, g, x, mf, u, c["cpt"], str(x.id))
    if c["active"] is not None:
        return
    # --- the same clusters solved by the built-in solver
    try:
        ref = build(c["sys"], c["frag"], c["bath"], "FCI", dict(conv_tol=1e-14), c["cpt"])
        ref.kernel()
    except Exception as e:
        raise Skip("built-in solver: %r" % (e,))
    if not ref.converged:
        raise Skip("built-in solver not converged")
    import pyscf.ci
    import pyscf.fci

    s = mf.get_ovlp()
    tot = 0.0
    for x in want:
        g = got["fragment_%d" % x.id]
        c_ = pair(g, "c_cluster", u)
        y = [z for z in ref.fragments if z.id == x.id][0]
        if c_[0].shape[1] != c_[1].shape[1]:
            rec.out()
            return
        e, gap, ci, n, nel = solve(g, u)
        if gap < 1e-4 or abs(ci[0, 0]) < 1e-3:
            rec.out()
            return
        dm = pyscf.fci.direct_spin1.make_rdm1s(ci, n, nel)
        wf = y.results.wf
        want_dm = wf.make_rdm1(ao_basis=True)
        mine = [a @ b @ a.T for a, b in zip(c_, dm)]
        rec.close(np.array(mine) if u else sum(mine), np.array(want_dm), 2e-5, "density matrix of the dumped problem", str(x.id))
        # projected energy from the file
        f = pair(g, "fock", u)
        er = eris_of(g, u)
        import pyscf.ci.ucisd

        c0, c1, c2 = unpack(ci, n, nel)
        o, v = [slice(0, k) for k in nel], [slice(k, n) for k in nel]
        ext = [c["cpt"] * a.T @ s @ b @ b.T @ s @ a for a, b in zip(c_, pair(g, "c_frag", u))]
        p = [(a[:, :k].T @ s @ b) @ (a[:, :k].T @ s @ b).T for a, b, k in zip(c_, pair(g, "c_frag", u), nel)]
        ef = sum(np.einsum("ia,ix,xa->", (f[i] - ext[i])[o[i], v[i]], p[i], c1[i] / c0) for i in (0, 1))
        for i, k in ((0, 0), (1, 2)):
            ovov = er[k][o[i], v[i], o[i], v[i]]
            ef += 0.25 * np.einsum("iajb,ix,xjab->", ovov - ovov.transpose(0, 3, 2, 1), p[i], c2[k] / c0)
        ovov = er[1][o[0], v[0], o[1], v[1]]
        ef += 0.5 * np.einsum("iajb,ix,xjab->", ovov, p[0], c2[1] / c0) + 0.5 * np.einsum("iajb,jx,ixab->", ovov, p[1], c2[1] / c0)
        rec.close(ef, y.results.e_corr, 1e-6, "projected energy from the file", str(x.id))
        tot += ef * (1 + len([z for z in ref.fragments if z.sym_parent is y]))
    rec.close(tot, ref.e_corr, 1e-6, "embedding energy from the file")


def unpack(ci, n, nel):
    import pyscf.ci.ucisd

    v = pyscf.ci.ucisd.from_fcivec(ci, n, nel)
    return pyscf.ci.ucisd.cisdvec_to_amplitudes(v, (n, n), nel)


# ---------------------------------------------------------------- words of dump runs
def run_seq(c, rec, d):
    import h5py

    paths = [os.path.join(d, "f%d.h5" % i) for i in (0, 1)]
    model = [{}, {}]
    last = None
    n = 0
    for i, (f, r) in enumerate(c["word"]):
        n += 1
        emb_ref = None
        if r == "same":
            if last is None:
                raise Skip("nothing to repeat")
            emb, name = last
            if emb.opts.solver_options["dumpfile"] != paths[f]:
                emb.opts.solver_options["dumpfile"] = paths[f]
                for x in emb.fragments:
                    x.opts.solver_options["dumpfile"] = paths[f]
        else:
            name = r
            emb = build(r.split("-")[0], "sao", "dmet", "DUMP", dict(dumpfile=paths[f]), active=(1, 0) if r.endswith("-0") else None)
        last = (emb, name)
        # expected content from a fresh run into a fresh file
        fresh = os.path.join(d, "fresh%d.h5" % i)
        e2 = build(name.split("-")[0], "sao", "dmet", "DUMP", dict(dumpfile=fresh), active=(1, 0) if name.endswith("-0") else None)
        rec.call("fresh", e2.kernel)
        new = read(fresh)
        clash = bool(set(new) & set(model[f]))
        rec.step()
        try:
            emb.kernel()
            ok = True
        except Exception as e:
            ok = False
            if not clash:
                rec.fail("dump failed", "%r" % (e,))
                return
        for j in (0, 1):
            have = read(paths[j]) if os.path.exists(paths[j]) else {}
            old = model[j]
            exp = dict(old)
            for k in have:
                src = [x for x in ([new.get(k)] if j == f else []) + [old.get(k)] if x is not None]
                rec.check(any(same(have[k], x) for x in src), "content after word", "file %d group %s" % (j, k))
                if not ok and k in old:
                    rec.check(same(have[k], old[k]), "refused dump changed existing data", k)
            rec.check(set(old) <= set(have), "data lost", "%r" % (set(old) - set(have)))
            if j == f and ok:
                rec.check(set(have) == set(old) | set(new), "groups after dump", "%r" % sorted(have))
                for k in new:
                    rec.check(same(have[k], new[k]), "dumped content", k)
            model[j] = have
        rec.state(tuple(tuple(x) for x in c["word"][: i + 1]))


def same(a, b):
    if a["attrs"] != b["attrs"] or sorted(a["data"]) != sorted(b["data"]):
        return False
    # (orbital signs may differ between separately built embeddings: compare invariants)
    for k in a["data"]:
        x, y = a["data"][k], b["data"][k]
        if x.shape != y.shape or abs(np.linalg.norm(x) - np.linalg.norm(y)) > 1e-7:
            return False
        if x.ndim == 2 and x.shape[0] == x.shape[1] and k.startswith(("heff", "fock")):
            if abs(np.linalg.eigvalsh(x) - np.linalg.eigvalsh(y)).max() > 1e-7:
                return False
    return True


def run_object(c, rec, d):
    import h5py

    path, ref = os.path.join(d, "o.h5"), os.path.join(d, "r.h5")
    rec.call("path", build(c["sys"], "sao", "dmet", "DUMP", dict(dumpfile=ref)).kernel)
    with h5py.File(path, c["mode"]) as f:
        f.attrs["mine"] = 3
        emb = build(c["sys"], "sao", "dmet", "DUMP", dict(dumpfile=f))
        rec.call("open file", emb.kernel)
        rec.step()
        rec.check(bool(f), "file given by the user was closed")
    a, b = read(path), read(ref)
    rec.check(sorted(a) == sorted(b) and all(same(a[k], b[k]) for k in b), "content of open file")
    with h5py.File(path, "r") as f:
        rec.check(f.attrs["mine"] == 3, "other content of open file")


# ---------------------------------------------------------------- external results fed back
def run_cb(c, rec, d):
    import pyscf.cc
    import pyscf.ci
    import pyscf.fci

    u = isu(c["sys"])
    res = c["res"]
    solver = {"civec": "FCI", "dm": "FCI", "tl": "CCSD", "t": "CCSD", "c": "CISD"}[res]
    so = dict(conv_tol=1e-11)
    if solver == "CCSD":
        so["conv_tol_normt"] = 1e-9
    if solver == "FCI":
        so["conv_tol"] = 1e-14
    if res == "tl":
        so["solve_lambda"] = True
    kw = dict(energy_functional="dmet") if res == "dm" else {}
    ref = build(c["sys"], "sao", c["bath"], solver, so, c["cpt"], **kw)
    try:
        ref.kernel()
    except Exception as e:
        raise Skip("built-in solver: %r" % (e,))
    if not ref.converged:
        raise Skip("built-in solver not converged")
    if u and any(x.cluster.norb_active[0] != x.cluster.norb_active[1] for x in ref.fragments):
        raise Skip("different numbers of alpha and beta orbitals")
    calls = []

    def solver_function(mf):
        calls.append(1)
        hc = mf.get_hcore()
        if res in ("civec", "dm"):
            n = len(hc[0])
            nel = mf.mol.nelec
            if not u:
                eri = pyscf.ao2mo.restore(1, mf._eri, n) if mf._eri is not None else mf.with_df.ao2mo(np.eye(n), compact=False).reshape([n] * 4)
                g = dict(data=dict(heff=hc, eris=eri), attrs=dict(nocc=nel[0]))
            else:
                e = mf._eri
                g = dict(data=dict(heff_a=hc[0], heff_b=hc[1], eris_aa=e[0], eris_ab=e[1], eris_bb=e[2]), attrs=dict(nocc=list(nel)))
            _, gap, ci, n, nel = solve(g, u)
            gaps.append(gap)
            if res == "civec":
                return dict(civec=ci, converged=True)
            f = pyscf.fci.direct_spin1
            d1, d2 = f.make_rdm12s(ci, n, nel)
            if u:
                return dict(dm1=d1, dm2=d2, converged=True)
            return dict(dm1=d1[0] + d1[1], dm2=d2[0] + d2[1] + d2[1].transpose(2, 3, 0, 1) + d2[2], converged=True)
        if res == "c":
            from vayesta.solver.cisd import UCISD  # (PySCF's, with spin-dependent integrals)

            x = (UCISD if u else pyscf.ci.RCISD)(mf)
            x.conv_tol = 1e-12
            _, v = x.kernel()
            if not x.converged:
                gaps.append(0.0)
            c0, c1, c2 = x.cisdvec_to_amplitudes(v)
            return dict(c0=c0, c1=c1, c2=c2, converged=True)
        from vayesta.solver.ccsd import UCCSD

        x = (UCCSD if u else pyscf.cc.RCCSD)(mf)
        x.conv_tol, x.conv_tol_normt, x.max_cycle = 1e-11, 1e-9, 200
        x.kernel()
        if not x.converged:
            gaps.append(0.0)
        out = dict(t1=x.t1, t2=x.t2, converged=True)
        if res == "tl":
            out["l1"], out["l2"] = x.solve_lambda()
        return out

    class Owner:
        """Stateful external program, which must not be copied."""

        def __init__(self):
            self.count = 0

        def __call__(self, mf):
            self.count += 1
            return solver_function(mf)

        def method(self, mf):
            return self(mf)

    gaps = []
    owner = Owner()
    callback = {"civec": owner, "dm": owner.method}.get(res, solver_function)
    emb = build(c["sys"], "sao", c["bath"], "CALLBACK", dict(callback=callback), c["cpt"], **kw)
    rec.state(c["sys"], c["bath"], res)
    e = rec.call("callback run", emb.kernel)
    rec.step()
    if gaps and min(gaps) < 1e-4:
        raise Skip("degenerate or unconverged external solution")
    rec.check(len(calls) == len([x for x in emb.fragments if x.sym_parent is None]), "one call per fragment", "%d" % len(calls))
    if callback is not solver_function:
        rec.check(owner.count == len(calls), "callback object copied", "%d of %d calls" % (owner.count, len(calls)))
    rec.check(bool(emb.converged), "converged")
    q = {
        "civec": ["e_corr", "e_tot", "e_wf", "e_dmet", "e_dmet_00", "dm1_demo", "dm2_demo", "dm1_demo_ao"],
        "dm": ["e_corr", "e_tot", "e_dmet_00", "dm1_demo", "dm1_demo_ao"],
        "tl": ["e_corr", "e_tot", "e_wf", "e_dmet", "t1", "t2", "l1", "l2", "dm1", "dm1_ao", "dm2_gw", "dm1_2p1l"],
        "t": ["e_corr", "e_tot", "e_wf", "t1", "t2", "dm1_tl"],
        "c": ["e_corr", "e_tot", "e_wf"],
    }[res]
    for k in q:
        try:
            want = probe.evaluate(ref, k)
        except Exception:
            rec.out()
            continue
        got = rec.call("evaluate " + k, probe.evaluate, emb, k)
        w = want if isinstance(want, tuple) else (want,)
        g = got if isinstance(got, tuple) else (got,)
        rec.check(len(w) == len(g), "structure " + k)
        for a, b in zip(g, w):
            rec.close(a, b, 5e-6, "fed-back " + k)
