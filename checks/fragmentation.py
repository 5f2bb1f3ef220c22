"""C02  Fragments partition every extensive quantity; completeness verdicts are correct for every family of fragments."""
import functools
import itertools
import numpy as np

from vlib import systems as S

PROPERTY = "C02"
LEVEL = "exploration"
TECHNIQUE = (
    "exhaustive enumeration of fragment families (all families of atom subsets, all set partitions of all orbital subsets, all selections "
    "by label/shell/filter, all active/auxiliary flag assignments) executed on the real code, against an independent linear-algebra oracle"
)
RULE = (
    "one case per (system, spin symmetry, local-orbital type, family of requested fragments); each builds the real embedding, adds the fragments "
    "and compares orbitals, verdicts, electron numbers, energies with projectors built directly from PySCF quantities"
)
BOUNDS = "molecules of 2-4 atoms and up to 7 (13 for labels) orbitals, lattices up to 8 sites; all families of <=3 atom subsets of 3 atoms, all set partitions of all subsets of 4 orbitals (5 thorough)"
ASSUMPTIONS = ["PySCF's IAO construction, overlap and mean-field matrices are correct"]

TOL = 1e-6
MINAO = {"sto-3g": "sto-3g"}  # documented choice of the reference basis


def setup(tier):
    global EWF, lattmod
    from vayesta.ewf import EWF
    from vayesta import lattmod


# ---------------------------------------------------------------- systems


@functools.lru_cache(maxsize=None)
def get_mf(name, basis, spin, kind):
    if name.startswith("hub"):
        n = int(name[3:])
        mol = lattmod.Hubbard1D(n, nelectron=n if n % 2 == 0 else n - 1, hubbard_u=2.0, boundary="auto" if n % 2 == 0 else "PBC")
        mol.spin = spin
        mf = (lattmod.LatticeRHF if kind == "rhf" else lattmod.LatticeUHF)(mol)
        mf.conv_tol = 1e-12
        mf.kernel()
        return mf
    if name == "h12":
        if "h12" not in S.GEOM:
            S.GEOM["h12"] = "; ".join("H 0 %.2f %.3f" % (0.1 * (k % 3), 0.9 * k) for k in range(12))
    if name.startswith("ghost"):
        import pyscf.gto, pyscf.scf

        atom = "ghost-He 0 0 -1.2; %s 0 0 0; ghost-H 0.9 0 0.4; H 0 0.2 1.6" % ("Li" if name == "ghost" else "H")
        mol = pyscf.gto.M(atom=atom, basis=basis, verbose=0)
        mf = pyscf.scf.RHF(mol) if kind == "rhf" else pyscf.scf.UHF(mol)
        mf.conv_tol = 1e-12
        mf.kernel()
        return mf
    if kind.endswith("+"):  # charged
        return S.mf(name, basis, spin, 1, kind[:-1])
    return S.mf(name, basis, spin, 0, kind)


def lowdin(c, s):
    m = c.T @ s @ c
    e, v = np.linalg.eigh(m)
    return c @ (v / np.sqrt(e)) @ v.T


@functools.lru_cache(maxsize=None)
def local(name, basis, spin, kind, ftype):
    """Independent local orbitals: ([coeff per spin], labels of the labelled ones)."""
    import pyscf.lo

    mf = get_mf(name, basis, spin, kind)
    mol = mf.mol
    s = mf.get_ovlp()
    cs = [mf.mo_coeff] if np.ndim(mf.mo_coeff[0]) == 1 else list(mf.mo_coeff)
    os_ = [mf.mo_occ] if np.ndim(mf.mo_coeff[0]) == 1 else list(mf.mo_occ)
    out = []
    for c, o in zip(cs, os_):
        if ftype in ("sao", "site"):
            out.append(lowdin(np.eye(len(s)), s))
        elif ftype == "cas":
            out.append(c)
        else:
            iao = lowdin(pyscf.lo.iao.iao(mol, c[:, o > 0], minao=MINAO.get(basis, "minao")), s)
            if ftype == "iao":
                out.append(iao)
            else:
                ryd = pyscf.lo.nao._core_val_ryd_list(mol)[2]
                p = (np.eye(len(s)) - iao @ iao.T @ s)[:, ryd]
                out.append(np.hstack([iao, lowdin(p, s)]) if len(ryd) else iao)
    if ftype in ("sao", "site"):
        lab = mol.ao_labels(None)
    elif ftype == "cas":
        lab = [(None, "", "", "")] * cs[0].shape[1]
    else:
        ref = pyscf.lo.iao.reference_mol(mol, minao=MINAO.get(basis, "minao"))
        real = [i for i in range(mol.natm) if mol.atom_charge(i) != 0]
        lab = [(real[l[0]],) + tuple(l[1:]) for l in ref.ao_labels(None)]
        if ftype == "iaopao":
            ryd = pyscf.lo.nao._core_val_ryd_list(mol)[2]
            al = mol.ao_labels(None)
            lab = lab + [al[i] for i in ryd]
    lab = [tuple(l) for l in lab]
    if ftype == "iaopao":
        order = [lab.index(tuple(l)) for l in mol.ao_labels(None)]
        out = [c[:, order] for c in out]
        lab = [lab[i] for i in order]
    return out, lab


# ---------------------------------------------------------------- requests


def resolve(mol, lab, req):
    """Local-orbital indices meant by a request, straight from the labels."""
    how = req["how"]
    if how == "orbs":
        return list(req["x"])
    if how == "all":
        return list(range(len(lab)))
    if how == "atoms":
        x = req["x"]
        x = [x] if not isinstance(x, list) else x
        at = set()
        for a in x:
            at |= {a} if not isinstance(a, str) else {i for i in range(mol.natm) if mol.atom_symbol(i) == a}
        idx = [i for i, l in enumerate(lab) if l[0] in at]
        if req.get("filter") is not None:
            f = req["filter"] if isinstance(req["filter"], list) else [req["filter"]]
            idx = [i for i in idx if any(y in "%d %s %s%s" % lab[i] for y in f)]
        if req.get("shells") is not None:
            sh = req["shells"] if isinstance(req["shells"], list) else [req["shells"]]
            idx = [i for i in idx if any(lab[i][2].startswith(str(y)) for y in sh)]
        return idx
    if how == "labels":
        keys = [req["x"]] if isinstance(req["x"], str) else req["x"]
        return [i for i, l in enumerate(lab) if any(("%d %s %s%s" % l).startswith(" ".join(k.split())) for k in keys)]
    raise KeyError(how)


def missing_shell(mol, lab, req):
    if req.get("shells") is None:
        return False
    sh = req["shells"] if isinstance(req["shells"], list) else [req["shells"]]
    idx = resolve(mol, lab, dict(how="atoms", x=req["x"]))
    x = req["x"] if isinstance(req["x"], list) else [req["x"]]
    atoms = [a for a in range(mol.natm) if a in x or mol.atom_symbol(a) in x]
    return any(not any(lab[i][0] == a and lab[i][2].startswith(str(y)) for i in idx) for a in atoms for y in sh)


def add(f, req):
    kw = dict(req.get("kw", {}))
    how = req["how"]
    if how == "orbs":
        return f.add_orbital_fragment(req["x"], **kw)
    if how == "labels":
        return f.add_orbital_fragment(req["x"], **kw)
    if how == "all":
        return f.add_full_system(**kw)
    if req.get("shells") is not None:
        return f.add_atomshell_fragment(req["x"], req["shells"], **kw)
    if req.get("filter") is not None:
        return f.add_atomic_fragment(req["x"], orbital_filter=req["filter"], **kw)
    return f.add_atomic_fragment(req["x"], **kw)


def subsets(items, lo=1):
    return [list(c) for k in range(lo, len(items) + 1) for c in itertools.combinations(items, k)]


def partitions(items):
    if not items:
        yield []
        return
    first = items[0]
    for smaller in partitions(items[1:]):
        for n, sub in enumerate(smaller):
            yield smaller[:n] + [[first] + sub] + smaller[n + 1 :]
        yield [[first]] + smaller


ATOMS = [
    # system, basis, spin, kind, type, natoms
    ("h2o_asym", "sto-3g", 0, "rhf", "sao", 3),
    ("h2o_asym", "sto-3g", 0, "rhf", "iao", 3),
    ("h2o_asym", "6-31g", 0, "rhf", "iaopao", 3),
    ("h2o_asym", "6-31g", 0, "rhf", "iao", 3),
    ("h3", "6-31g", 1, "uhf", "sao", 3),
    ("h3", "6-31g", 1, "uhf", "iao", 3),
    ("h3", "6-31g", 1, "uhf", "iaopao", 3),
    ("h3", "6-31g", 0, "rhf+", "iaopao", 3),
    ("h3", "6-31g", -1, "uhf", "iao", 3),
    ("hub6", "", 0, "rhf", "site", 6),
    ("hub6", "", 0, "uhf", "site", 6),
]
ORBS = [
    ("h2", "6-31g", 0, "rhf", "sao", 4),
    ("h2", "6-31g", 0, "rhf", "iaopao", 4),
    ("h2", "6-31g", 0, "rhf", "cas", 4),
    ("h2", "6-31g", 2, "uhf", "sao", 4),
    ("h2", "6-31g", 2, "uhf", "iaopao", 4),
    ("h2", "6-31g", 2, "uhf", "cas", 4),
    ("h4", "sto-3g", 0, "rhf", "sao", 4),
    ("h4", "sto-3g", -2, "uhf", "iao", 4),
    ("hub6", "", 0, "rhf", "cas", 4),
]


def cases(tier):
    full = tier == "thorough"
    out = []

    def c(sysd, fam, **kw):
        out.append(dict(sys=list(sysd[:5]), fam=fam, **kw))

    # 1. all families of atom subsets (overlapping, incomplete, complete)
    for d in ATOMS:
        n = d[5]
        if n <= 3:
            subs = subsets(range(n))
            for k in (1, 2, 3):
                for fam in itertools.combinations(subs, k):
                    c(d, [dict(how="atoms", x=x) for x in fam])
            c(d, [dict(how="atoms", x=[0]), dict(how="atoms", x=[0])])
        else:
            # lattices: all set partitions of all subsets of the sites up to 4 sites, all partitions of all sites into <=3 blocks
            for sub in subsets(range(n)):
                for p in partitions(sub):
                    if len(p) <= (3 if full else 2) or len(sub) == n and (full or len(p) in (2, 3, 6)):
                        c(d, [dict(how="atoms", x=x) for x in p])
        c(d, [dict(how="all", x=None)])
    # 2. all set partitions of all subsets of the local orbitals, and all overlapping pairs
    for d in ORBS:
        n = d[5] + (1 if full and d[0] == "h2o_asym" else 0)
        for sub in subsets(range(n)):
            for p in partitions(sub):
                c(d, [dict(how="orbs", x=x) for x in p])
        for a, b in itertools.combinations(subsets(range(n)), 2):
            if set(a) & set(b) and (full or len(a) + len(b) <= 4):
                c(d, [dict(how="orbs", x=a), dict(how="orbs", x=b)])
    # 3. flags: all assignments of {contributing, auxiliary, inactive} to the fragments of a complete / incomplete partition
    kws = [{}, dict(auxiliary=True), dict(active=False)]
    for d in [ATOMS[0], ATOMS[5], ORBS[0], ORBS[3]]:
        for ks in itertools.product(kws, repeat=3):
            if d[0] == "h2":
                fam = [dict(how="orbs", x=x) for x in ([0, 2], [1], [3])]
            else:
                fam = [dict(how="atoms", x=[i]) for i in range(3)]
            for r, k in zip(fam, ks):
                r["kw"] = k
            c(d, fam)
    # 4. ways of naming the same thing
    names = [
        ("h2o_asym", "6-31g", 0, "rhf"),
        ("h3", "6-31g", 1, "uhf"),
        ("ghost", "6-31g", 0, "rhf"),
        ("ghost", "6-31g", 0, "uhf"),
        ("ghosth", "6-31g", 0, "rhf"),
        ("h12", "sto-3g", 0, "rhf"),
    ]
    for d in names:
        types = ["sao", "iao"] + (["iaopao"] if not d[0].startswith("ghost") else [])
        for t in types:
            sysd = d + (t,)
            natm = {"h2o_asym": 3, "h3": 3, "ghost": 4, "h12": 12, "ghosth": 4}[d[0]]
            syms = {"h2o_asym": ["O", "H"], "h3": ["H"], "ghost": ["Li", "H"], "ghosth": ["H"], "h12": ["H"]}[d[0]]
            for x in range(natm):
                c(sysd, [dict(how="atoms", x=x)])
                for sh in ([["1s"], ["2p"], ["1s", "2s"], ["2p", "1s"], 1, 2, 3, [1, 2]] if natm < 12 else [["1s"], 1]):
                    if d[0].startswith("ghost") and x in (0, 2):
                        continue  # shells of ghost atoms have no label
                    c(sysd, [dict(how="atoms", x=x, shells=sh)])
                for sh in (["1s", "2s", "2p", "3s", "3p", ["1s", "2s"], ["2p", "1s"]] if natm < 12 else ["1s"]):
                    c(sysd, [dict(how="atoms", x=x, filter=sh)])
            for x in subsets(syms):
                x = x if len(x) > 1 else x[0]
                c(sysd, [dict(how="atoms", x=x)])
                for sh in [["1s"], ["2p"], ["1s", "2s"], 1, 2]:
                    c(sysd, [dict(how="atoms", x=x, shells=sh)])
                for sh in ["1s", "2p", ["1s", "2s"]]:
                    c(sysd, [dict(how="atoms", x=x, filter=sh)])
            for x in [[0, 2], [1, 0], [2, 1]]:
                if not d[0].startswith("ghost"):
                    c(sysd, [dict(how="atoms", x=x, shells=["1s"])])
                c(sysd, [dict(how="atoms", x=x, filter="2s")])
            c(sysd, [], labels=True)
    # 5. CAS requests: all (ncas, nelec)
    for d in [("h4", "sto-3g", 0, "rhf"), ("h4", "sto-3g", 2, "uhf"), ("h3", "6-31g", 1, "uhf"), ("lih", "sto-3g", 0, "rhf"), ("h6ring", "sto-3g", 0, "rhf"), ("hub6", "", 0, "rhf")]:
        n = {"h4": 4, "h3": 6, "lih": 6, "h6ring": 6, "hub6": 6}[d[0]]
        for ncas in range(1, n + 1):
            for nel in range(1, 2 * n + 1 if full else n + 3):
                out.append(dict(sys=list(d) + ["cas"], cas=[ncas, nel], fam=[]))
    # 6. everything at once
    for d in ATOMS:
        out.append(dict(sys=list(d[:5]), fam=[], allatoms=True))
    return out


def cost(case):
    return 1


def run(case, rec):
    name, basis, spin, kind, ftype = case["sys"]
    mf = get_mf(name, basis, spin, kind)
    mol = mf.mol
    uhf = np.ndim(mf.mo_coeff[0]) == 2
    s = np.asarray(mf.get_ovlp())
    loc, lab = local(name, basis, spin, kind, ftype)
    emb = rec.call("construct", EWF, mf)
    frag = rec.call("fragmentation", getattr(emb, ftype + "_fragmentation"))
    nl = len(lab)
    T = (lambda x: list(x)) if uhf else (lambda x: [x])
    if case.get("labels"):
        with frag as f:
            # every single orbital by its printed label, and pairs
            txt = ["%d %s %s%s" % l for l in lab]
            ids = list(range(nl)) if nl <= 7 else list(range(0, nl, 2))
            if name.startswith("ghost"):
                ids = [i for i in ids if lab[i][0] in (1, 3)]
            for i in ids:
                hits = resolve(mol, lab, dict(how="labels", x=txt[i]))
                fx = rec.call("add_orbital_fragment(%r)" % fmt(lab[i]), f.add_orbital_fragment, fmt(lab[i]))
                compare_space(rec, T(fx.c_frag), [c[:, hits] for c in loc], s, "label %s" % txt[i])
                rec.step()
            for i, j in itertools.combinations(ids[:4], 2):
                x = [fmt(lab[i]), fmt(lab[j])]
                fx = rec.call("add_orbital_fragment", f.add_orbital_fragment, x)
                hits = resolve(mol, lab, dict(how="labels", x=[txt[i], txt[j]]))
                compare_space(rec, T(fx.c_frag), [c[:, hits] for c in loc], s, "labels %s,%s" % (txt[i], txt[j]))
            for bad in ("7 Xx 1s", "0 H 9z"):
                expect_error(rec, f.add_orbital_fragment, bad)
                rec.step()
        return
    if case.get("cas"):
        return run_cas(case, rec, mf, emb, frag, uhf)
    fam = case["fam"]
    want, got = [], []
    with frag as f:
        if case.get("allatoms"):
            got = rec.call("add_all_atomic_fragments", f.add_all_atomic_fragments)
            for a in range(mol.natm):
                want.append(([i for i, l in enumerate(lab) if l[0] == a], {}))
            want = [w for w in want if w[0]]
        for req in fam:
            idx = resolve(mol, lab, req)
            if not idx:
                expect_error(rec, add, f, req)
                rec.step()
                continue
            if missing_shell(mol, lab, req):
                # asking for a shell that one of the atoms does not have: an error is fine, a fragment must be right
                try:
                    fx = add(f, req)
                except Exception:
                    continue
            else:
                fx = rec.call("add %r" % req, add, f, req)
            want.append((idx, req.get("kw", {})))
            got.append(fx)
            rec.step()
    if not want:
        rec.out("nothing to add")
        return
    rec.check(len(emb.fragments) == len(want) and all(a is b for a, b in zip(emb.fragments, got)), "fragments registered", len(emb.fragments))
    cs = T(mf.mo_coeff)
    occ = [o > 0 for o in T(mf.mo_occ)]
    dms = T(mf.make_rdm1())
    # --- every fragment: orbitals
    for fx, (idx, kw) in zip(emb.fragments, want):
        extra = None
        if ftype == "iao":
            extra = True
        cf = T(fx.c_frag)
        ce = T(fx.c_env)
        for sp in range(len(cs)):
            rec.close(cf[sp].T @ s @ cf[sp], np.eye(cf[sp].shape[1]), TOL, "fragment orbitals orthonormal")
            full = np.hstack([cf[sp], ce[sp]])
            rec.check(full.shape[1] == cs[sp].shape[1], "fragment+environment dimension", full.shape)
            rec.close(full.T @ s @ full, np.eye(full.shape[1]), TOL, "fragment+environment orthonormal")
        tgt = [c[:, idx] for c in loc]
        if extra and case["fam"] and any(r["how"] == "all" for r in case["fam"]):
            pass
        compare_space(rec, cf, tgt, s, "fragment %s" % fx.name)
        ne = sum(np.trace(c.T @ s @ d @ s @ c) for c, d in zip(tgt, dms))
        rec.close(np.sum(fx.nelectron), ne, TOL, "fragment electron number")
        if uhf:
            rec.close(np.asarray(fx.nelectron), [np.trace(c.T @ s @ d @ s @ c) for c, d in zip(tgt, dms)], TOL, "fragment spin electron numbers")
        nf = fx.n_frag
        rec.check((tuple(nf) if uhf else nf) == ((len(idx), len(idx)) if uhf else len(idx)), "n_frag", nf)
        # projector of the fragment in the basis of the mean-field orbitals
        p = T(rec.call("get_fragment_projector", fx.get_fragment_projector, emb.mo_coeff))
        for sp in range(len(cs)):
            ref = cs[sp].T @ s @ tgt[sp]
            rec.close(p[sp], ref @ ref.T, TOL, "fragment projector")
        pi = T(fx.get_fragment_projector(emb.mo_coeff, inverse=True))
        for sp in range(len(cs)):
            rec.close(pi[sp] + p[sp], np.eye(len(p[sp])), TOL, "inverse projector")
    # --- verdicts
    con = [i for i, (idx, kw) in enumerate(want) if not kw]
    h = mf.get_hcore()
    v = T(mf.get_veff())
    verdict = dict(orth=True, occ=True, vir=True, full=True)
    if not con:
        verdict = dict.fromkeys(verdict, False)
    for sp in range(len(cs)):
        if not con:
            break
        cc = np.hstack([loc[sp][:, want[i][0]] for i in con])
        orth = np.allclose(cc.T @ s @ cc, np.eye(cc.shape[1]), atol=1e-6)
        pr = cs[sp].T @ s @ cc
        w = np.sum(pr**2, axis=1)
        o = orth and np.allclose(w[occ[sp]], 1, atol=1e-6)
        vi = orth and np.allclose(w[~occ[sp]], 1, atol=1e-6)
        verdict["orth"] &= orth
        verdict["occ"] &= o
        verdict["vir"] &= vi
        verdict["full"] &= o and vi
    for key, fn in dict(
        orth="has_orthonormal_fragmentation", full="has_complete_fragmentation", occ="has_complete_occupied_fragmentation", vir="has_complete_virtual_fragmentation"
    ).items():
        g = bool(rec.call(fn, getattr(emb, fn)))
        rec.check(g == bool(verdict[key]), fn, "reported %s, true %s" % (g, bool(verdict[key])))
        rec.step()
    # --- sums over the contributing fragments
    e_ref = 0.0
    emf = 0.0
    for i in con:
        for sp in range(len(cs)):
            cx = loc[sp][:, want[i][0]]
            d = dms[sp]
            if not uhf:
                e_ref += np.trace(cx.T @ (h + v[0] / 2) @ d @ s @ cx)
            else:
                e_ref += np.trace(cx.T @ (h + v[sp] / 2) @ d @ s @ cx)
        x = rec.call("get_fragment_mf_energy", emb.fragments[i].get_fragment_mf_energy)
        emf += np.sum(x)
    if con:
        rec.close(emf, e_ref, 1e-6, "sum of fragment mean-field energies")
        if verdict["occ"]:
            rec.close(emf, mf.energy_elec()[0], 1e-6, "fragment mean-field energies add up")
            rec.close(sum(np.sum(emb.fragments[i].nelectron) for i in con), float(mol.nelectron), 1e-6, "fragment electrons add up")
        if not any(kw for _, kw in want):
            n = rec.call("_check_fragment_nelectron", emb._check_fragment_nelectron) if hasattr(emb, "_check_fragment_nelectron") else None
            if n is not None:
                ref = sum(np.sum(fx.nelectron) for fx in emb.fragments)
                rec.close(np.sum(n), ref, 1e-6, "reported number of fragment electrons")
    rec.out([verdict[k] for k in sorted(verdict)] + [round(float(e_ref), 8)])


def fmt(l):
    return ("%d%3s %s%-s" % l).strip()


def expect_error(rec, fn, *args):
    try:
        fn(*args)
    except Exception:
        return
    rec.fail("accepted a request that selects no orbital", repr(args[-1]))


def compare_space(rec, got, want, s, what):
    for sp in range(len(want)):
        g, w = got[sp], want[sp]
        if g.shape != w.shape:
            rec.fail("fragment orbitals are not the requested ones", "%s: %s vs %s" % (what, g.shape, w.shape))
            continue
        rec.close(g @ g.T, w @ w.T, TOL, "fragment orbitals are the requested ones")


def run_cas(case, rec, mf, emb, frag, uhf):
    ncas, nel = case["cas"]
    occ = np.sum(mf.mo_occ, axis=0) if uhf else np.asarray(mf.mo_occ)
    n = len(occ)
    ens = list(mf.mo_energy) if uhf else [mf.mo_energy]
    # the window of ncas orbitals around the Fermi level that holds exactly nel electrons
    last = np.nonzero(occ > 0)[0][-1]
    start = None
    for k in range(last + 1):
        if abs(occ[k : last + 1].sum() - nel) < 1e-9:
            start = k
    ok = start is not None and start + ncas <= n and last + 1 - start <= ncas
    border = False
    if ok:
        for e in ens:
            for i in (start, start + ncas):
                if 0 < i < n:
                    g = abs(e[i] - e[i - 1])
                    if g < 1e-8:
                        ok = False
                    elif g < 1e-6:
                        border = True
            if abs(e[start] - e[start - 1]) < 1e-6 and start > 0 and abs(e[start] - e[start - 1]) >= 1e-9:
                border = True
    if border:
        rec.out("borderline degeneracy")
        return
    fx = None
    try:
        with frag as f:
            fx = f.add_cas_fragment(ncas, nel)
            res = True
    except Exception as err:
        res = False
    rec.step()
    if not ok:
        if degenerate(ens, start, ncas, n):
            rec.out("degenerate")
            return
        rec.check(not res, "CAS request that cannot be satisfied was accepted", "ncas=%d nelec=%d" % (ncas, nel))
        return
    rec.check(res, "valid CAS request rejected", "ncas=%d nelec=%d" % (ncas, nel))
    if not res:
        return
    s = mf.get_ovlp()
    cs = list(mf.mo_coeff) if uhf else [mf.mo_coeff]
    cf = list(fx.c_frag) if uhf else [fx.c_frag]
    compare_space(rec, cf, [c[:, start : start + ncas] for c in cs], s, "CAS")
    rec.close(np.sum(fx.nelectron), float(nel), 1e-7, "CAS electrons")


def degenerate(ens, start, ncas, n):
    """Near-degenerate edges of the window: acceptance is a matter of the user's tolerance."""
    if start is None:
        return False
    for e in ens:
        for i in (start, start + ncas):
            if 0 < i < n and 1e-9 < abs(e[i] - e[i - 1]) < 1e-6:
                return True
    return False
