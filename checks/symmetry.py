"""C03  Symmetry operations are exact isometries and symmetry-derived fragments reproduce explicit ones."""
import functools
import itertools
import re

import numpy as np

from vlib import systems as S
from vlib import probe
from vlib.engine import Skip

PROPERTY = "C03"
LEVEL = "exploration"
TECHNIQUE = (
    "exhaustive enumeration of symmetry operations (type x axis x order x centre x system, all lattice translations with all boundary "
    "conditions) against a real-space oracle, and of (system, nested symmetry contexts, bath, solver) executed with symmetry-derived and "
    "with explicit fragments, comparing all observables"
)
RULE = (
    "ops: every operation of the grid, accepted exactly when it maps the nuclei onto equivalent nuclei, and then satisfying "
    "psi'(R r) = psi(r) on a set of points; trans: every translation of every small lattice; emb: two complete embedding calculations per case"
)
BOUNDS = "12 molecules, axes x/y/z/diagonals, orders 2-6, 3 centres; lattices of up to 6x4 sites; cells folded from up to 3 k-points; nesting depth 2; s-f shells"
ASSUMPTIONS = ["the mean-field itself has the symmetry (otherwise the package rejects the fragments)"]

R6 = lambda n, r, z=0.0, ph=0.0: [(r * np.cos(2 * np.pi * k / n + ph), r * np.sin(2 * np.pi * k / n + ph), z) for k in range(n)]


def geo(l):
    return "; ".join("%s %.14f %.14f %.14f" % (s, *p) for s, p in l)


S.GEOM.update(
    {
        "h4d2h": geo([("H", (sx * 0.75, sy * 0.45, 0)) for sx in (1, -1) for sy in (1, -1)]),
        "h4d2": geo([("H", (0.5, 0.4, 0.7)), ("H", (-0.5, -0.4, 0.7)), ("H", (0.5, -0.4, -0.7)), ("H", (-0.5, 0.4, -0.7))]),
        "h3ring": geo([("H", p) for p in R6(3, 0.6)]),
        "nh3": geo([("N", (0, 0, 0.12))] + [("H", p) for p in R6(3, 0.94, -0.27)]),
        "h2shift": geo([("H", (1.0, 0.3, -0.2)), ("H", (1.0, 0.3, 0.6))]),
        "h2o2": geo([("O", (0, 0.7, -0.05)), ("O", (0, -0.7, -0.05)), ("H", (0.75, 0.9, 0.4)), ("H", (-0.75, -0.9, 0.4))]),
        "hf2": geo([("H", (0, 0, 0)), ("F", (0, 0, 0.92)), ("H", (0, 0, 2.5)), ("F", (0, 0, 1.58))]),
        "beh2x": geo([("Be", (0, 0, 0)), ("H", (1.33, 0, 0)), ("H", (-1.33, 0, 0))]),
        "ne": geo([("Ne", (0.1, 0.2, 0.3))]),
        "h6chair": geo([("H", p) for p in R6(3, 0.8, 0.5)] + [("H", p) for p in R6(3, 0.8, -0.5, np.pi)]),
    }
)

MOLS = ["h2", "h4d2h", "h4d2", "h3ring", "nh3", "h2shift", "h2o2", "h2o", "beh2x", "h6ring", "h4rect", "ne", "h6chair", "n2"]
AXES = {"x": (1, 0, 0), "y": (0, 1, 0), "z": (0, 0, 1), "xy": (1, 1, 0), "x-y": (1, -1, 0), "xyz": (1, 1, 1), "tilt": (0.3, -0.2, 0.5)}
BOHR = 0.529177210903


def basis_of(name, big):
    if not big:
        return "sto-3g"
    if big == 3:  # generally contracted shells of every angular momentum
        el = {re.sub("[^A-Za-z]", "", a.split()[0]) for a in S.GEOM[name].split(";")}
        return {x: [[0, [1.3, 1.0, 0.1], [0.3, 0.5, -0.4]], [1, [1.9, 0.7, -0.2], [0.6, 0.5, 0.9]], [2, [1.1, 0.4, 0.8, 0.1], [0.4, 0.6, -0.3, 0.5], [0.2, 0.1, 0.3, -0.9]], [3, [0.9, 1.0]]] for x in el}
    return "cc-pvtz" if big == 1 else "6-31g**"


def op_cases(tier):
    out = []
    for m in MOLS:
        for big in (0, 1, 2, 3):
            for cen in ("origin", "com", "off"):
                ops = [("inv", None, 1)]
                ops += [("mir", a, 1) for a in AXES]
                ops += [("rot", a, n) for a in AXES for n in (2, 3, 4, 6)]
                out.append(dict(kind="ops", mol=m, big=big, center=cen, ops=ops))
    for m, big in (("h2o", 1), ("h4d2h", 1), ("h2o", 3), ("h4d2h", 3)):
        out.append(dict(kind="ops", mol=m, big=big, center="origin", cart=True, ops=[("inv", None, 1), ("mir", "x", 1), ("mir", "y", 1), ("rot", "z", 2), ("rot", "x", 2)]))
    for m in ("h4d2h", "h2o"):
        for mod in ("label", "basis", "ghost"):
            out.append(dict(kind="ops", mol=m, big=0, center="origin", mod=mod, ops=[("inv", None, 1), ("mir", "x", 1), ("mir", "y", 1), ("rot", "z", 2), ("rot", "x", 2)]))
    return out


def trans_cases(tier):
    out = []
    for n in (2, 3, 4, 6, 8):
        for b in ("pbc", "apbc"):
            out.append(dict(kind="latt", dims=[n], bnd=b))
    for nx, ny in ((2, 2), (3, 2), (4, 3), (6, 4), (2, 6)):
        for b in itertools.product(("pbc", "apbc"), repeat=2):
            out.append(dict(kind="latt", dims=[nx, ny], bnd=list(b)))
    for km in ([2, 1, 1], [3, 1, 1], [1, 2, 1], [2, 2, 1], [1, 1, 3], [2, 1, 3]):
        for cell in ("cubic", "skew", "fcc"):
            out.append(dict(kind="cell", cell=cell, kmesh=km))
    return out


# contexts (outermost first), atoms inside, atoms outside; explicit partition
EMB = [
    # name, basis, spin, charge, kind, df, frag, contexts, inside, outside, explicit
    ("h4d2h", "sto-3g", 0, 0, "rhf", False, "sao", [("mir", "x"), ("mir", "y")], [[0]], [], [[0], [1], [2], [3]]),
    ("h4d2h", "sto-3g", 0, 0, "rhf", False, "iao", [("rot", "z", 2), ("mir", "x")], [[0]], [], [[0], [1], [2], [3]]),
    ("h4d2h", "6-31g", 0, 0, "rhf", True, "iao", [("inv",)], [[0, 1]], [], [[0, 1], [2, 3]]),
    ("h4d2h", "sto-3g", 0, 0, "rhf", False, "sao", [("inv",)], [[0], [1]], [], [[0], [1], [2], [3]]),
    ("h6ring", "sto-3g", 0, 0, "rhf", False, "sao", [("rot", "z", 6)], [[0]], [], [[i] for i in range(6)]),
    ("h6ring", "sto-3g", 0, 0, "rhf", True, "iao", [("rot", "z", 3)], [[0, 1]], [], [[0, 1], [2, 3], [4, 5]]),
    ("h6ring", "sto-3g", 0, 0, "rhf", False, "iao", [("mir", "y"), ("rot", "x", 1 + 1)], [[1, 2]], [[0], [3]], None),
    ("h6chair", "sto-3g", 0, 0, "rhf", False, "sao", [("rot", "z", 3), ("inv",)], [[0]], [], [[i] for i in range(6)]),
    ("h3ring", "6-31g", 0, 1, "rhf", False, "iaopao", [("rot", "z", 3)], [[0]], [], [[0], [1], [2]]),
    ("h2o", "6-31g", 0, 0, "rhf", False, "iao", [("rot", "z", 2)], [[1]], [[0]], [[0], [1], [2]]),
    ("h2o", "sto-3g", 0, 0, "rhf", True, "sao", [("mir", "y")], [[1]], [[0]], [[0], [1], [2]]),
    ("nh3", "sto-3g", 0, 0, "rhf", False, "iao", [("rot", "z", 3)], [[1]], [[0]], [[0], [1], [2], [3]]),
    ("h2o2", "sto-3g", 0, 0, "rhf", False, "iao", [("rot", "z", 2)], [[0, 2]], [], [[0, 2], [1, 3]]),
    ("h2shift", "6-31g", 0, 0, "rhf", False, "iaopao", [("inv", "mid")], [[0]], [], [[0], [1]]),
    ("h4d2h", "sto-3g", 2, 0, "uhf", False, "sao", [("mir", "x"), ("mir", "y")], [[0]], [], [[0], [1], [2], [3]]),
    ("h4d2h", "6-31g", 2, 0, "uhf", False, "iao", [("inv",)], [[0, 1]], [], [[0, 1], [2, 3]]),
    ("h4d2", "sto-3g", 2, 0, "uhf", True, "iao", [("rot", "z", 2), ("rot", "x", 2)], [[0]], [], [[0], [1], [2], [3]]),
    ("h3ring", "6-31g", 0, 1, "uhf", False, "iao", [("rot", "z", 3)], [[0]], [], [[0], [1], [2]]),
    ("beh2x", "sto-3g", 1, 1, "uhf", False, "sao", [("mir", "x")], [[1]], [[0]], [[0], [1], [2]]),
    ("h2o", "sto-3g", 1, 1, "uhf", False, "iao", [("rot", "z", 2)], [[1]], [[0]], [[0], [1], [2]]),
    # lattices: nelec stored in the charge slot
    ("latt6", "pbc", 0, 6, "rhf", False, "site", [("tra", [6, 1, 1])], [[0]], [], [[i] for i in range(6)]),
    ("latt6", "pbc", 0, 6, "rhf", False, "site", [("tra", [3, 1, 1])], [[0, 1]], [], [[0, 1], [2, 3], [4, 5]]),
    ("latt8", "apbc", 0, 8, "rhf", False, "site", [("tra", [4, 1, 1])], [[0], [1]], [], [[i] for i in range(8)]),
    ("latt6", "pbc", 0, 6, "uhf", False, "site", [("tra", [3, 1, 1])], [[0, 1]], [], [[0, 1], [2, 3], [4, 5]]),
    ("latt4x2", "pbc,pbc", 0, 10, "rhf", False, "site", [("tra", [2, 1, 1])], [[0, 1, 4, 5]], [], [[0, 1, 4, 5], [2, 3, 6, 7]]),
    ("latt4x2", "apbc,pbc", 0, 8, "rhf", False, "site", [("tra", [4, 2, 1])], [[0]], [], [[i] for i in range(8)]),
    # crystals folded from k-points
    ("h2chain", "sto-3g", 0, 3, "rhf", True, "iao", [("tra", None)], [[0], [1]], [], [[i] for i in range(6)]),
    ("h2chain", "sto-3g", 0, 3, "uhf", True, "iao", [("tra", None)], [[0, 1]], [], [[0, 1], [2, 3], [4, 5]]),
    ("h2chain", "sto-3g", 0, 2, "rhf", True, "sao", [("tra", None), ("inv", "midcell")], [[0]], [], [[i] for i in range(4)]),
    ("h2fcc", "sto-3g", 0, 2, "rhf", True, "sao", [("tra", None), ("inv", "midcell")], [[0]], [], [[i] for i in range(4)]),
]
BATHS = {
    "dmet": dict(bathtype="dmet"),
    "mp2": dict(bathtype="mp2", threshold=1e-5),
    "mp2o": dict(bathtype="mp2", threshold=1e-4, project_dmet_order=1, project_dmet_mode="entropy"),
    "full": dict(bathtype="full"),
}


def emb_cases(tier):
    out = []
    for i, d in enumerate(EMB):
        if d[10] is None:
            continue
        for b in BATHS:
            for s in ("MP2", "CCSD", "FCI"):
                if d[0] == "h2fcc" and (s, b) != ("MP2", "dmet"):
                    continue
                if s == "FCI" and b != "dmet":
                    continue
                if tier == "quick":
                    if s == "CCSD" and (b == "full" or (i + list(BATHS).index(b)) % 2):
                        continue
                    if b == "full":
                        continue
                out.append(dict(kind="emb", idx=i, sys=d[0], spin=d[4], bath=b, solver=s))
        if d[0] in ("h4d2h", "h2o", "h2chain", "nh3") and d[4] == "rhf":
            out.append(dict(kind="emb", idx=i, sys=d[0], spin=d[4], bath="mp2", solver="CCSD", sec=True))
    return out


REJECT = [
    # determinant without the symmetry of the nuclei
    ("rot", "h4d2h", "rhf", [("mir", "x")], [0]),
    ("rot", "h4d2h", "uhf", [("mir", "x")], [0]),
    ("rot", "h6ring", "rhf", [("rot", "z", 6)], [0]),
    ("rot", "h2o", "rhf", [("rot", "z", 2)], [1]),
    ("rot", "h4d2h", "uhf", [("inv",)], [0, 1]),
    ("spin", "h4d2h", "uhf", [("mir", "x")], [0]),
    # operations which map the fragment onto itself
    ("self", "h2o", "rhf", [("mir", "y")], [0]),
    ("self", "h2o", "uhf", [("rot", "z", 2)], [0]),
    ("self", "h4d2h", "rhf", [("mir", "z")], [0]),
    ("self", "h4d2h", "rhf", [("inv",)], [0, 1, 2, 3]),
    # operations which are no symmetries of the nuclei
    ("nuc", "h4d2h", "rhf", [("rot", "z", 4)], [0]),
    ("nuc", "h2o", "rhf", [("inv",)], [1]),
    ("nuc", "nh3", "rhf", [("rot", "z", 2)], [1]),
    ("nuc", "nh3", "uhf", [("mir", "x")], [1]),
]


def reject_cases(tier):
    return [dict(kind="reject", idx=i, sys=r[1], why=r[0]) for i, r in enumerate(REJECT)]


def run_reject(case, rec):
    why, name, kind, ctxs, atoms = REJECT[case["idx"]]
    if why == "rot":
        mf = S.rotated_mf(name, "sto-3g", 0, 0, kind)
    elif why == "spin":
        # Neel-type determinant: charge density symmetric, spin density not
        import copy

        mf = copy.copy(S.mf(name, "sto-3g", 0, 0, kind))
        mo = mf.mo_coeff[0]
        th = 0.3
        rot = np.eye(4)
        # mix HOMO with LUMO with opposite angles for both spins
        rot[1:3, 1:3] = [[np.cos(th), -np.sin(th)], [np.sin(th), np.cos(th)]]
        mf.mo_coeff = np.asarray([mo @ rot, mo @ rot.T])
    else:
        mf = S.mf(name, "sto-3g", 0, 0, kind)
    emb = EWF(mf)
    try:
        with emb.sao_fragmentation() as f:
            import contextlib

            with contextlib.ExitStack() as st:
                for c in ctxs:
                    if c[0] == "rot":
                        st.enter_context(f.rotational_symmetry(c[2], c[1]))
                    elif c[0] == "mir":
                        st.enter_context(f.mirror_symmetry(axis=c[1]))
                    else:
                        st.enter_context(f.inversion_symmetry())
                f.add_atomic_fragment(atoms)
        rec.fail("invalid symmetry accepted", why)
    except RuntimeError:
        rec.step()
    except Exception as e:
        rec.fail("invalid symmetry: unexpected error", repr(e))


def cases(tier):
    return op_cases(tier) + trans_cases(tier) + reject_cases(tier) + emb_cases(tier)


def cost(c):
    if c["kind"] == "emb":
        return (20 if "chain" in c["sys"] else 8) * (3 if c["solver"] == "CCSD" else 1)
    return 1


def setup(tier):
    global EWF, sym, lattmod, tsym
    from vayesta.ewf import EWF
    import vayesta.core.symmetry as sym
    import vayesta.core.symmetry.tsymmetry as tsym
    import vayesta.lattmod as lattmod


# ------------------------------------------------------------------------------------------------ operations


def build_mol(case):
    import pyscf.gto

    name = case["mol"]
    m = pyscf.gto.Mole()
    atoms = [a.strip().split() for a in S.GEOM[name].split(";")]
    basis = basis_of(name, case["big"])
    if case.get("mod") == "label":
        atoms[-1][0] += "1"
    if case.get("mod") == "basis":
        atoms[-1][0] += "1"
        basis = {"default": "sto-3g", atoms[-1][0]: "6-31g"}
    if case.get("mod") == "ghost":
        atoms[-1][0] = "ghost-" + atoms[-1][0]
    m.atom = [(a[0], tuple(float(x) for x in a[1:])) for a in atoms]
    m.basis = basis
    m.cart = bool(case.get("cart"))
    m.verbose = 0
    nel = 0
    m.spin = None
    m.build()
    kinds = []
    for i, a in enumerate(atoms):
        bas = tuple(map(str, m._basis[m.atom_symbol(i)]))
        kinds.append((m.atom_pure_symbol(i), bas))
    return m, kinds


def rotation(axis, ang):
    n = np.asarray(axis, float) / np.linalg.norm(axis)
    k = np.array([[0, -n[2], n[1]], [n[2], 0, -n[0]], [-n[1], n[0], 0]])
    return np.eye(3) + np.sin(ang) * k + (1 - np.cos(ang)) * k @ k


def run_ops(case, rec):
    mol, kinds = build_mol(case)
    xyz = mol.atom_coords()
    center = {"origin": np.zeros(3), "com": xyz.mean(0), "off": np.array([0.4, -0.3, 0.2])}[case["center"]]
    group = sym.SymmetryGroup(mol, xtol=1e-6)
    rng = np.random.RandomState(3)
    pts = rng.rand(40, 3) * 4 - 2 + xyz.mean(0)
    ao0 = mol.eval_gto("GTOval_cart" if mol.cart else "GTOval_sph", pts)
    s = mol.intor_symmetric("int1e_ovlp")
    h = mol.intor_symmetric("int1e_kin") + mol.intor_symmetric("int1e_nuc")
    naccepted = 0
    for typ, ax, n in case["ops"]:
        a = None if ax is None else np.asarray(AXES[ax], float)
        if typ == "inv":
            mats = [-np.eye(3)]
        elif typ == "mir":
            u = a / np.linalg.norm(a)
            mats = [np.eye(3) - 2 * np.outer(u, u)]
        else:
            mats = [rotation(a, 2 * np.pi * k / n) for k in range(1, n)]
        for k, R in enumerate(mats, 1):
            img = (xyz - center) @ R.T + center
            d = np.linalg.norm(img[:, None] - xyz[None], axis=2)
            perm = d.argmin(1)
            ok = np.all(d.min(1) < 1e-6) and len(set(perm)) == len(perm) and all(kinds[i] == kinds[perm[i]] for i in range(len(perm)))
            if not ok and np.all(d.min(1) < 1e-5):
                continue
            try:
                if typ == "inv":
                    op = sym.SymmetryInversion(group, center=center)
                elif typ == "mir":
                    op = sym.SymmetryReflection(group, a, center=center)
                else:
                    op = sym.SymmetryRotation(group, 2 * np.pi * k / n * a / np.linalg.norm(a), center=center)
            except RuntimeError as e:
                rec.check(not ok, "symmetry rejected", "%s %s %s: %s" % (typ, ax, n, e))
                rec.step()
                continue
            except Exception as e:
                rec.fail("symmetry", "%s %s %s raised %r" % (typ, ax, n, e))
                continue
            rec.step()
            if not rec.check(ok, "non-symmetry accepted", "%s %s %s" % (typ, ax, n)):
                continue
            naccepted += 1
            rec.close(op.apply_to_point(pts[0]), R @ (pts[0] - center) + center, 1e-10, "point map")
            try:
                O = op(np.eye(mol.nao))
            except Exception as e:
                rec.fail("application", "%s %s %s raised %r" % (typ, ax, n, e))
                continue
            # psi'(R r) = psi(r)
            ao1 = mol.eval_gto("GTOval_cart" if mol.cart else "GTOval_sph", (pts - center) @ R.T + center)
            rec.close(ao1 @ O, ao0, 1e-7, "real-space image %s" % typ)
            rec.close(O.T @ s @ O, s, 1e-7, "isometry %s" % typ)
            if not case.get("mod"):
                rec.close(O.T @ h @ O, h, 1e-6, "one-electron Hamiltonian %s" % typ)
            # axis, tuples
            x = rng.rand(2, mol.nao, 3)
            rec.close(op(x, axis=1), np.einsum("pq,aqb->apb", O, x), 1e-10, "axis argument")
            y = rng.rand(mol.nao, mol.nao)
            rec.close(op(y, axis=(0, 1)), O @ y @ O.T, 1e-9, "several axes")
            t = op((y, y[:, :2]))
            rec.close(t[1], O @ y[:, :2], 1e-10, "tuple argument")
            rec.state(("op", typ, ax, n, k))
    rec.out(naccepted)


# ------------------------------------------------------------------------------------------------ translations


def run_latt(case, rec):
    dims, bnd = case["dims"], case["bnd"]
    if len(dims) == 1:
        mol = lattmod.Hubbard1D(dims[0], hubbard_u=2.0, boundary=bnd)
        mesh = [dims[0], 1, 1]
        ph = [bnd]
    else:
        mol = lattmod.Hubbard2D(tuple(dims), hubbard_u=2.0, boundary=tuple(bnd))
        mesh = [dims[0], dims[1], 1]
        ph = list(bnd)
    group = sym.SymmetryGroup(mol, xtol=1e-6)
    sg = [1 if b == "pbc" else -1 for b in ph]
    xyz = mol.atom_coords()
    lat = mol.lattice_vectors()
    frac = xyz @ np.linalg.inv(lat)
    grid = np.rint(frac * np.asarray(mesh)).astype(int)
    where = {tuple(g): i for i, g in enumerate(grid)}
    h = mol.h1e
    ops = {}
    for t in itertools.product(*(range(m) for m in mesh)):
        vec = np.asarray(t) / np.asarray(mesh)
        op = rec.call("translation", sym.SymmetryTranslation, group, vec)
        rec.step()
        O = op(np.eye(mol.nao))
        ref = np.zeros_like(O)
        for i, g in enumerate(grid):
            to = np.asarray(g) + t
            phase = 1
            for d in range(len(dims)):
                if to[d] >= mesh[d]:
                    phase *= sg[d]
            ref[where[tuple(to % mesh)], i] = phase
        rec.close(O, ref, 1e-12, "translated sites")
        if min(dims) > 2:
            rec.close(O.T @ h @ O, h, 1e-12, "hopping matrix")
        ops[t] = O
        inv = rec.call("inverse", op.inverse)
        rec.close(inv(O), np.eye(mol.nao), 1e-12, "inverse")
        rec.close(op.vector_xyz, vec @ lat, 1e-10, "Cartesian vector")
        rec.state(("t", t))
    # not a symmetry
    vec = [0.5 / mesh[0], 0, 0]
    try:
        sym.SymmetryTranslation(group, vec)
        rec.fail("non-symmetry accepted", vec)
    except (AssertionError, RuntimeError):
        rec.step()


CELLS = {
    "cubic": (np.diag([3.0, 3.2, 3.4]), "He 0.1 0.2 0.3; H 1.2 0.2 0.9; H 1.2 0.9 0.9"),
    "skew": (np.array([[3.0, 0.3, 0.0], [-1.2, 2.9, 0.1], [0.2, 0.4, 3.3]]), "He 0.1 0.2 0.3; H 0.7 1.2 0.9; H 1.3 1.2 0.9"),
    "fcc": (np.array([[0.0, 2.6, 2.6], [2.6, 0.0, 2.6], [2.6, 2.6, 0.0]]), "He 0 0 0; H 1.3 1.3 1.1; H 1.3 1.3 1.7"),
}


def run_cell(case, rec):
    import pyscf.pbc.gto
    import pyscf.pbc.tools

    a, atom = CELLS[case["cell"]]
    cell = pyscf.pbc.gto.Cell()
    cell.a, cell.atom, cell.basis, cell.verbose = a, atom, {"He": "6-31g**", "H": "sto-3g"}, 0
    cell.build()
    mesh = case["kmesh"]
    sc = pyscf.pbc.tools.super_cell(cell, mesh)
    group = sym.SymmetryGroup(sc, xtol=1e-6)
    rng = np.random.RandomState(2)
    s = sc.pbc_intor("int1e_ovlp", hermi=1)
    kin = sc.pbc_intor("int1e_kin", hermi=1)
    pts = rng.rand(6, 3) * 3
    ao0 = sc.pbc_eval_gto("GTOval_sph", pts)
    nat = cell.natm
    for t in itertools.product(*(range(m) for m in mesh)):
        vec = np.asarray(t) / np.asarray(mesh)
        op = rec.call("translation", sym.SymmetryTranslation, group, vec)
        rec.step()
        O = op(np.eye(sc.nao))
        tr = vec @ sc.lattice_vectors()
        ao1 = sc.pbc_eval_gto("GTOval_sph", pts + tr)
        rec.close(ao1 @ O, ao0, 1e-7, "real-space image")
        rec.close(O.T @ s @ O, s, 1e-7, "isometry")
        rec.close(O.T @ kin @ O, kin, 1e-7, "kinetic energy")
        rec.close(op.vector_xyz, tr, 1e-9, "Cartesian vector")
        inv = rec.call("inverse", op.inverse)
        rec.close(inv(O), np.eye(sc.nao), 1e-12, "inverse")
        rec.state(t)
    for d in range(3):
        vec = np.zeros(3)
        vec[d] = 0.5 / mesh[d]
        try:
            sym.SymmetryTranslation(group, vec)
            rec.fail("non-symmetry accepted", vec)
        except (AssertionError, RuntimeError):
            rec.step()
    # the primitive cell is found from the geometry alone
    tops = rec.call("loop over translations", lambda: list(tsym.loop_tvecs(sc, mesh, include_origin=True)))
    rec.check(len(tops) == np.prod(mesh), "number of translations", len(tops))
    for (dx, dy, dz), tv in tops:
        rec.close(tv, np.asarray([dx, dy, dz]) / np.asarray(mesh) @ sc.lattice_vectors(), 1e-9, "translation vector")
        f = rec.call("translation operator", tsym.get_tsymmetry_op, sc, tv, unit="Bohr")
        if rec.check(f is not None, "translation recognised", (dx, dy, dz)):
            ref = sym.SymmetryTranslation(group, np.asarray([dx, dy, dz]) / np.asarray(mesh))(np.eye(sc.nao))
            rec.close(f(np.eye(sc.nao)), ref, 1e-12, "both translation implementations agree")
    idx = rec.call("tsymmetric_atoms", tsym.tsymmetric_atoms, sc, cell.lattice_vectors(), unit="Bohr")
    rec.check(list(idx) == [i % nat for i in range(sc.natm)], "translationally equivalent atoms", list(idx))
    idx = rec.call("tsymmetric_atoms", tsym.tsymmetric_atoms, sc, cell.lattice_vectors() * BOHR)
    rec.check(list(idx) == [i % nat for i in range(sc.natm)], "translationally equivalent atoms (Angstrom)", list(idx))


# ------------------------------------------------------------------------------------------------ embeddings


@functools.lru_cache(maxsize=None)
def meanfield(name, basis, spin, charge, kind, df):
    if name.startswith("latt"):
        dims = [int(x) for x in name[4:].split("x")]
        if len(dims) == 1:
            mol = lattmod.Hubbard1D(dims[0], nelectron=charge, hubbard_u=3.0, boundary=basis)
        else:
            mol = lattmod.Hubbard2D(tuple(dims), nelectron=charge, hubbard_u=3.0, boundary=tuple(basis.split(",")))
        mf = lattmod.LatticeRHF(mol) if kind == "rhf" else lattmod.LatticeUHF(mol)
        mf.conv_tol = 1e-12
        mf.kernel()
        assert mf.converged
        return mf
    if name in ("h2chain", "h2fcc"):
        import pyscf.pbc.gto
        import pyscf.pbc.scf

        cell = pyscf.pbc.gto.Cell()
        # the inversion centre of the cell is its midpoint
        cell.a, cell.atom, cell.basis, cell.verbose = np.diag([2.4, 5.0, 5.0]), "H 0.8 2.5 2.5; H 1.6 2.5 2.5", basis, 0
        if name == "h2fcc":
            a = 2.6 * (np.ones((3, 3)) - np.eye(3))
            mid = a.sum(0) / 2
            cell.a, cell.atom = a, [("H", mid + [0, 0.1, 0.38]), ("H", mid - [0, 0.1, 0.38])]
        cell.dimension = 3
        cell.build()
        kpts = cell.make_kpts([charge, 1, 1])
        mf = pyscf.pbc.scf.KRHF(cell, kpts) if kind == "rhf" else pyscf.pbc.scf.KUHF(cell, kpts)
        mf = mf.density_fit(auxbasis="sto-3g")
        mf.conv_tol = 1e-11
        mf.kernel()
        assert mf.converged
        return mf
    return S.mf(name, basis, spin, charge, kind, df)


def build(mf, d, case, explicit):
    solver = case["solver"]
    so = dict(conv_tol=1e-11)
    if solver == "CCSD":
        so["conv_tol_normt"] = 1e-9
    if solver == "FCI":
        so = dict(conv_tol=1e-14)
    emb = EWF(mf, solver=solver, bath_options=dict(BATHS[case["bath"]]), solver_options=so)
    ftype, ctxs, inside, outside, part = d[6], list(d[7]), d[8], d[9], d[10]
    trans = [c for c in ctxs if c[0] == "tra"]
    ctxs = [c for c in ctxs if c[0] != "tra"]
    kw = {}
    if trans:
        if explicit:
            kw["add_symmetric"] = False
        elif trans[0][1] is not None:
            emb.symmetry.set_translations(trans[0][1])
    import contextlib

    def center(c):
        if c[-1] == "mid":
            return dict(center=mf.mol.atom_coords().mean(0), unit="Bohr")
        if c[-1] == "midcell":
            return dict(center=(0.5, 0.5, 0.5), unit="latvec")
        return {}

    with getattr(emb, ftype + "_fragmentation")(**kw) as f:
        def add(atoms_list):
            for p in atoms_list:
                if ftype == "site":
                    f.add_atomic_fragment(p)
                else:
                    f.add_atomic_fragment(p)

        sec = (lambda: f.secondary_fragments(bno_threshold_factor=0.1)) if case.get("sec") else contextlib.nullcontext
        if explicit:
            with sec():
                add(part)
        else:
            with contextlib.ExitStack() as st:
                for c in ctxs:
                    if c[0] == "rot":
                        st.enter_context(f.rotational_symmetry(c[2], c[1]))
                    elif c[0] == "mir":
                        st.enter_context(f.mirror_symmetry(axis=c[1]))
                    else:
                        st.enter_context(f.inversion_symmetry(**center(c)))
                with sec():
                    add(inside)
            if outside:
                with sec():
                    add(outside)
    emb.kernel()
    return emb


def aslist(x):
    return list(x) if isinstance(x, (tuple, list)) else [x]


def run_emb(case, rec):
    d = EMB[case["idx"]]
    name, basis, spin, charge, kind, df = d[:6]
    mf = meanfield(name, basis, spin, charge, kind, df)
    e1 = rec.call("symmetric calculation", build, mf, d, case, False)
    rec.step()
    e2 = rec.call("explicit calculation", build, mf, d, case, True)
    rec.step()
    rec.check(len(e1.fragments) == len(e2.fragments), "number of fragments", (len(e1.fragments), len(e2.fragments)))
    if case["solver"] != "MP2" and not (e1.converged and e2.converged):
        rec.check(e1.converged == e2.converged, "convergence", (e1.converged, e2.converged))
        raise Skip("not converged")
    tol = dict(FCI=3e-5).get(case["solver"], 5e-6)
    # derived fragments: parents, cluster images
    ov = e1.get_ovlp()
    for x in e1.fragments:
        if x.sym_parent is None:
            continue
        cl = x.cluster
        ca = aslist(cl.c_active)
        for c in ca:
            rec.close(c.T @ ov @ c, np.eye(c.shape[1]), 1e-6, "orthonormal image cluster")
        # the image of the parent's fragment lies in the image cluster
        for c, cf in zip(ca, aslist(x.c_frag)):
            p = c @ c.T @ ov @ cf
            rec.close(p, cf, 1e-6, "fragment lies in its cluster")
        rec.step()
    par = e1.get_symmetry_parent_fragments()
    chl = e1.get_symmetry_child_fragments()
    rec.check(sum(x.symmetry_factor for x in e1.fragments if x.sym_parent is None) == len(e1.fragments), "symmetry factors add up")
    if len(d[7]) == 1:
        rec.check(len(par) + sum(map(len, chl)) == len(e1.fragments), "parents and children", (len(par), [len(c) for c in chl]))
    # the two calculations see the same fragments
    def key(e):
        return sorted(tuple(np.round(np.diag(sum(c @ c.T for c in aslist(x.c_frag))), 5)) for x in e.fragments)
    rec.close(np.asarray(key(e1)), np.asarray(key(e2)), 1e-4, "fragment spaces")
    qs = probe.supported(case["solver"], kind)
    for q in qs:
        if case.get("sec") and q not in ("e_corr", "e_tot", "e_wf", "t1", "t2", "dm1", "dm1_ao", "dm1_slow", "dm1_nosym", "dm1_early", "e_fbc", "dm2_cum"):
            continue
        if q in ("e_ccsd_t",) and kind == "uhf":
            pass
        vals, errs = [], []
        for e in (e1, e2):
            try:
                vals.append(probe.evaluate(e, q))
            except probe.Missing:
                errs.append("missing")
            except Exception as err:
                errs.append("%s: %s" % (type(err).__name__, err))
        if errs:
            if len(errs) == 1:
                rec.fail(q, "raised in one of both calculations: %s" % errs[0])
            continue
        rec.step()
        a, b = aslist(vals[0]), aslist(vals[1])
        for x, y in zip(a, b):
            rec.close(x, y, tol, q)
    # populations and correlation functions
    if case["solver"] in ("MP2", "CCSD"):
        lo = "iao+pao" if d[6] in ("iao", "iaopao") and not name.startswith("latt") and basis != "sto-3g" else ("lowdin" if not name.startswith("latt") else None)
        if lo:
            f = lambda e: e.pop_analysis(e.make_rdm1(ao_basis=True), local_orbitals=lo, write=False)
            a, b = rec.call("populations", f, e1), rec.call("populations", f, e2)
            rec.close(np.asarray(a), np.asarray(b), tol, "populations")
        for kd in ("Sz,Sz", "N,N", "dN,dN"):
            if kind == "uhf" and kd != "Sz,Sz":
                continue
            for us in (True, False):
                if name.startswith("latt"):
                    continue
                f = lambda e: e.get_corrfunc(kd, use_symmetry=us)
                a = rec.call("corrfunc", f, e1)
                b = rec.call("corrfunc", f, e2)
                rec.close(a, b, tol, "correlation function %s" % kd)
    rec.out(round(float(e1.e_corr), 6))


def run(case, rec):
    {"ops": run_ops, "latt": run_latt, "cell": run_cell, "reject": run_reject, "emb": run_emb}[case["kind"]](case, rec)
