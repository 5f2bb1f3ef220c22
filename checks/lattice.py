"""C12  Lattice models: Hamiltonian, geometry, interaction and mean-field agree for every size/boundary/ordering."""
import itertools
import numpy as np

PROPERTY = "C12"
LEVEL = "exploration"
RULE = (
    "one case per (dimension, size, boundary, tiling/ordering, filling) of the bounded grid; every case builds the model "
    "with the real code and compares hopping, interaction (4-index, transformed, 3-index) and mean-field with a "
    "reference derived only from the published site coordinates and lattice vectors"
)
BOUNDS = "1D: 3..10 sites (quick) / 3..16 (thorough), all orderings for <=4 (5) sites; 2D: all nx,ny in 2..5 (2..6), all tile shapes, all boundary pairs"
ASSUMPTIONS = ["two coordinates of neighbouring sites differ by one lattice spacing (1 Angstrom) as documented"]

BOHR = None


def setup(tier):
    global latt, lattmod, SymmetryGroup, SymmetryTranslation
    from vayesta import lattmod
    from vayesta.lattmod import latt
    from vayesta.core.symmetry import SymmetryGroup, SymmetryTranslation


def divisors(n):
    return [d for d in range(1, n + 1) if n % d == 0]


def cases(tier):
    full = tier == "thorough"
    out = []
    for n in range(3, 17 if full else 11):
        for b in ["PBC", "APBC", "pbc", "auto"]:
            if b == "auto" and n % 2:
                continue
            orders = [None]
            if n <= (5 if full else 4):
                orders += [list(p) for p in itertools.permutations(range(n))]
            else:
                orders += [list(reversed(range(n))), [(i + 2) % n for i in range(n)]]
                orders += [list(range(0, n, 2)) + list(range(1, n, 2))]
            for o in orders:
                out.append(dict(dim=1, n=n, b=b, order=o))
    hi = 6 if full else 5
    bnames = ["PBC", "APBC", "open"]
    for nx, ny in itertools.product(range(2, hi + 1), repeat=2):
        for bx, by in itertools.product(bnames, repeat=2):
            for tx, ty in itertools.product(divisors(nx), divisors(ny)):
                out.append(dict(dim=2, n=[nx, ny], b=[bx, by], tiles=[tx, ty]))
        for b in ["PBC", "periodic", "anti-periodic", "open"]:
            out.append(dict(dim=2, n=[nx, ny], b=b, tiles=[1, 1]))
        if nx % 2 == 0 and ny % 2 == 0:
            out.append(dict(dim=2, n=[nx, ny], b="auto", tiles=[1, 1]))
    if full:
        out.append(dict(dim=2, n=[4, 8], b="auto", tiles=[2, 2]))
        out.append(dict(dim=2, n=[8, 4], b="auto", tiles=[2, 2]))
    return out


PH = {"pbc": 1, "periodic": 1, "apbc": -1, "anti-periodic": -1, "open": 0}


def ref_hopping(coords, dims, phases, t):
    """Nearest-neighbour hopping from the integer site coordinates; wrapping multiplies by the boundary phase."""
    n = len(coords)
    pos = {tuple(c): i for i, c in enumerate(coords)}
    h = np.zeros((n, n))
    for i, c in enumerate(coords):
        for d in range(len(dims)):
            for s in (-1, 1):
                x = list(c)
                x[d] += s
                ph = 1
                if not 0 <= x[d] < dims[d]:
                    x[d] %= dims[d]
                    ph = phases[d]
                h[i, pos[tuple(x)]] += -t * ph
    return h


def run(case, rec):
    from pyscf.lib.parameters import BOHR
    import pyscf.lib

    t, u = 0.7, 3.25
    dim = case["dim"]
    if dim == 1:
        n = nsite = case["n"]
        dims = [n]
        mol = rec.call(
            "construct", lattmod.Hubbard1D, n, nelectron=n - n % 2, hubbard_t=t, hubbard_u=u, boundary=case["b"], order=case["order"]
        )
        b = case["b"].lower()
        if b == "auto":
            b = "pbc" if n % 4 == 2 else "apbc"
        phases = [PH[b]]
    else:
        nx, ny = case["n"]
        nsite = nx * ny
        dims = [nx, ny]
        nel = nsite if case["b"] == "auto" else nsite - nsite % 2
        bnd = case["b"] if isinstance(case["b"], str) else tuple(case["b"])
        mol = rec.call(
            "construct", lattmod.Hubbard2D, (nx, ny), nelectron=nel, hubbard_t=t, hubbard_u=u, boundary=bnd, tiles=tuple(case["tiles"])
        )
        if bnd == "auto":
            # documented closed-shell choice: the spectrum must be gapped at half filling
            e = np.linalg.eigvalsh(mol.h1e)
            rec.check(e[nsite // 2] - e[nsite // 2 - 1] > 1e-6, "auto-boundary-closed-shell", "no gap")
            phases = [PH[x.lower()] for x in mol.boundary]
        else:
            bb = [bnd, bnd] if isinstance(bnd, str) else bnd
            phases = [PH[x.lower()] for x in bb]
    rec.step()
    rec.check(mol.nsite == nsite and mol.natm == nsite and mol.nao_nr() == nsite and mol.nao == nsite, "nsite")
    # geometry
    coords = np.asarray(mol.atom_coords()) * BOHR
    ic = np.rint(coords).astype(int)
    rec.close(coords, ic, 1e-9, "integer-coordinates")
    grid = sorted(itertools.product(*[range(d) for d in dims]))
    rec.check(sorted(tuple(c[:dim]) for c in ic) == grid, "coordinates-cover-lattice", str(ic.tolist()))
    a = np.asarray(mol.lattice_vectors()) * BOHR
    rec.close(np.diag(a)[:dim], np.asarray(dims, dtype=float), 1e-9, "lattice-vectors")
    rec.close(a - np.diag(np.diag(a)), np.zeros((3, 3)), 1e-12, "lattice-vectors-orthogonal")
    # hopping
    mf = (lattmod.LatticeRHF)(mol)
    h = np.asarray(mf.get_hcore())
    ref = ref_hopping([tuple(c[:dim]) for c in ic], dims, phases, t)
    rec.close(h, ref, 1e-12, "hopping")
    # tiles: consecutive blocks of sites form the tiles
    if dim == 2 and case["tiles"] != [1, 1]:
        tx, ty = case["tiles"]
        ts = tx * ty
        for k in range(nsite // ts):
            blk = ic[k * ts : (k + 1) * ts, :2]
            lo = blk.min(axis=0)
            ok = lo[0] % tx == 0 and lo[1] % ty == 0
            ok = ok and sorted(map(tuple, blk - lo)) == sorted(itertools.product(range(tx), range(ty)))
            rec.check(ok, "tile-%d" % k, str(blk.tolist()))
    if dim == 1 and case["order"] is not None:
        rec.check([c[0] for c in ic] == case["order"], "ordering", str(ic[:, 0]))
    # interaction
    eri = np.zeros(4 * [nsite])
    np.fill_diagonal(eri, u)
    rec.close(mol.get_eri(), eri, 1e-12, "interaction")
    e2 = np.zeros(4 * [nsite])
    np.fill_diagonal(e2, 1.5)
    rec.close(mol.get_eri(hubbard_u=1.5), e2, 1e-12, "interaction-override")
    if dim == 1:
        vref = eri.copy()
        xs = ic[:, 0]
        for i, j in itertools.product(range(nsite), repeat=2):
            if (xs[i] - xs[j]) % nsite in (1, nsite - 1):
                vref[i, i, j, j] = 0.4
        rec.close(mol.get_eri(v_nn=0.4), vref, 1e-12, "nn-interaction")
    rng = np.random.RandomState(7)
    nmo = [min(nsite, k) for k in (2, 3, 1, 2)]
    cs = [rng.rand(nsite, k) - 0.5 for k in nmo]
    full = np.einsum("pqrs,pi,qj,rk,sl->ijkl", eri, *cs, optimize=True)
    rec.close(mol.ao2mo(cs), full.reshape(nmo[0] * nmo[1], -1), 1e-10, "ao2mo-4")
    full = np.einsum("pqrs,pi,qj,rk,sl->ijkl", eri, *(4 * [cs[1]]), optimize=True)
    rec.close(mol.ao2mo(cs[1]), full.reshape(nmo[1] ** 2, -1), 1e-10, "ao2mo-1")
    df = latt.HubbardDF(mol)
    l = np.concatenate([pyscf.lib.unpack_tril(x) for x in df.loop()])
    rec.check(len(l) == df.get_naoaux(), "naoaux")
    rec.close(np.einsum("Lij,Lkl->ijkl", l, l), eri, 1e-10, "3-index-factorisation")
    rec.close(df.ao2mo(cs), mol.ao2mo(cs), 1e-12, "df-ao2mo")
    rec.step(8)
    # Mean-field objects: two-body mean-field and energy from arbitrary symmetric density matrices
    d = rng.rand(nsite, nsite)
    d = d + d.T
    mfs = [mf]
    mol2 = mol.copy()
    mol2.incore_anyway = False
    mfs.append(lattmod.LatticeRHF(mol2))
    for k, m in enumerate(mfs):
        j, kk = m.get_jk(mol, d)
        rec.close(j, np.einsum("ijkl,kl->ij", eri, d), 1e-10, "J-%d" % k)
        rec.close(kk, np.einsum("ijkl,jk->il", eri, d), 1e-10, "K-%d" % k)
        rec.close(m.get_ovlp(), np.eye(nsite), 1e-14, "overlap")
        v = m.get_veff(mol, d)
        rec.close(v, np.einsum("ijkl,kl->ij", eri, d) - np.einsum("ijkl,jk->il", eri, d) / 2, 1e-10, "veff-%d" % k)
    d2 = rng.rand(nsite, nsite)
    d2 = d2 + d2.T
    umf = lattmod.LatticeUHF(mol)
    j, kk = umf.get_jk(mol, (d, d2))
    for s, x in enumerate((d, d2)):
        rec.close(j[s], np.einsum("ijkl,kl->ij", eri, x), 1e-10, "UJ")
        rec.close(kk[s], np.einsum("ijkl,jk->il", eri, x), 1e-10, "UK")
    rec.step(4)
    # Converged mean-field energy = energy functional at its own density; U=0 limit = sum of orbital energies
    e = np.linalg.eigvalsh(ref)
    nocc = mol.nelectron // 2
    rec.out(np.round(e, 6).tolist())
    if nocc == nsite or e[nocc] - e[nocc - 1] > 1e-3:
        mol0 = mol.copy()
        mol0.hubbard_u = 0.0
        for cls in (lattmod.LatticeRHF, lattmod.LatticeUHF):
            if cls is lattmod.LatticeUHF and mol.nelectron % 2:
                continue
            m0 = cls(mol0)
            e0 = rec.call("mf-u0-" + cls.__name__, m0.kernel)
            rec.close(e0, 2 * e[:nocc].sum(), 1e-7, "mf-energy-u0-" + cls.__name__)
            rec.step()
        m1 = lattmod.LatticeRHF(mol)
        m1.conv_tol = 1e-11
        m1.kernel()
        dm = m1.make_rdm1()
        en = np.einsum("ij,ij", ref, dm) + 0.25 * u * np.sum(np.diag(dm) ** 2)
        if m1.converged:
            rec.close(m1.e_tot, en, 1e-8, "mf-energy-functional")
            rec.close(np.trace(dm), mol.nelectron, 1e-8, "mf-electrons")
        rec.step()
    # every lattice translation commutes with the Hamiltonian (incl. its boundary phases)
    if 0 not in phases:
        group = SymmetryGroup(mol)
        b3 = None
        for s in itertools.product(*[range(k) for k in dims]):
            vec = [s[k] / dims[k] for k in range(dim)] + (3 - dim) * [0.0]
            op = rec.call("translation", SymmetryTranslation, group, vec)
            # operator matrix: apply to identity
            T = op(np.eye(nsite))
            rec.close(T @ T.T, np.eye(nsite), 1e-12, "translation-orthogonal")
            rec.close(T @ h @ T.T, h, 1e-12, "translation-commutes %s" % (s,))
            # action on sites: site at x goes to x+s
            P = np.abs(T)
            tgt = [tuple((ic[i, k] + s[k]) % dims[k] for k in range(dim)) for i in range(nsite)]
            img = [tuple(ic[int(np.argmax(P[:, i]))][:dim]) for i in range(nsite)]
            rec.check(tgt == img, "translation-target %s" % (s,))
            rec.step()
