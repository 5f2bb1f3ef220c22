"""Tiny test systems, built with PySCF only (independent of the code under test) and cached per process."""
import functools
import numpy as np

GEOM = {
    # chains/rings of hydrogens, deliberately without accidental symmetry unless stated
    "h2": "H 0 0 0; H 0 0 0.78",
    "h3": "H 0 0 0; H 0 0.1 0.9; H 0.2 0 1.9",
    "h4": "H 0 0 0; H 0 0.05 0.85; H 0.1 0 1.9; H 0 0.15 2.9",
    "h4ring": "H 0.6 0.6 0; H -0.6 0.6 0; H -0.6 -0.6 0; H 0.6 -0.6 0",
    "h4rect": "H 0.6 0.45 0.1; H -0.6 0.5 0; H -0.6 -0.45 0.1; H 0.6 -0.5 0",
    "h4rect2": "H 0.6 0.45 0; H -0.6 0.45 0; H -0.6 -0.45 0; H 0.6 -0.45 0",
    "lih": "Li 0 0 0; H 0.1 0.2 1.55",
    "h2o": "O 0 0 0.1173; H 0 0.7572 -0.4692; H 0 -0.7572 -0.4692",
    "h2o_asym": "O 0.02 0.01 0.1173; H 0.1 0.7572 -0.4692; H 0 -0.8572 -0.4692",
    "hehp": "He 0 0 0; H 0 0 0.9",
    "oh": "O 0 0 0; H 0.1 0 0.96",
    "li": "Li 0 0 0",
    "beh2": "Be 0 0 0; H 0 0 1.33; H 0 0 -1.33",
    "beh": "Be 0 0 0; H 0.1 0.2 1.33",
    "n2": "N 0 0 -0.55; N 0 0 0.55",
    "h6ring": "; ".join("H %.12f %.12f 0" % (1.1 * np.cos(2 * np.pi * k / 6), 1.1 * np.sin(2 * np.pi * k / 6)) for k in range(6)),
    "h6chain": "; ".join("H 0 0 %.3f" % (0.95 * k) for k in range(6)),
}


@functools.lru_cache(maxsize=None)
def mol(name, basis="sto-3g", spin=0, charge=0, cart=False):
    import pyscf.gto

    m = pyscf.gto.Mole()
    m.atom = GEOM[name]
    m.basis = basis
    m.spin = spin
    m.charge = charge
    m.cart = cart
    m.verbose = 0
    m.build()
    return m


@functools.lru_cache(maxsize=None)
def mf(name, basis="sto-3g", spin=0, charge=0, kind="rhf", df=False, cart=False):
    import pyscf.scf

    m = mol(name, basis, spin, charge, cart)
    x = pyscf.scf.RHF(m) if kind == "rhf" else pyscf.scf.UHF(m)
    if df:
        x = x.density_fit(auxbasis="weigend" if df is True else df)
    x.conv_tol = 1e-12
    x.conv_tol_grad = 1e-9
    x.max_cycle = 200
    if kind == "uhf":
        dm = x.get_init_guess()
        if spin:
            pass
        x.kernel(dm)
    else:
        x.kernel()
    if not x.converged:
        nx = x.newton()
        nx.conv_tol = 1e-12
        nx.conv_tol_grad = 1e-8
        nx.kernel(x.mo_coeff, x.mo_occ)
        for k in ("mo_coeff", "mo_occ", "mo_energy", "e_tot", "converged"):
            setattr(x, k, getattr(nx, k))
    assert x.converged, name
    return x


@functools.lru_cache(maxsize=None)
def rotated_mf(name, basis="sto-3g", spin=0, charge=0, kind="rhf", df=False, scale=0.08):
    """Mean-field object describing a determinant which is not the Hartree-Fock solution (occupied-virtual mixing)."""
    import copy
    import scipy.linalg

    m = copy.copy(mf(name, basis, spin, charge, kind, df))
    rng = np.random.RandomState(5)

    def rot(c):
        x = rng.rand(c.shape[1], c.shape[1]) - 0.5
        return c @ scipy.linalg.expm(scale * (x - x.T))

    c = rot(m.mo_coeff) if kind == "rhf" else np.asarray([rot(m.mo_coeff[0]), rot(m.mo_coeff[1])])
    m.mo_coeff = c
    dm = m.make_rdm1(c, m.mo_occ)
    f = m.get_fock(dm=dm)
    if kind == "rhf":
        m.mo_energy = np.einsum("ai,ab,bi->i", c, f, c)
    else:
        m.mo_energy = np.asarray([np.einsum("ai,ab,bi->i", c[s], f[s], c[s]) for s in range(2)])
    m.e_tot = m.energy_tot(dm=dm)
    return m


def orth(c, s):
    return c.T @ s @ c
