"""Observable quantities of a finished embedding calculation, used by several differential checks."""
import numpy as np


class Missing(Exception):
    pass


def _m(emb, name):
    """Semi-private evaluation routes are probed only while they exist."""
    f = getattr(emb, name, None)
    if f is None:
        raise Missing(name)
    return f


def _spin2(mf_or_emb):
    return None


Q = {
    # --- energies
    "e_corr": lambda e: e.e_corr,
    "e_tot": lambda e: e.e_tot,
    "e_mf": lambda e: e.e_mf,
    "e_wf": lambda e: e.get_e_corr(functional="wf"),
    "e_wf_tot": lambda e: e.get_wf_energy(),
    "e_dm": lambda e: e.get_e_corr(functional="dm"),
    "e_dm_tot": lambda e: e.get_dm_energy(),
    "e_dm_gg": lambda e: e.get_dm_corr_energy(dm1="global-wf", dm2="global-wf"),
    "e_dm_2p1l": lambda e: e.get_dm_corr_energy(dm1="2p1l"),
    "e_dmet": lambda e: e.get_e_corr(functional="dmet"),
    "e_dmet_00": lambda e: e.get_dmet_energy(part_cumulant=False, approx_cumulant=False),
    "e_dmet_10": lambda e: e.get_dmet_energy(part_cumulant=True, approx_cumulant=False),
    "e_dmet_01": lambda e: e.get_dmet_energy(part_cumulant=False, approx_cumulant=True),
    "e_dmet_elec": lambda e: e.get_dmet_energy(with_nuc=False),
    "e_ccsd": lambda e: e.get_ccsd_corr_energy(),
    "e_ccsd_full": lambda e: e.get_ccsd_corr_energy(full_wf=True),
    "e_ccsd_t": lambda e: e.get_ccsd_t_corr_energy(),
    "e_fbc": lambda e: e.get_fbc_energy(),
    # --- amplitudes
    "t1": lambda e: e.get_global_t1(),
    "t2": lambda e: e.get_global_t2(),
    "l1": lambda e: e.get_global_l1(),
    "l2": lambda e: e.get_global_l2(),
    "t1_ao": lambda e: e.get_global_t1(ao_basis=True),
    "t2_ao": lambda e: e.get_global_t2(ao_basis=True),
    # --- density matrices
    "dm1": lambda e: e.make_rdm1(),
    "dm1_ao": lambda e: e.make_rdm1(ao_basis=True),
    "dm1_nomf": lambda e: e.make_rdm1(with_mf=False),
    "dm1_slow": lambda e: e.make_rdm1(slow=True),
    "dm1_nosym": lambda e: e.make_rdm1(use_sym=False),
    "dm1_early": lambda e: e.make_rdm1(late_t2_sym=False),
    "dm1_tl": lambda e: e.make_rdm1(t_as_lambda=True),
    "dm1_2p1l": lambda e: _m(e, "_make_rdm1_ccsd")(),
    "dm1_2p1l_ao": lambda e: _m(e, "_make_rdm1_ccsd")(ao_basis=True, with_mf=False),
    "dm1_pl": lambda e: _m(e, "_make_rdm1_ccsd_proj_lambda")(),
    "dm1_pl_ao": lambda e: _m(e, "_make_rdm1_ccsd_proj_lambda")(ao_basis=True, with_mf=False),
    "dm1_demo": lambda e: e.make_rdm1_demo(),
    "dm1_demo_ao": lambda e: e.make_rdm1_demo(ao_basis=True),
    "dm2": lambda e: e.make_rdm2(),
    "dm2_ao": lambda e: e.make_rdm2(ao_basis=True),
    "dm2_cum": lambda e: e.make_rdm2(with_dm1=False),
    "dm2_exactcum": lambda e: e.make_rdm2(approx_cumulant=False),
    "dm2_gw": lambda e: _m(e, "_make_rdm2_ccsd_global_wf")(),
    "dm2_gw_ao": lambda e: _m(e, "_make_rdm2_ccsd_global_wf")(ao_basis=True),
    "dm2_gw_nosym": lambda e: _m(e, "_make_rdm2_ccsd_global_wf")(symmetrize=False),
    "dm2_demo": lambda e: e.make_rdm2_demo(),
    "dm2_demo_ao": lambda e: e.make_rdm2_demo(ao_basis=True),
    "dm2_demo_00": lambda e: e.make_rdm2_demo(part_cumulant=False, approx_cumulant=False),
    "dm2_demo_10": lambda e: e.make_rdm2_demo(part_cumulant=True, approx_cumulant=False),
}

_DMET = {"e_dmet", "e_dmet_00", "e_dmet_10", "e_dmet_01", "e_dmet_elec", "dm1_demo", "dm1_demo_ao", "dm2_demo", "dm2_demo_ao", "dm2_demo_00", "dm2_demo_10"}
_RDM = {"dm1", "dm1_ao", "dm1_nomf", "dm1_slow", "dm1_nosym", "dm1_early", "dm1_tl"}
_DM2 = {"dm2", "dm2_ao", "dm2_cum", "dm2_exactcum"}


def unsupported(solver, kind):
    """Quantities the package documents as not available (NotImplementedError / no such argument)."""
    u = set()
    if solver == "MP2":
        u |= {"e_dmet_10", "dm1_tl", "dm2_exactcum", "dm2_demo_10"}
        u |= {"dm2_gw", "dm2_gw_ao", "dm2_gw_nosym"}  # CCSD expression, not defined for MP2
        if kind == "uhf":
            u |= _DMET
    if solver == "CISD":
        u |= _DMET | _RDM | _DM2
    if solver == "FCI":
        u |= _DM2 | {"dm1_slow", "dm1_nosym", "dm1_early", "dm1_tl"}
    if kind == "uhf":
        u |= {"e_ccsd", "e_ccsd_full", "dm1_pl", "dm1_pl_ao", "dm2_exactcum", "dm2_gw_ao"}
    return u


def supported(solver, kind):
    u = unsupported(solver, kind)
    return [q for q in Q if q not in u]


def evaluate(emb, name):
    return Q[name](emb)
