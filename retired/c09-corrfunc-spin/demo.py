import numpy as np
import pyscf.gto, pyscf.scf
import vayesta, vayesta.ewf
mol = pyscf.gto.M(atom="O 0 0 0; O 0 0 1.2", basis="sto-6g", spin=2, verbose=0)
mf = pyscf.scf.UHF(mol); mf.conv_tol = 1e-11; mf.kernel()
mol2 = mol.copy(); mol2.spin = -2
mf2 = pyscf.scf.UHF(mol2); mf2.conv_tol = 1e-11; mf2.kernel(mf.make_rdm1()[::-1])
mf2.mo_coeff = mf.mo_coeff[::-1].copy(); mf2.mo_occ = mf.mo_occ[::-1].copy(); mf2.mo_energy = mf.mo_energy[::-1].copy()
r = []
for m in (mf, mf2):
    emb = vayesta.ewf.EWF(m, bath_options=dict(bathtype="dmet"))
    with emb.sao_fragmentation() as f:
        f.add_all_atomic_fragments()
    emb.kernel()
    r.append(emb.get_corrfunc("sz,sz"))
assert abs(r[0] - r[1]).max() < 1e-5, r
