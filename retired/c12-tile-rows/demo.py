from vayesta.lattmod import Hubbard2D
for n, t in (((4, 2), (2, 1)), ((2, 6), (2, 3)), ((4, 4), (1, 2))):
    o = Hubbard2D.get_tiles_order(n, t)
    assert sorted(o) == list(range(n[0] * n[1])), (n, t, o)
    m = Hubbard2D(n, nelectron=n[0] * n[1], tiles=t, boundary="PBC")
    c = m.atom_coords() * 0.529177210903
    for k in range(0, len(c), t[0] * t[1]):
        blk = c[k : k + t[0] * t[1], :2].round().astype(int)
        assert sorted(map(tuple, (blk - blk.min(0)).tolist())) == sorted((x, y) for x in range(t[0]) for y in range(t[1])), (n, t)
