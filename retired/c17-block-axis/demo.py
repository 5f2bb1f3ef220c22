import numpy as np
from vayesta.core.util import split_into_blocks
a = np.arange(24.0).reshape(2, 3, 4)
for ax in (-3, -2, -1, 0, 1, 2):
    for bs in (1, 2, 3):
        blks = list(split_into_blocks(a, axis=ax, blocksize=bs))
        out = np.concatenate([b for s, b in blks], axis=ax) if len(blks) > 1 else blks[0][1]
        assert out.shape == a.shape and np.array_equal(out, a), (ax, bs)
        for s, b in blks:
            assert np.array_equal(b, np.moveaxis(np.moveaxis(a, ax, 0)[s], 0, ax)), (ax, bs)
