"""C17  Tensor and spin-algebra utilities against direct definitions, over complete bounded input spaces."""
import functools
import itertools
import math
import numpy as np

PROPERTY = "C17"
LEVEL = "exploration"
RULE = "one case per helper and leading input parameter; every further input of the bounded space is enumerated inside; oracles are textbook definitions (explicit sums, permutations, concatenation)"
ASSUMPTIONS = ["numpy.einsum without path optimisation is the definition of a contraction"]
BOUNDS = (
    "einsum: all 2-operand patterns of rank <=3 over 3 indices with all output subsets/orders, all bracketings of 3-operand chains, 3 bracket types, decorated indices; "
    "dot: <=4 matrices of dimensions 1..3 incl. None; blocks: sizes <=12 x steps; decompression: all dimensions <=5 of the 12 index patterns in use; "
    "packing: all lists of <=3 arrays over 12 array kinds; spin algebra: all restricted/unrestricted operand mixtures; block SVD: all chain couplings of <=6 sites"
)


def cases(tier):
    out = []
    ranks = [1, 2, 3] if tier == "quick" else [1, 2, 3, 4]
    for ra in ranks:
        for a in itertools.product("ijk", repeat=ra):
            out.append(dict(k="einsum2", a="".join(a)))
    for br in ("()", "[]", "{}"):
        for form in range(6):
            out.append(dict(k="einsum_br", br=br, form=form))
    out.append(dict(k="einsum_deco"))
    for n in (1, 2, 3, 4):
        out.append(dict(k="dot", n=n))
    out.append(dict(k="hstack"))
    for size in range(0, 13 if tier == "quick" else 21):
        out.append(dict(k="brange", size=size))
        out.append(dict(k="split", size=size))
    for pat in ("i", "ii", "iii", "iiii", "iiaa", "iiiaaa", "iiaajb", "iajjbb", "iiaajjbb", "iiiaaajb", "iajjjbbb", "ij", "iaia", "aii", "aijaij"):
        out.append(dict(k="decompress", pat=pat))
    for dims in range(1, 5):
        out.append(dict(k="tril", dims=dims))
        out.append(dict(k="perm", n=dims))
    out.append(dict(k="perm", n=5))
    for m in (1, 2, 3):
        out.append(dict(k="sign", m=m))
    out.append(dict(k="attr"))
    for first in range(len(arrays())):
        out.append(dict(k="pack", first=first))
    for f in ("add_numbers", "hstack", "dot", "eigh", "T", "arith"):
        out.append(dict(k="spin", f=f))
    for size in range(2, 7 if tier == "quick" else 8):
        for n in range(1, size):
            out.append(dict(k="bsvd", size=size, n=n))
    out.append(dict(k="cache"))
    out.append(dict(k="lines"))
    return out


def rnd(shape, salt=0):
    """Deterministic, generic array."""
    n = int(np.prod(shape)) if len(shape) else 1
    x = np.sin(1.0 + 1.7 * np.arange(n) + 0.37 * salt) + 0.1 * np.cos(np.arange(n) ** 2 + salt)
    return x.reshape(shape)


DIM = dict(i=2, j=3, k=1, l=2, m=3)


def run(case, rec):
    globals()["do_" + case["k"]](case, rec)
    rec.out(case)


def eins_ref(sub, *ops):
    """Explicit definition: sum over all index values."""
    ins, _, out = sub.partition("->")
    ins = ins.split(",")
    letters = sorted(set("".join(ins)))
    if "->" not in sub:
        allc = "".join(ins)
        out = "".join(c for c in letters if allc.count(c) == 1)
    dims = {}
    for s, o in zip(ins, ops):
        for c, d in zip(s, o.shape):
            dims[c] = d
    res = np.zeros([dims[c] for c in out])
    for vals in itertools.product(*[range(dims[c]) for c in letters]):
        v = dict(zip(letters, vals))
        p = 1.0
        for s, o in zip(ins, ops):
            p = p * o[tuple(v[c] for c in s)]
        res[tuple(v[c] for c in out)] += p
    return res


def do_einsum2(case, rec):
    from vayesta.core.util import einsum

    a = case["a"]
    A = rnd([DIM[c] for c in a], 1)
    for rb in (0, 1, 2):
        for b in itertools.product("ijk", repeat=rb):
            b = "".join(b)
            B = rnd([DIM[c] for c in b], 2)
            letters = sorted(set(a + b))
            outs = [None] + ["".join(p) for n in range(len(letters) + 1) for p in itertools.permutations(letters, n)]
            for out in outs:
                sub = (a + "," + b if rb else a) + ("" if out is None else "->" + out)
                ops = (A, B) if rb else (A,)
                got = rec.call("einsum", einsum, sub, *ops)
                rec.step()
                rec.close(got, eins_ref(sub, *ops), 1e-12, "einsum", sub)
                rec.check(np.ndim(got) > 0 or not isinstance(got, np.ndarray), "einsum", "scalar result is an array: " + sub)


def do_einsum_br(case, rec):
    from vayesta.core.util import einsum

    l, r = case["br"]
    A, B, C = rnd((2, 3), 1), rnd((3, 2), 2), rnd((2, 3), 3)
    form = case["form"]
    subs = [
        ("%sij,jk->ik%s,kl->il", 0), ("%sij,jk%s,kl->il", 0), ("ij,%sjk,kl->jl%s->il", 0), ("ij,%sjk,kl%s->il", 0),
        ("%sij,jk%s,kl", 0), ("ij,%sjk,kl->lj%s->li", 0),
    ][form : form + 1]  # fmt: skip
    for s, _ in subs:
        sub = s % (l, r)
        plain = ("ij,jk,kl->il" if form != 5 else "ij,jk,kl->li") if form != 4 else "ij,jk,kl->il"
        got = rec.call("einsum-brackets", einsum, sub, A, B, C)
        rec.close(got, eins_ref(plain, A, B, C), 1e-12, "einsum-brackets", sub)
        rec.step()
    # nested and four operands
    D = rnd((3, 2), 4)
    for sub in ("%s%sij,jk->ik%s,kl->il%s,lm->im" % (l, l, r, r), "%sij,jk->ik%s,%skl,lm->km%s->im" % (l, r, l, r), "ij,%sjk,%skl,lm->km%s->jm%s->im" % (l, l, r, r)):
        got = rec.call("einsum-nested", einsum, sub, A, B, C, D)
        rec.close(got, eins_ref("ij,jk,kl,lm->im", A, B, C, D), 1e-12, "einsum-nested", sub)
    for bad in ("%sij,jk->ik,kl->il" % l, "ij,jk%s,kl->il" % r):
        try:
            einsum(bad, A, B, C)
            rec.fail("einsum-brackets", "unmatched bracket accepted: %s" % bad)
        except Exception:
            pass


def do_einsum_deco(case, rec):
    from vayesta.core.util import einsum

    A, B = rnd((2, 3), 1), rnd((3, 2), 2)
    for i, j, k in itertools.product(["i", "i1", "i$", "i'"], ["j", "i2", "j!"], ["k", "k3", "i9"]):
        sub = "%s%s,%s%s->%s%s" % (i, j, j, k, i, k)
        got = rec.call("einsum-decorated", einsum, sub, A, B)
        rec.close(got, A @ B, 1e-12, "einsum-decorated", sub)
        sub = "%s%s,%s%s->%s%s" % (i, j, j, k, k, i)
        got = rec.call("einsum-decorated", einsum, sub, A, B)
        rec.close(got, (A @ B).T, 1e-12, "einsum-decorated", sub)
        rec.step(2)


def do_dot(case, rec):
    from vayesta.core.util import dot

    n = case["n"]
    for dims in itertools.product((1, 2, 3), repeat=n + 1):
        mats = [rnd((dims[i], dims[i + 1]), i) for i in range(n)]
        ref = mats[0]
        for m in mats[1:]:
            ref = ref @ m
        if n >= 2:
            rec.close(rec.call("dot", dot, *mats), ref, 1e-12, "dot", dims)
            # None arguments at every position
            for pos in range(n + 1):
                args = mats[:pos] + [None] + mats[pos:]
                rec.close(rec.call("dot", dot, *args, ignore_none=True), ref, 1e-12, "dot(ignore_none)", (dims, pos))
            # vectors at the ends
            rec.close(dot(mats[0][0], *mats[1:]), ref[0], 1e-12, "dot(vector)", dims)
            rec.close(dot(*mats[:-1], mats[-1][:, 0]), ref[:, 0], 1e-12, "dot(vector)", dims)
            out = np.empty_like(ref)
            dot(*mats, out=out)
            rec.close(out, ref, 1e-12, "dot(out)", dims)
        rec.step()


def do_hstack(case, rec):
    from vayesta.core.util import hstack

    pool = [None, rnd((2, 1), 1), rnd((2, 3), 2), rnd((2, 0), 3)]
    for n in (1, 2, 3, 4):
        for c in itertools.product(range(4), repeat=n):
            args = [pool[i] for i in c]
            keep = [a for a in args if a is not None]
            if not keep:
                continue
            rec.close(rec.call("hstack", hstack, *args), np.concatenate(keep, axis=1), 0, "hstack", c)
            rec.step()


def do_brange(case, rec):
    from vayesta.core.util import brange

    size = case["size"]
    for start in (0, 1, 3):
        for step in range(1, 15):
            for minstep in (1, 2, 5):
                for maxstep in (None, 1, 2, 4, 20):
                    if maxstep is not None and minstep > maxstep:
                        continue
                    blks = list(rec.call("brange", lambda: list(brange(start, start + size, step, minstep=minstep, maxstep=maxstep))))
                    cov = [i for b in blks for i in range(b.start, b.stop)]
                    rec.check(cov == list(range(start, start + size)), "brange", (start, size, step, minstep, maxstep, blks))
                    if size:
                        eff = min(max(step, minstep), maxstep if maxstep is not None else size)
                        rec.check(all(b.stop - b.start == eff for b in blks[:-1]), "brange-blocksize", (start, size, step, minstep, maxstep, blks))
                        rec.check(blks[-1].stop - blks[-1].start <= eff, "brange-blocksize", (start, size, step, blks))
                    rec.step()
    cov = [i for b in brange(size) for i in range(b.start, b.stop)]
    rec.check(cov == list(range(size)), "brange(stop)", cov)
    cov = [i for b in brange(2, 2 + size) for i in range(b.start, b.stop)]
    rec.check(cov == list(range(2, 2 + size)), "brange(start,stop)", cov)
    rec.check(list(brange(5, 3)) == [], "brange(empty)")


def do_split(case, rec):
    from vayesta.core.util import split_into_blocks

    size = case["size"]
    if size == 0:
        return
    for ndim in (1, 2, 3):
        for ax in range(-ndim, ndim):
            shape = [2, 3, 2][:ndim]
            shape[ax] = size
            a = rnd(shape, ndim)
            for kw in [dict(blocksize=b) for b in range(1, size + 3)] + [dict(max_memory=m) for m in (8, 16, 100, a.nbytes - 1, a.nbytes, a.nbytes + 1)] + [{}]:
                if "max_memory" in kw and kw["max_memory"] <= 0:
                    continue
                parts = rec.call("split", lambda: list(split_into_blocks(a, axis=ax, **kw)))
                cat = np.concatenate([p for _, p in parts], axis=ax)
                rec.close(cat, a, 0, "split_into_blocks", (shape, ax, kw))
                for blk, p in parts:
                    idx = [slice(None)] * ndim
                    idx[ax % ndim] = blk
                    rec.close(p, a[tuple(idx)], 0, "split_into_blocks slice", (shape, ax, kw))
                    if "blocksize" in kw:
                        rec.check(p.shape[ax] <= kw["blocksize"], "split blocksize", (shape, ax, kw))
                    rec.check(p.shape[ax] > 0, "split empty block", (shape, ax, kw))
                rec.step()


def perm_sign(p):
    return (-1) ** sum(1 for i in range(len(p)) for j in range(i) if p[j] > p[i])


def do_perm(case, rec):
    from vayesta.core.util import permutations_with_signs

    n = case["n"]
    res = rec.call("permutations", permutations_with_signs, list(range(n)))
    rec.check(len(res) == math.factorial(n) and len(set(tuple(p) for p, s in res)) == math.factorial(n), "permutations", "not all permutations")
    for p, s in res:
        rec.check(perm_sign(p) == s, "permutation sign", p)
        rec.step()


def do_tril(case, rec):
    from vayesta.core.util import tril_indices_ndim

    dims = case["dims"]
    for n in range(0, 7):
        for diag in (False, True):
            got = rec.call("tril", tril_indices_ndim, n, dims, include_diagonal=diag)
            got = list(zip(*[list(map(int, x)) for x in got]))
            cmp = (lambda a, b: a >= b) if diag else (lambda a, b: a > b)
            want = [t for t in itertools.product(range(n), repeat=dims) if all(cmp(a, b) for a, b in zip(t, t[1:]))]
            rec.check(got == want, "tril_indices_ndim", (n, dims, diag))
            rec.step()


def do_decompress(case, rec):
    from vayesta.core.util import decompress_axes, tril_indices_ndim

    pat = case["pat"]
    chars = []
    for c in pat:
        if c not in chars:
            chars.append(c)
    maxd = 5 if len(pat) <= 6 else 4
    for dims in itertools.product(range(0, maxd + 1), repeat=len(chars)):
        d = dict(zip(chars, dims))
        if np.prod([d[c] for c in pat], dtype=float) > 30000:
            continue
        # random antisymmetric tensor in compressed form: first character group slowest, in order of first appearance
        combos = [list(itertools.combinations(range(d[c] - 1, -1, -1), pat.count(c))) for c in chars]
        combos = [sorted(c) for c in combos]
        flat = rnd((int(np.prod([len(c) for c in combos])),), len(pat))
        shape = tuple(d[c] for c in pat)
        full = np.zeros(shape)
        for val, idx in zip(flat, itertools.product(*combos)):
            for perms in itertools.product(*[list(itertools.permutations(range(len(t)))) for t in idx]):
                sign = np.prod([perm_sign(p) for p in perms])
                its = {c: iter([t[q] for q in p]) for c, t, p in zip(chars, idx, perms)}
                full[tuple(next(its[c]) for c in pat)] = sign * val
        got = rec.call("decompress_axes", decompress_axes, pat, flat, shape=shape)
        rec.close(got, full, 0, "decompress_axes", (pat, dims))
        rec.step()


def do_sign(case, rec):
    from vayesta.core.util import fix_orbital_sign
    from vayesta.core.helper import orbital_sign_convention

    m = case["m"]
    for nmo in (1, 2, 3):
        base = rnd((3, nmo), m)
        for signs in itertools.product((1, -1), repeat=nmo):
            for roll in range(3):
                c = np.roll(base, roll, axis=0) * np.asarray(signs)
                for fn in (fix_orbital_sign, orbital_sign_convention):
                    for inplace in (True, False):
                        x = c.copy()
                        got, sg = rec.call("sign", fn, x, inplace=inplace)
                        rec.close(got, c * sg, 0, "orbital signs", (signs, roll))
                        rec.check(np.all(got[np.argmax(abs(got), axis=0), np.arange(nmo)] > 0), "largest coefficient not positive", (signs, roll))
                        if not inplace:
                            rec.close(x, c, 0, "input modified")
                        else:
                            rec.close(x, got, 0, "inplace not in place")
                        rec.step()
                x, y = c.copy(), 2 * c[:, ::-1].copy()
                (ga, gb), (sa, sb) = rec.call("sign-u", fix_orbital_sign, (x.copy(), y.copy()), inplace=False)
                rec.close(ga, x * sa, 0, "spin-orbital signs")
                rec.close(gb, y * sb, 0, "spin-orbital signs")


def do_attr(case, rec):
    from vayesta.core.util import getattr_recursive, setattr_recursive, replace_attr, getif, callif

    class A:
        pass

    a = A()
    a.b = A()
    a.b.c = A()
    a.b.c.d = 5
    a.x = 1
    rec.check(getattr_recursive(a, "b.c.d") == 5, "getattr_recursive")
    rec.check(getattr_recursive(a, "x") == 1, "getattr_recursive")
    rec.check(getattr_recursive(a, "b.q", 7) == 7, "getattr_recursive default")
    for key, obj in (("b.c.d", a.b.c), ("b.e", a.b), ("y", a)):
        rec.call("setattr_recursive", setattr_recursive, a, key, 9)
        rec.check(getattr(obj, key.split(".")[-1]) == 9, "setattr_recursive", key)
    for raise_ in (False, True):
        for names in (dict(x=2), dict(x=3, b=4), dict(x=lambda self: self.b)):
            old = dict(vars(a))
            try:
                with replace_attr(a, **names) as r:
                    rec.check(r is a, "replace_attr")
                    for k, v in names.items():
                        if callable(v):
                            rec.check(a.x() is a.b, "replace_attr bound method")
                        else:
                            rec.check(getattr(a, k) == v, "replace_attr value")
                    if raise_:
                        raise KeyError
            except KeyError:
                pass
            rec.check(vars(a) == old, "replace_attr restores", (raise_, names))
            rec.step()
    rec.check(getif(None, 0) is None and getif([4], 0) == 4 and getif(None, 0, default=3) == 3, "getif")
    rec.check(callif(abs, None) is None and callif(abs, -2) == 2 and callif(abs, None, default=1) == 1, "callif")


@functools.lru_cache(maxsize=None)
def arrays():
    return [
        None, np.asarray(2.5), np.asarray(7), rnd((3,), 1), np.arange(4), rnd((2, 3), 2), rnd((3, 2), 3).T, np.arange(6).reshape(3, 2)[::2],
        rnd((0, 2), 4), rnd((2, 1, 3), 5), np.arange(8).reshape(2, 2, 2, 1), np.zeros((0,), dtype=int),
    ]  # fmt: skip


def do_pack(case, rec):
    from vayesta.core.helper import pack_arrays, unpack_arrays

    pool = arrays()
    for n in (0, 1, 2):
        for rest in itertools.product(range(len(pool)), repeat=n):
            arrs = [pool[case["first"]]] + [pool[i] for i in rest]
            packed = rec.call("pack", pack_arrays, *arrs)
            rec.check(packed.ndim == 1 and packed.dtype == float, "pack dtype")
            out = rec.call("unpack", unpack_arrays, packed)
            rec.step()
            if not rec.check(len(out) == len(arrs), "unpack count", rest):
                continue
            for x, y in zip(arrs, out):
                if x is None:
                    rec.check(y is None, "unpack None")
                else:
                    rec.check(y is not None and y.dtype == x.dtype, "unpack dtype", (x, y))
                    rec.close(y, x, 0, "unpack values", rest)


def do_spin(case, rec):
    from vayesta.core import spinalg as sp
    import scipy.linalg

    f = case["f"]
    R = [rnd((3, 2), 1), rnd((3, 1), 2), rnd((3, 3), 3)]
    U = [(rnd((3, 2), 4), rnd((3, 1), 5)), (rnd((3, 1), 6), rnd((3, 2), 7)), (rnd((3, 3), 8), rnd((3, 2), 9))]
    if f == "add_numbers":
        for n in (1, 2, 3):
            nums = [1.5, 2, -3.25][:n]
            rec.check(sp.add_numbers(*nums) == sum(nums), "add_numbers")
            un = [(1.5, 2), (2, 7), (-3.25, 1)][:n]
            rec.check(tuple(sp.add_numbers(*un)) == (sum(x[0] for x in un), sum(x[1] for x in un)), "add_numbers")
    elif f == "hstack":
        for n in (1, 2, 3):
            for idx in itertools.product((0, 1, 2, None), repeat=n):
                if all(i is None for i in idx):
                    continue
                args = [None if i is None else R[i] for i in idx]
                rec.close(rec.call("hstack_matrices", sp.hstack_matrices, *args), np.concatenate([a for a in args if a is not None], axis=1), 0, "hstack_matrices(R)", idx)
                for typ in (tuple, list):
                    args = [None if i is None else typ(U[i]) for i in idx]
                    got = rec.call("hstack_matrices", sp.hstack_matrices, *args)
                    for s in range(2):
                        rec.close(got[s], np.concatenate([a[s] for a in args if a is not None], axis=1), 0, "hstack_matrices(U)", idx)
                rec.step()
        try:
            sp.hstack_matrices(R[0], U[0])
            rec.fail("hstack_matrices", "mixture of restricted and unrestricted accepted")
        except ValueError:
            pass
    elif f == "dot":
        dims = (2, 3, 4, 2, 3)
        for n in (2, 3, 4):
            for kinds in itertools.product("RUA", repeat=n):
                args, aa, bb = [], [], []
                for p, k in enumerate(kinds):
                    a = rnd((dims[p], dims[p + 1]), p)
                    b = rnd((dims[p], dims[p + 1]), p + 10)
                    if k == "R":
                        args.append(a), aa.append(a), bb.append(a)
                    elif k == "U":
                        args.append((a, b)), aa.append(a), bb.append(b)
                    else:
                        args.append(np.asarray([a, b])), aa.append(a), bb.append(b)
                got = rec.call("spin-dot", sp.dot, *args)
                refs = [functools.reduce(np.matmul, x) for x in (aa, bb)]
                if set(kinds) == {"R"}:
                    rec.close(got, refs[0], 1e-12, "spin-dot", kinds)
                else:
                    for s in range(2):
                        rec.close(got[s], refs[s], 1e-12, "spin-dot", (kinds, s))
                rec.step()
    elif f == "eigh":
        a = [x @ x.T + np.diag([1, 2, 3.0]) for x in (rnd((3, 3), 1), rnd((3, 3), 2))]
        b = [x @ x.T + np.eye(3) for x in (rnd((3, 3), 3), rnd((3, 3), 4))]
        e, v = rec.call("spin-eigh", sp.eigh, a[0])
        rec.close(a[0] @ v, v * e, 1e-10, "eigh(R)")
        e, v = rec.call("spin-eigh", sp.eigh, a[0], b[0])
        rec.close(a[0] @ v, b[0] @ v * e, 1e-10, "eigh(R,b)")
        for bk in (None, "R", "U"):
            bb = None if bk is None else (b[0] if bk == "R" else tuple(b))
            e, v = rec.call("spin-eigh", sp.eigh, tuple(a), bb)
            for s in range(2):
                m = np.eye(3) if bk is None else (b[0] if bk == "R" else b[s])
                rec.close(a[s] @ v[s], m @ v[s] * e[s], 1e-10, "eigh(U)", bk)
            rec.step()
    elif f == "T":
        for x in R:
            rec.close(sp.T(x), x.T, 0, "transpose(R)")
            rec.close(sp.transpose(x, (1, 0)), x.T, 0, "transpose(R)")
        for x in U:
            for y in (x, list(x)):
                got = sp.transpose(y)
                rec.close(got[0], x[0].T, 0, "transpose(U)")
                rec.close(got[1], x[1].T, 0, "transpose(U)")
            rec.step()
    elif f == "arith":
        for name, op in (("add", np.add), ("subtract", np.subtract), ("multiply", np.multiply)):
            fn = getattr(sp, name)
            for x in R:
                rec.close(fn(x, 2 * x + 1), op(x, 2 * x + 1), 0, name)
            for k in (2, 3, 4):
                x = tuple(rnd((2, k), i) for i in range(k))
                y = tuple(rnd((2, k), i + 7) for i in range(k))
                got = rec.call(name, fn, x, y)
                rec.check(len(got) == k, name + " blocks")
                for i in range(len(got)):
                    rec.close(got[i], op(x[i], y[i]), 0, name, i)
                rec.step()
        for k in (1, 2, 3, 4):
            x = tuple(rnd((2, k), i) for i in range(k))
            z, c, n = sp.zeros_like(x), sp.copy(x), sp.norm(x)
            rec.check(len(z) == len(c) == len(n) == k, "block number")
            for i in range(k):
                rec.close(z[i], 0 * x[i], 0, "zeros_like")
                rec.close(c[i], x[i], 0, "copy")
                rec.check(not np.shares_memory(c[i], x[i]), "copy shares memory")
                rec.close(n[i], math.sqrt(np.sum(x[i] ** 2)), 1e-12, "norm")
        c = sp.copy(R[0])
        rec.close(c, R[0], 0, "copy")
        rec.check(not np.shares_memory(c, R[0]), "copy shares memory")
        rec.close(sp.norm(R[0]), math.sqrt(np.sum(R[0] ** 2)), 1e-12, "norm")


def do_bsvd(case, rec):
    from vayesta.core.linalg import recursive_block_svd

    size, n = case["size"], case["n"]
    # symmetric matrices with every pattern of present/absent nearest-neighbour couplings between consecutive environment sites
    m = size - n
    for pattern in itertools.product((0, 1), repeat=m):
        for maxblock in (1, 2, 100):
            a = np.diag(rnd((size,), 1))
            for k, present in enumerate(pattern):
                row = (n - 1) if k == 0 else (n + k - 1)
                if present:
                    a[row, n + k] = a[n + k, row] = 0.5 + 0.1 * k
            if n > 1 and pattern[0]:
                a[0, n] = a[n, 0] = 0.2
            # hide the structure by an orthogonal rotation of the environment
            q, _ = np.linalg.qr(rnd((m, m), 3) + 2 * np.eye(m))
            rot = np.eye(size)
            rot[n:, n:] = q
            mat = rot.T @ a @ rot
            coeff, sv, orders = rec.call("recursive_block_svd", recursive_block_svd, mat, n, tol=1e-8, maxblock=maxblock)
            rec.close(coeff.T @ coeff, np.eye(m), 1e-10, "orthogonal", pattern)
            full = np.eye(size)
            full[n:, n:] = coeff
            t = full.T @ mat @ full
            # number of coupled orbitals: Krylov dimension, limited by maxblock
            chain = 0
            for present in pattern:
                if not present:
                    break
                chain += 1
            expect = min(chain, maxblock)
            rec.check(np.count_nonzero(np.isfinite(orders)) == expect, "number of coupled orbitals", (pattern, maxblock, orders))
            rec.check(np.all(np.diff(orders[:expect]) >= 0), "orders ascending", orders)
            rec.check(np.all(sv[:expect] > 1e-8) and np.all(sv[expect:] == 0), "singular values", sv)
            # an order-k orbital only couples to order k-1, k, k+1; uncoupled orbitals do not couple to fragment or coupled ones
            o = np.concatenate([np.zeros(n), orders])
            for x in range(size):
                for y in range(size):
                    if abs(o[x] - o[y]) > 1 and not (np.isinf(o[x]) and np.isinf(o[y])):
                        if np.isinf(o[x]) or np.isinf(o[y]):
                            if maxblock < 100 and min(o[x], o[y]) == maxblock:
                                continue
                        rec.check(abs(t[x, y]) < 1e-7, "coupling beyond neighbouring orders", (pattern, maxblock, x, y))
            for k in range(1, int(expect) + 1):
                blk = t[np.ix_(o == k - 1, o == k)]
                rec.close(np.sort(np.linalg.svd(blk)[1])[::-1][: np.sum(o == k)], sv[orders == k], 1e-8, "singular values of blocks")
            rec.step()


def do_cache(case, rec):
    from vayesta.core.util import cache, call_once

    for copy in (False, True):
        for form in ("call", "size"):
            n = [0]

            def f(x, y=0):
                n[0] += 1
                return [x, y]

            g = cache(copy=copy)(f) if form == "call" else cache(4, copy=copy)(f)
            a = g(1)
            b = g(1)
            rec.check(n[0] == 1 and a == b == [1, 0], "cache hit")
            rec.check((a is b) == (not copy), "cache copy semantics", copy)
            if copy:
                a.append(3)
                rec.check(g(1) == [1, 0], "cached value was changed through a returned copy")
            rec.check(g(1, y=2) == [1, 2] and n[0] == 2, "cache key")
            g.cache_clear()
            rec.check(g(1) == [1, 0] and n[0] == 3, "cache_clear")
            rec.step()


def do_lines(case, rec):
    from vayesta.core.util import break_into_lines

    words = ["a", "bbb", "cccccc", "dd"]
    for n in range(1, 6):
        for w in itertools.product(words, repeat=n):
            s = " ".join(w)
            for ll in (1, 4, 8, 100):
                got = rec.call("break_into_lines", break_into_lines, s, linelength=ll)
                rec.check(got.split() == list(w), "words lost or reordered", (s, ll, got))
                rec.check(all(len(x) <= max(ll, len(max(x.split(), key=len))) for x in got.split("\n")), "line too long", (s, ll, got))
                rec.step()
