"""C15  Fragment filters and option settings.

(a) filters: every combination of (attribute criteria, option criteria, flag criteria, candidate list) over a bounded alphabet of criteria is
    evaluated by Embedding.get_fragments and by a one-line model (list comprehension over fragments).
(b) options: explicit-state exploration of all operation words (construct / add fragment / change options on the embedding / on a fragment /
    edit a dictionary in place / rejected change) with a pure model of nested-dictionary merging; the whole option state of every live object
    and of a new default object is compared after each word.
"""
import copy
import functools
import itertools
import numpy as np

from vlib import systems as S

PROPERTY = "C15"
LEVEL = "model_checking"
RULE = "one case per first criterion (filters) or per operation word (options); every fragment list / every option of every live object is compared with the model"
ASSUMPTIONS = ["criteria values are scalars, None, lists or predicates (the documented forms)"]
BOUNDS = (
    "filters: all combinations of <=2 attribute criteria, <=2 option criteria, <=2 flag criteria over the alphabets below, 6 fragments, 3 candidate lists; "
    "option names: every option name anywhere (plus junk) as key of every option dictionary and of the top level through 4 routes; options: all words of length <= 3 (quick) / 4 (thorough) over 14 operations, restricted and unrestricted EWF, DMET"
)

ATTR = [
    ("id", 1), ("id", [0, 2, 3]), ("name", "f1"), ("name", ["f0", "nope", "f4"]), ("active", True), ("active", False),
    ("contributes", True), ("sym_parent", None), ("mpi_rank", [0, 1]), ("mpi_rank", 1), ("n_frag", "even"), ("solver", "MP2"), ("atoms", "single"),
]  # fmt: skip
OPT = [("store_eris", True), ("store_eris", False), ("wf_factor", None), ("wf_factor", [2, 3]), ("auxiliary", False), ("sym_factor", "gt1"), ("nelectron_target", [None, 2])]
FLAG = [("is_envelop", True), ("is_envelop", False), ("is_secfrag", [True]), ("bath_parent_fragment_id", None), ("bath_parent_fragment_id", [0, 4]), ("test_extcorr", "truthy")]
PRED = {"even": lambda x: x % 2 == 0, "gt1": lambda x: x > 1, "truthy": lambda x: bool(x), "single": lambda x: x is not None and len(x) == 1}


def val(v):
    return PRED[v] if isinstance(v, str) and v in PRED else v


def ok(attr, v):
    v = val(v)
    if callable(v):
        return bool(v(attr))
    if isinstance(v, list):
        return any((attr is x) if x is None or attr is None else attr == x for x in v)
    return (attr is v) if (v is None or attr is None) else attr == v


def criteria(alpha, n):
    out = [()]
    for k in range(1, n + 1):
        for c in itertools.combinations(range(len(alpha)), k):
            if len(set(alpha[i][0] for i in c)) == k:
                out.append(c)
    return out


@functools.lru_cache(maxsize=None)
def filter_system():
    import vayesta.ewf

    emb = vayesta.ewf.EWF(S.mf("h6chain"), solver="MP2", bath_options=dict(bathtype="dmet"))
    frags = []
    with emb.sao_fragmentation() as f:
        for i in range(6):
            kw = {}
            if i in (1, 4):
                kw["store_eris"] = False
            if i in (2, 5):
                kw["wf_factor"] = 2 + (i == 5)
            if i == 3:
                kw["auxiliary"] = True
                kw["sym_factor"] = 2.0
            if i == 4:
                kw["nelectron_target"] = 2
            frags.append(f.add_orbital_fragment([i], name="f%d" % i, **kw))
    # attributes that are set by other parts of the code (secondary fragments, MPI distribution, user)
    frags[1].active = False
    frags[4].active = False
    frags[2].mpi_rank = 1
    frags[3].mpi_rank = 2
    frags[5].mpi_rank = 1
    frags[2].flags.is_envelop = False
    frags[4].flags.is_envelop = False
    frags[4].flags.is_secfrag = True
    frags[4].flags.bath_parent_fragment_id = 0
    frags[5].flags.bath_parent_fragment_id = 4
    frags[5].flags.test_extcorr = True
    frags[0].atoms = [0]
    frags[1].atoms = [1, 2]
    frags[5].atoms = [5]
    frags[3].solver = "CCSD"
    frags[5].sym_parent = frags[0]
    return emb, frags


# ------------------------------------------------------------------------------------------------ options

OPS = {
    "N": "new embedding of the same class with some options",
    "F": "add fragment without options",
    "G": "add fragment with options",
    "a": "emb.change_options(store_eris)",
    "b": "emb.change_options(bath_options: threshold)",
    "c": "emb.change_options(bath_options: threshold_vir, bathtype)",
    "d": "emb.change_options(solver_options: conv_tol)",
    "e": "frag[0].change_options(bath_options: threshold)",
    "f": "frag[-1].change_options(solver_options: max_cycle, store_eris)",
    "g": "edit emb.opts.solver_options in place",
    "h": "edit frag[0].opts.bath_options in place",
    "x": "emb.change_options(unknown key) -> TypeError",
    "y": "emb.change_options(bath_options: unknown) -> TypeError",
    "z": "frag[0].change_options(bath_options: unknown) -> TypeError",
}


def cases(tier):
    out = []
    for c in criteria(ATTR, 2):
        out.append(dict(kind="filter", attr=list(c)))
    for cls in ("rEWF", "uEWF", "DMET"):
        for route in ("new", "emb", "add", "frag"):
            out.append(dict(kind="keys", cls=cls, route=route))
    n = 3 if tier == "quick" else 4
    for cls in ("rEWF", "uEWF", "DMET"):
        for k in range(0, n + 1):
            for w in itertools.product(OPS, repeat=k):
                w = "".join(w)
                if cls != "rEWF" and k == n and tier == "quick":
                    continue
                # fragment operations need a fragment
                bad = False
                have = False
                for o in w:
                    if o in "FG":
                        have = True
                    if o in "efhz" and not have:
                        bad = True
                if not bad:
                    out.append(dict(kind="opts", cls=cls, word=w))
    return out


def setup(tier):
    import vayesta.ewf
    import vayesta.dmet

    global PRISTINE
    PRISTINE = {c: (snap(new_emb(c).opts), None) for c in ("rEWF", "uEWF", "DMET")}


def snap(opts):
    return copy.deepcopy({k: v for k, v in vars(opts).items()})


def new_emb(cls, **kw):
    import vayesta.ewf
    import vayesta.dmet

    if cls == "rEWF":
        return vayesta.ewf.EWF(S.mf("h4"), **kw)
    if cls == "uEWF":
        return vayesta.ewf.EWF(S.mf("h4", spin=2, kind="uhf"), **kw)
    return vayesta.dmet.DMET(S.mf("h4"), **kw)


def merge(model, kw):
    for k, v in kw.items():
        if isinstance(v, dict) and isinstance(model.get(k), dict):
            model[k] = dict(model[k])
            model[k].update(v)
        else:
            model[k] = v


def run(case, rec):
    if case["kind"] == "filter":
        return run_filter(case, rec)
    if case["kind"] == "keys":
        return run_keys(case, rec)
    return run_opts(case, rec)


def run_filter(case, rec):
    emb, frags = filter_system()
    fa = [ATTR[i] for i in case["attr"]]
    lists = {"all": None, "rev": frags[::-1], "some": [frags[4], frags[2], frags[5]]}
    for co in criteria(OPT, 2):
        fo = [OPT[i] for i in co]
        for cf in criteria(FLAG, 2):
            ff = [FLAG[i] for i in cf]
            for ln, cand in lists.items():
                want = [
                    f
                    for f in (frags if cand is None else cand)
                    if all(ok(getattr(f, k), v) for k, v in fa) and all(ok(getattr(f.opts, k), v) for k, v in fo) and all(ok(getattr(f.flags, k), v) for k, v in ff)
                ]
                try:
                    got = emb.get_fragments(
                        cand, options={k: val(v) for k, v in fo} or None, flags={k: val(v) for k, v in ff} or None, **{k: val(v) for k, v in fa}
                    )
                except Exception as e:
                    rec.fail("get_fragments", "raised %r for %s" % (e, (fa, fo, ff, ln)))
                    continue
                rec.step()
                a, b = [f.id for f in got], [f.id for f in want]
                rec.check(a == b, "get_fragments", "criteria %s options %s flags %s list %s: got %s expected %s" % (fa, fo, ff, ln, a, b))
                rec.state("filter", a)
    rec.trace()
    rec.out(case["attr"])


def run_keys(case, rec):
    """Every name which is an option anywhere (top level, nested, embedding or fragment), as key of every dictionary and of the top level."""
    cls, route = case["cls"], case["route"]
    base = new_emb(cls)
    with base.sao_fragmentation() as f:
        fr = f.add_orbital_fragment([0])
    names = {"nonsense", "Threshold", ""}
    for o in (base.opts, fr.opts):
        for k, v in vars(o).items():
            names.add(k)
            if isinstance(v, dict):
                names |= set(v)
    names = sorted(names)
    model0 = snap(base.opts) if route in ("new", "emb") else snap(fr.opts)
    dicts = [None] + [k for k, v in model0.items() if isinstance(v, dict)]

    def attempt(kw):
        if route == "new":
            return new_emb(cls, **kw).opts
        emb = new_emb(cls)
        if route == "emb":
            emb.change_options(**kw)
            return emb.opts
        with emb.sao_fragmentation() as f:
            if route == "add":
                return f.add_orbital_fragment([0], **kw).opts
            x = f.add_orbital_fragment([0])
        x.change_options(**kw)
        return x.opts

    for d in dicts:
        valid = set(model0) if d is None else set(model0[d])
        for k in names:
            if d is None and (k in SPECIAL or not k.isidentifier()):
                continue
            # top level: the default value, as arbitrary values are (rightly) refused
            value = copy.deepcopy(model0[k]) if (d is None and k in model0) else 0.03125
            kw = {k: value} if d is None else {d: {k: value}}
            try:
                got = attempt(copy.deepcopy(kw))
            except TypeError as e:
                rec.check(k not in valid, "valid key rejected", "%s.%s via %s: %s" % (d, k, route, e))
                continue
            except Exception as e:
                rec.fail("key", "%s.%s via %s raised %r" % (d, k, route, e))
                continue
            rec.step()
            if not rec.check(k in valid, "unknown key accepted", "%s[%r] via %s" % (d, k, route)):
                continue
            m = copy.deepcopy(model0)
            merge(m, kw)
            compare(rec, snap(got), m, "after setting %s.%s" % (d, k))
            rec.state(cls, route, d, k)
    rec.trace()
    rec.out(cls, route)


# names of (non-option) parameters of the constructors / add-fragment functions
SPECIAL = {"mf", "solver", "log", "name", "orbitals", "atoms", "self", "add_symmetric", "orbital_filter", "nelectron_target", "wf_factor", "env_filter"}


def run_opts(case, rec):
    cls = case["cls"]
    emb = new_emb(cls)
    frag_cls = emb.Fragment
    models = [copy.deepcopy(PRISTINE[cls][0])]
    objs = [emb]
    fobjs, fmodels = [], []
    nfr = 0

    def add(orb, **kw):
        with emb.sao_fragmentation() as fragmentation:
            return fragmentation.add_orbital_fragment([orb], **kw)

    def expect_reject(fn, label):
        try:
            fn()
        except TypeError:
            return
        rec.fail(label, "unknown option was accepted")

    for op in case["word"]:
        if op == "N":
            kw = dict(store_eris=False, bath_options=dict(threshold=0.25, dmet_threshold=1e-7))
            objs.append(rec.call("new", new_emb, cls, **copy.deepcopy(kw)))
            m = copy.deepcopy(PRISTINE[cls][0])
            merge(m, kw)
            models.append(m)
        elif op in "FG":
            if nfr >= 4:
                continue
            kw = {} if op == "F" else dict(bath_options=dict(threshold=0.5), dm_with_frozen=True)
            user = copy.deepcopy(kw)
            f = rec.call("add-fragment", add, nfr, **user)
            rec.check(user == kw, "add-fragment", "option arguments were modified: %s" % user)
            nfr += 1
            m = {k: v for k, v in copy.deepcopy(vars(frag_cls.Options())).items()}
            for k, v in copy.deepcopy(models[0]).items():
                if k in m:
                    m[k] = v
            merge(m, kw)
            fobjs.append(f)
            fmodels.append(m)
        elif op in "abcd":
            kw = {
                "a": dict(store_eris=False),
                "b": dict(bath_options=dict(threshold=0.125)),
                "c": dict(bath_options=dict(threshold_vir=0.0625, bathtype="full")),
                "d": dict(solver_options=dict(conv_tol=1e-5)),
            }[op]
            user = copy.deepcopy(kw)
            rec.call("change_options", emb.change_options, **user)
            rec.check(user == kw, "change_options", "arguments were modified")
            merge(models[0], kw)
            for m in fmodels:
                merge(m, kw)
        elif op == "e":
            kw = dict(bath_options=dict(threshold=0.75))
            rec.call("fragment.change_options", fobjs[0].change_options, **copy.deepcopy(kw))
            merge(fmodels[0], kw)
        elif op == "f":
            kw = dict(solver_options=dict(max_cycle=7), store_eris=True)
            rec.call("fragment.change_options", fobjs[-1].change_options, **copy.deepcopy(kw))
            merge(fmodels[-1], kw)
        elif op == "g":
            emb.opts.solver_options["conv_tol"] = 0.5
            models[0]["solver_options"] = dict(models[0]["solver_options"], conv_tol=0.5)
        elif op == "h":
            fobjs[0].opts.bath_options["rcut"] = 0.5
            fmodels[0]["bath_options"] = dict(fmodels[0]["bath_options"], rcut=0.5)
        elif op == "x":
            expect_reject(lambda: emb.change_options(no_such_option=1), "unknown-key")
        elif op == "y":
            expect_reject(lambda: emb.change_options(bath_options=dict(no_such_key=1)), "unknown-dict-key")
        elif op == "z":
            expect_reject(lambda: fobjs[0].change_options(bath_options=dict(no_such_key=1)), "unknown-fragment-dict-key")
        rec.step()
        # compare the complete option state after every operation
        for i, (o, m) in enumerate(zip(objs, models)):
            compare(rec, snap(o.opts), m, "emb%d" % i)
        for i, (o, m) in enumerate(zip(fobjs, fmodels)):
            compare(rec, snap(o.opts), m, "frag%d" % i)
            for occ in ("occupied", "virtual"):
                for key in ("threshold", "bathtype", "rcut", "truncation"):
                    spec = m["bath_options"]["%s_%s" % (key, occ[:3])]
                    want = spec if spec is not None else m["bath_options"][key]
                    rec.check(o._get_bath_option(key, occ) == want, "occ/vir-specific option", "%s %s" % (key, occ))
        rec.state(cls, repr(models), repr(fmodels))
    fresh = rec.call("fresh", new_emb, cls)
    compare(rec, snap(fresh.opts), PRISTINE[cls][0], "defaults of a new object")
    for k, v in vars(fresh.opts).items():
        # undo a leak so that the next case of this process starts from the defaults
        if isinstance(v, dict) and isinstance(PRISTINE[cls][0][k], dict):
            v.clear()
            v.update(copy.deepcopy(PRISTINE[cls][0][k]))
    rec.trace()
    rec.out(case["word"][:2])


def compare(rec, got, want, label):
    rec.check(set(got) == set(want), label, "keys")
    for k in want:
        a, b = got.get(k), want[k]
        if isinstance(a, dict) and isinstance(b, dict):
            d = sorted(x for x in set(a) | set(b) if a.get(x, "missing") != b.get(x, "missing"))
            rec.check(not d, "%s.%s" % (label, k), str([(x, a.get(x, "missing"), "expected", b.get(x, "missing")) for x in d]))
        else:
            rec.check(same(a, b), "%s.%s" % (label, k), "%r expected %r" % (a, b))


def same(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return np.array_equal(a, b)
    return a == b
