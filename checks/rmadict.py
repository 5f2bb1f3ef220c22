"""C08: the distributed dictionary (vayesta/mpi/rma.py) run on 2 and 3 ranks under a controlled MPI.

Every program of the bounded space is executed by the real RMA_Dict class, one thread per rank; the controller explores
all orders of the one-sided operations (dynamic partial-order reduction) under each buffering behaviour, and after
every synchronisation each rank's whole view is compared with a reference dictionary."""

import itertools

from vlib import engine, fakempi

PROPERTY = "C08"
LEVEL = "model_checking"
RULE = (
    "Program: a number of write phases; in each phase every rank performs one action (nothing, put an array of some "
    "kind under its own key, two puts, overwrite, take over another rank's key, delete its own or another rank's "
    "key), leaves the with-statement, and reads everything back.  Optionally the dictionary is cleared and used again. "
    "A state is the view of a rank after a synchronisation."
)
BOUNDS = (
    "2 ranks: all single-phase programs over 13 kinds of value (shapes, memory layouts, data types, None) per rank, "
    "all two-phase programs of 5 x 5 first and 8 x 8 second actions with and without clear; 3 ranks: 2^3 x 6^3 "
    "two-phase programs (thorough: three phases for 2 ranks, all 8 MPI modes); 1 rank without MPI: the same programs; "
    "every order of one-sided operations that dynamic partial-order reduction does not prove equivalent; sends and "
    "collectives in eager and synchronising variants, one-sided transfers completing at the call or at the unlock"
)
ASSUMPTIONS = [
    "mpi4py is replaced by vlib/fakempi.py: MPI's completion rules as stated there; the ranks are threads, so only the "
    "communication calls are interleaved (rank-local code between them touches only the rank's own objects)",
    "entering and leaving the with-statement and clear() are collective, as in the code that uses the class",
]
TECHNIQUE = (
    "stateless model checking (dynamic partial-order reduction) of the real RMA_Dict under a controlled MPI scheduler, "
    "for every program of a bounded space"
)
CASE_LIMIT = 300

KINDS = ["f8", "fortran", "slice", "none", "int", "complex", "scalar", "empty", "bool", "f4", "readonly", "rows", "T3"]


def value(kind, seed):
    import numpy as np

    x = np.arange(6, dtype=float).reshape(2, 3) + 100 * seed
    return {
        "f8": lambda: x,
        "fortran": lambda: np.asfortranarray(x),
        "slice": lambda: np.arange(24, dtype=float).reshape(4, 6)[::2, ::2] + 0 * seed if False else _slice(seed),
        "none": lambda: None,
        "int": lambda: np.arange(4) + seed,
        "complex": lambda: x + 1j * seed,
        "scalar": lambda: np.array(3.5 + seed),
        "empty": lambda: np.zeros((0, 3)),
        "bool": lambda: np.array([True, False, seed % 2 == 0]),
        "f4": lambda: x.astype(np.float32),
        "readonly": lambda: _ro(x),
        "rows": lambda: np.vstack((x, x + 1)),
        "T3": lambda: (np.arange(24, dtype=float).reshape(2, 3, 4) + seed).transpose(2, 0, 1),
    }[kind]()


def _slice(seed):
    import numpy as np

    return (np.arange(24, dtype=float).reshape(4, 6) + seed)[::2, ::3]


def _ro(x):
    x.setflags(write=False)
    return x


# second-phase actions of rank r (n ranks): list of (op, key, kind)
def action(name, r, n, ph):
    own, nxt = "a%d" % r, "a%d" % ((r + 1) % n)
    return {
        "-": [],
        "put": [("put", own, "f8")],
        "fortran": [("put", own, "fortran")],
        "none": [("put", own, "none")],
        "two": [("put", own, "f8"), ("put", "b%d" % r, "int")],
        "new": [("put", "n%d.%d" % (r, ph), "complex")],
        "grow": [("put", own, "rows")],
        "tonone": [("put", own, "none")],
        "take": [("put", nxt, "int")],
        "del": [("del", own, None)],
        "delnext": [("del", nxt, None)],
        "swap": [("put", own, "f4"), ("put", "c%d" % r, "f8")],
        "putdel": [("put", "t%d" % r, "f8"), ("del", "t%d" % r, None)],
    }[name]


P1 = ["-", "put", "fortran", "none", "two"]
P2 = ["-", "new", "grow", "tonone", "take", "del", "delnext", "putdel"]


def cases(tier):
    out = []
    kinds = KINDS
    for n in (1, 2):
        for k in kinds:
            for k2 in kinds if n == 2 else ["-"]:
                out.append(dict(kind="single", n=n, values=[k, k2][:n]))
    for n in (1, 2):
        for first in itertools.product(P1, repeat=n):
            out.append(dict(kind="prog", n=n, first=list(first)))
    for first in itertools.product(["-", "put"], repeat=3):
        for a in ["-", "new", "grow", "take", "del", "delnext"]:
            out.append(dict(kind="prog3", n=3, first=list(first), a=a))
    out.append(dict(kind="dup", n=2))
    out.append(dict(kind="dup", n=3))
    out.append(dict(kind="guards", n=2))
    if tier == "thorough":
        for first in itertools.product(P1, repeat=2):
            for second in itertools.product(P2, repeat=2):
                out.append(dict(kind="prog", n=2, first=list(first), second=list(second)))
    return out


def programs(case, tier="quick"):
    n = case["n"]
    if case["kind"] == "single":
        acts = [[("put", "a%d" % r, case["values"][r])] for r in range(n)]
        for clear in (False, True):
            yield [acts], clear
    elif case["kind"] == "prog" and "second" not in case:
        for second in itertools.product(P2, repeat=n):
            for clear in (False, True):
                yield [[action(f, r, n, 0) for r, f in enumerate(case["first"])],
                       [action(s, r, n, 1) for r, s in enumerate(second)]], clear
    elif case["kind"] == "prog":
        for third in itertools.product(P2, repeat=n):
            yield [[action(f, r, n, 0) for r, f in enumerate(case["first"])],
                   [action(s, r, n, 1) for r, s in enumerate(case["second"])],
                   [action(s, r, n, 2) for r, s in enumerate(third)]], True
    elif case["kind"] == "prog3":
        for rest in itertools.product(["-", "new", "grow", "take", "del", "delnext"], repeat=2):
            second = (case["a"],) + rest
            yield [[action(f, r, n, 0) for r, f in enumerate(case["first"])],
                   [action(s, r, n, 1) for r, s in enumerate(second)]], False


def reference(phases, n):
    """Expected dictionaries after each phase, or None if the program is outside of the domain."""
    views, cur = [], {}
    for ph, acts in enumerate(phases):
        written, deleted = {}, set()
        for r, todo in enumerate(acts):
            mine = {}
            for op, key, kind in todo:
                if op == "put":
                    mine[key] = (kind, 10 * ph + r, r)
                elif key in mine:
                    del mine[key]
                else:
                    if key not in cur:
                        return None  # deleting what does not exist
                    deleted.add(key)
            for key in mine:
                if key in written:
                    return None  # same key twice: separate program kind
                written[key] = mine[key]
        if deleted & set(written):
            return None
        if sum(sum(1 for op, k, _ in todo if op == "del" and k in deleted) for todo in acts) > len(deleted):
            return None  # two ranks delete the same key
        cur = {k: v for k, v in cur.items() if k not in deleted}
        cur.update(written)
        views.append(dict(cur))
    return views


def snapshot(d, keys=None):
    """The view of this rank: keys and what is read for each."""
    out = {}
    for k in sorted(d.keys(), key=str):
        v = d[k]
        out[k] = v
    return out


def make_program(phases, clear, views):
    import numpy as np
    from vayesta.mpi import MPI_Interface, RMA_Dict

    def program(mpimod, rank):
        size = mpimod.COMM_WORLD.size
        mpi = MPI_Interface(mpimod if size > 1 else None)
        problems = []

        def verify(d, want, where):
            got = list(d.keys())
            if set(got) != set(want):
                problems.append((where, "keys", "rank %d sees %s, expected %s" % (rank, sorted(got), sorted(want))))
                return
            if len(d) != len(want) or any(k not in d for k in want) or "zz" in d:
                problems.append((where, "len/in", "rank %d" % rank))
            # every rank reads in its own order
            order = sorted(want)
            if rank % 2:
                order = order[::-1]
            for k in order:
                kind, seed, owner = want[k]
                ref = value(kind, seed)
                val = d[k]
                if (val is None) != (ref is None):
                    problems.append((where, "value", "rank %d key %s: %r instead of %r" % (rank, k, val, ref)))
                    continue
                if ref is None:
                    continue
                if val.shape != ref.shape or val.dtype != ref.dtype or not np.array_equal(val, ref):
                    problems.append((where, "value", "rank %d key %s (%s, owner %d): %s %r instead of %s %r"
                                     % (rank, k, kind, owner, val.dtype, val, ref.dtype, ref)))
                if size > 1:
                    if d.get_location(k) != owner or d.get_shape(k) != ref.shape or d.get_dtype(k) != ref.dtype:
                        problems.append((where, "metadata", "rank %d key %s" % (rank, k)))
                    if val.size and val.flags.writeable:
                        val[...] = 0  # the reader's copy is its own

        d = RMA_Dict(mpi)
        for ph, acts in enumerate(phases):
            with d.writable():
                mine = []
                for op, key, kind in acts[rank]:
                    if op == "put":
                        v = value(kind, 10 * ph + rank)
                        mine.append(v)
                        d[key] = v
                    else:
                        del d[key]
            if size > 1:
                for v in mine:
                    if v is not None and v.flags.writeable and v.size:
                        v[...] = -1  # the writer may reuse its array after the synchronisation
            verify(d, views[ph], "phase %d" % ph)
            verify(d, views[ph], "phase %d again" % ph)
        if clear:
            mpi_barrier(mpi)
            d.clear()
            if len(d.keys()) != 0:
                problems.append(("clear", "keys", "rank %d still sees %s" % (rank, list(d.keys()))))
            with d.writable():
                for op, key, kind in phases[0][rank]:
                    d[key] = value(kind, rank)
            verify(d, views[0], "after clear")
            mpi_barrier(mpi)
            d.clear()
        else:
            mpi_barrier(mpi)
        return problems, len(d.keys())

    return program


def mpi_barrier(mpi):
    if mpi.enabled:
        mpi.world.Barrier()


def explore(rec, n, program, label, judge_results, mode_list, live=None):
    for mode in mode_list if n > 1 else mode_list[:1]:
        seen = set()

        def judge(ex):
            before = len(rec.violations)
            rec.step(len(ex.trace))
            rec.trace()
            for e in ex.errors:
                if e not in seen:
                    seen.add(e)
                    rec.fail(label, "[%s] %s" % (mode.key(), e))
            rec.checks += 1
            if not ex.errors:
                judge_results(ex, mode)
            return len(rec.violations) > before

        x = fakempi.Explorer(lambda prefix: fakempi.run_threads(n, mode, prefix, program), limit=3000)
        x.run(judge)
        rec.state(label, mode.key(), x.schedules)
        if x.truncated:
            rec.notes.append("schedule limit")


def run(case, rec):
    mode_list = fakempi.modes(False)
    n = case["n"]
    if case["kind"] == "dup":
        return run_dup(case, rec, mode_list)
    if case["kind"] == "guards":
        return run_guards(case, rec, mode_list)
    count = 0
    for phases, clear in programs(case):
        views = reference(phases, n)
        if views is None:
            continue
        count += 1
        label = "program %s%s" % (phases, " clear" if clear else "")
        program = make_program(phases, clear, views)

        def judge(ex, mode):
            for r in range(n):
                problems, left = ex.results[r]
                for where, what, msg in problems:
                    rec.fail("%s: %s: %s" % (label, where, what), "[%s] %s" % (mode.key(), msg))
            rec.state(label)
            if n > 1:
                nones = 0 if clear else sum(1 for v in views[-1].values() if v[0] == "none")
                expect = 0 if clear else len(views[-1]) - nones
                rec.check(ex.leaked == expect, label + ": windows released",
                          "[%s] %d windows are still allocated, the dictionary holds %d" % (mode.key(), ex.leaked, expect))

        explore(rec, n, program, label, judge, mode_list)
        if len(rec.violations) > 10:
            break
    if not count:
        raise engine.Skip("no program in the domain")
    rec.out(case, count)


def run_dup(case, rec, mode_list):
    """The same key written by two ranks in one phase: an error on every rank, never a silent choice or a deadlock."""
    import numpy as np
    from vayesta.mpi import MPI_Interface, RMA_Dict

    n = case["n"]

    def program(mpimod, rank):
        d = RMA_Dict(MPI_Interface(mpimod))
        try:
            with d.writable():
                d["own%d" % rank] = np.ones(2)
                if rank != 1:
                    d["same"] = np.ones(3)
                elif n == 2:
                    d["same"] = np.zeros(2)
        except AttributeError:
            return "error"
        return "silent"

    def judge(ex, mode):
        rec.check(all(ex.results[r] == "error" for r in range(n)), "duplicate key", "[%s] %s" % (mode.key(), ex.results))

    explore(rec, n, program, "duplicate key", judge, mode_list)


def run_guards(case, rec, mode_list):
    """Reading inside and writing outside of the with-statement, and invalid values, are refused."""
    import numpy as np
    from vayesta.mpi import MPI_Interface, RMA_Dict

    def program(mpimod, rank):
        d = RMA_Dict.from_dict(MPI_Interface(mpimod), {"x%d" % rank: np.ones(2) * rank})
        out = []

        def refused(fn):
            try:
                fn()
            except (AttributeError, RuntimeError, ValueError, TypeError):
                out.append(True)
            else:
                out.append(False)

        refused(lambda: d.__setitem__("y", np.ones(1)))
        refused(lambda: d.__delitem__("x0"))
        with d.writable():
            refused(lambda: d["x0"])
            refused(lambda: d.keys())
            refused(lambda: d.values())
            refused(lambda: d.__setitem__("z", [1, 2]))
        out.append(sorted(d.keys()) == ["x0", "x1"] and np.array_equal(d["x1"], np.ones(2)))
        try:
            d["missing"]
            out.append(False)
        except KeyError:
            out.append(True)
        # an exception inside of the with-statement on every rank leaves the dictionary usable
        try:
            with d.writable():
                d["late%d" % rank] = np.ones(1)
                raise ZeroDivisionError
        except ZeroDivisionError:
            out.append(True)
        out.append(np.array_equal(d["x0"], np.zeros(2)))
        return out

    def judge(ex, mode):
        for r in (0, 1):
            rec.check(all(ex.results[r]), "guards", "[%s] rank %d: %s" % (mode.key(), r, ex.results[r]))

    explore(rec, 2, program, "guards", judge, mode_list)
