"""C16  Chemical-potential optimisation delivers the requested electron number.

(a) search: the real ChempotBisection object is driven by every response function of a bounded family (all piecewise-linear monotone functions over a
    grid of slopes, saturating, cubic, stepwise), target, initial guess, tolerance, robust/fast mode and words of two calls; every evaluation is recorded.
(b) global: EWF.optimize_chempot on embeddings; electron number, reported potential, and the clusters' eigenvalue equations with that potential.
(c) targets: all assignments of electron-number targets to fragments.
(d) DMET: number of electrons over the fragments after the self-consistent calculation.
"""
import itertools
import logging

import numpy as np

from checks import integrals as I
from checks import solvers as V
from vlib import systems as S
from vlib.engine import Skip

PROPERTY = "C16"
LEVEL = "model_checking"
RULE = "search: one case per response function, all targets x guesses x tolerances x modes x call words inside; embeddings: one case per system, solver, bath and setting"
BOUNDS = (
    "search: all monotone piecewise-linear responses with 4 segments and slopes {0, 0.2, 5} plus 10 analytic responses, both signs, 7 targets, 3 guesses, 2 tolerances, 2 modes, words of <= 2 calls, <= 250 evaluations per call; "
    "embeddings: 2-4 fragments, FCI and CCSD, restricted and unrestricted, DMET and complete baths; DMET: charge-consistent or not, DIIS or mixing, 1-4 iterations"
)
ASSUMPTIONS = ["the electron-number response is monotone in the potential (the property's own premise)", "a search that cannot bracket a solution reports this by an exception"]
TECHNIQUE = "bounded exhaustive enumeration of response functions and settings on the real search code; oracle: recorded evaluations, determinant-space eigenvalue equations"

SLOPES = (0.0, 0.2, 5.0)
ANALYTIC = ["lin1e-3", "lin0.1", "lin1", "lin30", "tanh1", "tanh10", "cubic", "cube0", "cbrt", "floor", "jump"]
TARGETS = (0.0, 0.05, -0.05, 0.37, -0.37, 0.9, -0.9)
GUESSES = (0.0, 0.3, -0.7)


def response(name):
    if isinstance(name, list):
        knots = np.array([-1.0, -0.5, 0.0, 0.5, 1.0])
        v = np.concatenate([[0], np.cumsum(np.array(name) * 0.5)])
        v = v - v[2]

        def f(c):
            if c <= -1:
                return float(v[0] + name[0] * (c + 1))
            if c >= 1:
                return float(v[-1] + name[-1] * (c - 1))
            return float(np.interp(c, knots, v))

        return f
    if name.startswith("lin"):
        return lambda c: float(name[3:]) * c
    return {
        "tanh1": lambda c: float(np.tanh(c)),
        "tanh10": lambda c: float(np.tanh(10 * c)),
        "cubic": lambda c: float(c + c**3),
        "cube0": lambda c: float(c**3),
        "cbrt": lambda c: float(np.cbrt(c)),
        "floor": lambda c: float(np.floor(4 * c) / 4) if np.isfinite(c) else float(c),
        "jump": lambda c: float(c + 0.5 * np.sign(c - 0.1)),
    }[name]


GSYS = ("h4r", "lihr~", "h3u", "h4u2", "behu")


def cases(tier):
    out = [dict(k="search", f=list(w)) for w in itertools.product(SLOPES, repeat=4)]
    out += [dict(k="search", f=f) for f in ANALYTIC]
    for key in GSYS:
        for sol in ("FCI", "CCSD"):
            for frag in ("atoms", "orbs"):
                for init, rob in ((0.0, False), (0.0, True), (0.08, False), (-0.08, True)):
                    if tier == "quick" and (key == "behu" or sol == "CCSD") and (rob or frag == "orbs"):
                        continue
                    for dmf in ("demo", "rdm1") if sol == "CCSD" else ("demo",):
                        out.append(dict(k="global", sys=key, solver=sol, frag=frag, init=init, robust=rob, dm=dmf))
    for key in GSYS:
        nat = 2 if key in ("lihr~", "behu") else 3 if key == "h3u" else 4
        for sol in ("FCI", "CCSD"):
            for word in itertools.product((None, 0.0, 0.04, -0.04), repeat=2):
                for atol, rtol in ((1e-6, 0.0), (1e-4, 1e-5), (1e-9, 1e-4)):
                    if tier == "quick" and sol == "CCSD" and (key in ("behu", "h4u2") or rtol == 1e-4):
                        continue
                    if tier == "quick" and key == "behu" and rtol:
                        continue
                    out.append(dict(k="target", sys=key, solver=sol, word=list(word), atol=atol, rtol=rtol))
    for name, kind, spin in (("h4", "rhf", 0), ("lih", "rhf", 0), ("h6chain", "rhf", 0), ("h4", "uhf", 2), ("h2o", "rhf", 0)):
        for cc, diis, mi in itertools.product((True, False), (True, False), (1, 3)):
            out.append(dict(k="dmet", sys=name, kind=kind, spin=spin, cc=cc, diis=diis, maxiter=mi))
        out.append(dict(k="dmet", sys=name, kind=kind, spin=spin, cc=True, diis=True, maxiter=1, oneshot=True))
        out.append(dict(k="dmet", sys=name, kind=kind, spin=spin, cc=True, diis=True, maxiter=1, tol=1e-7))
    return out


def cost(c):
    return {"search": 1, "global": 30, "target": 15, "dmet": 40}[c["k"]] * (3 if c.get("sys") == "behu" else 1)


def run(c, rec):
    {"search": run_search, "global": run_global, "target": run_target, "dmet": run_dmet}[c["k"]](c, rec)


class TooMany(Exception):
    pass


def run_search(c, rec):
    from vayesta.misc.cptbisect import ChempotBisection

    g = response(c["f"])
    name = c["f"] if isinstance(c["f"], str) else "pl"
    lin = name.startswith("lin")
    for sign, guess, tol, robust in itertools.product((1, -1), GUESSES, (1e-8, 1e-3), (False, True)):
        for word in [(t,) for t in TARGETS] + [(0.05, t) for t in TARGETS] + [(0.9, t) for t in (0.0, 0.37)]:
            trace = []

            def func(cpt, target, scale=1.0):
                e = sign * (g(cpt) - target) * scale
                trace.append((cpt, e))
                if len(trace) > 250:
                    raise TooMany()
                return e

            b = ChempotBisection(func, cpt_init=guess, tol=tol, robust=robust, log=NOLOG)
            for i, t in enumerate(word):
                rec.step()
                del trace[:]
                tag = "%s[call %d]" % (name, i)
                what = "%r sign=%d guess=%g tol=%g robust=%d targets=%r" % (c["f"], sign, guess, tol, robust, word)
                try:
                    with np.errstate(all="ignore"):
                        ret = b.kernel(t, scale=1.0)
                    exc = None
                except TooMany:
                    rec.fail(tag + "terminate", "search does not terminate: " + what)
                    break
                except Exception as e:
                    exc, ret = e, None
                evals = list(trace)
                rec.state(name, sign, guess, tol, robust, i, type(exc).__name__ if exc else bool(b.converged), min(len(evals), 12))
                if exc is not None:
                    if lin:
                        rec.fail(tag + "linear", "linear response raised %r: %s" % (exc, what))
                    break
                last = evals[-1]
                if b.converged:
                    rec.check(ret == b.cpt, tag + "returned", "returned %r, stored %r: %s" % (ret, b.cpt, what))
                    rec.check(ret == last[0], tag + "stored", "returned potential %r, results belong to %r: %s" % (ret, last[0], what))
                    rec.check(abs(sign * (g(ret) - t)) <= tol, tag + "error", "error %.3e at reported potential %r: %s" % (g(ret) - t, ret, what))
                else:
                    ok = name in ("floor", "jump", "cbrt") or (name == "cube0")
                    rec.check(ok, tag + "silent", "continuous response not converged: " + what)
                    # if some evaluated point was a solution, it should have been taken
                    rec.check(all(abs(e) > tol for _, e in evals[-1:]), tag + "missed", "solution evaluated last but not reported: " + what)


class _Log:
    def __getattr__(self, name):
        return lambda *a, **k: None


NOLOG = _Log()


def build(emb, frag, opts=None):
    out = []
    with emb.sao_fragmentation() as f:
        if frag == "atoms":
            for a in range(emb.mol.natm):
                out.append(f.add_atomic_fragment(a, **((opts or {}).get(a, {}))))
        else:
            n = emb.mol.nao
            k = n // 2
            out.append(f.add_orbital_fragment(list(range(k))))
            out.append(f.add_orbital_fragment(list(range(k, n))))
    return out


SOPT = {"CCSD": dict(V.TIGHT, solve_lambda=True), "FCI": dict(conv_tol=1e-14, max_cycle=500)}


def new(key, solver, chempot=None, bath="dmet"):
    import vayesta.ewf

    kw = {} if chempot is None else dict(global_frag_chempot=chempot)
    return vayesta.ewf.EWF(I.get_mf(key), solver=solver, bath_options=dict(bathtype=bath), solver_options=SOPT[solver], **kw)


def total(d, uhf):
    return np.trace(d[0]) + np.trace(d[1]) if uhf else np.trace(d)


def run_global(c, rec):
    key, sol = c["sys"], c["solver"]
    uhf = I.SYS[key][3].startswith("uhf")
    bath = "dmet" if c["dm"] == "demo" else "full"
    emb = new(key, sol, bath=bath)
    build(emb, c["frag"])
    dm = lambda e: e.make_rdm1_demo() if c["dm"] == "demo" else e.make_rdm1()
    kw = {} if c["dm"] == "demo" and c["init"] == 0.0 else dict(dm1func=getattr(emb, "make_rdm1_demo" if c["dm"] == "demo" else "make_rdm1"), dm1kwds={})
    emb.optimize_chempot(cpt_init=c["init"], robust=c["robust"], **kw)
    errors = []

    class Handler(logging.Handler):
        def emit(self, record):
            errors.append(record.levelno)

    hd = Handler(level=logging.ERROR)
    emb.log.addHandler(hd)
    try:
        emb.kernel()
    except ValueError as e:
        if "not in" in str(e):
            raise Skip("no bracket (reported)")
        raise
    finally:
        emb.log.removeHandler(hd)
    rec.step()
    d = dm(emb)
    cpt = emb.opts.global_frag_chempot
    n = total(d, uhf)
    rec.state(key, sol, c["frag"], c["robust"], np.sign(cpt))
    if abs(n - emb.mol.nelectron) > 1e-7 and errors:
        raise Skip("search did not converge (reported)")
    rec.close(n, emb.mol.nelectron, 1e-7, "electrons", "potential %r" % cpt)
    ref = new(key, sol, cpt, bath=bath)
    build(ref, c["frag"])
    ref.kernel()
    rec.close(np.asarray(dm(ref)), np.asarray(d), 1e-6, "fresh-dm", "potential %r" % cpt)
    rec.close(ref.e_tot, emb.e_tot, 1e-6, "fresh-energy")
    if sol != "FCI":
        return
    # every cluster wave function is an eigenvector of its Hamiltonian plus the reported potential on the fragment orbitals
    for fx in emb.fragments:
        orc = I.Oracle(key, fx.cluster)
        p = V.frag_proj(I.get_mf(key), fx, orc)
        det = V.det_of(orc, [cpt * x for x in p])
        psi = V.ci_vector(fx.results.wf, det, rec, "global-")
        if psi is None:
            continue
        psi = psi.ravel() / np.linalg.norm(psi)
        y = det.h @ psi
        rec.close(y, (psi @ y) * psi, 2e-5, "eigenvector", "potential %r" % cpt)


def run_target(c, rec):
    key, sol = c["sys"], c["solver"]
    uhf = I.SYS[key][3].startswith("uhf")
    free = new(key, sol)
    fr = build(free, "atoms")
    free.kernel()
    n0 = [electrons(x, key) for x in fr]
    opts = {}
    for a, w in enumerate(c["word"]):
        if w is not None:
            opts[a] = dict(nelectron_target=n0[a] + w, nelectron_target_atol=c["atol"], nelectron_target_rtol=c["rtol"])
    emb = new(key, sol)
    fs = build(emb, "atoms", opts)
    rec.call("target-kernel", emb.kernel)
    rec.step()
    for a, (x, y) in enumerate(zip(fs, fr)):
        rec.check(x.results.converged, "converged", "fragment %d" % a)
        n = electrons(x, key)
        rec.state(key, sol, a, c["word"][a] if a < 2 else None)
        if a in opts:
            t = opts[a]["nelectron_target"]
            tol = c["atol"] + c["rtol"] * t
            rec.check(abs(n - t) <= tol + 1e-9, "target", "fragment %d: %.8f electrons, target %.8f, tolerance %.1e" % (a, n, t, tol))
        if a not in opts or c["word"][a] == 0.0:
            rec.close(n, n0[a], 1e-6, "unconstrained", "fragment %d" % a)
            rec.close(x.results.e_corr, y.results.e_corr, 1e-6, "unconstrained-energy", "fragment %d" % a)
    del uhf


def electrons(fx, key):
    orc = I.Oracle(key, fx.cluster)
    return V.count(fx.results.wf, V.frag_proj(I.get_mf(key), fx, orc), orc.uhf)


def run_dmet(c, rec):
    import vayesta.dmet

    mf = S.mf(c["sys"], kind=c["kind"], spin=c["spin"])
    kw = dict(maxiter=c["maxiter"], charge_consistent=c["cc"], diis=c["diis"], oneshot=c.get("oneshot", False))
    if c.get("tol"):
        kw["max_elec_err"] = c["tol"]
    emb = vayesta.dmet.DMET(mf, solver="FCI", bath_options=dict(bathtype="dmet"), solver_options=SOPT["FCI"], **kw)
    build(emb, "atoms")
    rec.call("dmet-kernel", emb.kernel)
    rec.step()
    n = 0
    for x in emb.fragments:
        s = emb.get_ovlp()
        uhf = c["kind"] == "uhf"
        for cf, ca, d in zip(x.c_frag, x.cluster.c_active, x.results.dm1) if uhf else [(x.c_frag, x.cluster.c_active, x.results.dm1)]:
            r = cf.T @ s @ ca
            n += np.trace(r @ d @ r.T)
    tol = (c.get("tol") or 1e-4) * mf.mol.nelectron
    rec.state(c["sys"], c["cc"], c["diis"], emb.iteration)
    rec.check(abs(n - mf.mol.nelectron) <= tol, "dmet-electrons", "%.8f electrons, tolerance %.1e" % (n, tol))
