"""Exploration of one harness unit: run, negate, run ... with a z3 verdict for
every obligation on every path."""
import os
import random
import signal
import sys
import time
import z3
from . import core
from .core import ENG, PathAbort
from .harness import SymH, PlainH, Rejected

QUERY_MS = 20000


class Result:
    def __init__(self, unit):
        self.unit = unit
        self.paths = self.pruned = self.branches = self.checks = self.queries = 0
        self.sat = self.unsat = self.unknown = 0
        self.solver_s = 0.0
        self.concretized = 0
        self.divergences = 0
        self.repeats = 0
        self.mismatch = []          # symbolic run and plain run disagree
        self.validated = 0
        self.second = 0
        self.candidates = []        # (label, inputs, info)
        self.aborts = {}
        self.complete = False
        self.functions = set()
        self.samples = []
        self.wall = 0.0
        self.paths_with_checks = 0
        self.unproved_abort = 0


_sets = {}


def modsets():
    if not _sets:
        from . import load
        sys.setrecursionlimit(3000)
        import logging
        logging.disable(logging.CRITICAL)
        a, b = load.load_plain(), load.load_symbolic()
        _sets.update(plain=a, sym=b)
    return _sets


def _alarm(sig, frame):
    ENG.aborted = "timeout"
    raise PathAbort("timeout")


class _Null:
    def write(self, x):
        pass

    def flush(self):
        pass


def run_sym(fn, inputs, limit):
    ENG.reset(inputs)
    h = SymH()
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    out = sys.stdout
    sys.stdout = _Null()
    exc = None
    try:
        fn(h)
    except PathAbort as e:
        ENG.aborted = ENG.aborted or str(e)
    except Exception as e:      # the harness let an exception of the code through
        exc = e
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        sys.stdout = out
    return h, exc


def run_plain(fn, inputs, limit):
    h = PlainH(inputs)
    exc = None
    out = sys.stdout
    sys.stdout = _Null()
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        fn(h)
    except Rejected:
        pass
    except PathAbort as e:
        exc = e
    except Exception as e:
        exc = e
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        sys.stdout = out
    return h, exc


def _sig(t):
    if z3.is_not(t):
        return (t.arg(0).hash(), False)
    return (t.hash(), True)


def model_inputs(model, vars):
    r = {}
    for n, (t, lo, hi) in vars.items():
        v = model.eval(t, model_completion=True).as_signed_long()
        r[n] = v
    return r


def second(s, vars_, rnd):
    """a model of the path condition in s with as many randomly chosen values as the solver admits in a few tries"""
    want = []
    for n, (t, lo, hi) in vars_.items():
        k = rnd.randrange(4)
        v = rnd.randint(lo, hi) if k else rnd.choice((lo, hi))
        want.append(t == z3.BitVecVal(v, t.size()))
    for _ in range(6):
        r = s.check(want)
        if r == z3.sat:
            return model_inputs(s.model(), vars_)
        if r != z3.unsat:
            return None
        core = {c.get_id() for c in s.unsat_core()}
        if not core:
            return None
        want = [w for w in want if w.get_id() not in core]
    r = s.check()
    return model_inputs(s.model(), vars_) if r == z3.sat else None


def explore(unit, fn, deadline, max_paths=100000, seed=1, path_limit=20.0, validate=True, start=None):
    ms = modsets()
    res = Result(unit)
    t0 = time.time()
    rnd = random.Random(seed)
    work = [(dict(start or {}), 0, None, ())]
    first = True
    seen_paths = set()
    from .load import LIB
    while work:
        if time.time() > deadline or res.paths >= max_paths:
            break
        i = rnd.randrange(len(work))
        work[i], work[-1] = work[-1], work[i]
        inputs, bound, expect, excl = work.pop()
        ms["sym"].activate()
        ms["sym"].reset()
        if first or res.paths % 200 == 7:
            first = False

            def prof(frame, event, arg):
                if event == "call":
                    f = frame.f_code.co_filename
                    if f.startswith(LIB):
                        res.functions.add(os.path.basename(f) + ":" + frame.f_code.co_qualname)
            sys.setprofile(prof)
        h, exc = run_sym(fn, inputs, path_limit)
        sys.setprofile(None)
        eng_inputs = dict(ENG.inputs)
        sig = tuple(_sig(b[0]) for b in ENG.branches)
        chain = False
        if expect is not None:
            if len(sig) < bound or hash(sig[:bound - 1]) != expect[0]:
                res.divergences += 1        # the prefix was not followed: part of the tree may be missed
                bound = min(bound, len(sig))
            elif sig[bound - 1] != expect[1]:
                chain = True                # a value-dependent decision (a pinned value): exclude values one by one
        key = hash(sig)
        if key in seen_paths:
            res.repeats += 1
            if res.repeats > 200 + 2 * len(seen_paths):
                res.aborts["repeating"] = 1
                break
            continue
        seen_paths.add(key)
        res.concretized += ENG.concretized
        res.branches += len(ENG.branches)
        aborted = ENG.aborted
        if aborted == "assume":
            res.pruned += 1
        else:
            res.paths += 1
            if aborted:
                res.aborts[aborted] = res.aborts.get(aborted, 0) + 1
                if aborted == "timeout":
                    res.candidates.append(("does not terminate", eng_inputs, {}))
            if exc is not None:
                res.candidates.append((f"exception {type(exc).__name__}: {str(exc)[:200]}", eng_inputs, {}))
        # ---- obligations and flips, with one incremental solver
        s = z3.Solver()
        s.set("timeout", QUERY_MS)
        for c in ENG.var_constraints():
            s.add(c)
        obl = {}
        if aborted is None:
            for n, term, v, label, info in ENG.obligations:
                res.checks += 1
                if not v:
                    res.candidates.append((label, eng_inputs, {}))
                elif term is not None:
                    obl.setdefault(n, []).append((term, label))
            if ENG.obligations:
                res.paths_with_checks += 1
        elif ENG.obligations:
            for n, term, v, label, info in ENG.obligations:
                if not v:
                    res.candidates.append((label, eng_inputs, {}))
                elif term is not None:
                    obl.setdefault(n, []).append((term, label))
        vars_ = dict(ENG.vars)
        branches = list(ENG.branches)
        if len(res.samples) < 3:
            res.samples.append({"inputs": {k: v for k, v in list(eng_inputs.items())[:40]},
                                "branches": len(branches), "obligations": len(ENG.obligations),
                                "path_condition": [str(b[0])[:160] for b in branches[:4]]})

        def query(extra):
            t = time.time()
            s.push()
            s.add(extra)
            r = s.check()
            m = s.model() if r == z3.sat else None
            s.pop()
            res.queries += 1
            res.solver_s += time.time() - t
            if r == z3.sat:
                res.sat += 1
            elif r == z3.unsat:
                res.unsat += 1
            else:
                res.unknown += 1
            return r, m
        for n in range(len(branches) + 1):
            if n in obl:
                bad = z3.Or([z3.Not(t) for t, _ in obl[n]])
                r, m = query(bad)
                if r == z3.sat:
                    label = next((lb for t, lb in obl[n] if z3.is_false(m.eval(t, model_completion=True))), obl[n][0][1])
                    res.candidates.append((label, {**eng_inputs, **model_inputs(m, vars_)}, {}))
            if n < len(branches):
                if n >= bound or (chain and n == bound - 1):
                    neg = z3.Not(branches[n][0])
                    ex = (excl if n == bound - 1 else ()) + (neg,)
                    r, m = query(z3.And(ex) if len(ex) > 1 else neg)
                    if r == z3.sat:
                        h0, pos = sig[n]
                        work.append(({**eng_inputs, **model_inputs(m, vars_)}, n + 1,
                                     (hash(sig[:n]), (h0, not pos)), ex))
                s.add(branches[n][0])
        # ---- the summary of the path has to hold for its other values too: run the unmodified code on a second,
        # solver-made model of the path condition that is far from the first
        if validate and aborted is None and exc is None and (res.paths <= 10 or res.paths % 10 == 0):
            m = second(s, vars_, rnd)
            if m is not None:
                inputs2 = {**eng_inputs, **m}
                ms["plain"].activate()
                ms["plain"].reset()
                ph, pexc = run_plain(fn, inputs2, path_limit)
                res.second += 1
                if pexc is not None:
                    res.candidates.append((f"exception {type(pexc).__name__}: {str(pexc)[:200]}", inputs2, {}))
                for f in ph.failures:
                    res.candidates.append((f["label"], inputs2, {}))
        # ---- validation against the unmodified code
        if validate and aborted is None:
            ms["plain"].activate()
            ms["plain"].reset()
            ph, pexc = run_plain(fn, eng_inputs, path_limit)
            res.validated += 1
            if (exc is None) != (pexc is None) or ph.observed != h.observed:
                res.mismatch.append({"inputs": eng_inputs, "sym": str(h.observed)[:500], "plain": str(ph.observed)[:500],
                                     "exc": f"{exc!r} / {pexc!r}"[:300]})
            for f in ph.failures:
                res.candidates.append((f["label"], eng_inputs, {}))
        if len(res.candidates) > 40:
            break
        if res.candidates and time.time() - t0 > 30:
            break
    res.complete = not work and not res.unknown and not res.divergences and not res.aborts
    res.wall = time.time() - t0
    return res
