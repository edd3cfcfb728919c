"""Scenario environments (symbolic / concrete) and the exploration loop."""
import contextlib
import io
import json
import os
import random
import sys
import time
import traceback
import warnings

import numpy as np
import z3

from . import engine as E
from .engine import Ctx, EngineError, Infeasible, PathBudget, Sym, SymB
from . import symarr


class Scenario:
    def __init__(self, name, body, setup=None, stubs=None, opts=None,
                 tier='quick', bounds='', symb=True, witness=True,
                 known=None, post_random=40):
        self.name = name
        self.body = body
        self.setup = setup
        self.stubs = stubs or {}
        self.opts = opts or {}
        self.tier = tier
        self.bounds = bounds
        self.symb = symb
        self.witness = witness
        self.post_random = post_random


class AssumeFail(BaseException):
    pass


class CheckFail(BaseException):
    def __init__(self, label, detail):
        self.label = label
        self.detail = detail


# ----------------------------------------------------------------- concrete
class ConcEnv:
    sym = False

    def __init__(self, values, rng=None):
        self.values = dict(values)
        self.rng = rng
        self.failed = []
        self.checked = []
        self.obs = {}
        self.covered = set()

    def real(self, name, lo=None, hi=None):
        if name not in self.values:
            if self.rng is None:
                raise KeyError(name)
            self.values[name] = self._draw(lo, hi)
        v = self.values[name]
        if (lo is not None and v < lo) or (hi is not None and v > hi):
            raise AssumeFail()
        return float(v)

    def _draw(self, lo, hi):
        lo = -100.0 if lo is None else float(lo)
        hi = 100.0 if hi is None else float(hi)
        m = self.rng.random()
        if m < .08:
            return lo
        if m < .16:
            return hi
        if m < .22 and lo <= 0 <= hi:
            return 0.0
        return self.rng.uniform(lo, hi)

    def boolean(self, name):
        if name not in self.values:
            if self.rng is None:
                raise KeyError(name)
            self.values[name] = self.rng.random() < .5
        return bool(self.values[name])

    def choose(self, name, options):
        k = name + '#'
        if k not in self.values:
            if self.rng is None:
                raise KeyError(k)
            self.values[k] = self.rng.randrange(len(options))
        return options[int(self.values[k])]

    def assume(self, c):
        if not bool(c):
            raise AssumeFail()

    def put(self, obj, **kw):
        """set existing attributes"""
        for k, v in kw.items():
            if not hasattr(obj, k):
                raise AssumeFail()
            setattr(obj, k, v)

    def stop(self):
        """the rest of this run is outside the bounds"""
        raise AssumeFail()

    def cover(self, label):
        self.covered.add(label)

    def observe(self, name, v):
        self.obs[name] = float(v)

    def _f(self, label, detail):
        self.failed.append((label, detail))

    def check(self, label, c, info=''):
        self.checked.append(label)
        if not bool(c):
            self._f(label, 'condition is false %s' % (info,))

    def eq(self, label, a, b, tol=1e-6, rel=1e-9):
        self.checked.append(label)
        a, b = float(_sc(a)), float(_sc(b))
        if not (np.isfinite(a) and np.isfinite(b)):
            self._f(label, '%r vs %r' % (a, b))
            return
        if abs(a - b) > tol * .5 + rel * (abs(a) + abs(b)):
            self._f(label, 'expected %.12g, got %.12g' % (b, a))

    def le(self, label, a, b, tol=1e-7, rel=1e-9):
        self.checked.append(label)
        a, b = float(_sc(a)), float(_sc(b))
        if not (a <= b + tol * .5 + rel * (abs(a) + abs(b))):
            self._f(label, '%.12g should be <= %.12g' % (a, b))

    def arr(self, x):
        return np.asarray(x, dtype=float)

    def abs(self, x):
        return abs(x)

    def max(self, *xs):
        return max(xs)

    def min(self, *xs):
        return min(xs)

    def ite(self, c, a, b):
        return a if c else b

    def and_(self, *xs):
        return all(bool(x) for x in xs)

    def or_(self, *xs):
        return any(bool(x) for x in xs)

    def not_(self, x):
        return not x

    def sqrt(self, x):
        return float(np.sqrt(x))

    def exp(self, x):
        return float(np.exp(x))

    def log10(self, x):
        return float(np.log10(x))

    def exp_args(self):
        return []

    def implies(self, a, b):
        return (not bool(a)) or bool(b)


def _sc(x):
    if isinstance(x, np.ndarray):
        assert x.size == 1, x
        return x.flat[0]
    return x


# ----------------------------------------------------------------- symbolic
class SymEnv:
    sym = True

    def __init__(self, ctx, scen, runner):
        self.ctx = ctx
        self.scen = scen
        self.runner = runner
        self.covered = runner.covered

    def real(self, name, lo=None, hi=None):
        if name in self.ctx.inputs:
            return Sym(self.ctx.inputs[name][0])
        v = z3.Real(name)
        self.ctx.inputs[name] = (v, lo, hi, 'R')
        s = Sym(v)
        if lo is not None:
            self.ctx.assume(SymB(v >= E.rv(lo)))
        if hi is not None:
            self.ctx.assume(SymB(v <= E.rv(hi)))
        return s

    def boolean(self, name):
        if name in self.ctx.inputs:
            return SymB(self.ctx.inputs[name][0])
        v = z3.Bool(name)
        self.ctx.inputs[name] = (v, None, None, 'B')
        return SymB(v)

    def choose(self, name, options):
        """finite non-deterministic choice (forks)"""
        k = name + '#'
        v = z3.Real(k)
        if k not in self.ctx.inputs:
            self.ctx.inputs[k] = (v, 0, len(options) - 1, 'R')
            self.ctx.assume(SymB(z3.Or([v == i for i in
                                        range(len(options))])))
        for i in range(len(options) - 1):
            if self.ctx.branch(v == i):
                return options[i]
        return options[-1]

    def assume(self, c):
        self.ctx.assume(c)

    def put(self, obj, **kw):
        for k, v in kw.items():
            if not hasattr(obj, k):
                raise EngineError('%s has no attribute %s' % (
                    type(obj).__name__, k))
            setattr(obj, k, v)

    def stop(self):
        raise Infeasible()

    def cover(self, label):
        self.covered.add(label)

    def observe(self, name, v):
        self.runner.observed.append((name, v))

    def check(self, label, c, info=''):
        e = E.bexpr(c)
        self.runner.oblige(self.ctx, label, [z3.Not(e)], ineq=True)

    def eq(self, label, a, b, tol=1e-6, rel=1e-9):
        a, b = _sc(a), _sc(b)
        if not isinstance(a, (Sym, SymB)) and not isinstance(b, (Sym, SymB)):
            ok = abs(a - b) <= tol * .5 + rel * (abs(a) + abs(b))
            self.runner.oblige(self.ctx, label, [z3.BoolVal(not ok)])
            return
        if E._isinf(a) or E._isinf(b):
            self.runner.oblige(self.ctx, label, [z3.BoolVal(True)])
            return
        ea, eb = E.expr(a), E.expr(b)
        d = ea - eb
        t = E.rv(tol)
        self.runner.oblige(
            self.ctx, label, [d != 0, z3.Or(d > t, d < -t)],
            [z3.Or(d > t * k, d < -t * k) for k in (10 ** 6, 10 ** 3, 10)])

    def le(self, label, a, b, tol=1e-7, rel=1e-9):
        a, b = _sc(a), _sc(b)
        if E._isinf(b) and b > 0 or E._isinf(a) and a < 0:
            self.runner.oblige(self.ctx, label, [z3.BoolVal(False)])
            return
        if E._isinf(a) or E._isinf(b):
            self.runner.oblige(self.ctx, label, [z3.BoolVal(True)])
            return
        if not isinstance(a, (Sym, SymB)) and not isinstance(b, (Sym, SymB)):
            ok = a <= b + tol * .5 + rel * (abs(a) + abs(b))
            self.runner.oblige(self.ctx, label, [z3.BoolVal(not ok)])
            return
        ea, eb = E.expr(a), E.expr(b)
        d = ea - eb
        t = E.rv(tol)
        self.runner.oblige(self.ctx, label, [d > 0, d > t],
                           [d > t * k for k in (10 ** 6, 10 ** 3, 10)],
                           ineq=True)

    def arr(self, x):
        return symarr.to_sa(np.array(x, dtype=object))

    def abs(self, x):
        return abs(x)

    def max(self, *xs):
        return self.ctx.extremum(xs, True)

    def min(self, *xs):
        return self.ctx.extremum(xs, False)

    def ite(self, c, a, b):
        return E.ite(c, a, b)

    def and_(self, *xs):
        return E.and_(list(xs))

    def or_(self, *xs):
        return E.or_(list(xs))

    def not_(self, x):
        return E.not_(x)

    def sqrt(self, x):
        return x ** 0.5

    def exp_args(self):
        """arguments of the exponentials the code evaluated on this path"""
        return list(E.CUR.exp_args)

    def exp(self, x):
        return x.exp() if isinstance(x, Sym) else float(np.exp(x))

    def log10(self, x):
        return E.CUR.uf('log10', x) if isinstance(x, Sym) else float(
            np.log10(x))

    def implies(self, a, b):
        return E.implies(a, b)


@contextlib.contextmanager
def quiet():
    so = sys.stdout
    sys.stdout = io.StringIO()
    try:
        with warnings.catch_warnings(), np.errstate(all='ignore'):
            warnings.simplefilter('ignore')
            yield
    finally:
        sys.stdout = so


def run_concrete(scen, values, rng=None):
    """Run the scenario on the untouched code.  Returns (status, detail, env)
    status: ok | fail | excluded | raise"""
    env = ConcEnv(values, rng)
    try:
        with quiet():
            w = scen.setup() if scen.setup else None
            if w is not None:
                scen.body(env, w)
            else:
                scen.body(env)
    except AssumeFail:
        return 'excluded', '', env
    except Exception as ex:
        tb = traceback.extract_tb(ex.__traceback__)
        loc = ' <- '.join('%s:%d' % (os.path.basename(f.filename), f.lineno)
                          for f in reversed(tb[-3:]))
        in_repo = any('/multisim/' in f.filename for f in tb)
        if env.failed:
            return 'fail', env.failed, env
        return 'raise', [('exception', '%s: %s @ %s' % (
            type(ex).__name__, str(ex)[:200], loc)), in_repo], env
    if env.failed:
        return 'fail', env.failed, env
    return 'ok', '', env


class Runner:
    """Explores one scenario symbolically."""

    def __init__(self, scen, seed=1, debug=False, suppress=()):
        self.scen = scen
        self.covered = set()
        self.obl = {}
        self.viol = []       # confirmed
        self.incon = []      # inconclusive obligations
        self.functions = set()
        self.observed = []
        self.rng = random.Random(seed)
        self.debug = debug
        self.suppress = suppress
        self.witness_ok = 0
        self.batch = None
        self.samples = []

    # -- obligations
    def oblige(self, ctx, label, negs, robust=(), ineq=False):
        st = self.obl.setdefault(label, dict(n=0, unsat=0, trivial=0))
        st['n'] += 1
        if any(v['label'] == label for v in self.viol):
            return
        if any(i['label'] == label for i in self.incon):
            return
        neg = z3.simplify(negs[0])
        if z3.is_false(neg):
            # decided by the rewriting alone
            st['trivial'] += 1
            st['unsat'] += 1
            ctx.stats['trivial'] += 1
            return
        if self.batch is not None:
            st['n'] -= 1
            self.batch.append((label, negs, robust, ineq))
            return
        model = None
        verdict = 'unknown'
        tried = []
        # 1: linear abstraction, without / with the definitions
        for full in (False, True):
            lv = (0, 1, 2) if ineq else (0, 1)
            v, m, exact = ctx.lin_query(negs[-1], full, ctx.q_timeout, lv)
            if v == 'unsat':
                st['unsat'] += 1
                return
            if v == 'sat':
                model = m
            if model is not None and self._try(ctx, label, model, tried):
                return
            if full:
                ctx.stats['refined'] += 1
        v, m = ctx.nra_query(negs[-1], False, 1000)
        if v == 'unsat':
            st['unsat'] += 1
            return
        # 2: the abstraction is satisfiable: is there a concrete witness?
        if self._search(ctx, label, model, self.scen.post_random // 2):
            return
        # 3: exact non-linear queries
        for full, to in ((False, ctx.q_timeout), (True, ctx.q_timeout2)):
            for n in negs:
                verdict, m = ctx.nra_query(n, full, to)
                if verdict == 'unsat':
                    st['unsat'] += 1
                    return
                if verdict == 'sat':
                    model = m
                    if self._try(ctx, label, m, tried):
                        return
        for n in robust:
            v, m = ctx.nra_query(n, True, ctx.q_timeout)
            if v == 'sat' and self._try(ctx, label, m, tried):
                return
        if self._search(ctx, label, model, self.scen.post_random):
            return
        base = ctx.model_inputs(model) if model is not None else {}
        self.incon.append(dict(label=label, verdict=verdict,
                               inputs=base, tried=tried[-3:]))

    def _search(self, ctx, label, model, n):
        """the solver could not exclude a violation: look for one around its
        model, on the real code (a counterexample must be concrete)"""
        base = ctx.model_inputs(model) if model is not None else {}
        for k in range(n):
            vals = {}
            if base and k % 2 == 0:
                for nm, v in base.items():
                    if self.rng.random() < .7:
                        vals[nm] = v
            else:
                for nm, v in base.items():
                    if nm.endswith('#') or isinstance(v, bool):
                        vals[nm] = v
            s, d, env = run_unpatched(self.scen, vals, self.rng)
            if self._confirm(label, s, d, env):
                return True
        return False

    def _try(self, ctx, label, model, tried):
        vals = ctx.model_inputs(model)
        s, d, env = run_unpatched(self.scen, vals, self.rng)
        tried.append((s, str(d)[:300]))
        return self._confirm(label, s, d, env)

    def _confirm(self, label, s, d, env):
        if s == 'fail':
            self.viol.append(dict(label=label, values=dict(env.values),
                                  detail=[list(x) for x in d]))
            return True
        if s == 'raise' and d[1]:
            self.viol.append(dict(label='no-exception', values=dict(env.values),
                                  detail=[list(d[0])]))
            return True
        return False

    def flush(self, ctx):
        """batched obligations of a path: one query for their disjunction,
        single queries only if that one is not refuted"""
        todo, self.batch = self.batch, None
        if not todo:
            return
        goal = z3.Or([t[1][-1] for t in todo])
        for full in (False, True):
            v, _, _ = ctx.lin_query(goal, full, ctx.q_timeout, (0, 2))
            if v == 'unsat':
                for t in todo:
                    st = self.obl[t[0]]
                    st['n'] += 1
                    st['unsat'] += 1
                return
        for t in todo:
            self.oblige(ctx, *t)

    # -- exploration
    def run(self):
        scen = self.scen
        ctx = Ctx(scen.opts)
        self.ctx = ctx
        E.CUR = ctx
        t0 = time.time()
        err = None
        first = True
        budget = scen.opts.get('budget_s', 600)
        while ctx.work:
            prefix = ctx.work.pop()
            if time.time() - t0 > budget:
                err = 'time budget of %ds exceeded' % budget
                break
            ctx.reset_path(prefix)
            ctx.stats['paths'] += 1
            env = SymEnv(ctx, scen, self)
            self.batch = [] if scen.opts.get('batch') else None
            try:
                with quiet():
                    w = scen.setup() if scen.setup else None
                    if w is not None and scen.symb:
                        symbolize_world(w)
                    with symarr.patched(scen.stubs):
                        if first:
                            sys.setprofile(self._prof)
                        try:
                            if w is not None:
                                scen.body(env, w)
                            else:
                                scen.body(env)
                        finally:
                            sys.setprofile(None)
                self.flush(ctx)
                self._path_end(ctx)
                first = False
            except Infeasible:
                ctx.stats['infeasible'] += 1
            except PathBudget as ex:
                err = 'path budget: %s' % ex
                break
            except EngineError as ex:
                if self._dead(ctx):
                    ctx.stats['infeasible'] += 1
                    continue
                err = 'engine: %s\n%s' % (ex, traceback.format_exc()[-1500:])
                break
            except Exception as ex:
                if not self._exception(ctx, ex):
                    err = 'exception not reproduced concretely: %s' % (
                        traceback.format_exc()[-2500:])
                    break
            if len(self.viol) > 5:
                break
        E.CUR = None
        self.wall = time.time() - t0
        return dict(
            scenario=scen.name, bounds=scen.bounds, stats=ctx.stats,
            obligations=self.obl, violations=self.viol,
            inconclusive=self.incon, error=err, wall=self.wall,
            functions=sorted(self.functions), covered=sorted(self.covered),
            witnesses=self.witness_ok, samples=self.samples,
            stubs=sorted(scen.stubs), inputs=sorted(ctx.inputs),
            axioms=sorted(set(ctx.abstracted)),
        )

    def _prof(self, frame, event, arg):
        if event == 'call':
            fn = frame.f_code.co_filename
            if '/multisim/' in fn:
                self.functions.add('%s:%s' % (
                    fn.split('/multisim/', 1)[1], frame.f_code.co_name))

    def _dead(self, ctx):
        """is the current path infeasible once all definitions are used?"""
        for full in (False, True):
            v, _, _ = ctx.lin_query(z3.BoolVal(True), full, ctx.q_timeout,
                                    (0, 2))
            if v == 'unsat':
                return True
        return ctx.nra_query(z3.BoolVal(True), True,
                             ctx.q_timeout)[0] == 'unsat'

    def _exception(self, ctx, ex):
        """Symbolic run raised: must be reproducible on the real code."""
        lab = 'no-exception'
        for full in (False, True):
            r, m = ctx.query(z3.BoolVal(True), full=full)
            if r == 'unsat':
                ctx.stats['infeasible'] += 1
                return True
            if r == 'sat':
                s, d, env = run_unpatched(self.scen, ctx.model_inputs(m),
                                          self.rng)
                if s == 'fail':
                    self.viol.append(dict(
                        label=d[0][0], values=dict(env.values),
                        detail=[list(x) for x in d]))
                    return True
                if s == 'raise' and d[1]:
                    self.viol.append(dict(
                        label=lab, values=dict(env.values),
                        detail=[list(d[0])]))
                    return True
        return False

    def _path_end(self, ctx):
        """Reachability witness: a model of the path run on the real code."""
        if not self.scen.witness or self.witness_ok >= 3 and \
                ctx.stats['paths'] % 25:
            return
        for k in range(2 if self.witness_ok else 12):
            vals = {}
            if k < 2:
                r, m = ctx.query(z3.BoolVal(True), full=k > 0, timeout=1000)
                if r != 'sat':
                    continue
                vals = ctx.model_inputs(m)
            s, d, env = run_unpatched(self.scen, vals, self.rng)
            if s == 'ok':
                self.witness_ok += 1
                if len(self.samples) < 2:
                    self.samples.append(dict(values=dict(env.values),
                                             checks=len(env.checked)))
            elif s == 'fail':
                self.viol.append(dict(label=d[0][0], values=dict(env.values),
                                      detail=[list(x) for x in d]))
            elif s == 'raise' and d[1]:
                self.viol.append(dict(label='no-exception',
                                      values=dict(env.values),
                                      detail=[list(d[0])]))
            if s != 'excluded':
                return


def symbolize_world(w):
    objs = w.objects() if hasattr(w, 'objects') else [w]
    symarr.symbolize(*objs)


def run_unpatched(scen, vals, rng):
    """concrete run inside the worker: temporarily restore the real modules"""
    cur, E.CUR = E.CUR, None
    import math
    prof = sys.getprofile()
    sys.setprofile(None)
    sh, ms = symarr.shim(), None
    saved = []
    for mn, m in list(sys.modules.items()):
        if not mn.startswith('multisim') or m is None:
            continue
        for k, v in list(vars(m).items()):
            if v is sh:
                saved.append((m, k, v))
                setattr(m, k, np)
            elif isinstance(v, symarr.MathShim):
                saved.append((m, k, v))
                setattr(m, k, math)
            elif k in symarr.INJECT and v is symarr.INJECT[k]:
                saved.append((m, k, v))
                delattr(m, k)
    stub_saved = []
    if scen.stubs:
        for m, k, v in symarr_active_stubs():
            stub_saved.append((m, k, getattr(m, k)))
            setattr(m, k, v)
    try:
        return run_concrete(scen, vals, rng)
    finally:
        for m, k, v in saved + stub_saved:
            setattr(m, k, v)
        E.CUR = cur
        sys.setprofile(prof)


def symarr_active_stubs():
    """(module, name, original) for the stubs currently installed"""
    return list(ACTIVE)


ACTIVE = []
_orig_patched = symarr.patched


@contextlib.contextmanager
def _patched(stubs=None):
    """wrapper remembering the original of each stubbed name"""
    before = {}
    if stubs:
        for mn, m in list(sys.modules.items()):
            if mn.startswith('multisim') and m is not None:
                for k, v in list(vars(m).items()):
                    if callable(v):
                        before[(mn, k)] = v
    with _orig_patched(stubs):
        del ACTIVE[:]
        if stubs:
            for (mn, k), v in before.items():
                m = sys.modules[mn]
                if vars(m).get(k) is not v:
                    ACTIVE.append((m, k, v))
        try:
            yield
        finally:
            del ACTIVE[:]


symarr.patched = _patched
