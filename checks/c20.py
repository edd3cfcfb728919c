"""C20: the simulation loop: order of events, time axis and results."""
import contextlib
import sys

import numpy as np
import pandas as pd

from vf.env import Scenario
from vf import world
from .common import ALPHA_STUBS, vn_stub
import multisim.simenv as ms_simenv

BOUNDS = ('simulations of at most %d steps of any length in [%g, %g] s over '
          '%g s, result arrays starting with %d rows; results of every step '
          'and output of the controller after every step arbitrary; the '
          'solver is replaced by one which writes them; progress display and '
          'text report not encoded')

VAL = [10., 22., 15., 40., 12., 31., 18., 27.]
TF = 100.


def build(kind, rows, dyn=True):
    b = world.Builder(timeframe=TF)
    b.pump('pp', 2, .5, ctrl=True)
    b.open('pp', 'in', 60.)
    if kind == 'hex':
        b.hexnum('x', 2)
        b.pump('pd', 2)
        b.open('pd', 'in', 20.)
        b.con('pp', 'out', 'x', 'sup_in')
        b.con('pd', 'out', 'x', 'dmd_in')
        b.pipe('qs', 2)
        b.pipe('qd', 2)
        b.con('x', 'sup_out', 'qs', 'in')
        b.con('x', 'dmd_out', 'qd', 'in')
        b.open('qs', 'out')
        b.open('qd', 'out')
    else:
        if kind == 'heated':
            b.heated('x', 2)
            b.pid('c2', 'x', sat=(0., 1e5), process_CV_mode='direct')
        elif kind == 'chp':
            b.chp('x', 2)
            b.pid('c2', 'x', process_CV_mode='direct')
        else:
            b.pipe('x', 2)
        b.con('pp', 'out', 'x', 'in')
        b.open('x', 'out')
    b.pid('c', 'pp', part='x', sat=(0., 2.), process_CV_mode='direct')
    # a short first array, as a simulation with very small steps would see
    b.s.num_steps = rows / 100.
    w = b.done()
    if dyn:
        b.s.assign_boundary_cond(
            pd.Series(VAL, index=pd.date_range('2021-01-01', periods=len(VAL),
                                               freq='60s')),
            open_port='BC_1')
    return w


@contextlib.contextmanager
def no_display(env):
    if not env.sym:
        yield
        return
    from vf.engine import Sym

    class Disp:
        def __rsub__(self, o):
            return 1.

        def __rmul__(self, o):
            return ''

        def __int__(self):
            return 0

        __index__ = __int__

    real = vars(ms_simenv).get('int', int)

    def shim(x=0, *a):
        if isinstance(x, Sym) and sys._getframe(1).f_code.co_name not in (
                '_update_dyn_BC',):
            return Disp()
        return int(x, *a)
    ms_simenv.int = shim
    try:
        yield
    finally:
        if real is int:
            del ms_simenv.int
        else:
            ms_simenv.int = real


def sample(env, x):
    r = VAL[-1]
    for i in range(len(VAL) - 2, -1, -1):
        r = env.ite(x < i + 1, VAL[i] + (VAL[i + 1] - VAL[i]) * (x - i), r)
    return r


STUBS = dict(ALPHA_STUBS, _vonNeumann_stability_invar=vn_stub,
             _vonNeumann_stability_var=vn_stub)
EXTRA = {'heated': ['res_dQ'], 'chp': ['res_dQ', 'res_Pel', 'res_Pgas',
                                       '_chp_state']}


def run(kind, rows, lo, hi, tf=TF, dyn=True, stop_at=99):
    def f(env, w):
        s = w.s
        log = []
        hs = []
        wrote = {}

        def state(part, k, what):
            """arbitrary value written for one step"""
            return env.real('%s_%s_%d' % (what, part, k), 1., 90.)

        def solver(expl, impl, nonnum, step):
            k = len(hs) + 1
            if k > stop_at:
                env.stop()
            log.append('solve')
            t = 0.
            for x in hs:
                t = t + x
            if k > 1:
                env.eq('a step uses the flows set by the controllers after '
                       'the last one', w['qs' if kind == 'hex' else 'x']
                       .dm[0], env.real('a%d' % (k - 1), 0., 2.))
                env.eq('the solver is given the last step', step, hs[-1])
            if dyn:
                env.eq('a step uses the boundary condition of its start',
                       s.ports_all[s.boundary_conditions['BC_1']['port_id']],
                       sample(env, t / 60.))
            env.check('results go to the row of the step',
                      env.and_(s.stepnum[0] == k))
            i = int(s.stepnum[0])
            for n, p in w.parts.items():
                for name in ['res', 'res_dm'] + (
                        EXTRA.get(kind, []) if n == 'x' else []):
                    arr = getattr(p, name)
                    v = state(n, k, name)
                    flat = arr[i].reshape(-1)
                    for j in range(flat.shape[0]):
                        flat[j] = v
                    wrote[(n, name, k)] = v
                p.T[(0,) * len(p.T.shape)] = wrote[(n, 'res', k)]
            s._failed_steps[i] = float(k)
            s._sys_trnc_err[i] = state('s', k, 'err')
            h = env.real('h%d' % k, lo, hi)
            hs.append(h)
            env.put(s, timestep=h)

        def ctrl(h):
            k = len(hs)
            log.append('control')
            env.eq('the controllers get the step that was taken', h, hs[-1])
            env.eq('the controllers see the results of the step',
                   w['x'].T[(0,) * len(w['x'].T.shape)], wrote[('x', 'res', k)])
            w['pp'].dm[0] = env.real('a%d' % k, 0., 2.)
        # set before each run
        init = {}
        for n, p in w.parts.items():
            for name in ['res', 'res_dm']:
                init[(n, name)] = [x for x in getattr(p, name)[0].reshape(-1)]
        env.put(s, solver=solver, timeframe=tf, _write_report=lambda: None)
        for c in s.ctrl_l:
            env.put(c, ctrl=ctrl if c is w.ctrls['c'] else lambda h: None)
        with no_display(env):
            s.start_sim()
        n = len(hs)
        env.check('every step is solved once and controlled once',
                  log == ['solve', 'control'] * n)
        tv = s.time_vec
        env.check('one time stamp for every step and the start',
                  len(tv) == n + 1)
        if len(tv) != n + 1:
            return
        t = 0.
        for k in range(n + 1):
            env.eq('the time axis is the sum of the steps', tv[k], t,
                   tol=1e-6)
            if k < n:
                env.check('no step starts after the end of the timeframe',
                          t < tf)
                t = t + hs[k]
        env.check('the whole timeframe is simulated', t >= tf)
        env.eq('the simulation time is the time reached', s.time_sim, t)
        for k in range(n + 1):
            env.eq('the step sizes are the differences of the time axis',
                   s.time_step_vec[k], hs[min(k, n - 1)])
        env.check('as many step sizes as time stamps',
                  len(s.time_step_vec) == n + 1)
        for nme, p in w.parts.items():
            for name in ['res', 'res_dm'] + (
                    EXTRA.get(kind, []) if nme == 'x' else []):
                arr = getattr(p, name)
                env.check('one row of results per time stamp',
                          arr.shape[0] == n + 1)
                if arr.shape[0] != n + 1:
                    continue
                for k in range(n + 1):
                    flat = arr[k].reshape(-1)
                    for j in range(flat.shape[0]):
                        if k:
                            want = wrote[(nme, name, k)]
                        elif (nme, name) in init:
                            want = init[(nme, name)][j]
                        else:
                            continue
                        env.eq('all results are kept', flat[j], want)
        for k in range(1, n + 1):
            env.eq('all solver statistics are kept', s._failed_steps[k],
                   float(k))
            env.eq('all solver statistics are kept', s._sys_trnc_err[k],
                   state('s', k, 'err'))
        for k in range(1, n + 1):
            env.check('every step has a positive length', hs[k - 1] > 0.)
        env.cover('%d steps' % n)
    return f


def solve_after(kind, again):
    """the real solver right after the result arrays were enlarged: results,
    flows and port temperatures of the next steps"""
    def f(env, w):
        s = w.s
        env.put(s, _write_report=lambda: None)
        # (the heat exchanger's flow regimes are not the point here)
        flow = .3 if kind == 'hex' else env.real('flow', .1, 2.)
        w['pp'].dm[0] = flow
        s._update_FlowNet()
        for _ in range(again):
            s.stepnum[0] = s.num_steps
            for p in w.parts.values():
                p.res[s.num_steps] = p.res[0]
            s._free_memory()
            s.stepnum[0] += 1
        k = int(s.stepnum[0])

        def fun(n, p):
            old = p.get_diff
            state = []
            shape = p.T.shape
            size = 1
            for i in shape:
                size *= i
            d = [env.real('d_%s_%d' % (n, i), -5., 5.) for i in range(size)]

            def diff(h):
                if not state:
                    state.append(1)
                    old(h)
                return env.arr(d).reshape(shape)
            return d, diff
        D, funs = {}, {}
        for n, p in w.parts.items():
            D[n], funs[n] = fun(n, p)
        h = .01 if kind != 'hex' else 1e-4
        env.put(s, _new_step=h)
        s.solver(funs, {}, {}, h)
        for n, p in w.parts.items():
            now, last = p.res[k].reshape(-1), p.res[k - 1].reshape(-1)
            for i, d in enumerate(D[n]):
                env.eq('results after enlarging go on from the last row',
                       now[i], last[i] + h * d)
            for j in range(len(p.port_names)):
                env.eq('port temperatures after enlarging are those of the '
                       'results', s.ports_all[int(p.port_ids[j])],
                       now[int(p._port_own_idx[j])])
        env.eq('flows after enlarging are recorded', w['pp'].res_dm[k][0],
               flow)
        env.eq('flows after enlarging are recorded',
               w['qs' if kind == 'hex' else 'x'].res_dm[k][0], flow)
    return f


def scenarios(tier):
    out = []

    def add(name, kind, rows, lo, hi, dyn=True, **o):
        mx = int(np.ceil(TF / lo))
        out.append(Scenario(
            name, run(kind, rows, lo, hi, dyn=dyn),
            lambda: build(kind, rows, dyn),
            bounds=BOUNDS % (mx, lo, hi, TF, rows + 1), post_random=6,
            opts=dict(max_paths=2000, batch=True, **o)))
    add('pipes', 'pipe', 50, 15., 60., weight=3)
    add('pipes_enlarged', 'pipe', 3, 13., 60., weight=3)
    add('heated_enlarged', 'heated', 2, 34., 200., dyn=False)
    add('chp_enlarged', 'chp', 2, 34., 200., dyn=False)
    add('heat_exchanger_enlarged', 'hex', 2, 34., 200., dyn=False)
    for kind in ('pipe', 'heated', 'hex'):
        for again in (1, 2):
            out.append(Scenario(
                'solver_after_enlarging_%s_%d' % (kind, again),
                solve_after(kind, again),
                lambda kind=kind: build(kind, 2, False),
                stubs=STUBS, post_random=6,
                bounds='first step after enlarging the arrays %d times, '
                'derivatives and flow arbitrary' % again))
    if tier != 'quick':
        add('pipes_12_steps', 'pipe', 3, 9., 60.)
        add('heat_exchanger_6_steps', 'hex', 2, 17., 60.)
    return out
