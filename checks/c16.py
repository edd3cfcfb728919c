"""C16: time-dependent boundary conditions, set points and actuator series."""
import numpy as np
import pandas as pd

from vf.env import Scenario
from vf import world
from vf.world import PS, g

BOUNDS = ('series of 8 samples, 60 s apart, arbitrary values; up to 3 steps '
          'of any length (the first ones at most 150 s) within the first 7 '
          'samples')


def series(dt, n=8, off=0.):
    return pd.Series(
        off + np.arange(n) * .01,
        index=pd.date_range('2021-01-01', periods=n, freq='%ds' % dt))


def build(kinds, dt=60):
    b = world.Builder(timeframe=5)
    s = b.s
    if 'pump' in kinds:
        b.part('PipeWithPump', 'pp', length=1., grid_points=2,
               start_massflow=.75, ctrl_required=False,
               time_series=series(dt), **g())
    else:
        b.pump('pp', 2)
    if 'valve' in kinds:
        b.part('PipeWith3wValve', 'x', length=2., grid_points=4,
               valve_location=1, start_portA_opening=.25,
               ctrl_required=False, time_series=series(dt), **g())
        b.open('x', 'A', 60.)
        b.open('x', 'B', 20.)
        b.con('x', 'AB', 'pp', 'in')
        b.open('pp', 'out')
    elif 'chp' in kinds:
        b.part('CHPPlant', 'x', length=2., grid_points=3,
               power_electrical=2e4, modulation_range=(.5, 1.),
               lower_limit=0., upper_limit=1., ctrl_required=False,
               time_series=series(dt), heat_spread='all',
               connect_fluegas_hex=False, **g())
        b.open('pp', 'in', 60.)
        b.con('pp', 'out', 'x', 'in')
        b.open('x', 'out')
    else:
        b.heated('x', 3)
        b.open('pp', 'in', 60.)
        b.con('pp', 'out', 'x', 'in')
        b.open('x', 'out')
        b.pid('c', 'x', sat=(0., 1e5), process_CV_mode='direct')
    w = b.done()
    if 'open' in kinds:
        s.assign_boundary_cond(series(dt), open_port='BC_1')
    if 'open2' in kinds:
        s.assign_boundary_cond(series(dt), open_port='BC_2')
    if 'amb' in kinds:
        s.assign_boundary_cond(series(dt), part='x', variable_name='_T_amb',
                               array_index=0)
    if 'sp' in kinds:
        s.assign_boundary_cond(series(dt), control='c')
    return w


def targets(w, kinds):
    """(array, index) every series has to end up in, in order of assignment;
    for the valve with the complement"""
    s = w.s

    def bc(n):
        return s.ports_all, s.boundary_conditions[n]['port_id']
    out = []
    for k in kinds:
        if k == 'pump':
            out.append((w['pp'].dm, 0, 1.))
        elif k == 'valve':
            out.append((w['x'].pf_arr, 0, 1.))
            out.append((w['x'].pf_arr, 1, -1.))
        elif k == 'chp':
            out.append((w['x']._power_modulation, 0, 1.))
        elif k == 'open':
            out.append(bc('BC_1') + (1.,))
        elif k == 'open2':
            out.append(bc('BC_2') + (1.,))
        elif k == 'amb':
            out.append((w['x']._T_amb, 0, 1.))
        elif k == 'sp':
            out.append((w.ctrls['c'].sp, 0, 1.))
    return out


def sample(env, v, x):
    """piecewise linear through the samples v at position x"""
    r = v[-1]
    for i in range(len(v) - 2, -1, -1):
        r = env.ite(x < i + 1, v[i] + (v[i + 1] - v[i]) * (x - i), r)
    return r


def body(kinds, dt, steps, hi, n=8):
    def f(env, w):
        s = w.s
        tg = targets(w, kinds)
        # at the start: the first sample (the series built in the setup)
        for arr, i, sg in tg:
            env.eq('a series starts with its first value', arr[i],
                   0. if sg > 0 else 1.)
        V = []
        for k, (arr, i, sg) in enumerate(tg):
            if sg < 0:
                v = [1. - x for x in V[-1]]
            else:
                v = [env.real('v%d_%d' % (k, j), -100., 100.)
                     for j in range(n)]
            if k < len(s._dyn_BC):
                own = s._dyn_BC[k][1]
                for j in range(n):
                    own[j] = v[j]
            V.append(v)
        # bystanders
        by = []
        for a in [w['pp'].dm, w['x']._T_amb, s.ports_all, w['pp'].T,
                  w['x'].T]:
            for i in range(a.shape[0]):
                if not any(a is t[0] and i == t[1] for t in tg):
                    by.append((a, i, a[i]))
        t = 0.
        for k in range(steps):
            h = env.real('h%d' % k, .001, hi)
            t0, t = t, t + h
            env.assume(t < (n - 1.) * dt - 1e-3)
            s._update_dyn_BC(t0, h)
            x = t / dt
            for (arr, i, sg), v in zip(tg, V):
                got = arr[i]
                short = h <= dt
                lin = sample(env, v, x)
                env.check('a step within a sampling interval interpolates '
                          'linearly at the reached time', env.implies(
                              short, env.and_(got - lin <= 1e-6,
                                              lin - got <= 1e-6)))
                # longer steps: an average of what was passed
                below, above = [got <= lin + 1e-6], [got >= lin - 1e-6]
                for j in range(n):
                    passed = env.and_(j + 1. > t0 / dt, j - 1. < x)
                    below.append(env.and_(passed, got <= v[j] + 1e-6))
                    above.append(env.and_(passed, got >= v[j] - 1e-6))
                env.check('a longer step averages the samples it passed',
                          env.and_(env.or_(*below), env.or_(*above)))
            for a, i, old in by:
                if a[i] is not old:
                    env.eq('nothing else is changed', a[i], old)
    return f


def scenarios(tier):
    th = tier != 'quick'
    out = []

    def add(name, kinds, dt, steps, hi, **o):
        out.append(Scenario(
            name, body(kinds, dt, steps, hi),
            lambda: build(kinds, dt), bounds=BOUNDS.replace(
                '60 s', '%d s' % dt).replace('3 steps', '%d steps' % steps)
            .replace('150 s', '%g s' % hi),
            post_random=6,
            opts=dict(max_paths=20000, batch=True, budget_s=400, **o)))
    add('open_port', ['open'], 60, 3, 60., weight=3)
    add('open_port_long_steps', ['open'], 60, 2, 150., weight=3)
    add('two_ports', ['open', 'open2'], 60, 2, 90.)
    add('port_ambient_setpoint', ['open', 'amb', 'sp'], 60, 2, 70., weight=2)
    add('pump_flow', ['pump'], 30, 2, 45.)
    add('valve_opening', ['valve'], 60, 2, 90.)
    add('chp_modulation', ['chp'], 60, 2, 90.)
    add('hourly', ['open'], 3600, 2, 5000.)
    if th:
        add('open_port_4_steps', ['open'], 60, 4, 60.)
        add('open_port_long_steps_3', ['open'], 60, 3, 200.)
        add('all', ['pump', 'open', 'open2', 'amb', 'sp'], 60, 3, 90.)
    return out
