"""C09: stability check of the explicit step, in every numeric part."""
from vf.env import Scenario
from vf import world
from . import common as C
import multisim.precomp_funs as pf

BOUNDS = ('any port flows -2..2 kg/s, any temperatures 1..99 degC, any '
          'positive heat transfer coefficients, steps .01..100 s, any state '
          'left by the parts checked before; %d cells; one evaluation')


def _ua(*a, **k):
    o = k['out']
    for i in range(o.shape[0]):
        o[i] = C._fresh_pos('UA_amb')


def _ua2(**k):
    from vf import symarr
    n, m = k['alpha_fld'].shape
    v = [C._fresh_pos('UA_plate') if FREE['plate'] else 900. + 100. * j
         for j in range(m)]
    return symarr.to_sa([list(v) for _ in range(n)])


def _tb(*a, **k):
    o = k['out']
    for i in range(1, o.shape[0] - 1):
        if len(o.shape) == 2:
            for j in range(o.shape[1]):
                o[i, j] = C._fresh_pos('UA_tb')
        else:
            o[i] = C._fresh_pos('UA_tb')


STUBS = dict(C.ALPHA_STUBS, UA_plate_tb=_tb, UA_fld_wll_ins_amb_cyl=_ua,
             UA_fld_wll_plate=_ua2)
HEX_STEPS = [.02, 1.5]
# the heat exchanger is done with one group of quantities free at a time
FREE = {'plate': False}
TEMPS = [20., 55., 80., 35., 64., 10.]


def flat(a):
    if len(a.shape) == 1:
        return [a[i] for i in range(a.shape[0])]
    return [a[i, j] for i in range(a.shape[0]) for j in range(a.shape[1])]


def top(env, xs):
    return env.max(*xs) if len(xs) > 1 else xs[0]


def rates_1d(env, p, var):
    """everything that limits the step, in 1/s"""
    n = p.num_gp
    rho = [p._rho_T[i] for i in range(n)]
    rc = [rho[i] * p._cp_T[i + 1] for i in range(n)]
    out = []
    V = C.vec(p, 'V_cell', 1)[0]
    rmax = top(env, rho)
    fl = [p._dm_io[i] for i in range(len(p._dm_io))]
    if var:
        # what enters through the ports and passes between the cells
        fl = [C.pos(env, x) for x in fl] + C.cell_flow(env, p, fl, n)
    for x in fl:
        out.append(abs(x) / (V * rmax))
    for i in range(1, n):
        out.append(2. * p._UA_tb[i] / rc[i] / (p.A_cell * p.grid_spacing))
    cmax = top(env, rc)
    for k in range(len(p._port_own_idx)):
        out.append(2. * p._UA_port[k] / (
            p._A_p_fld_mean[k] * p._port_subs_gsp[k]) / cmax)
    ua = C.vec(p, '_UA_amb_shell', n)
    for i in range(n):
        out.append(2. * ua[i] / rc[i] / (p._A_shell_ins * p._r_total))
    return out


def rates_hex(env, p, nch):
    n = p.num_gp
    out = []
    rho = flat(p._rho_T)
    rmax = top(env, rho)
    rc = flat(p._rhocp)
    cmax = top(env, rc)
    for k in range(2):
        out.append(abs(p._dm_io[k] / nch[k]) / (p.V_cell_fld * rmax))
    for x in flat(p._UA_dim1):
        out.append(2. * x / cmax / (p.A_channel * p.grid_spacing))
    for x in flat(p._UA_dim2):
        out.append(2. * x / cmax / (p.A_plate_eff * p.grid_spacing))
    for k in range(4):
        out.append(2. * p._UA_port[k] / (
            p._A_p_fld_mean[k] * p._port_subs_gsp[k]) / cmax)
    # of those known in number only the largest matters
    num = [x for x in out if not hasattr(x, 'e')]
    seen, rest = set(), []
    for x in out:
        if hasattr(x, 'e') and x.e.get_id() not in seen:
            seen.add(x.e.get_id())
            rest.append(x)
    return rest + ([max(num)] if num else [])


def body(kind, nch=None, free=''):
    def f(env, w):
        s, p = w.s, w['x']
        FREE['plate'] = free == 'plate'
        # (temperatures fix the water properties; what the limits depend on
        # are the conductances, flows and the step)
        for i in range(len(s.ports_all)):
            s.ports_all[i] = TEMPS[-1 - i % 6]
        T = p.T
        for i in range(T.shape[0]):
            if len(T.shape) == 2:
                for j in range(3):
                    T[i, j] = TEMPS[(i + 2 * j) % 6]
            else:
                T[i] = TEMPS[i % 6]
        for i in range(len(p._UA_port_wll)):
            if kind != 'hex' or free == 'port':
                p._UA_port_wll[i] = env.real('UAp%d' % i, 0., 1e4)
        for i in range(len(p._dm_io)):
            p._dm_io[i] = (-.3, .2)[i] if free in ('port', 'plate') else (
                env.real('dm%d' % i, -2., 2.))
        if kind == 'var':
            tot = 0.
            for i in range(len(p._dm_io) - 1):
                tot = tot + p._dm_io[i]
            p._dm_io[len(p._dm_io) - 1] = -tot
        p._process_flows[0] = True
        if kind == 'chp':
            p.stepnum[0] = 1
            w.s.time_vec[0] = 5000.
            env.put(p, _startup_at_time=0., _shutdown_at_time=-1.,
                    _startup_in_progress=False, _startup_factor_th=1.)
            p._chp_state[0] = 1.
            p._power_modulation[0] = .75
        if kind != 'hex':
            C.stale(env, p)
        before = env.choose('before', [True, False])
        s._step_stable[0] = before
        v0 = env.real('v0', .001, 1000.)
        m0 = env.real('m0', 1.01, 5.)
        s._vN_max_step[0] = v0
        s._max_factor[0] = m0
        h = env.choose('h', HEX_STEPS) if kind == 'hex' else env.real(
            'h', .01, 100.)
        p.get_diff(h)
        r = rates_hex(env, p, nch) if kind == 'hex' else rates_1d(
            env, p, kind == 'var')
        bad = env.or_(*[h * x > 1. for x in r])
        ok = s._step_stable[0]
        v1, m1 = s._vN_max_step[0], s._max_factor[0]
        if not before:
            env.check('a part never clears the verdict of another',
                      env.not_(ok))
            env.le('the suggested step is never raised', v1, v0, tol=1e-9)
            return
        if ok:
            for x in r:
                env.check('a step beyond the stability limit is reported',
                          env.not_(h * x > 1.))
            env.check('a stable part leaves the suggestion alone', env.and_(
                v1 == v0, m1 == m0))
            return
        env.check('a step within the stability limit is not reported',
                  env.or_(*[h * x > 1. for x in r]))
        # suggested step
        for x in r:
            env.check('the suggested step keeps the part stable',
                      v1 * (h * x) <= (.95 + 1e-6) * h)
        env.le('the suggested step is never raised', v1, v0, tol=1e-9)
        env.check('the suggested step is not smaller than needed', env.or_(
            v1 == v0, *[v1 * (h * x) >= (.95 - 1e-6) * h for x in r]))
        env.check('the growth limit is tightened but stays above 1.05',
                  env.and_(m1 <= m0, env.or_(m1 >= 1.05, m1 == m0),
                           env.implies(m0 > 1.06, m1 < m0)))
    return f


def scenarios(tier):
    out = []

    def add(name, kind, mk, n, nch=None, free='', **o):
        out.append(Scenario(name, body(kind, nch, free), mk, stubs=STUBS,
                            bounds=BOUNDS % n, post_random=10, opts=dict(
                                o, batch=True)))
    n = 3 if tier == 'quick' else 5
    add('pipe', 'invar', lambda: world.pipe(n), n)
    add('pipe_with_pump', 'invar', lambda: world.pipe_as('pump', n), n)
    add('heated_pipe', 'invar', lambda: world.heated(n), n)
    add('chp', 'chp', lambda: world.chp(n), n, weight=2)
    add('pipe_branched', 'invar', lambda: world.branched(n), n)
    add('pipe_with_valve', 'invar', lambda: world.valve_pipe(n), n)
    add('storage', 'var', lambda: world.tes(n), n)
    add('storage_4_ports', 'var', lambda: world.tes(
        n, {'p1': [0, 'index'], 'p2': [n - 1, 'index']}), n, weight=3)
    for g in ('flows', 'plate', 'port'):
        add('heat_exchanger_' + g, 'hex', lambda: world.hexnum(2), 2,
            (3., 2.), g, weight=3 if g == 'flows' else 1)
        if tier != 'quick':
            add('heat_exchanger_2_passes_' + g, 'hex', lambda: world.hexnum(
                3, plates=9, passes=2), 3, (2., 2.), g)
    return out
