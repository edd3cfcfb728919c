"""C03: energy conservation of pipes."""
from vf.env import Scenario
from vf import world
from . import common as C

BOUNDS = ('1-6 cells per pipe, up to 2 extra branch ports, temperatures '
          '1..99 degC (heated: up to 112), mass flow per port -2..2 kg/s, '
          'any ambient temperature; one evaluation of the time derivative')


def invar(name, Thi=99., heat=False):
    def body(env, w):
        p = w[name]
        C.free_state(env, w, p, 1., Thi)
        C.stale(env, p)
        dm = env.real('dm', -2., 2.)
        p._dm_io[0] = dm
        p._process_flows[0] = True
        hc = None
        if heat:
            dQ = env.real('dQ', 0., 1e5)
            p._dQ_heating[0] = dQ
        d = p.get_diff(w.s.timestep)
        if heat:
            hc = heat(env, p, dQ)
        C.balance_1d(env, w, p, [dm], d, heat=hc)
    return body


def var(name, nport):
    def body(env, w):
        p = w[name]
        C.free_state(env, w, p)
        C.stale(env, p)
        dm = [env.real('dm%d' % i, -2., 2.) for i in range(nport - 1)]
        last = 0.
        for x in dm:
            last = last - x
        dm.append(last)
        for i in range(nport):
            p._dm_io[i] = dm[i]
        p._process_flows[0] = True
        d = p.get_diff(w.s.timestep)
        C.balance_1d(env, w, p, dm, d)
    return body


def heat_spec(cells):
    def f(env, p, dQ):
        n = p.num_gp
        cs = list(range(n)) if cells is None else cells
        hot = env.or_(*[p.T[i] >= 110. for i in range(n)])
        per = env.ite(hot, 0., dQ) / float(len(cs))
        return [per if i in cs else 0. for i in range(n)]
    return f


def chp(cells):
    def body(env, w):
        p = w['x']
        C.free_state(env, w, p, 1., 74.)
        C.stale(env, p)
        dm = env.real('dm', -2., 2.)
        p._dm_io[0] = dm
        p._process_flows[0] = True
        p.stepnum[0] = 1
        w.s.time_vec[0] = 5000.
        p._startup_at_time = 0.
        p._shutdown_at_time = -1.
        p._startup_in_progress = False
        p._startup_factor_th = 1.
        p._chp_state[0] = 1.
        p._power_modulation[0] = env.real('mod', .5, 1.)
        d = p.get_diff(100.)
        n = p.num_gp
        cs = list(range(n)) if cells is None else cells
        per = p._dQ_heating[0] / float(len(cs))
        C.balance_1d(env, w, p, [dm], d,
                     heat=[per if i in cs else 0. for i in range(n)])
    return body


def scenarios(tier):
    out = []

    def add(name, body, setup, **k):
        if not name.endswith('_2cells'):
            k['stubs'] = C.ALPHA_STUBS
        out.append(Scenario(name, body, setup, bounds=BOUNDS, **k))
    deep = tier == 'thorough'
    for n in (2, 3, 4) + ((6, 8) if deep else ()):
        add('pipe_%dcells' % n, invar('x'), lambda n=n: world.pipe(n))
    for n in (2, 3) + ((5,) if deep else ()):
        add('pump_pipe_%dcells' % n, invar('pp'),
            lambda n=n: world.pump_pipe(n))
    for n, loc in ((3, 1), (4, 2)) + (((6, 3),) if deep else ()):
        add('valve_pipe_%dcells_at%d' % (n, loc), var('x', 3),
            lambda n=n, loc=loc: world.valve_pipe(n, loc))
    br = [(3, {'p1': [1, 'index']}), (4, {'p1': [2, 'index']}),
          (4, {'p1': [1, 'index'], 'p2': [2, 'index']})]
    if deep:
        br += [(6, {'p1': [1, 'index'], 'p2': [4, 'index']}),
               (4, {'p1': [1, 'index'], 'p2': [1, 'index']})]
    for k, (n, np_) in enumerate(br):
        add('branched_%d_%dcells_%dports' % (k, n, 2 + len(np_)),
            var('x', 2 + len(np_)),
            lambda n=n, np_=np_: world.branched(n, dict(np_)))
    for n, sp, arg, cells in ((3, 'all', None, None), (3, 'single', 1, [1]),
                              (4, 'range', [1, 3], [1, 2])):
        add('heated_%s_%dcells' % (sp, n),
            invar('x', 112., heat_spec(cells)),
            lambda n=n, sp=sp, arg=arg: world.heated(n, sp, arg))
    for n, sp, arg, cells in ((3, 'all', None, None), (4, 'single', 2, [2]),
                              (4, 'range', [1, 3], [1, 2])):
        add('chp_%s_%dcells' % (sp, n), chp(cells),
            lambda n=n, sp=sp, arg=arg: world.chp(n, sp, arg))
    return out
