"""C14: actuators never leave their limits."""
from vf.env import Scenario
from vf import world

BOUNDS = ('one control step with an arbitrary controller output (-1e6..1e6) '
          'and arbitrary ordered hardware limits of the actuator, for every '
          'actuator and both ways of passing the output on')


def clip(env, x, lo, hi):
    return env.ite(x < lo, lo, env.ite(x > hi, hi, x))


def body(kind, name='x', ctrl='pid', direct=False, built=None):
    def f(env, w):
        p = w[name]
        c = w.ctrls[ctrl]
        valve = kind == 'valve'
        if built:
            # as given by the user at construction
            lo, hi = built
        else:
            lo = env.real('llim', 0. if valve else -1e3, 1. if valve else 1e3)
            hi = env.real('ulim', 0. if valve else -1e3, 1. if valve else 1e3)
            env.assume(lo < hi)
            env.put(c if direct else p, _llim=lo, _ulim=hi)
        cv = env.real('cv', -1e6, 1e6)
        env.put(c, _cv_sat_min=-1e7, _cv_sat_max=1e7, _anti_windup=1e7)
        env.put(c, cv=cv, kp=0., kd=0., ki=1., error=0.)
        # no error: the output stays as it is
        c.sp[0] = c.pv[0]
        w.s._update_control(1.)
        env.eq('the controller output is unchanged', c.cv, cv)
        if kind == 'rel_pump':
            mx = p._flow_at_max_speed
            want = clip(env, cv * mx, lo, hi)
        else:
            want = clip(env, cv, lo, hi)
        if valve:
            a, b = p.pf_arr[0], p.pf_arr[1]
            env.eq('opening of port A', a, want)
            env.eq('openings sum to one', a + b, 1.)
            env.check('openings within 0..1', env.and_(
                a >= 0., a <= 1., b >= 0., b <= 1.))
        elif kind in ('pump', 'rel_pump'):
            env.eq('flow set by the controller', p.dm[0], want)
            env.check('flow within the limits', env.and_(
                p.dm[0] >= lo, p.dm[0] <= hi))
            w.s._update_FlowNet()
            env.eq('the network carries the flow set',
                   p._dm_io.reshape(-1)[0], want)
        else:
            x = p._actuator_CV[0]
            env.eq('actuator setting', x, want)
            env.check('setting within the limits', env.and_(
                x >= lo, x <= hi))
    return f


def heater(spread, cells):
    """the heat put into the water is the actuator's setting"""
    def f(env, w):
        p = w['x']
        c = w.ctrls['pid']
        cv = env.real('cv', -1e6, 1e6)
        env.put(c, _cv_sat_min=-1e7, _cv_sat_max=1e7, _anti_windup=1e7)
        env.put(c, cv=cv, kp=0., kd=0., ki=1., error=0.)
        c.sp[0] = c.pv[0]
        w.s._update_control(1.)
        q = clip(env, cv, 0., 1e5)
        w.s.stepnum[0] = 1
        p._dm_io[0] = 0.
        p._process_flows[0] = True
        n = p.num_gp
        p.T[:] = 40.
        w.s.ports_all[:] = 40.
        p._T_amb[0] = 40.
        dT = p.get_diff(1.)
        tot = 0.
        for i in range(n):
            x = dT[i] * p._mcp[i]
            hot = cells is None or cells[0] <= i < cells[1]
            k = n if cells is None else cells[1] - cells[0]
            env.eq('heat is spread evenly over the heated cells only', x,
                   q / k if hot else 0., tol=1e-3)
        rec = 0.
        r = p.res_dQ[1].reshape(-1)
        for i in range(r.shape[0]):
            rec = rec + r[i]
        env.eq('recorded heat is the setting', rec, q, tol=1e-3)
    return f


def scenarios(tier):
    out = []
    for n, kind, mk, kw in (
            ('mixing_valve', 'valve', lambda **k: world.mixval('mix', **k),
             {}),
            ('splitting_valve', 'valve',
             lambda **k: world.mixval('split', **k), {}),
            ('valve_pipe', 'valve', lambda **k: world.valve_pipe(3, **k), {}),
            ('pump', 'pump', world.pump_only, {}),
            ('pump_direct', 'pump', lambda **k: world.pump_only(
                mode='direct', **k), dict(direct=True)),
            ('pipe_with_pump', 'rel_pump', lambda **k: world.control(
                mlim=k and (k['lo'], k['hi'])), dict(
                name='m', ctrl='mctrl')),
            ('heated_pipe', 'heat', lambda **k: world.heated(3, **k), dict(
                direct=True)),
            ('chp', 'chp', lambda **k: world.chp(3, **k), dict(
                direct=True))):
        out.append(Scenario(n, body(kind, **kw), mk, bounds=BOUNDS))
        lim = (.125, .875)
        out.append(Scenario(
            n + '_built', body(kind, built=lim, **kw),
            lambda mk=mk: mk(lo=.125, hi=.875), bounds=BOUNDS))
    for n, sp, cells in (('all', 'all', None), ('range', 'range', [1, 3])):
        out.append(Scenario('heater_' + n, heater(sp, cells),
                            lambda sp=sp, cells=cells: world.heated(
                                4, sp, cells), bounds=BOUNDS))
    return out
