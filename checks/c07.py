"""C07: mixing, splitting and passing on of water in parts without own heat
capacity."""
from vf.env import Scenario
from vf import world
from . import common as C
import multisim.precomp_funs as pf

BOUNDS = ('any temperatures 1..99 degC at the connected ports, any flows up '
          'to 2 kg/s per port (connector: all directions incl. zero flow; '
          'mixing valve: intended direction and zero flow), one evaluation at '
          'an arbitrary step after arbitrary earlier values')


def ports(env, w, p):
    s = w.s
    for i in range(len(s.ports_all)):
        s.ports_all[i] = env.real('P%d' % i, 1., 99.)
    for i in range(len(p.T)):
        p.T[i] = env.real('old%d' % i, 1., 99.)
    s.stepnum[0] = 3
    return [s.ports_all[i] for i in p._port_link_idx]


def done(env, p, dm):
    for i in range(len(p.T)):
        env.eq('recorded temperature', p.res[3][i], p.T[i])
    for i in range(len(dm)):
        env.eq('recorded flow', p.res_dm[3][i], dm[i])


def mix(env, w):
    p = w['x']
    ta, tb, tc = ports(env, w, p)
    a = env.real('dmA', 0., 2.)
    b = env.real('dmB', 0., 2.)
    env.assume(env.or_(a + b == 0., a + b > 1e-6))
    for i, v in enumerate((a, b, a + b)):
        p._dm_io[i] = v
    p.solve(1.)
    T = [p.T[i] for i in range(3)]
    mean = (ta + tb) / 2.
    env.check('outlet enthalpy is the sum of the inlet enthalpies',
              env.implies(a + b > 0., _near(
                  env, (a + b) * C.cp(mean) * T[2], a * C.h(ta)
                  + b * C.h(tb), 1e-2)))
    hull(env, T, (ta, tb, tc))
    env.check('only one inlet: its temperature within one percent',
              env.implies(env.and_(b == 0., a > 0.),
                          _near(env, C.cp(mean) * T[2], C.h(ta), 1e-2)))
    for k, (x, y) in enumerate(((tb, tc), (ta, tc), (ta, tb))):
        env.check('without flow a port sees the mean of the others',
                  env.implies(a + b == 0., _near(env, T[k], (x + y) / 2.)))
    for k in (0, 1):
        env.check('inlets see the mean of the inlet temperatures',
                  env.implies(a + b > 0., _near(env, T[k], mean)))
    done(env, p, (a, b, a + b))


def _near(env, a, b, tol=1e-6):
    return env.and_(a - b <= tol, b - a <= tol)


def hull(env, got, src):
    for i in (0, 1):
        env.check('inlet ports see a value between the connected '
                  'temperatures', env.and_(
                      got[i] <= env.max(*src) + 1e-9,
                      got[i] >= env.min(*src) - 1e-9))


def split(env, w):
    p = w['x']
    ta, tb, tc = ports(env, w, p)
    a = env.real('dmA', 0., 2.)
    b = env.real('dmB', 0., 2.)
    for i, v in enumerate((a, b, a + b)):
        p._dm_io[i] = v
    p.solve(1.)
    T = [p.T[i] for i in range(3)]
    env.eq('outlet A has the inlet temperature', T[0], tc)
    env.eq('outlet B has the inlet temperature', T[1], tc)
    env.eq('the inlet sees the mean of the outlets', T[2], (ta + tb) / 2.)
    done(env, p, (a, b, a + b))


def pump(env, w):
    p = w['x']
    ta, tb = ports(env, w, p)
    dm = env.real('dm', -2., 2.)
    p.dm[0] = dm
    p.solve(1.)
    env.eq('the outlet side shows the inlet temperature', p.T[1], ta)
    env.eq('the inlet side shows the outlet temperature', p.T[0], tb)
    done(env, p, (dm,))


def conn(env, w):
    p = w['x']
    t = ports(env, w, p)
    d = [env.real('dm0', -2., 2.), env.real('dm1', -2., 2.)]
    d.append(-d[0] - d[1])
    for x in d:
        env.assume(env.or_(x == 0., x > 1e-6, x < -1e-6))
    io = p._dm_io.reshape(-1)
    for i in range(3):
        io[i] = d[i]
    p.solve(1.)
    T = [p.T[i] for i in range(3)]
    one = lambda c: env.ite(c, 1., 0.)  # noqa
    for i in range(3):
        j, k = [x for x in range(3) if x != i]
        only = env.and_(d[i] < 0., d[j] > 0., d[k] > 0.)
        m = (t[j] + t[k]) / 2.
        env.check('outlet enthalpy is the sum of the inlet enthalpies',
                  env.implies(only, _near(
                      env, -d[i] * C.cp(m) * T[i], d[j] * C.h(t[j])
                      + d[k] * C.h(t[k]), 1e-2)))
        for x in (j, k):
            env.check('inlets see the temperature behind the outlet',
                      env.implies(only, _near(env, T[x], t[i])))
            sp = env.and_(d[i] > 0., d[j] < 0., d[k] < 0.)
            env.check('split outlets have the inlet temperature',
                      env.implies(sp, _near(env, T[x], t[i])))
            o = k if x == j else j
            thr = env.and_(d[x] < 0., d[i] > 0., d[o] == 0.)
            env.check('a single outlet has the temperature of the single '
                      'inlet', env.implies(thr, _near(env, T[x], t[i])))
            env.check('a port without flow sees the mean of the others',
                      env.implies(thr, _near(env, T[o], (t[x] + t[i]) / 2.)))
        env.check('a split inlet sees the mean of the outlets', env.implies(
            env.and_(d[i] > 0., d[j] < 0., d[k] < 0.),
            _near(env, T[i], m)))
        env.check('without flow every port sees the mean of the others',
                  env.implies(env.and_(d[0] == 0., d[1] == 0.),
                              _near(env, T[i], m)))
        env.check('ports without outflow stay between the connected '
                  'temperatures', env.implies(d[i] >= 0., env.and_(
                      T[i] <= env.max(*t) + 1e-9,
                      T[i] >= env.min(*t) - 1e-9)))
    done(env, p, d)


def scenarios(tier):
    return [
        Scenario('mixing_valve', mix, lambda: world.mixval('mix'),
                 bounds=BOUNDS),
        Scenario('splitting_valve', split, lambda: world.mixval('split'),
                 bounds=BOUNDS),
        Scenario('pump', pump, world.pump_only, bounds=BOUNDS),
        Scenario('connector', conn, world.conn, bounds=BOUNDS),
    ]
