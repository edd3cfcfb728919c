"""C04: energy conservation of the thermal storage."""
from vf.env import Scenario
from vf import world
from . import common as C

BOUNDS = ('storages of 2-5 cells (thorough: up to 8) with 2-5 ports, also '
          'several ports at one cell; temperatures 1..99 degC; port flows '
          '-2..2 kg/s summing to zero; any ambient temperature 1..99')


def body(nport):
    def f(env, w):
        p = w['x']
        C.free_state(env, w, p)
        C.stale(env, p)
        dm = [env.real('dm%d' % i, -2., 2.) for i in range(nport - 1)]
        last = 0.
        for x in dm:
            last = last - x
        dm.append(last)
        for i in range(nport):
            p._dm_io[i] = dm[i]
        p._process_flows[0] = True
        d = p.get_diff(w.s.timestep)
        C.balance_1d(env, w, p, dm, d, lids=True)
    return f


def scenarios(tier):
    deep = tier == 'thorough'
    out = []
    cases = [(2, {}), (3, {}), (4, {'p1': [1, 'index']}),
             (4, {'p1': [2, 'index'], 'p2': [2, 'index']}),
             (5, {'p1': [1, 'index'], 'p2': [3, 'index']}),
             (3, {'p1': [0, 'index'], 'p2': [2, 'index']})]
    if deep:
        cases += [(8, {'p1': [3, 'index']}),
                  (6, {'p1': [1, 'index'], 'p2': [3, 'index'],
                       'p3': [4, 'index']}),
                  (4, {'p1': [1, 'index'], 'p2': [1, 'index'],
                       'p3': [1, 'index']})]
    for k, (n, np_) in enumerate(cases):
        out.append(Scenario(
            'tes_%d_%dcells_%dports' % (k, n, 2 + len(np_)),
            body(2 + len(np_)), lambda n=n, np_=np_: world.tes(n, dict(np_)),
            stubs={} if k == 0 else C.ALPHA_STUBS, bounds=BOUNDS))
    return out
