"""C13: two-position controllers (bang-bang, two sensors)."""
from vf.env import Scenario
from vf import world

BOUNDS = ('three consecutive control steps from an arbitrary output state; '
          'measured values, set points, activation value, hysteresis, output '
          'limits, off state and master states symbolic')


def outputs(env, c, inv):
    on = env.real('on', .1, 9.)
    off = env.real('off', -9., 9.)
    env.assume(on != off)
    env.put(c, _cv_sat_max=on, _off_state=off)
    return inv * on, inv * off, off


def bang(rev=False, inv=1, sub=None, steps=3):
    def f(env, w):
        c = w.ctrls['c']
        hy = env.real('hysteresis', 0., 20.)
        env.put(c, _hysteresis=hy)
        on, off, soff = outputs(env, c, inv)
        cur = env.real('start', -9., 9.)
        env.put(c, cv=cur)
        for k in range(steps):
            sp = env.real('sp%d' % k, 1., 99.)
            pv = env.real('pv%d' % k, 1., 99.)
            c.sp[0] = sp
            w['pb'].T[-1] = pv
            if sub:
                m = env.real('master%d' % k, -2., 2.)
                w['m'].dm[0] = m
            c.ctrl(env.real('dt%d' % k, .01, 60.))
            cold = pv < sp - hy / 2.
            warm = pv > sp + hy / 2.
            cur = env.ite(warm if rev else cold, on,
                          env.ite(cold if rev else warm, off, cur))
            if sub:
                idle = m == .25
                cur = env.ite(idle if sub == 'concurrent'
                              else env.not_(idle), soff, cur)
            env.eq('switches at the edges of the hysteresis and holds '
                   'between them', c.cv, cur)
            env.eq('the pump receives the output', w['x'].dm[0], cur)
    return f


def two(act, deact, inv=1, steps=3):
    def f(env, w):
        c = w.ctrls['c']
        on, off, _ = outputs(env, c, inv)
        av = env.real('activation', 1., 99.)
        env.put(c, _act_val=av)
        cur = env.real('start', -9., 9.)
        env.put(c, cv=cur)
        for k in range(steps):
            sp = env.real('sp%d' % k, 1., 99.)
            pv = env.real('pv%d' % k, 1., 99.)
            son = env.real('sensor%d' % k, 1., 99.)
            c.sp[0] = sp
            w['pb'].T[-1] = pv
            w['pa'].T[1] = son
            c.ctrl(env.real('dt%d' % k, .01, 60.))
            a = son < av if act == 'lower' else son > av
            d = pv < sp if deact == 'lower' else pv > sp
            cur = env.ite(d, off, env.ite(a, on, cur))
            env.eq('on by the first, off by the second sensor (off wins), '
                   'else held', c.cv, cur)
            env.eq('the pump receives the output', w['x'].dm[0], cur)
    return f


def scenarios(tier):
    out = []
    n = 3 if tier == 'quick' else 5
    b = 'bang_bang'
    st = dict(max_paths=20000, batch=True)

    def add(name, body, cls, **k):
        out.append(Scenario(name, body, lambda: world.control(cls, **k),
                            bounds=BOUNDS, opts=st))
    add(b, bang(steps=n), 'BangBang', hysteresis=4.)
    add(b + '_reversed', bang(True, steps=n), 'BangBang', hysteresis=-4.)
    add(b + '_inverted', bang(False, -1, steps=n), 'BangBang', hysteresis=4.,
        invert=True)
    for d in ('concurrent', 'sequential'):
        add('%s_%s' % (b, d), bang(sub=d, steps=n - 1), 'BangBang',
            hysteresis=4., master='controller', dependency_kind=d)
    for a in ('lower', 'greater'):
        for d in ('lower', 'greater'):
            add('two_sensors_%s_%s' % (a, d), two(a, d, steps=n),
                'TwoSensors', on_sensor_part='pa', on_sensor_port=1,
                activation_value=40., activation_sign=a,
                deactivation_sign=d)
    add('two_sensors_inverted', two('lower', 'greater', -1, n), 'TwoSensors',
        on_sensor_part='pa', on_sensor_port=1, activation_value=40.,
        activation_sign='lower', deactivation_sign='greater', invert=True)
    return out
