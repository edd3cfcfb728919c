"""C12: PID control law, saturation, windup, slope and dead time."""
from vf.env import Scenario
from vf import world

BOUNDS = ('one control step from every controller state and two control '
          'steps from the start; set point and measured values 1..99 degC, '
          'gains -1..1, anti-windup .1..50, saturation and slope limits '
          'arbitrary (ordered), steps .01..60 s; dead time: three '
          'control steps (thorough: four) of arbitrary length with arbitrary '
          'measured values, dead time .05..30 s')


def clip(env, x, lo, hi):
    return env.ite(x < lo, lo, env.ite(x > hi, hi, x))


def settings(env, c, aw=True):
    lo = env.real('sat_lo', -10., 10.)
    hi = env.real('sat_hi', -10., 10.)
    env.assume(lo < hi)
    s = dict(kp=env.real('kp', -1., 1.), ki=env.real('ki', -1., 1.),
             kd=env.real('kd', -1., 1.), lo=lo, hi=hi,
             aw=env.real('aw', .1, 50.))
    env.put(c, kp=s['kp'], ki=s['ki'], kd=s['kd'], _cv_sat_min=lo,
            _cv_sat_max=hi, _anti_windup=s['aw'])
    return s


class Law:
    """reference controller"""

    def __init__(self, env, s, conti, inv, filt=None, slope=None):
        self.env, self.s = env, s
        self.conti, self.inv, self.filt, self.slope = conti, inv, filt, slope
        self.cv = self.e = self.e1 = self.i = self.d = 0.

    def step(self, e, dt):
        env, s = self.env, self.s
        e2, self.e1, self.e = self.e1, self.e, e
        raw = self.e - self.e1
        if not self.conti and self.has_i:
            raw = self.e - 2. * self.e1 + e2
        if self.filt:
            a = dt / (self.filt + dt)
            self.d = self.d + a * (raw - self.d)
        else:
            self.d = raw
        if self.conti:
            self.i = clip(env, self.i + dt * e, -s['aw'], s['aw'])
            u = self.inv * (s['kp'] * e + s['ki'] * self.i
                            + s['kd'] * (self.d / dt))
        elif self.has_i:
            u = clip(env, self.cv, -s['aw'], s['aw']) + self.inv * (
                s['kp'] * (self.e - self.e1) + s['ki'] * dt * e
                + s['kd'] / dt * self.d)
        else:
            u = self.inv * (s['kp'] * e + s['kd'] / dt * self.d)
        u = clip(env, u, s['lo'], s['hi'])
        self.raw = u
        if self.slope:
            dn, up = self.slope
            u = clip(env, u, self.cv + dn * dt, self.cv + up * dt)
        prev, self.cv = self.cv, u
        return prev


def measured(env, w, k):
    pv = env.real('pv%d' % k, 1., 99.)
    w['pb'].T[-1] = pv
    return pv


def history(conti, inv=1, filt=None, terms='PID', slope=False, steps=2):
    def f(env, w):
        c = w.ctrls['c']
        s = settings(env, c)
        if 'I' not in terms:
            env.put(c, ki=0.)
            s['ki'] = 0.
        else:
            env.assume(s['ki'] != 0.)
        if 'D' not in terms:
            env.put(c, kd=0.)
            s['kd'] = 0.
        sl = None
        if slope:
            sl = (env.real('slope_n', -5., -1e-3),
                  env.real('slope_p', 1e-3, 5.))
            env.put(c, _slope_n=sl[0], _slope_p=sl[1])
        law = Law(env, s, conti, inv, filt and 1. / (2 * 3.141592653589793
                                                     * filt), sl)
        law.has_i = 'I' in terms
        for k in range(steps):
            sp = env.real('sp%d' % k, 1., 99.)
            c.sp[0] = sp
            pv = measured(env, w, k)
            dt = env.real('dt%d' % k, .01, 60.)
            c.ctrl(dt)
            prev = law.step(sp - pv, dt)
            env.eq('control law', c.cv, law.cv, tol=1e-6)
            if slope:
                env.le('slope upwards', c.cv - prev, sl[1] * dt)
                env.le('slope downwards', sl[0] * dt, c.cv - prev)
            else:
                env.le('output below the upper saturation', c.cv, s['hi'])
                env.le('output above the lower saturation', s['lo'], c.cv)
            if conti:
                env.check('integral stays within the windup limit', env.and_(
                    c.i_term <= s['aw'], c.i_term >= -s['aw']))
    return f


def any_state(conti, inv=1, filt=None, slope=False):
    """one step from every state"""
    def f(env, w):
        c = w.ctrls['c']
        s = settings(env, c)
        env.assume(s['ki'] != 0.)
        law = Law(env, s, conti, inv, filt and 1. / (2 * 3.141592653589793
                                                     * filt))
        law.has_i = True
        if slope:
            law.slope = (env.real('slope_n', -5., -1e-3),
                         env.real('slope_p', 1e-3, 5.))
            env.put(c, _slope_n=law.slope[0], _slope_p=law.slope[1])
        law.cv = env.real('old_cv', -20., 20.)
        law.e = env.real('old_e', -98., 98.)
        law.e1 = env.real('old_e1', -98., 98.)
        law.d = env.real('old_d', -98., 98.)
        env.put(c, cv=law.cv, error=law.e, prev_error=law.e1, _deriv=law.d)
        if conti:
            law.i = env.real('old_i', -50., 50.)
            env.assume(env.and_(law.i <= s['aw'], law.i >= -s['aw']))
            env.put(c, i_term=law.i)
        sp = env.real('sp', 1., 99.)
        c.sp[0] = sp
        pv = measured(env, w, 0)
        dt = env.real('dt', .01, 60.)
        c.ctrl(dt)
        prev = law.step(sp - pv, dt)
        env.eq('control law', c.cv, law.cv, tol=1e-6)
        if slope:
            env.le('slope upwards', c.cv - prev, law.slope[1] * dt)
            env.le('slope downwards', law.slope[0] * dt, c.cv - prev)
            return
        env.le('output below the upper saturation', c.cv, s['hi'])
        env.le('output above the lower saturation', s['lo'], c.cv)
    return f


def sub(kind, master, conti):
    """sub controllers act only together with / without their master"""
    def f(env, w):
        c = w.ctrls['c']
        s = settings(env, c)
        env.assume(s['ki'] != 0.)
        off = env.real('off', -10., 10.)
        env.put(c, _off_state=off)
        m_off = .25 if master == 'controller' else 0.
        law = Law(env, s, conti, 1)
        law.has_i = True
        for k in range(2):
            m = env.real('master%d' % k, -2., 2.)
            w['m'].dm[0] = m
            active = (m != m_off) if kind == 'concurrent' else (m == m_off)
            sp = env.real('sp%d' % k, 1., 99.)
            c.sp[0] = sp
            pv = measured(env, w, k)
            dt = env.real('dt%d' % k, .01, 60.)
            c.ctrl(dt)
            law.step(sp - pv, dt)
            law.cv = env.ite(active, law.cv, off)
            law.i = env.ite(active, law.i, 0.)
            env.eq('follows the law with an active, is off without an active '
                   'master', c.cv, law.cv, tol=1e-6)
    return f


def reference(env, w):
    """set point taken from another part"""
    c = w.ctrls['c']
    s = settings(env, c)
    env.assume(s['ki'] != 0.)
    law = Law(env, s, False, 1)
    law.has_i = True
    for k in range(2):
        r = env.real('ref%d' % k, 1., 99.)
        w['pa'].T[0] = r
        pv = measured(env, w, k)
        dt = env.real('dt%d' % k, .01, 60.)
        c.ctrl(dt)
        law.step(r - 7.5 - pv, dt)
        env.eq('set point follows the reference part', c.cv, law.cv, tol=1e-6)


def deadtime(steps, timing=None):
    def f(env, w):
        c = w.ctrls['c']
        env.put(c, kp=0., ki=0., kd=0.)
        dead = 1. if timing else env.real('dead', .05, 30.)
        env.put(c, deadtime=dead, dt_arr=env.arr([0.] * (steps + 2)),
                pv_arr=env.arr([25.] * (steps + 2)),
                len_dt_arr=steps + 2)
        sp = env.real('sp', 1., 99.)
        c.sp[0] = sp
        t = 0.
        hist = [(0., 25.)]
        for k in range(steps):
            dt = env.choose('dt%d' % k, timing) if timing else env.real(
                'dt%d' % k, .01, 60.)
            t = t + dt
            pv = measured(env, w, k)
            hist.append((t, pv))
            c.ctrl(dt)
            # value measured one dead time ago, linear between measurements
            at = t - dead
            want = hist[0][1]
            for (ta, va), (tb, vb) in zip(hist, hist[1:]):
                want = env.ite(at > ta, va + (vb - va) * ((at - ta) / (
                    tb - ta)), want)
            env.check('error refers to the value one dead time ago',
                      _near(env, c.error, sp - want, 1e-6))
            lo, hi = 25., 25.
            for _, v in hist:
                lo, hi = env.min(lo, v), env.max(hi, v)
            env.check('delayed value is between measured values', env.and_(
                sp - c.error <= hi + 1e-6, sp - c.error >= lo - 1e-6))
    return f


def _near(env, a, b, tol):
    return env.and_(a - b <= tol, b - a <= tol)


def scenarios(tier):
    out = []

    def add(name, body, **k):
        out.append(Scenario(name, body, lambda: world.control('PID', **k),
                            bounds=BOUNDS, opts=dict(max_paths=5000,
                                                     batch=True)))
    for conti in (False, True):
        n = 'continuous' if conti else 'discrete'
        dom = dict(time_domain=n)
        add(n, history(conti), **dom)
        add(n + '_inverted', history(conti, -1), invert=True, **dom)
        add(n + '_filtered', history(conti, filt=.5),
            filter_derivative=True, cutoff_freq=.5, **dom)
        add(n + '_slope', history(conti, slope=True, steps=1),
            slope=(-1., 1.), **dom)
        add(n + '_any_state_slope', any_state(conti, slope=True),
            slope=(-1., 1.), **dom)
        add(n + '_PD', history(conti, terms='PD'), **dom)
        add(n + '_PI', history(conti, terms='PI'), **dom)
        add(n + '_any_state', any_state(conti), **dom)
        add(n + '_any_state_filtered', any_state(conti, -1, filt=.5),
            filter_derivative=True, cutoff_freq=.5, invert=True, **dom)
        for kind in ('concurrent', 'sequential'):
            for m in ('part', 'controller'):
                add('%s_%s_to_%s' % (n, kind, m), sub(kind, m, conti),
                    master=m, dependency_kind=kind, **dom)
    add('reference_part', reference, reference_part='pa', reference_port=0,
        ref_SP_diff=-7.5)
    q = tier == 'quick'
    add('deadtime_any_timing', deadtime(3 if q else 4), deadtime=1.)
    add('deadtime_values', deadtime(4 if q else 6, (.375, 1., 2.5)),
        deadtime=1.)
    return out
