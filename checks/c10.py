"""C10: adaptive step size control of the solver."""
from vf.env import Scenario
from vf import world

BOUNDS = ('one accepted step with up to 3 tries, first try of any size '
          'between the limits, any error estimate per try, any stability '
          'verdict and suggested step per try, any growth limit 1.05..5, any '
          'number of steps since the last instability; two explicit parts of '
          '2 cells, with the derivatives of every evaluation arbitrary; further up to 60 (thorough: 90) '
          'tries of one step with instability in all of them or (5 first '
          'step sizes) errors above the tolerance in all of them')


class Rec:
    """derivative functions handed to the solver: they report arbitrary
    values and record what they were called with"""

    def __init__(self, env, w, tries, unstable, level):
        self.env, self.w, self.tries = env, w, tries
        self.unstable = unstable
        self.level = level
        self.calls = []

    def fun(self, name):
        def f(h):
            env, s = self.env, self.w.s
            part = s.parts[name]
            mine = [c for c in self.calls if c['part'] == name]
            k = len([c for c in self.calls if c['part'] == 'pp'
                     and c['pred']]) - (name != 'pp')
            bad = self.calls and self.calls[-1]['bad']
            if name == 'pp':
                # first part: predictor of a new try, or corrector
                prev = [c for c in self.calls if c['part'] == 'pp']
                pred = (not prev) or not prev[-1]['pred'] or bad
            else:
                pred = not mine or not mine[-1]['pred'] or \
                    mine[-1]['try'] != k
            if not pred:
                k = [c for c in self.calls if c['pred']][-1]['try']
            if pred and k >= self.tries:
                env.stop()
            d = []
            for i in range(2):
                nm = 'd%s_%d_%s_%d' % ('p' if pred else 'c', k, name, i)
                if self.level == 'heun':
                    d.append(env.real(nm, -50., 50.))
                elif not pred and name == 'x' and i == 1:
                    x = env.real(nm, -1e3, 1e3)
                    env.assume(env.or_(x == 0., x < -1e-6, x > 1e-6))
                    d.append(x)
                else:
                    d.append(0.)
            b = False
            if pred and self.unstable and name == 'x':
                b = env.choose('unstable_%d' % k, [False, True])
                if b:
                    s._step_stable[0] = False
                    s._vN_max_step[0] = env.real('vN_%d' % k, .02, 100.)
                    env.assume(s._vN_max_step[0] < h)
            self.calls.append(dict(
                part=name, pred=pred, h=h, d=d, bad=b,
                T=[part.T[i] for i in range(2)],
                ports=[s.ports_all[i] for i in range(len(s.ports_all))]))
            self.calls[-1]['try'] = k
            return env.arr(d)
        return f


def prepare(env, w, tries, unstable, level):
    s = w.s
    s.stepnum[0] = 1
    for n in ('pp', 'x'):
        p = w[n]
        for i in range(2):
            p.T[i] = env.real('T_%s_%d' % (n, i), 1., 99.)
            if level == 'heun':
                p.res[0][i] = env.real('R_%s_%d' % (n, i), 1., 99.)
            else:
                p.res[0][i] = 20.
    for i in range(len(s.ports_all)):
        s.ports_all[i] = env.real('P%d' % i, 1., 99.)
    h0 = env.real('h0', .01, 50.)
    env.put(s, _new_step=h0,
            _steps_since_fail=env.real('since', 0., 500.))
    s._max_factor[0] = env.real('maxf', 1.05, 5.)
    r = Rec(env, w, tries, unstable, level)
    return r, h0


def control(tries, unstable, cfg):
    def body(env, w):
        s = w.s
        r, h0 = prepare(env, w, tries, unstable, 'control')
        since0, maxf = s._steps_since_fail, s._max_factor[0]
        p0 = [s.ports_all[i] for i in range(len(s.ports_all))]
        s._heun_adaptive({n: r.fun(n) for n in ('pp', 'x')}, {}, {},
                         s.timestep)
        hs = [c for c in r.calls if c['part'] == 'x' and c['pred']]
        env.eq('the first try uses the planned step', hs[0]['h'], h0)
        rejected = 0
        wgt = w['x']._trnc_err_cell_weight
        try:
            wgt = wgt[1]
        except (TypeError, IndexError):
            pass
        for j, c in enumerate(hs):
            last = j == len(hs) - 1
            h = c['h']
            env.check('every try starts from the saved port temperatures',
                      env.and_(*[a == b for a, b in zip(c['ports'], p0)]))
            for i in range(2):
                env.eq('every try starts from the last result', c['T'][i],
                       20.)
            corr = [d for d in r.calls if d['part'] == 'x'
                    and not d['pred'] and d['try'] == j]
            if c['bad']:
                env.check('an unstable step is not accepted', not last)
                if not last:
                    nxt = hs[j + 1]['h']
                    vn = env.real('vN_%d' % j, .02, 100.)
                    env.check('a step is repeated below the stability limit',
                              env.and_(nxt <= vn, nxt > 0.))
                rejected += 1
                continue
            # error estimate: Heun minus Euler, weighted by the tolerances
            d = corr[0]['d'][1]
            e = h / 2. * d * wgt / (
                env.max(20., 20. + h / 2. * d) * cfg['rtol'] + cfg['atol'])
            n = 4.
            sq = e * e / n
            if last:
                env.check('a step is accepted only within the tolerance or '
                          'at the minimum step', env.or_(
                              sq < 1., h == cfg['min_stepsize']))
            else:
                nxt = hs[j + 1]['h']
                env.check('a step is only repeated for too large an error',
                          sq >= 1. - 1e-9)
                rejected += 1
                env.le('a repeated step is not larger', nxt, env.max(
                    h, cfg['min_stepsize']))
                env.check('a repeated step respects the minimum step',
                          nxt >= cfg['min_stepsize'])
                env.check('a step shrinks at most by the minimum factor',
                          env.or_(nxt >= h * cfg['min_factor'] - 1e-12,
                                  nxt == cfg['min_stepsize']))
                root = env.sqrt(e * e / n)
                fac = env.max(cfg['min_factor'],
                              cfg['safety_factor'] * root ** (-1. / 3.))
                env.eq('a repeated step has the size the error suggests',
                       nxt, env.max(cfg['min_stepsize'], h * fac), tol=1e-9)
        h = hs[-1]['h']
        env.eq('the time advances by the step that was taken', s.timestep, h,
               tol=1e-12)
        env.eq('failed tries are counted', s._failed_steps[1],
               float(rejected))
        new = s._new_step
        env.le('the next step respects the maximum step', new,
               env.max(cfg['max_stepsize'], h))
        env.le('the next step grows at most by the maximum factor', new,
               h * maxf)
        env.check('the next step is not smaller unless limited', env.or_(
            new >= h, new >= cfg['max_stepsize']))
        bad = [j for j, c in enumerate(hs) if c['bad']]
        since = 0. if bad else since0 + 1.
        env.eq('steps since the last instability are counted',
               s._steps_since_fail, since)
        root = env.sqrt(sq)
        rel = since / cfg['factor_recovery']
        env.check('growth is released gradually after an instability',
                  env.implies(env.and_(sq < 1., sq > 0., rel < 1.),
                              env.or_(new <= h, new <= h * maxf * rel * rel
                                      + 1e-9)))
        zero = sq == 0.
        fac = env.max(1., env.min(maxf, cfg['safety_factor'] * root ** (
            -1. / 3.)) * env.ite(rel < 1., rel * rel, 1.))
        env.check('step after a step without error', env.implies(
            zero, env.or_(new == h * maxf,
                          env.and_(new == cfg['max_stepsize'],
                                   h * maxf >= new))))
        if not env.sym and sq == 0.:
            return
        env.check('the next step has the size the error suggests',
                  env.implies(env.and_(sq < 1., sq > 0.), _close(
                      env, new, env.ite(h * fac > cfg['max_stepsize'],
                                        cfg['max_stepsize'], h * fac))))
        env.eq('the system error is recorded', s._sys_trnc_err[1], root,
               tol=1e-7)
    return body


def _close(env, a, b):
    return env.and_(a - b <= 1e-9, b - a <= 1e-9)


CFG = dict(rtol=1e-3, atol=1e-6, max_stepsize=30., min_stepsize=.01,
           min_factor=.2, safety_factor=.9, factor_recovery=50.)
CFG2 = dict(rtol=1e-2, atol=1e-3, max_stepsize=100., min_stepsize=.5,
            min_factor=.5, safety_factor=.8, factor_recovery=5.)

# shrinking by the minimum factor whatever the error
CFG3 = dict(rtol=1e-3, atol=1e-6, max_stepsize=30., min_stepsize=.01,
            min_factor=.9, safety_factor=.9, factor_recovery=50.)


def steps_world(cfg):
    b = world.Builder(**cfg)
    b.pump('pp', 2)
    b.pipe('x', 2)
    b.open('pp', 'in', 60.)
    b.con('pp', 'out', 'x', 'in')
    b.open('x', 'out')
    return b.done()


def stubborn(tries, kind, cfg):
    """many tries of one step: the error stays too large, or the parts
    report instability again and again"""
    def body(env, w):
        s = w.s
        s.stepnum[0] = 1
        for n in ('pp', 'x'):
            for i in range(2):
                w[n].T[i] = 31.
                w[n].res[0][i] = 20.
        p0 = []
        for i in range(len(s.ports_all)):
            s.ports_all[i] = env.real('P%d' % i, 1., 99.)
            p0.append(s.ports_all[i])
        if kind == 'error':
            h0 = env.choose('h0', [50., 3., .05, .011, .01])
        else:
            h0 = env.real('h0', cfg['min_stepsize'], 50.)
        env.put(s, _new_step=h0,
                _steps_since_fail=env.real('since', 0., 500.))
        s._max_factor[0] = env.real('maxf', 1.05, 5.)
        calls, hs = [], []
        wgt = 1.
        D = 20. * cfg['rtol'] + cfg['atol']

        def fun(name):
            def f(h):
                pred = len(calls) % 4 < 2
                j = len(calls) // 4
                calls.append(name)
                if name == 'pp' and pred:
                    hs.append(h)
                    if j > 0:
                        env.check('every try starts from the saved port '
                                  'temperatures', env.and_(*[
                                      s.ports_all[i] == p0[i]
                                      for i in range(len(p0))]))
                    for i in range(2):
                        env.eq('every try starts from the last result',
                               w[name].T[i], 20.)
                if name == 'x' and pred and kind == 'unstable':
                    if j < tries:
                        s._step_stable[0] = False
                        v = env.real('vN_%d' % j, 1e-6, 60.)
                        env.assume(v < h)
                        s._vN_max_step[0] = v
                        calls.extend(['-', '-'])
                if name == 'x' and not pred and kind == 'error' and j < tries:
                    # an error above the tolerance
                    return env.arr([0., -(1.01 + .5 * (j % 3)) * 4. * D
                                    / wgt / h])
                return env.arr([0., 0.])
            return f
        s._heun_adaptive({n: fun(n) for n in ('pp', 'x')}, {}, {},
                         s.timestep)
        mn = cfg['min_stepsize']
        if kind == 'error':
            env.check('a step is accepted only within the tolerance or at '
                      'the minimum step', env.or_(len(hs) == tries + 1,
                                                  hs[-1] == mn))
            for j in range(1, len(hs)):
                env.eq('a repeated step has the size the error suggests',
                       hs[j], env.max(mn, hs[j - 1] * cfg['min_factor']),
                       tol=1e-9)
        else:
            env.check('an unstable step is not accepted',
                      len(hs) == tries + 1)
            for j in range(1, len(hs)):
                env.check('a step is repeated below the stability limit',
                          env.and_(hs[j] <= env.real(
                              'vN_%d' % (j - 1), 1e-6, 60.), hs[j] > 0.))
            env.eq('steps since the last instability are counted',
                   s._steps_since_fail, 0.)
        env.eq('the time advances by the step that was taken', s.timestep,
               hs[-1], tol=1e-12)
        env.eq('failed tries are counted', s._failed_steps[1],
               float(len(hs) - 1))
    return body


def scenarios(tier):
    out = []
    n = 60 if tier == 'quick' else 90
    for kind in ('error', 'unstable'):
        out.append(Scenario(
            'stubborn_%s_%d' % (kind, n), stubborn(n, kind, CFG3),
            lambda: steps_world(CFG3), bounds=BOUNDS,
            opts=dict(q_timeout=8000)))
    for nm, cfg in (('a', CFG), ('b', CFG2)):
        for t, u in ((1, False), (2, False), (2, True)) + (
                ((3, False), (3, True)) if tier == 'thorough' else ()):
            out.append(Scenario(
                'control_%s_%dtries%s' % (nm, t, '_unstable' if u else ''),
                control(t, u, cfg), lambda cfg=cfg: steps_world(cfg),
                bounds=BOUNDS, opts=dict(q_timeout=8000)))
    return out
