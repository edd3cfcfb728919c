"""C21: statistical error measures."""
import contextlib
import numpy as np
from multisim import stat_err_meas as sm
from vf.env import Scenario

BOUNDS = ('four samples of one series, three samples of two series; measured '
          'and simulated values symbolic; rolling means over windows of 1-4 of '
          '3-4 samples; pandas rolling mean and describe by their definition')


class Frame:
    """the few pandas methods used, on symbolic values"""
    def __init__(self, x):
        self.x = np.asarray(x, dtype=object)
        if self.x.ndim == 1:
            self.x = self.x[:, None]

    def rolling(self, window, min_periods=None, center=False):
        self.w = (window, window if min_periods is None else min_periods,
                  center)
        return self

    def mean(self):
        w, mp, center = self.w
        n, k = self.x.shape
        out = np.full((n, k), np.nan, dtype=object)
        for i in range(n):
            e = i + 1 + ((w - 1) // 2 if center else 0)
            v = self.x[max(0, e - w):min(n, e)]
            if len(v) >= mp:
                out[i] = [sum(c) / float(len(v)) for c in v.T]
        return Frame(out)

    @property
    def values(self):
        return self.x

    def __array__(self, dtype=None, copy=None):
        return self.x

    def sqrt(self):
        return Frame([[v if isinstance(v, float) else np.sqrt(v)
                       for v in r] for r in self.x])

    def __truediv__(self, o):
        return Frame(self.x / o)


class Series(Frame):
    def describe(self):
        lo = hi = self.x[0, 0]
        for v in self.x[1:, 0]:
            if v < lo:
                lo = v
            if v > hi:
                hi = v
        return {'min': lo, 'max': hi}


class Pandas:
    DataFrame = Frame
    Series = Series


@contextlib.contextmanager
def pandas(env):
    keep = getattr(sm, 'pd', None)
    if env.sym and keep is not None:
        sm.pd = Pandas
    try:
        yield
    finally:
        if keep is not None:
            sm.pd = keep


def data(env, name, n, cols):
    v = [[env.real('%s%d_%d' % (name, i, j), -50., 99.)
          for j in range(max(cols, 1))] for i in range(n)]
    return v, env.arr([r[0] for r in v] if cols == 0 else v)


def item(r, j):
    r = np.asarray(r, dtype=object).ravel()
    return r[0] if len(r) == 1 else r[j]


def body(n, cy, ch):
    """cy, ch: columns of the measured and simulated values (0: 1D)"""
    def f(env, w=None):
        y, ya = data(env, 'y', n, cy)
        z, za = data(env, 'z', n, ch)
        k = max(cy, ch, 1)

        def col(v, j):
            return [r[j if len(r) > 1 else 0] for r in v]

        def num(label, r):
            env.eq(label + ': one value per column',
                   float(np.asarray(r, dtype=object).size), float(k))
        got = {q: getattr(sm, q)(ya, za) for q in (
            'mean_squared_err', 'mean_abs_err', 'mean_signed_deviation',
            'rmse')}
        for q, r in got.items():
            num(q, r)
        one = cy < 2
        if one:
            s = 0.
            for r in y:
                s = s + r[0]
            env.assume(env.abs(s) >= .1)
            cv = sm.cv_rmse(ya, za)
            norm = {q: sm.normalized_err(ya, za, err_method=q, norm='mean')
                    for q in ('MSE', 'RMSE', 'MAE', 'MSD')}
        for j in range(k):
            a, b = col(y, j), col(z, j)
            se = ae = sd = m = 0.
            for u, v in zip(a, b):
                se = se + (u - v) ** 2
                ae = ae + env.abs(u - v)
                sd = sd + (v - u)
                m = m + u
            se, ae, sd, m = se / n, ae / n, sd / n, m / n
            r = item(got['rmse'], j)
            env.eq('MSE', item(got['mean_squared_err'], j), se)
            env.eq('MAE', item(got['mean_abs_err'], j), ae)
            env.eq('MSD', item(got['mean_signed_deviation'], j), sd)
            env.check('RMSE is not negative', r >= 0.)
            env.eq('RMSE', r * r, se)
            if one:
                env.eq('CV(RMSE)', item(cv, j) * m, r)
                for q, e in (('MSE', se), ('RMSE', r), ('MAE', ae),
                             ('MSD', sd)):
                    env.eq('normalised ' + q, item(norm[q], j) * m, e)
    return f


def rolling(n, cols, window, mp):
    def f(env, w=None):
        y, ya = data(env, 'y', n, 0)
        z, za = data(env, 'z', n, cols)
        with pandas(env):
            got = {q: getattr(sm, q)(ya, za, roll=True, window=window,
                                     min_periods=mp)
                   for q in ('mean_squared_err', 'mean_abs_err',
                             'mean_signed_deviation')}
        need = window if mp is None else mp
        for q, r in got.items():
            r = np.asarray(r, dtype=object)
            if r.ndim == 1:
                r = r[:, None]
            for j in range(max(cols, 1)):
                for i in range(n):
                    e = i + 1 + (window - 1) // 2
                    k = range(max(0, e - window), min(n, e))
                    nan = isinstance(r[i, j], float) and np.isnan(r[i, j])
                    env.check('a value if and only if the window has enough '
                              'samples', nan == (len(k) < need))
                    if nan or len(k) < need:
                        continue
                    s = 0.
                    for t in k:
                        d = z[t][j] - y[t][0]
                        s = s + (d * d if q == 'mean_squared_err' else
                                 env.abs(d) if q == 'mean_abs_err' else d)
                    env.eq('rolling ' + q, r[i, j] * float(len(k)), s)
    return f


def norms(n):
    def f(env, w=None):
        y, ya = data(env, 'y', n, 0)
        z, za = data(env, 'z', n, 0)
        order = sorted(r[0] for r in y)
        env.assume(order[-1] - order[0] >= .1)

        def quant(q):
            p = q * (n - 1)
            i = int(p)
            return order[i] + (order[min(i + 1, n - 1)] - order[i]) * (p - i)
        by = {'range': order[-1] - order[0], 'median': quant(.5),
              'IQR': quant(.75) - quant(.25)}
        env.assume(env.abs(by['median']) >= .1)
        env.assume(by['IQR'] >= .1)
        for q, fn in (('MSE', sm.mean_squared_err),
                      ('MSD', sm.mean_signed_deviation)):
            e = fn(ya, za)
            for k, d in by.items():
                with pandas(env):
                    r = sm.normalized_err(ya, za, err_method=q, norm=k)
                env.eq('%s by %s' % (q, k), item(r, 0) * d, item(e, 0))
    return f


def determination(n, cy, ch):
    def f(env, w=None):
        y, ya = data(env, 'y', n, cy)
        z, za = data(env, 'z', n, ch)
        k = max(cy, ch, 1)
        tot = []
        for j in range(max(cy, 1)):
            m = t = 0.
            for r in y:
                m = m + r[j]
            m = m / n
            for r in y:
                t = t + (r[j] - m) ** 2
            env.assume(t >= 1.)
            tot.append(t)
        r2 = sm.r_squared(ya, za)
        env.eq('R^2: one value per column',
               float(np.asarray(r2, dtype=object).size), float(k))
        for j in range(k):
            res = 0.
            for a, b in zip(y, z):
                res = res + (a[j if cy > 1 else 0] - b[j if ch > 1 else 0]
                             ) ** 2
            t = tot[j if cy > 1 else 0]
            env.eq('R^2', item(r2, j) * t, t - res)
            env.check('R^2 is at most 1', item(r2, j) <= 1.)
    return f


def adjusted(env, w=None):
    for n, p in ((5, 1), (12, 3), (100, 7)):
        r = env.real('r%d' % n, -5., 1.)
        a = sm.r_squared_adj(p, r_sqrd=r, n=n)
        env.eq('adjusted R^2', (1. - a) * float(n - p - 1),
               (1. - r) * float(n - 1))
        env.check('adjusted R^2 is not higher', a <= r)


def adjusted_data(env, w=None):
    n, p = 4, 1
    y, ya = data(env, 'y', n, 0)
    z, za = data(env, 'z', n, 0)
    m = t = 0.
    for q in y:
        m = m + q[0]
    for q in y:
        t = t + (q[0] - m / n) ** 2
    env.assume(t >= 1.)
    env.eq('adjusted R^2 of data', sm.r_squared_adj(p, y=ya, y_hat=za),
           sm.r_squared_adj(p, r_sqrd=sm.r_squared(ya, za), n=n))


def scenarios(tier):
    out = []

    def add(name, b, **o):
        out.append(Scenario(name, b, None, bounds=BOUNDS, opts=o))
    for nm, b in (('errors', body), ('r2', determination)):
        add(nm, b(4, 0, 0))
        add(nm + '_many_simulated', b(3, 0, 2))
        add(nm + '_many_measured', b(3, 2, 0))
        add(nm + '_columns', b(3, 2, 2))
    add('rolling', rolling(4, 0, 3, None))
    add('rolling_even', rolling(4, 0, 2, 1))
    add('rolling_long', rolling(3, 2, 4, 2))
    add('rolling_one', rolling(3, 2, 1, None))
    add('norms', norms(3), max_paths=5000)
    add('norms4', norms(4), max_paths=5000)
    add('r2_adjusted', adjusted)
    add('r2_adjusted_data', adjusted_data)
    return out
