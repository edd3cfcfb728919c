"""C18: properties of water and air."""
from vf.env import Scenario
import multisim.precomp_funs as pf
from multisim import matprops as mp
from multisim import dimless_no as dn

BOUNDS = ('water 1..99 degC, dry air -30..110 degC, every temperature of the '
          'range (pairs of temperatures for the monotonicity)')

# (returning function, in-place function, lowest, highest value 1..99 degC,
# direction): ranges of the tabulated values with a margin of about 5 %
WATER = {
    'rho': ('rho_water', 'get_rho_water', 955., 1002., None),
    'cp': ('cp_water', 'get_cp_water', 4150., 4240., None),
    'lambda': ('lambda_water', 'get_lambda_water', .55, .70, 1),
    'ny': ('ny_water', 'get_ny_water', 2.7e-7, 1.85e-6, None),
    'Pr': ('Pr_water_return', 'get_Pr_water', 1.5, 13.5, -1),
    'beta': ('beta_water_return', 'get_beta_water', -7e-5, 8.5e-4, 1),
}
AIR = {
    'lambda': ('lam_dryair_return', 'get_lam_dryair', .02, .035, 1),
    'ny': ('ny_dryair_return', 'get_ny_dryair', 1e-5, 2.6e-5, 1),
    'rho': (None, 'get_rho_dryair', .88, 1.5, -1),
}


# tabulated values (VDI heat atlas) every 10 / 20 K and the deviation allowed
T_WATER = (10., 10.)
TAB_WATER = {
    'rho': (.003, [999.7, 998.2, 995.7, 992.2, 988., 983.2, 977.8, 971.8,
                   965.3]),
    'cp': (.005, [4195., 4184., 4180., 4180., 4181., 4185., 4190., 4197.,
                  4205.]),
    'lambda': (.02, [.58, .598, .6155, .6306, .6436, .6543, .6631, .67,
                     .6753]),
    'ny': (.04, [1.3065e-6, 1.0034e-6, .8007e-6, .6578e-6, .5531e-6,
                 .474e-6, .4127e-6, .3643e-6, .3255e-6]),
    'Pr': (.06, [9.45, 7., 5.41, 4.32, 3.55, 2.98, 2.55, 2.22, 1.96]),
    'beta': (.06, [.88e-4, 2.07e-4, 3.03e-4, 3.85e-4, 4.57e-4, 5.22e-4,
                   5.83e-4, 6.4e-4, 6.96e-4]),
}
T_AIR = (0., 20.)
TAB_AIR = {
    'lambda': (.01, [.02436, .02587, .02735, .0288, .03023, .03162]),
    'ny': (.01, [13.5e-6, 15.35e-6, 17.26e-6, 19.27e-6, 21.35e-6, 23.51e-6]),
    'rho': (.03, [1.2758, 1.1885, 1.1124, 1.0455, .9862, .9333]),
}


def tabulated(fluid):
    fun, tab, (t0, dt) = ((WATER, TAB_WATER, T_WATER) if fluid == 'water'
                          else (AIR, TAB_AIR, T_AIR))

    def f(env, w=None):
        for q, (tol, v) in tab.items():
            for i in range(len(v) - 1):
                T = env.real('%s%d' % (q, i), t0 + i * dt, t0 + (i + 1) * dt)
                x = inplace(env, pf, fun[q][1], T)
                env.check(q + ' agrees with the table', env.and_(
                    x >= min(v[i], v[i + 1]) * (1. - tol),
                    x <= max(v[i], v[i + 1]) * (1. + tol)))
    return f


def cells(env, w=None):
    """arrays: every cell by its own temperature, whatever was there"""
    T = [[env.real('T%d%d' % (i, j), 1., 99.) for j in range(2)]
         for i in range(3)]
    for m in (pf, mp):
        for q, (ret, inp, a, b, way) in WATER.items():
            out = env.arr([[env.real('%s_%s_%d%d' % (m.__name__[-5:], q, i, j),
                                     -9., 9.) for j in range(2)]
                           for i in range(3)])
            getattr(m, inp)(env.arr(T), out)
            for i in range(3):
                for j in range(2):
                    env.eq(q + ' of a cell', out[i, j],
                           getattr(m, ret)(T[i][j]), tol=1e-12)


def dimensionless(env, w=None):
    v = env.real('v', -5., 5.)
    L = env.real('L', .001, 3.)
    ny = env.real('ny', 2e-7, 2e-5)
    Ts = env.real('Ts', -20., 99.)
    Ti = env.real('Ti', -20., 99.)
    Pr = env.real('Pr', .5, 14.)
    for m in (pf, dn):
        out = env.arr([env.real('old' + m.__name__[-4:], 0., 1e6)])
        m.get_Re_water(env.arr([v]), L, ny, out)
        e = env.abs(v) * L / ny
        env.eq('Reynolds number', m.Re_water_return(v, L, ny), e, tol=1e-3)
        env.eq('Reynolds number in place', out[0], e, tol=1e-3)
        r = m.rayleigh_number(Ts, Ti, Pr, ny, 273.15, L)
        env.eq('Rayleigh number', r, env.abs(Ts - Ti) * 9.81 * L ** 3 * Pr
               / ((Ti + 273.15) * ny ** 2), tol=1e-3)


def inplace(env, m, name, T):
    x = env.arr([T])
    out = env.arr([0.])
    getattr(m, name)(x, out)
    return out[0]


def body(table, lo, hi):
    def f(env, w=None):
        T = env.real('T', lo, hi)
        U = env.real('U', lo, hi)
        env.assume(U - T >= 1e-3)
        val = {}
        for q, (ret, inp, a, b, way) in table.items():
            v = inplace(env, pf, inp, T)
            if ret:
                env.eq(q + ': both forms agree', getattr(pf, ret)(T), v,
                       tol=1e-12)
                env.eq(q + ': meters and simulation use the same values',
                       getattr(mp, ret)(T), v, tol=1e-12)
            env.eq(q + ': both modules agree', inplace(env, mp, inp, T), v,
                   tol=1e-12)
            env.check(q + ' within the range of the fluid',
                      env.and_(v >= a, v <= b))
            if way:
                u = inplace(env, pf, inp, U)
                env.check(q + ' is monotone', u > v if way > 0 else u < v)
            val[q] = v
        return val
    return f


def water(env, w=None):
    v = body(WATER, 1., 99.)(env, w)
    T = env.real('S', 1., 99.)
    U = env.real('S2', 1., 99.)
    env.assume(U - T >= 1e-3)
    # slope between two temperatures lies in the range of c_p(T) + c_p'(T)*T
    d = pf.cp_water(U) * U - pf.cp_water(T) * T
    env.check('enthalpy rises with temperature',
              env.and_(d >= 4100. * (U - T), d <= 4500. * (U - T)))
    V = env.real('V', 6., 99.)
    W = env.real('W', 6., 99.)
    env.assume(W - V >= 1e-3)
    env.check('warm water is lighter', pf.rho_water(W) < pf.rho_water(V))
    X = env.real('X', 1., 90.)
    Y = env.real('Y', 1., 90.)
    env.assume(Y - X >= 1e-3)
    env.check('warm water is less viscous', pf.ny_water(Y) < pf.ny_water(X))
    Z = env.real('Z', 1., 90.)
    a = pf.Pr_water_return(Z) * pf.lambda_water(Z)
    b = pf.rho_water(Z) * pf.cp_water(Z) * pf.ny_water(Z)
    env.check('Prandtl number fits the other properties',
              env.and_(a <= b * 1.12, a >= b * .9))


def air(env, w=None):
    body(AIR, -30., 110.)(env, w)


def circuits(env, w=None):
    for n in (1, 2, 3):
        x = [env.real('UA%d_%d' % (n, i), .01, 100.) for i in range(n)]
        s = pf.series_circuit_UA(*x)
        p = pf.parallel_circuit_UA(*x)
        tot = 0.
        inv = 0.
        for v in x:
            tot = tot + v
            inv = inv + 1. / v
            env.check('in series less than each', s <= v * (1. + 1e-9))
            env.check('in parallel more than each', p >= v * (1. - 1e-9))
        env.eq('parallel conductances add', p, tot)
        env.eq('series resistances add', s * inv, 1.)


def averages(env, w=None):
    import numpy as np
    n = 6
    x = [env.real('x%d' % i, -50., 100.) for i in range(n)]
    for N in (1, 2, 3, 4):
        m = pf.moving_avg(env.arr(x), N)
        e = []
        for i in range(n - N + 1):
            q = 0.
            for k in range(N):
                q = q + x[i + k]
            e.append(q / float(N))
        env.eq('number of averages', float(len(m)), float(len(e)))
        for i in range(len(e)):
            env.eq('average of the window', m[i], e[i])
        f = pf.moving_avg_fill_edges(env.arr(x), N)
        env.eq('length kept', float(len(f)), float(n))
        st = N // 2
        for i in range(n):
            j = min(max(i - st, 0), len(e) - 1)
            env.eq('average with edges filled', f[i], e[j])
        wt = [env.real('w%d_%d' % (N, i), 0., 1.) for i in range(N)]
        for fe in (False, True):
            m = pf.weighted_moving_avg(env.arr(x), env.arr(wt), fe)
            e = []
            for i in range(n - N + 1):
                q = 0.
                for k in range(N):
                    q = q + x[i + k] * wt[k]
                e.append(q)
            for i in range(len(m)):
                j = min(max(i - st, 0), len(e) - 1) if fe else i
                env.eq('weighted average', m[i], e[j])


def scenarios(tier):
    o = dict(q_timeout=20000)
    return [Scenario('water', water, None, bounds=BOUNDS, opts=o),
            Scenario('air', air, None, bounds=BOUNDS, opts=o),
            Scenario('water_table', tabulated('water'), None, bounds=BOUNDS,
                     opts=o),
            Scenario('air_table', tabulated('air'), None, bounds=BOUNDS,
                     opts=o),
            Scenario('cells', cells, None, bounds=BOUNDS, opts=o),
            Scenario('dimensionless', dimensionless, None, bounds=BOUNDS,
                     opts=o),
            Scenario('circuits', circuits, None, bounds=BOUNDS),
            Scenario('averages', averages, None, bounds=BOUNDS)]
