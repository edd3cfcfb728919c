"""C22: condensing flue gas heat exchanger (regression model)."""
import numpy as np
import multisim.precomp_funs as pf
from vf.env import Scenario
from .common import cp

BOUNDS = ('polynomial of degree 2 in four inputs, three principal '
          'components, two outputs; all coefficients, temperatures, flows, '
          'scalings and flow limits symbolic; flows not negative')

COMBS = [(), (0,), (1,), (2,), (3,), (0, 2), (1, 1), (1, 3), (2, 2)]
COMP = [[1., .5, 0., -2., .25, 0., .125, 0., 4.],
        [0., -.5, 1., 0., 2., .0625, 0., 1., 0.],
        [.25, 0., 0., 8., 0., 0., -.0625, .5, -1.]]


def model(env, deg=2):
    cb = [c for c in COMBS if len(c) <= deg]
    idx = np.full((len(cb), 2), -99, dtype=np.int64)
    for i, c in enumerate(cb):
        idx[i, :len(c)] = c
    m = dict(
        int_comb_idx=idx, nvars_per_ftr=tuple(len(c) for c in cb),
        pca_mean=env.arr([env.real('mean%d' % i, -50., 50.)
                          for i in range(len(cb))]),
        pca_components=np.array(COMP)[:, :len(cb)],
        lm_intercept=env.arr([env.real('int%d' % i, -50., 50.)
                              for i in range(2)]),
        lm_coef=env.arr([[env.real('coef%d_%d' % (i, j), -5., 5.)
                          for j in range(3)] for i in range(2)]))

    def predict(x):
        f = []
        for c in cb:
            v = 1.
            for k in c:
                v = v * x[k]
            f.append(v)
        pc = []
        for r in range(3):
            v = 0.
            for k in range(len(cb)):
                v = v + (f[k] - m['pca_mean'][k]) * COMP[r][k]
            pc.append(v)
        out = []
        for o in range(2):
            v = m['lm_intercept'][o]
            for r in range(3):
                v = v + pc[r] * m['lm_coef'][o, r]
            out.append(v)
        return out
    return m, predict


def regression(env, w=None):
    m, predict = model(env)
    x = [[env.real('x%d%d' % (i, j), 0., 99.) for j in range(4)]
         for i in range(2)]
    y = pf.transform_to_poly_nb(env.arr(x), m['int_comb_idx'],
                                m['nvars_per_ftr'], 2)
    y = pf.transform_pca_nb(y, m['pca_mean'], m['pca_components'])
    y = pf.poly_tranfs_pred(y, m['lm_intercept'], m['lm_coef'])
    for i in range(2):
        e = predict(x[i])
        for o in range(2):
            env.eq('prediction', y[i, o], e[o])


def solve(env, w=None):
    m, _ = model(env, 1)

    def predict(x):
        y = pf.transform_to_poly_nb(env.arr([x]), m['int_comb_idx'],
                                    m['nvars_per_ftr'], 1)
        y = pf.transform_pca_nb(y, m['pca_mean'], m['pca_components'])
        y = pf.poly_tranfs_pred(y, m['lm_intercept'], m['lm_coef'])
        return [y[0, 0], y[0, 1]]
    own = np.array([0, 1, 2, 3])
    link = np.array([4, 5, 6, 7])
    Tw = env.real('T_water_in', 1., 99.)
    Tg = env.real('T_gas_in', 1., 200.)
    ports = env.arr([env.real('own%d' % i, 1., 99.) for i in range(4)]
                    + [Tw, env.real('l1', 1., 99.), Tg,
                       env.real('l2', 1., 99.)])
    sw, sg = 2., 50.
    dw = env.real('water', 0., 4.)
    dg = env.real('gas', 0., 50.)
    xw, xg = dw / sw, dg / sg
    wlo = env.choose('lo', [0., .125])
    whi = env.real('hi', .25, 1.)
    glo = env.choose('glo', [0., .25])
    dm = env.arr([dw, dg])
    T = env.arr([[env.real('old%d%d' % (i, j), 1., 99.) for j in range(2)]
                 for i in range(2)])
    res = env.arr([[[0.] * 2] * 2] * 3)
    rdm = env.arr([[0.] * 2] * 3)
    pf.condensing_hex_solve(
        T=T, T_port=env.arr([0.] * 4), ports_all=ports, res=res, res_dm=rdm,
        dm_io=dm, dm_port=env.arr([0.] * 4), port_own_idx=own,
        port_link_idx=link, X_pred=env.arr([[0.] * 4]),
        flow_scaling=env.arr([sw, sg]), water_dm_range=env.arr([wlo, whi]),
        gas_dv_range=env.arr([glo, 1.]), stepnum=np.array([1]), **m)
    x = xw
    by = 0.
    if wlo and xw < wlo:
        x = wlo if xw > wlo / 2. else 0.
    elif xw > whi:
        x = whi
        by = xw - whi
    g = xg
    if glo and xg < glo:
        g = glo if xg > glo / 2. else 0.
    if env.sym:
        zero = bool(x == 0.) or bool(g == 0.)
    else:
        zero = x == 0. or g == 0.
    if zero:
        wo, go = Tw, Tg
    elif x > .1:
        wo, go = predict([Tw, Tg, x, g])
    else:
        b = predict([Tw, Tg, .1, g])
        wo, go = [q + (Tg - q) / .1 ** 2 * (x - .1) ** 2 for q in b]
    env.eq('water inlet', T[0, 0], Tw)
    env.eq('gas inlet', T[0, 1], Tg)
    env.eq('gas outlet', T[1, 1], go, tol=1e-5)
    if bool(by == 0.):
        env.eq('water outlet', T[1, 0], wo, tol=1e-5)
    else:
        a, c = cp(Tw) * by, cp(wo) * whi
        env.assume(a + c >= 1.)
        env.eq('excess water bypasses', T[1, 0], (a * Tw + c * wo) / (a + c),
               tol=1e-5)
    for i in range(2):
        env.eq('flow recorded', rdm[1, i], dm[i])
        env.eq('other rows kept', rdm[0, i] + rdm[2, i], 0.)
        for j in range(2):
            env.eq('temperature recorded', res[1, i, j], T[i, j])
            env.eq('other rows kept', res[0, i, j] + res[2, i, j], 0.)


def scenarios(tier):
    return [Scenario('regression', regression, None, bounds=BOUNDS),
            Scenario('solve', solve, None, bounds=BOUNDS,
                     opts=dict(max_paths=5000, batch=True))]
