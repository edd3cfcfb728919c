"""C08: plate heat exchanger (NTU method)."""
from vf.env import Scenario
from vf import world
from . import common as C
import multisim.precomp_funs as pf

BOUNDS = ('any port temperatures 1..99 degC, both mass flows -2..2 kg/s (each '
          'zero or above 1e-4), any positive heat transfer coefficients '
          '(1..1e5 W/m2K); 6 and 8 plates, one pass, and 9 plates, two '
          'passes; one evaluation; also demand flows of 1e-8..2e-4 kg/s')


def _alpha(dm, T_fld, T_wll, rho, ny, lam, A, d_h, x, corr, alpha):
    """some positive function of its arguments"""
    from vf import engine as E
    v = E.CUR.uf('phex_alpha', *[_s(y) for y in (
        dm, T_fld, T_wll, rho, ny, lam, A, d_h, x, corr)])
    E.CUR.axiom(E.z3.And(v.e >= 1, v.e <= 100000), v.e)
    alpha[0] = v


def _s(x):
    return x.reshape(-1)[0] if hasattr(x, 'reshape') else x


def run(env, w, dirs, scale=1.):
    s, p = w.s, w['x']
    s.stepnum[0] = 2
    for i in range(len(s.ports_all)):
        s.ports_all[i] = env.real('P%d' % i, 1., 99.)
    for i in range(4):
        p.T[i] = env.real('old%d' % i, 1., 99.)
    dm = []
    for n, d in zip(('sup', 'dmd'), dirs):
        if d == 0:
            dm.append(0.)
        else:
            dm.append(d * env.real('dm_' + n, 1e-4, 2.) * (
                scale if n == 'dmd' else 1.))
    p._dm_io[0] = dm[0]
    p._dm_io[1] = dm[1]
    tp = [s.ports_all[i] for i in p._port_link_idx]
    p.solve(1.)
    return p, dm, tp


def body(dirs):
    def f(env, w):
        p, dm, tp = run(env, w, dirs)
        si, so = (0, 1) if dirs[0] >= 0 else (1, 0)
        di, do = (2, 3) if dirs[1] >= 0 else (3, 2)
        T = [p.T[i] for i in range(4)]
        for i in range(4):
            env.eq('recorded temperature', p.res[2][i], T[i])
        env.eq('recorded flow', p.res_dm[2][0], dm[0])
        env.eq('recorded flow', p.res_dm[2][1], dm[1])
        env.eq('inlet port shows the entering water (supply)', T[si], tp[si])
        env.eq('inlet port shows the entering water (demand)', T[di], tp[di])
        if 0 in dirs:
            env.eq('without flow on one side water passes unchanged '
                   '(supply)', T[so], tp[si] if dirs[0] else tp[so])
            env.eq('without flow on one side water passes unchanged '
                   '(demand)', T[do], tp[di] if dirs[1] else tp[do])
            return
        ms = dm[0] * dirs[0]
        md = dm[1] * dirs[1]
        cs = ms * C.cp((tp[0] + tp[1]) / 2.)
        cd = md * C.cp((tp[2] + tp[3]) / 2.)
        env.eq('heat given off equals heat taken up', cs * (tp[si] - T[so]),
               cd * (T[do] - tp[di]), tol=1e-2)
        lo = env.min(tp[si], tp[di])
        hi = env.max(tp[si], tp[di])
        env.check('supply outlet between the inlet temperatures',
                  env.and_(T[so] <= hi + 1e-9, T[so] >= lo - 1e-9))
        env.check('demand outlet between the inlet temperatures',
                  env.and_(T[do] <= hi + 1e-9, T[do] >= lo - 1e-9))
        # effectiveness of a counterflow exchanger
        a = [p._alpha_i[0], p._alpha_i[1]]
        lam = p._lam_plate[0] if hasattr(p._lam_plate, '__len__') \
            else p._lam_plate
        A = p.A_plate_eff
        r = 1. / a[0] + 1. / a[1] + p._s_plate / lam
        UA = p._UA_fld_wll_fld[0]
        env.eq('conductance of all plates', UA * r, A * p._num_A, tol=1e-4)
        for k, (m, i, o, c) in enumerate((
                (ms, 0, 1, p._num_channels_sup),
                (md, 2, 3, p._num_channels_dmd))):
            t = (tp[i] + tp[o]) / 2.
            one = env.arr([0.])
            pf.phex_alpha_i_wll_sep(
                m / c, t, t, pf.rho_water(t), pf.ny_water(t),
                pf.lambda_water(t), p.A_channel, p._d_h, p._cell_dist,
                p._corr_Re, one)
            env.eq('heat transfer coefficient from the flow of one channel',
                   a[k], one[0], tol=1e-6)
        N = UA / cs
        R = cs / cd
        x = (R - 1.) * N
        dT = tp[si] - tp[di]
        P = (1. - env.exp(x)) / (1. - R * env.exp(x)) if env.sym or R != 1. \
            else 0.
        env.check('effectiveness of a counterflow exchanger', env.implies(
            env.and_(x < 99., R != 1.),
            _near(env, tp[si] - T[so], P * dT, 1e-6)))
        env.check('effectiveness for equal heat capacity flows', env.implies(
            R == 1., _near(env, (tp[si] - T[so]) * (1. + N), N * dT, 1e-6)))
        if not env.sym and R == 1.:
            return
        env.check('limit of a large demand of transfer units', env.implies(
            x >= 100., _near(env, (tp[si] - T[so]) * R, dT, 1e-6)))
    return f


def tiny(env, w):
    """a demand flow of next to nothing: exponents far beyond the range of
    floating point numbers must not be evaluated"""
    p, dm, tp = run(env, w, (1, 1), 1e-4)
    env.assume(dm[0] > .05)
    xs = env.exp_args()
    if env.sym:
        ok = env.and_(*[x <= 700. for x in xs]) if xs else True
    else:
        cs = dm[0] * C.cp((tp[0] + tp[1]) / 2.)
        R = cs / (dm[1] * C.cp((tp[2] + tp[3]) / 2.))
        N = p._UA_fld_wll_fld[0] / cs
        ok = env.implies((R - 1.) * N >= 100., _near(
            env, (tp[0] - p.T[1]) * R, tp[0] - tp[2], 1e-6))
    env.check('no exponential beyond the range of numbers', ok)


def _near(env, a, b, tol=1e-6):
    return env.and_(a - b <= tol, b - a <= tol)


def scenarios(tier):
    out = []
    stubs = dict(C.ALPHA_STUBS, phex_alpha_i_wll_sep=_alpha)
    for d in ((1, 1), (1, -1), (-1, 1), (-1, -1), (0, 1), (1, 0), (0, -1),
              (-1, 0), (0, 0)):
        for pl, ps in ((6, 1), (9, 2)) if d == (1, 1) else ((8, 1),):
            out.append(Scenario(
                'flows_%+d_%+d_%dplates' % (d + (pl,)), body(d),
                lambda pl=pl, ps=ps: world.platehex(plates=pl, passes=ps), stubs=stubs,
                bounds=BOUNDS, opts=dict(q_timeout=15000)))
    out.append(Scenario('tiny_demand', tiny, lambda: world.platehex(),
                        stubs=stubs, bounds=BOUNDS, post_random=400))
    return out
