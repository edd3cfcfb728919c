"""C17: thermal conductances of the parts."""
import math

import numpy as np

from vf.env import Scenario
from vf import world
from . import common as C
import multisim.precomp_funs as pf

BOUNDS = ('pipes of every kind and storages of 2-4 cells (thorough 6); '
          'temperatures 1..99 degC, any positive film coefficients, port '
          'flows -2..2 kg/s, any state left by earlier evaluations; '
          'geometry as built')


def _lam1(T):
    """heat conductivity of water as an arbitrary function of temperature"""
    from vf import engine as E
    if not isinstance(T, E.Sym):
        return LAM(T)
    v = E.CUR.uf('lambda_water', T)
    if v.e.get_id() not in E.CUR.memo.setdefault('lam_seen', {}):
        E.CUR.memo['lam_seen'][v.e.get_id()] = v
        E.CUR.axiom(v.e > .5, v.e)
        E.CUR.axiom(v.e < .7, v.e)
    return v


LAM = pf.lambda_water


def _lam(T):
    if getattr(T, 'shape', None):
        from vf import symarr
        return symarr.apply_el(_lam1, T)
    return _lam1(T)


def _get_lam(T, lam):
    lam[:] = _lam(T)


STUBS = dict(C.ALPHA_STUBS, plane_alpha_inf=lambda **k: _lid(**k), lambda_water=_lam, get_lambda_water=_get_lam,
             _vonNeumann_stability_invar=C.vn_stub,
             _vonNeumann_stability_var=C.vn_stub)


def _old(env, p):
    """film coefficients and conductances an earlier evaluation left; the
    invariant of them is established by the same evaluation below"""
    n = p.num_gp
    a = [env.real('old_alpha%d' % i, .5, 50.) for i in range(n)]
    f = [env.real('old_share%d' % i, .001, 1.) for i in range(n)]
    A = C.vec(p, '_A_shell_ins', n)
    for i in range(n):
        p._alpha_inf[i] = a[i]
        p._UA_amb_shell[i] = a[i] * A[i] * f[i]


def run(env, w, name):
    p = w[name]
    C.free_state(env, w, p)
    C.stale(env, p)
    _old(env, p)
    m = len(p._dm_io)
    dm = [env.real('dm%d' % i, -2., 2.) for i in range(max(1, m - 1))]
    if m > 1:
        last = 0.
        for x in dm:
            last = last - x
        dm.append(last)
    for i in range(m):
        p._dm_io[i] = dm[i]
    p._process_flows[0] = True
    if hasattr(p, '_dQ_heating'):
        p._dQ_heating[0] = 0.
    p.get_diff(w.s.timestep)
    return p


def shell(env, p, length):
    """geometry from the data the part was built with"""
    n = p.num_gp
    gs = length / n
    di, do, rt = p._d_i, p._d_o, p._d_o / 2. + 1e-2
    lw, li = p._lam_wll, 0.035
    A = math.pi * di * di / 4.
    V = C.vec(p, 'V_cell', n)
    for i in range(n):
        env.eq('volume of a cell', V[i], A * gs, tol=1e-6)
    Ti = [p.T[i] for i in range(n)]
    Ta = p._T_amb[0]
    ins = math.pi * 2. * rt * gs
    aa, ai = C.vec(p, '_alpha_inf', n), C.vec(p, '_alpha_i', n)
    # thickness of the layers, referred to the inner radius
    env.eq('wall layer', p._r_ln_wll, di / 2. * math.log(do / di), tol=1e-9)
    env.eq('insulation layer', p._r_ln_ins,
           di / 2. * math.log(2. * rt / do), tol=1e-9)
    env.eq('outer surface', p._r_rins, di / 2. / rt, tol=1e-9)
    for i in range(n):
        # layers in series, per inner area
        res = 1. / ai[i] + p._r_ln_wll / lw + p._r_ln_ins / li \
            + p._r_rins / aa[i]
        UA = p._UA_amb_shell[i]
        env.eq('conductance of a cell to the ambient', UA * res,
               math.pi * di * gs)
        env.check('conductance of a cell to the ambient is positive', UA > 0.)
        env.check('the outer film is only one of the resistances',
                  UA <= aa[i] * ins * (1. + 1e-9))
        Ts = p._T_s[i]
        env.check('surface temperature between ambient and fluid',
                  env.or_(env.and_(Ts <= Ti[i] + 1e-9, Ts >= Ta - 1e-9),
                          env.and_(Ts >= Ti[i] - 1e-9, Ts <= Ta + 1e-9)))
    wll = math.pi / 4. * (do * do - di * di) / gs * lw
    env.eq('no cell beyond the first', p._UA_tb[0], 0.)
    env.eq('no cell beyond the last', p._UA_tb[n], 0.)
    lam = [pf.lambda_water(t) for t in Ti]
    for i in range(n - 1):
        ser = A / (gs / 2. / lam[i] + gs / 2. / lam[i + 1]) + wll
        u = p._UA_tb[i + 1]
        if hasattr(p, '_UA_amb_lid'):
            env.check('conductance between stably layered cells',
                      env.implies(Ti[i] >= Ti[i + 1], env.and_(
                          u - ser <= 1e-9 * ser, ser - u <= 1e-9 * ser)))
        else:
            env.eq('conductance between neighbouring cells', u, ser)
    Tp = C.port_temps(w_of(p), p)
    for k, i in enumerate(int(i) for i in p._port_own_idx):
        lp = pf.lambda_water(Tp[k])
        g = p._port_gsp[k]
        r = g / 2. / lp + gs / 2. / lam[i]
        env.eq('conductance through a port',
               (p._UA_port[k] - p._UA_port_wll[k]) * r, p._A_p_fld_mean[k])
        env.check('conductance through a port is not negative',
                  p._UA_port[k] >= 0.)


class w_of:
    def __init__(self, p):
        self.s = p._models


def pipe_body(name, length):
    def f(env, w):
        shell(env, run(env, w, name), length)
    return f


def buoyancy(env, Ta, Tb, d):
    """Nusselt number of warm water below cold water"""
    Pr = pf.Pr_water_return(Tb)
    beta = pf.beta_water_return(Tb)
    beta = -beta if beta < 0. else beta
    Ra = Pr * 9.81 * (d / 4.) ** 3 * beta * (Tb - Ta) / pf.ny_water(Tb) ** 2
    x = Ra * (1. + (.322 / Pr) ** (11. / 20.)) ** (-20. / 11.)
    return .15 * x ** (1. / 3.) if x > 7e4 else .766 * x ** .2


def layers(env, w):
    """warm water below cold water"""
    p = run(env, w, 'x')
    a, b = p.T[0], p.T[1]
    env.assume(a < b)
    la, lb = pf.lambda_water(a), pf.lambda_water(b)
    lm = 2. * la * lb / (la + lb)
    Nu = buoyancy(env, a, b, p._d_i)
    bst = Nu * 20. if Nu >= 1. else 1.
    env.eq('conductance between layers with buoyancy', p._UA_tb[1],
           p.A_cell / p.grid_spacing * (lm * bst) + p._UA_tb_wll)


def outside(name, vertical):
    """real correlation for the film outside"""
    def f(env, w):
        p = run(env, w, name)
        rt = p._d_o / 2. + 1e-2
        L = p.grid_spacing if vertical else math.pi * rt
        env.eq('flow length', p._flow_length, L, tol=1e-9)
        L = p._flow_length
        Ta = p._T_amb[0]
        for i in range(p.num_gp):
            Ts = p._T_s[i]
            Tm = (Ta + Ts) / 2.
            ny, lam = pf.ny_dryair_return(Tm), pf.lam_dryair_return(Tm)
            Ra = env.abs(Ts - Ta) * 9.81 * L ** 3 * .708 / (
                (Ta + 273.15) * ny ** 2)
            if vertical:
                Nu = (.825 + .387 * (Ra * .3466023585520853) ** (1. / 6.)
                      ) ** 2 + .435 * L / (2. * p._r_total)
            else:
                Nu = (.752 + .387 * (Ra * .3269207911296459) ** (1. / 6.)
                      ) ** 2
            env.eq('film coefficient outside', p._alpha_inf[i], Nu * lam / L)
    return f


def tes_body(volume, do, s):
    di = do - 2. * s
    length = volume / (math.pi * di * di / 4.)

    def f(env, w):
        p = run(env, w, 'x')
        shell(env, p, length)
        A = math.pi * di * di / 4.
        n = p.num_gp
        Ts = env.arr([p._T_s[0], p._T_s[n - 1]])
        al = pf.plane_alpha_inf(
            T_s=Ts, T_inf=p._T_amb[0], flow_length=(do + 2e-2) / 4.,
            vertical=False, top=np.array([True, False]))
        for k, i in ((0, 0), (1, n - 1)):
            res = 1. / p._alpha_i[i] + p._s_wll / p._lam_wll \
                + p._s_ins / p._lam_ins
            # (no film, no loss: al = 0)
            u = p._UA_amb_lid[k]
            env.eq('conductance of a lid to the ambient',
                   u * res * al[k] + u, p.A_cell * al[k])
        env.eq('lid area', p.A_cell, A, tol=1e-9)
        env.eq('wall of the lid', p._s_wll, s, tol=1e-9)
        env.eq('insulation of the lid', p._s_ins, 1e-2, tol=1e-9)
    return f


def _uf(name, *a):
    from vf import engine as E
    v = E.CUR.uf(name, *a)
    seen = E.CUR.memo.setdefault('pos_seen', {})
    if v.e.get_id() not in seen:
        seen[v.e.get_id()] = v
        E.CUR.axiom(v.e > 0, v.e)
    return v


def _lid(T_s, T_inf, flow_length, vertical, top):
    from vf import symarr
    return symarr.to_sa([
        _uf('alpha_lid', t, T_inf, round(float(flow_length), 9),
            float(vertical), float(b)) for t, b in zip(T_s, top)])


def film(name, length):
    """real correlations for the films inside and outside"""
    def f(env, w):
        p = w[name]
        n = p.num_gp
        C.free_state(env, w, p)
        C.stale(env, p)
        dm = env.real('dm', -2., 2.)
        p._dm_io[0] = dm
        p._process_flows[0] = True
        p.get_diff(w.s.timestep)
        gs = length / n
        fwd = dm >= 0.
        Ta = p._T_amb[0]
        for i in range(n):
            T = p.T[i]
            lam = pf.lambda_water(T)
            d = p._d_i
            a = p._alpha_i[i]
            Re = env.abs(dm / (pf.rho_water(T) * p.A_cell)) * d / \
                pf.ny_water(T)
            Pr = pf.Pr_water_return(T)
            # distance from the end where the water enters
            x = gs * (i + .5) if fwd else gs * (n - i - .5)
            if Re > 2300.:
                z = (1.8 * env.log10(Re) - 1.5) ** (-2)
                Nu = (z / 8. * (Re * Pr)) / (
                    1. + 12.7 * (Pr ** (2. / 3.) - 1.) * (z / 8.) ** .5) * (
                        1. + (d / x) ** (2. / 3.) / 3.)
            else:
                g = (Re * Pr * d / x) ** (1. / 3.)
                Nu = (49.371 + (1.077 * g - .7) ** 3) ** (1. / 3.)
            env.eq('film coefficient inside', a, Nu * lam / d)
    return f


def film_storage(env, w):
    """mean film coefficient along the whole height, flow of each cell"""
    p = run(env, w, 'x')
    n = p.num_gp
    d = p._d_i
    x = (1.077 / 1.615) ** 3 * p.length
    env.eq('flow path', p._cell_dist[0], x, tol=1e-9)
    for i in range(n):
        T = p.T[i]
        Re = env.abs(p.dm[i] / (pf.rho_water(T) * p.A_cell)) * d / \
            pf.ny_water(T)
        Pr = pf.Pr_water_return(T)
        x = p._cell_dist[i]
        if Re > 2300.:
            z = (1.8 * env.log10(Re) - 1.5) ** (-2)
            Nu = (z / 8. * (Re * Pr)) / (
                1. + 12.7 * (Pr ** (2. / 3.) - 1.) * (z / 8.) ** .5) * (
                    1. + (d / x) ** (2. / 3.) / 3.)
        else:
            g = (Re * Pr * d / x) ** (1. / 3.)
            Nu = (49.371 + (1.077 * g - .7) ** 3) ** (1. / 3.)
        env.eq('film coefficient inside a storage', p._alpha_i[i],
               Nu * pf.lambda_water(T) / d)


def film_hex(env, w):
    """flow between the plates, per channel, with the fitted correction"""
    p = w['x']
    C.free_state(env, w, p)
    C.stale(env, p)
    n = p.num_gp
    dm = [env.real('dm_sup', -2., 2.), env.real('dm_dmd', -2., 2.)]
    for k in range(2):
        p._dm_io[k] = dm[k]
    p._process_flows[0] = True
    p.get_diff(w.s.timestep)
    d = p._d_h
    for k in range(2):
        nch = float(p._channel_divisor[k])
        for i in range(n):
            T = p.T[i, 2 * k]
            x = p._cell_dist[i]
            Pr = pf.Pr_water_return(T)
            Re = env.abs(dm[k] / nch / (pf.rho_water(T) * p.A_channel)
                         ) * d / pf.ny_water(T) + p._corr_Re[0]
            if Re > 2300.:
                z = (1.8 * env.log10(Re) - 1.5) ** (-2)
                Nu = (z / 8. * (Re * Pr)) / (
                    1. + 12.7 * (Pr ** (2. / 3.) - 1.) * (z / 8.) ** .5) * (
                        1. + (d / x) ** (2. / 3.))
            else:
                g = Re * Pr * d / x
                Nu = (49.371 + (1.615 * g ** (1. / 3.) - .7) ** 3
                      + ((2. / (1. + 22. * Pr)) ** (1. / 6.) * g ** .5) ** 3
                      ) ** (1. / 3.)
            env.eq('film coefficient at a plate', p._alpha_i[i, k],
                   Nu * (Pr / Pr) ** .11 * pf.lambda_water(T) / d)


def film_lid(vertical):
    """air at horizontal lids (heat rises) and vertical ends"""
    def f(env, w=None):
        Ta = env.real('Ta', -20., 40.)
        Ts = [env.real('Ts%d' % i, -20., 99.) for i in range(2)]
        L = .205
        a = pf.plane_alpha_inf(env.arr(Ts), Ta, L, vertical,
                               np.array([1, 0]))
        for i, T in enumerate(Ts):
            Tm = (Ta + T) / 2.
            ny, lam = pf.ny_dryair_return(Tm), pf.lam_dryair_return(Tm)
            Ra = env.abs(T - Ta) * 9.81 * L ** 3 * .708 / (
                (Ta + 273.15) * ny ** 2)
            if vertical:
                Nu = (.825 + .387 * (Ra * .3466023585520853) ** (1 / 6)) ** 2
            elif (T >= Ta) if i == 0 else (T < Ta):
                r = Ra * .40306002707296223
                Nu = .766 * r ** (1 / 5) if r <= 7e4 else .15 * r ** (1 / 3)
            else:
                Nu = .6 * (Ra * .3466023585520853) ** (1 / 5)
            env.eq('film coefficient of a lid', a[i], Nu * lam / L)
    return f


def scenarios(tier):
    out = []
    deep = tier == 'thorough'
    N = 5 if deep else 3

    def add(name, body, setup, **k):
        k.setdefault('stubs', STUBS)
        out.append(Scenario(name, body, setup, bounds=BOUNDS, **k))
    add('pipe', pipe_body('x', 1.), lambda: world.pipe(N))
    add('branched', pipe_body('x', 2.), lambda: world.branched(
        N, {'p1': [1, 'index']}))
    add('valve_pipe', pipe_body('x', 2.), lambda: world.valve_pipe(N, 1))
    add('heated', pipe_body('x', 2.), lambda: world.heated(N, 'all', None))
    add('chp', pipe_body('x', 2.), lambda: world.chp(N, 'all', None))
    add('pump_pipe', pipe_body('pp', 1.), lambda: world.pump_pipe(N))
    add('storage', tes_body(.5, .8, 5e-3), lambda: world.tes(N, {}))
    st = dict(STUBS)
    del st['pipe_alpha_i']
    add('film', film('x', 1.), lambda: world.pipe(2), stubs=st)
    st = dict(STUBS)
    del st['cylinder_alpha_inf']
    add('storage_buoyancy', layers, lambda: world.tes(2, {}))
    add('film_outside_pipe', outside('x', False), lambda: world.pipe(2),
        stubs=st)
    add('film_outside_storage', outside('x', True), lambda: world.tes(2, {}),
        stubs=st)
    st = dict(STUBS)
    del st['pipe_alpha_i']
    add('film_storage', film_storage, lambda: world.tes(2, {}), stubs=st)
    add('film_hex', film_hex, lambda: world.hexnum(2), stubs=dict(
        STUBS, _vonNeumann_stability_invar_hexnum=C.vn_stub))
    for v in (False, True):
        add('film_lid' + '_vertical' * v, film_lid(v), None, stubs={})
    return out
