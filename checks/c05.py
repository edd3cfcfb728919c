"""C05: energy balance of the discretised plate heat exchanger."""
from vf.env import Scenario
from vf import world
from . import common as C
import multisim.precomp_funs as pf

BOUNDS = ('2-4 cells along the plates (thorough: up to 6), 1 or 2 '
          'passes (equal and unequal channel numbers); all cell and port '
          'temperatures 1..99 degC, both mass flows -2..2 kg/s; one '
          'evaluation of the explicit time derivative')


def body(env, w, nch):
    p = w['x']
    n = p.num_gp
    C.free_state(env, w, p)
    C.stale(env, p)
    dm = [env.real('dm_sup', -2., 2.), env.real('dm_dmd', -2., 2.)]
    p._dm_io[0] = dm[0]
    p._dm_io[1] = dm[1]
    p._process_flows[0] = True
    d = p.get_diff(w.s.timestep)
    T, U1, U2, mcp = p.T, p._UA_dim1, p._UA_dim2, p._mcp
    Tp = C.port_temps(w, p)
    own = [int(i) for i in p._port_own_idx]
    tot, ext = 0., 0.
    for j in range(3):
        env.eq('nothing beyond the ends of the plates', U1[0, j], 0.)
        env.eq('nothing beyond the ends of the plates', U1[n, j], 0.)
        for i in range(n - 1):
            if j == 1:
                env.eq('conduction along the plate', U1[i + 1, j],
                       p._s_plate * p.width / p.grid_spacing * p._lam_wll)
                continue
            a, b = pf.lambda_water(T[i, j]), pf.lambda_water(T[i + 1, j])
            env.eq('conduction along the channel', U1[i + 1, j],
                   p.A_channel / p.grid_spacing * (2. * a * b / (a + b)))
    for i in range(n):
        for j in range(3):
            q = 0.
            if i > 0:
                q = q + U1[i, j] * (T[i - 1, j] - T[i, j])
            if i < n - 1:
                q = q + U1[i + 1, j] * (T[i + 1, j] - T[i, j])
            if j > 0:
                q = q + U2[i, j] * (T[i, j - 1] - T[i, j])
            if j < 2:
                q = q + U2[i, j + 1] * (T[i, j + 1] - T[i, j])
            if j != 1:
                f = dm[j // 2] / nch[j // 2]
                dn, up = C.pos(env, f), C.pos(env, -f)
                hc = C.h(T[i, j])
                for k, o in enumerate(own):
                    if o == i * 3 + j:
                        x = p._UA_port[k] * (Tp[k] - T[i, j])
                        hp = C.h(Tp[k])
                        y = (dn if i == 0 else up) * (hp - hc)
                        q = q + x + y
                        ext = ext + x + (dn if i == 0 else up) * hp - (
                            up if i == 0 else dn) * hc
                        env.eq('conductance to a connected part',
                               p._UA_port[k],
                               p._A_p_fld_mean[k] / (
                                   p._port_gsp[k] / (
                                       2. * pf.lambda_water(Tp[k]))
                                   + p.grid_spacing / (
                                       2. * pf.lambda_water(T[i, j])))
                               + p._UA_port_wll[k])
                if i > 0:
                    q = q + dn * (C.h(T[i - 1, j]) - hc)
                if i < n - 1:
                    q = q + up * (C.h(T[i + 1, j]) - hc)
                env.eq('heat capacity of a cell', mcp[i, j],
                       p.V_cell_fld * pf.rho_water(T[i, j])
                       * C.cp(T[i, j]))
            got = mcp[i, j] * d[i, j]
            env.eq('energy balance of a cell', got, q, tol=1e-3)
            tot = tot + got
        env.eq('heat leaving the supply side reaches the plate',
               U2[i, 1] * (T[i, 0] - T[i, 1]),
               p.A_plate_eff / (1. / p._alpha_i[i, 0] + p._s_plate / 2.
                                / p._lam_wll) * (T[i, 0] - T[i, 1]))
        env.eq('heat leaving the plate reaches the demand side',
               U2[i, 2] * (T[i, 2] - T[i, 1]),
               p.A_plate_eff / (1. / p._alpha_i[i, 1] + p._s_plate / 2.
                                / p._lam_wll) * (T[i, 2] - T[i, 1]))
    env.eq('energy balance of the channel pair', tot, ext, tol=1e-3)
    # recorded flows
    env.eq('recorded supply flow', p.res_dm[0][0], dm[0])
    env.eq('recorded demand flow', p.res_dm[0][1], dm[1])


def _alpha(*a, **k):
    o = k['alpha'].reshape(-1)
    for i in range(o.shape[0]):
        o[i] = C._fresh_pos('alpha')


STUBS = dict(C.ALPHA_STUBS,
             phex_alpha_i_wll_sep_discretized=_alpha,
             _vonNeumann_stability_invar_hexnum=C.vn_stub)


def scenarios(tier):
    deep = tier == 'thorough'
    out = []
    cases = [(2, 6, 1, 'supply', (3., 2.)), (3, 8, 1, 'demand', (3., 4.)),
             (4, 9, 2, 'supply', (2., 2.))]
    if deep:
        cases += [(6, 6, 1, 'demand', (2., 3.))]
    for n, pl, ps, mc, nch in cases:
        out.append(Scenario(
            'hexnum_%dcells_%dplates_%dpasses' % (n, pl, ps),
            lambda env, w, nch=nch: body(env, w, nch),
            lambda n=n, pl=pl, ps=ps, mc=mc: world.hexnum(
                n, 'counter', plates=pl, passes=ps, max_channels=mc),
            stubs=STUBS, bounds=BOUNDS))
    return out
