"""Shared pieces of the scenarios.

A scenario drives the real parts of a real simulation environment; what is
written here is only (a) how symbolic state is put into the parts and (b) the
reference balances the parts are compared with.
"""
import inspect

import multisim.precomp_funs as pf


def _fresh_pos(name):
    from vf import engine as E
    v = E.CUR.fresh(name)
    E.CUR.axiom(v > 0, v)
    return E.Sym(v)


def _havoc_out(fname, out):
    """stub: leaves an arbitrary positive value in the array `out`"""
    real = getattr(pf, fname, None)

    def f(*a, **k):
        try:
            o = inspect.signature(real).bind(*a, **k).arguments.get(out)
        except TypeError:
            o = k.get(out)
        if o is None:
            return real(*a, **k)
        flat = o.reshape(-1)
        for i in range(flat.shape[0]):
            flat[i] = _fresh_pos(fname)
    return f


def _havoc_lid(*a, **k):
    from vf import symarr
    return symarr.to_sa([_fresh_pos('alpha_lid') for _ in range(2)])


# heat transfer coefficients as arbitrary positive numbers: the energy
# balances hold for whatever they are
ALPHA_STUBS = dict(
    pipe_alpha_i=_havoc_out('pipe_alpha_i', 'alpha'),
    cylinder_alpha_inf=_havoc_out('cylinder_alpha_inf', 'alpha_inf'),
    plane_alpha_inf=_havoc_lid,
)


def free_state(env, w, part, Tlo=1., Thi=99.):
    """arbitrary cell temperatures, port temperatures and ambient"""
    s = w.s
    T = part.T
    flat = T.reshape(-1)
    for i in range(flat.shape[0]):
        flat[i] = env.real('T%d' % i, Tlo, Thi)
    for i in range(len(s.ports_all)):
        s.ports_all[i] = env.real('P%d' % i, Tlo, Thi)
    part._T_amb[0] = env.real('Tamb', Tlo, Thi)


def stale(env, part):
    """whatever earlier evaluations left in the part's work arrays"""
    def put(name, lo, hi, sl=slice(None)):
        a = getattr(part, name, None)
        if a is None:
            return
        v = a[sl]
        for i in range(v.shape[0]):
            if len(v.shape) == 2:
                for j in range(v.shape[1]):
                    v[i, j] = env.real('old_%s_%d_%d' % (name, i, j), lo, hi)
            else:
                v[i] = env.real('old_%s_%d' % (name, i), lo, hi)
    put('_dm_top', 0., 2., slice(1, None))
    put('_dm_bot', 0., 2., slice(None, -1))
    put('_dm_port', 0., 2.)
    if getattr(part, 'dm', None) is not None and len(part.dm.shape) == 1:
        put('dm', -2., 2.)
    put('_T_port', 1., 99.)
    put('_cp_port', 4180., 4220.)
    # (zero at the very first evaluation only)
    for n, v in (('_alpha_inf', 4.), ('_alpha_i', 500.),
                 ('_UA_amb_shell', .6)):
        a = getattr(part, n, None)
        if a is not None and len(a.shape) == 1:
            a[:] = v


def port_temps(w, part):
    return [w.s.ports_all[i] for i in part._port_link_idx]


def pos(env, x):
    return env.ite(x > 0., x, 0.)


def cp(T):
    return pf.cp_water(T)


def h(T):
    """specific enthalpy as the simulation defines it: cp(T)*T"""
    return pf.cp_water(T) * T


def vec(part, name, n):
    """attribute broadcast to n cells"""
    a = getattr(part, name)
    try:
        m = len(a)
    except TypeError:
        return [a] * n
    if m == 1:
        return [a[0]] * n
    return [a[i] for i in range(m)]


def inflows(env, part, dm_io):
    """signed mass flow into the part at each port"""
    if len(dm_io) == len(part.port_names):
        return list(dm_io)
    assert len(dm_io) == 1 and len(part.port_names) == 2
    return [dm_io[0], -dm_io[0]]


def cell_flow(env, part, flows, n):
    """downward flow through each inner face i (cell i -> i+1), from the
    port flows only"""
    idx = [int(i) for i in part._port_own_idx]
    out = []
    for f in range(n - 1):
        q = 0.
        for i, fl in zip(idx, flows):
            if i <= f:
                q = q + fl
        out.append(q)
    return out


def balance_1d(env, w, part, dm_io, dT, heat=None, lids=False, tol=1e-3,
               amb=True, per_cell=True):
    """Energy balance of a one-dimensional part, written from the port flows,
    the temperatures and the conductances only."""
    n = part.num_gp
    T = [part.T[i] for i in range(n)]
    Tp = port_temps(w, part)
    fl = inflows(env, part, dm_io)
    face = cell_flow(env, part, fl, n)
    idx = [int(i) for i in part._port_own_idx]
    UAtb = part._UA_tb
    UAp = part._UA_port
    UAa = vec(part, '_UA_amb_shell', n)
    mcpw = vec(part, '_mcp_wll', n)
    V = vec(part, 'V_cell', n)
    Ta = part._T_amb[0]
    tot_in = 0.
    tot = 0.
    for c in range(n):
        mcp = V[c] * pf.rho_water(T[c]) * cp(T[c]) + mcpw[c]
        if per_cell:
            env.eq('heat capacity of a cell', part._mcp[c], mcp, tol=1e-6)
        q = UAa[c] * (Ta - T[c]) if amb else 0.
        ext = q
        if lids and c == 0:
            q = q + part._UA_amb_lid[0] * (Ta - T[c])
            ext = q
        if lids and c == n - 1:
            x = part._UA_amb_lid[-1] * (Ta - T[c])
            q = q + x
            ext = ext + x
        if c > 0:
            q = q + UAtb[c] * (T[c - 1] - T[c])
            q = q + pos(env, face[c - 1]) * (h(T[c - 1]) - h(T[c]))
        if c < n - 1:
            q = q + UAtb[c + 1] * (T[c + 1] - T[c])
            q = q + pos(env, -face[c]) * (h(T[c + 1]) - h(T[c]))
        for k, i in enumerate(idx):
            if i == c:
                x = UAp[k] * (Tp[k] - T[c])
                q = q + x + pos(env, fl[k]) * (h(Tp[k]) - h(T[c]))
                ext = ext + x + pos(env, fl[k]) * h(Tp[k]) - pos(
                    env, -fl[k]) * h(T[c])
        if heat is not None:
            q = q + heat[c]
            ext = ext + heat[c]
        got = part._mcp[c] * dT[c]
        if per_cell:
            env.eq('energy balance of a cell', got, q, tol=tol)
        tot = tot + got
        tot_in = tot_in + ext
    env.eq('energy balance of the part', tot, tot_in, tol=tol)


def vn_stub(*a, **k):
    """stability bookkeeping left alone"""
    return k['step_stable'], k['vN_max_step'], k['max_factor']
