"""C06: heat leaving one part enters the part connected to it."""
from vf.env import Scenario
from vf import world
from vf.world import PS32
from . import common as C
from .c01 import inflow, PUMPS

BOUNDS = ('networks of 3-6 connected parts of 2-4 cells with different '
          'diameters and cell lengths; all cell, boundary and ambient '
          'temperatures 1..99 degC, all pump flows -2..2 kg/s and valve '
          'openings .01...99; one evaluation of all derivatives with the '
          'port values of the same instant; any positive heat transfer '
          'coefficients')


def body(env, w):
    s = w.s
    num = {n: p for n, p in s.parts.items() if p.solve_numeric}
    for n, p in s.parts.items():
        if type(p).__name__ in PUMPS:
            p.dm[0] = env.real('dm_' + n, -2., 2.)
        if hasattr(p, 'pf_arr'):
            a = env.real('open_' + n, .01, .99)
            p.pf_arr[0] = a
            p.pf_arr[1] = 1. - a
        p._process_flows[0] = True
    s._update_FlowNet()
    Ta = env.real('Tamb', 1., 99.)
    for i in range(len(s.ports_all)):
        s.ports_all[i] = env.real('P%d' % i, 1., 99.)
    cells, where = {}, {}
    for n, p in num.items():
        flat = p.T.reshape(-1)
        cells[n] = []
        for i in range(flat.shape[0]):
            flat[i] = env.real('T_%s_%d' % (n, i), 1., 99.)
            cells[n].append(flat[i])
        p._T_amb[0] = Ta
        for k, q in enumerate(p.port_ids):
            where[int(q)] = (n, k, int(p._port_own_idx[k]))
            s.ports_all[int(q)] = flat[int(p._port_own_idx[k])]
    # pumps hand on what is on their other side
    link = {}
    for n, p in num.items():
        for k, q in enumerate(p.port_ids):
            link[int(q)] = int(p._port_link_idx[k])
    for n, p in s.parts.items():
        if n not in num:
            assert type(p).__name__ == 'Pump'
            a, b = [int(x) for x in p._port_link_idx]
            ia, ib = [int(x) for x in p.port_ids]
            s.ports_all[ia], s.ports_all[ib] = s.ports_all[b], s.ports_all[a]
            link[a], link[b] = b, a

    def seen(n, k):
        """heat a part receives at one of its ports"""
        p = num[n]
        f = inflow(p, p.port_names[k])
        T = cells[n][int(p._port_own_idx[k])]
        To = s.ports_all[int(p._port_link_idx[k])]
        return p._UA_port[k] * (To - T) + C.pos(env, f) * C.h(
            To) - C.pos(env, -f) * C.h(T)
    # each part takes in what arrives at its connections
    for n, p in num.items():
        dT = p.get_diff(s.timestep)
        tot, x = 0., 0.
        ua = C.vec(p, '_UA_amb_shell', p.num_gp)
        for k in range(len(p.port_ids)):
            x = x + seen(n, k)
        for i, T in enumerate(cells[n]):
            x = x + ua[i] * (Ta - T)
            tot = tot + p._mcp[i] * dT[i]
        if hasattr(p, '_UA_amb_lid'):
            x = x + p._UA_amb_lid[0] * (Ta - cells[n][0])
            x = x + p._UA_amb_lid[-1] * (Ta - cells[n][-1])
        env.eq('the heat of a part changes only through its connections and '
               'the ambient', tot, x, tol=1e-3)
    # connection by connection
    for q, (n, k, c) in where.items():
        r = link[q]
        if r not in where or r < q:
            continue
        m, j, d = where[r]
        p, o = num[n], num[m]
        env.eq('a part sees the temperature of the cell connected to it',
               s.ports_all[int(p._port_link_idx[k])], cells[m][d])
        env.eq('a part sees the temperature of the cell connected to it',
               s.ports_all[int(o._port_link_idx[j])], cells[n][c])
        env.eq('both parts see the same conductance of their connection',
               p._UA_port[k], o._UA_port[j], rel=1e-9, tol=1e-9)
        if env.sym:
            # (just shown)
            env.assume(p._UA_port[k] == o._UA_port[j])
        env.eq('both parts see the same flow', inflow(p, p.port_names[k]),
               -inflow(o, o.port_names[j]))
        env.eq('heat leaving one part enters the other', seen(n, k),
               -seen(m, j), tol=1e-3)


def chain(kind):
    def mk():
        b = world.Builder()
        b.pump('pp', 2, length=3.)
        b.pipe('q', 2, pipe_specs=PS32)
        b.open('pp', 'in', 60.)
        if kind == 'pipe':
            b.pipe('x', 3, length=2.)
            a, c = 'in', 'out'
        elif kind == 'pipe_upside_down':
            b.pipe('x', 3, length=2.)
            a, c = 'out', 'in'
        elif kind == 'pump':
            b.part('Pump', 'x', start_massflow=.5, lower_limit=-2.,
                   upper_limit=2., maximum_flow=2., material='carbon_steel',
                   pipe_specs=PS32)
            b.pid('pid', 'x', part='q', sat=(-2., 2.))
            b.pipe('r', 2, length=.5)
            b.con('q', 'out', 'x', 'in')
            b.con('x', 'out', 'r', 'in')
            b.open('r', 'out', 20.)
            b.open('q', 'in', 20.)
            b.open('pp', 'out', 20.)
            return b.done()
        elif kind == 'branched':
            b.branched('x', 3, {'p1': [1, 'index']}, pipe_specs=PS32)
            a, c = 'in', 'p1'
            b.pump('p3', 2)
            b.con('x', 'out', 'p3', 'in')
            b.open('p3', 'out')
        elif kind == 'storage':
            b.tes('x', 3, {'p1': [1, 'index']})
            a, c = 'p1', 'out'
            b.pump('p3', 2)
            b.con('x', 'in', 'p3', 'out')
            b.open('p3', 'in')
        elif kind == 'valve':
            b.valve_pipe('x', 3, lo=.01, hi=.99)
            b.pid('pid', 'x', sat=(.01, .99))
            a, c = 'AB', 'A'
            b.pipe('q2', 2)
            b.con('x', 'B', 'q2', 'out')
            b.open('q2', 'in')
        b.con('pp', 'out', 'x', a)
        b.con('x', c, 'q', 'in')
        b.open('q', 'out', 20.)
        return b.done()
    return mk


def scenarios(tier):
    st = dict(C.ALPHA_STUBS)
    for x in ('invar', 'var'):
        st['_vonNeumann_stability_' + x] = C.vn_stub
    out = []
    for k in ('pipe', 'pipe_upside_down', 'pump', 'branched', 'storage',
              'valve'):
        out.append(Scenario(k, body, chain(k), stubs=st, bounds=BOUNDS))
    out.append(Scenario('closed_circuits_with_storage', body,
                        lambda: world.net_loops(2), stubs=st,
                        bounds=BOUNDS))
    return out
