"""C02: distribution of the flow inside the parts and recorded flows."""
from vf.env import Scenario
from vf import world
from . import common as C
from . import c01
from .c05 import _alpha

BOUNDS = ('13 networks (as C01); two consecutive steps with all pump flows '
          '(-2..2 kg/s) and valve openings of each step symbolic and '
          'independent (larger networks, quick tier: flows of the first '
          'step fixed), each part evaluated three times per step (predictor, '
          'repeated try, corrector)')


BOTH = ('pipe', 'splitting_bypass', 'mixing_bypass',
        'valve_pipe_pump_at_AB_in')


def expected(env, s, name, p):
    """flow row a user reads for this part"""
    cls = type(p).__name__
    fl = {q: c01.inflow(p, q) for q in p.port_names}
    if cls in ('HexNum', 'HeatExchanger'):
        return [fl[p.port_names[0]], fl[p.port_names[2]]]
    if cls == 'MixingValve':
        return [env.abs(fl[q]) for q in ('A', 'B', 'AB')]
    if cls == 'Connector3w':
        return [fl[q] for q in p.port_names]
    io = p._dm_io.reshape(-1)
    if len(io) == 1:
        return [io[0]]
    n = p.num_gp
    own = [int(i) for i in p._port_own_idx]
    row = []
    for c in range(n - 1):
        x = 0.
        for q, i in zip(p.port_names, own):
            if i <= c:
                x = x + fl[q]
        row.append(x)
    # the last cell shows the flow of the one before
    row.append(row[-1])
    return row


def body(env, w, both=True):
    s = w.s
    exp = {}
    for k in (1, 2):
        s.stepnum[0] = k
        mixdir = {}
        fwd = any(type(p).__name__ == 'MixingValve'
                  for p in s.parts.values())
        old = .7
        for name, p in s.parts.items():
            if type(p).__name__ in c01.PUMPS:
                if both or k == 2 and name != 'p3':
                    x = env.real('dm%d_%s' % (k, name), -2., 2.)
                else:
                    old = -old
                    x = abs(old) if fwd else old
                p.dm[0] = x
                mixdir[name] = x
            if hasattr(p, 'pf_arr'):
                a = .3 if k == 1 and not both else env.real('open%d_%s' % (k, name), .01, .99)
                p.pf_arr[0] = a
                p.pf_arr[1] = 1. - a
        if fwd:
            # valves are built for one flow direction
            for n in mixdir:
                env.assume(mixdir[n] >= 0.)
        s._update_FlowNet()
        for name in s.parts:
            exp[k, name] = expected(env, s, name, s.parts[name])
        for _ in range(3):
            for name, p in s.parts.items():
                if name in s.solve_num_expl:
                    p.get_diff(1.)
                else:
                    p.solve(1.)
        for kk in range(1, k + 1):
            for name, p in s.parts.items():
                row = p.res_dm[kk]
                e = exp[kk, name]
                env.eq('size of the recorded flow row', float(len(row)),
                       float(len(e)))
                for i in range(len(e)):
                    env.eq('recorded flow of the step' if kk == k else
                           'flows recorded earlier stay', row[i], e[i])
        for name, p in s.parts.items():
            inner(env, p, exp[k, name])


def inner(env, p, e):
    """flow through the inner faces and in through the ports"""
    if not hasattr(p, '_dm_top') or p.name is None:
        return
    top, bot, dp = p._dm_top, p._dm_bot, p._dm_port
    if len(top.shape) == 2:
        for j in range(2):
            for i in range(1, top.shape[0]):
                env.eq('downward flow between cells', top[i, j],
                       C.pos(env, e[j]))
                env.eq('upward flow between cells', bot[i - 1, j],
                       C.pos(env, -e[j]))
        return
    for i in range(1, top.shape[0]):
        x = e[i - 1] if len(e) > 1 else e[0]
        env.eq('downward flow between cells', top[i], C.pos(env, x))
        env.eq('upward flow between cells', bot[i - 1], C.pos(env, -x))
    flat = dp.reshape(-1)
    for k, q in enumerate(p.port_names):
        env.eq('flow into a port', flat[k],
               C.pos(env, c01.inflow(p, q)))


# numbers of the generated networks (vf/nets.py) used here: few sign choices
GENERATED = dict(quick=(1, 2, 5, 7, 8, 9, 11, 12, 16, 19, 20, 24, 26, 27, 30))
GENERATED['thorough'] = tuple(range(100))


def scenarios(tier):
    stubs = dict(C.ALPHA_STUBS)
    stubs['phex_alpha_i_wll_sep_discretized'] = _alpha
    for x in ('invar', 'invar_hexnum', 'var'):
        stubs['_vonNeumann_stability_' + x] = C.vn_stub
    out = []
    for s in c01.scenarios(tier):
        if s.name.startswith('platehex') or s.name in (
                'chp', 'module_hot_water'):
            continue
        if s.name.startswith('module') and tier == 'quick':
            continue
        if s.name.startswith('generated_') and int(
                s.name[10:]) not in GENERATED[tier]:
            continue
        both = tier == 'thorough' or s.name in BOTH
        out.append(Scenario(
            s.name, lambda env, w, both=both: body(env, w, both), s.setup,
            stubs=stubs, bounds=BOUNDS, opts=dict(
                batch=True, budget_s=600 if tier == 'quick' else 5000)))
    return out
