"""C01: mass conservation in the flow network."""
from vf.env import Scenario
from vf import nets, world

# generated networks the topology analysis refuses (valve at the wrong
# side of a pump, flows it cannot derive one after the other)
REFUSED = (
    21, 22, 23, 57, 72, 74, 82, 138, 144, 146, 152, 154, 156, 159, 178,
    202, 205, 215, 236, 244, 246, 271, 273, 296, 301, 302, 305, 309, 324,
    329, 335, 344, 357, 400, 401, 406, 422, 430, 450, 453, 463, 464, 477,
    511, 515, 563, 565, 568, 569, 593, 597, 633, 638, 641, 642, 656, 657,
    691, 701, 720, 729, 738, 748, 749, 755, 772, 792, 821, 830, 832, 844,
    846, 855, 861, 868, 887, 895, 897, 935, 951, 956, 985, 994)

BOUNDS = ('18 networks written down, three with the modules of '
          'multisim (boiler and space heating, hot water supply) and 366 (quick) or 917 (thorough) '
          'generated ones of up to 4 branching parts (closed and open '
          'circuits, storages, connectors, branched pipes, mixing/splitting valves, three-way '
          'valve pipes with the pump at any port, both heat exchangers) with '
          'all pump flows in -2..2 kg/s and all valve openings between their '
          'limits symbolic; two network updates')

PUMPS = ('Pump', 'PipeWithPump')


def inflow(part, port):
    """signed flow into a part at a port"""
    cls = type(part).__name__
    k = part.port_names.index(port)
    io = part._dm_io.reshape(-1)
    if cls in ('HexNum', 'HeatExchanger'):
        ch = io[0 if port.startswith('sup') else 1]
        # cell order: the first named port of a side is at its top
        return ch if k in (0, 2) else -ch
    if cls == 'MixingValve':
        s = -1. if (part.kind == 'mix') == (port == 'AB') else 1.
        return s * io[k]
    if len(part.port_names) == 2 and len(io) == 1:
        return io[0] if port == 'in' else -io[0]
    return io[k]


def body(env, w):
    s = w.s
    for step in ('_before', ''):
        setv = {}
        for name, p in s.parts.items():
            if type(p).__name__ in PUMPS:
                setv[name] = x = env.real('dm_' + name + step, -2., 2.)
                p.dm[0] = x
            if hasattr(p, 'pf_arr'):
                a = env.real('open_' + name + step, .01, .99)
                p.pf_arr[0] = a
                p.pf_arr[1] = 1. - a
                setv[name] = a
            p._process_flows[0] = False
        s._update_FlowNet()
    for name, p in s.parts.items():
        fl = {q: inflow(p, q) for q in p.port_names}
        cls = type(p).__name__
        if cls in ('HexNum', 'HeatExchanger'):
            for side in ('sup', 'dmd'):
                env.eq('no mass is stored in a flow channel',
                       fl[side + '_in'] + fl[side + '_out'], 0.)
        else:
            tot = 0.
            for q in fl:
                tot = tot + fl[q]
            env.eq('no mass is stored in a part', tot, 0.)
        if cls in PUMPS:
            env.eq('a pump delivers its set flow', fl['in'], setv[name])
            env.eq('a pump delivers its set flow', fl['out'], -setv[name])
        if hasattr(p, 'pf_arr'):
            env.eq('a valve splits by its opening (A)',
                   fl['A'], -setv[name] * fl['AB'])
            env.eq('a valve splits by its opening (B)',
                   fl['B'], -(1. - setv[name]) * fl['AB'])
        env.check('flows are marked as new', p._process_flows[0] == True)  # noqa
        for q in p.port_names:
            oth = s.port_links[name + ';' + q]
            op, oq = oth.split(';')
            if op != 'BoundaryCondition':
                env.eq('what leaves a part enters the connected part',
                       fl[q] + inflow(s.parts[op], oq), 0.)


def scenarios(tier):
    named = [('pipe', lambda: world.pipe(3)),
            ('branched_2pumps', lambda: world.branched(
                4, {'p1': [1, 'index']})),
            ('two_loops_one_storage', world.net_loops),
            ('open_storage', world.net_open_tes),
            ('mixing_bypass', lambda: world.net_bypass('mix')),
            ('splitting_bypass', lambda: world.net_bypass('split')),
            ('connectors', world.net_connectors),
            ('hexnum_pump', lambda: world.net_hex('hexnum')),
            ('platehex_pump', lambda: world.net_hex('platehex')),
            ('hexnum_flipped', lambda: world.net_hex('hexnum', True)),
            ('platehex_flipped', lambda: world.net_hex('platehex', True)),
            ('chp', lambda: world.chp(3))]
    for k in ('heating', 'hot_water', 'charging'):
        named.append(('module_' + k, lambda k=k: world.net_module(k)))
    for at in ('AB', 'A', 'B'):
        for side in ('in', 'out'):
            named.append(('valve_pipe_pump_at_%s_%s' % (at, side),
                         lambda at=at, side=side: world.net_valve_pipe(
                             at, side)))
    for k in range(400 if tier == 'quick' else 1000):
        if k not in REFUSED:
            named.append(('generated_%d' % k, lambda k=k: nets.net(k)))
    return [Scenario(n, body, f, bounds=BOUNDS) for n, f in named]
