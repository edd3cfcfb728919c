"""Concrete simulation environments, built through the public API."""
import multisim as ms

PS = {'all': {'pipe_type': 'EN10255_medium', 'DN': 'DN25'}}
PS32 = {'all': {'pipe_type': 'EN10255_medium', 'DN': 'DN32'}}
B = 'BoundaryCondition'


class World:
    def __init__(self, s):
        self.s = s
        self.parts = s.parts
        self.ctrls = s.ctrls

    def objects(self):
        return [self.s] + list(self.s.parts.values()) + list(
            self.s.ctrls.values())

    def __getitem__(self, n):
        return self.s.parts[n]


def g(**k):
    d = dict(insulation_thickness=1e-2, insulation_lambda=0.035, T_init=20.,
             T_amb=20., material='carbon_steel', pipe_specs=PS)
    d.update(k)
    return d


PID_DEF = dict(
    process_CV_mode='part_specific', reference_part='none',
    sub_controller=False, off_state=0., time_domain='discrete', deadtime=0.,
    slope=(0, 0), invert=False, terms='PID', loop_tuning='ziegler-nichols',
    rule='classic', Kp_crit=.025, T_crit=5., filter_derivative=False,
    anti_windup=1.)

HEX_GEO = dict(
    length=.3, width=.12, port_diameter=.03, corner_radius=.01,
    depth_base=.01, depth_per_plate=.0024, channel_width=.002,
    mass_base=1., mass_per_plate=.2, V_channel=5e-5)


class Builder:
    def __init__(self, timeframe=5, **tf):
        self.s = s = ms.Models(True)
        tf.setdefault('adaptive_steps', True)
        s.set_timeframe(timeframe=timeframe, **tf)
        s.set_disksaving(save=False, sim_name='a', start_date='2021-01-01')
        s.set_solver(solver='heun', allow_implicit=False)
        self.nbc = 0

    def part(self, cls, name, **k):
        self.s.add_part(part=getattr(ms.ap, cls), name=name, **k)

    def bc(self, name, T=20., constant=True):
        self.s.add_open_port(name, constant=constant, temperature=T)

    def con(self, *a):
        p, q, r, t = a
        self.s.connect_ports(first_part=p, first_port=q, scnd_part=r,
                             scnd_port=t)

    def open(self, part, port, T=20.):
        """connect a port to a boundary condition of its own"""
        self.nbc += 1
        n = 'BC_%d' % self.nbc
        self.bc(n, T)
        self.con(B, n, part, port)

    def pump(self, name, n=3, dm=.75, ctrl=False, length=1., lo=0., hi=2.,
             **k):
        d = dict(start_massflow=dm)
        if ctrl:
            d.update(ctrl_required=True, lower_limit=lo, upper_limit=hi,
                     maximum_flow=hi)
        else:
            d.update(ctrl_required=False, const_val=dm)
        self.part('PipeWithPump', name, length=length, grid_points=n, **d,
                  **g(**k))

    def pipe(self, name, n=3, length=1., **k):
        self.part('Pipe', name, length=length, grid_points=n, **g(**k))

    def branched(self, name, n=4, new_ports=None, length=2., **k):
        self.part('PipeBranched', name, length=length, grid_points=n,
                  new_ports=new_ports or {'p1': [1, 'index']}, **g(**k))

    def valve_pipe(self, name, n=4, loc=1, start=.5, lo=0., hi=1., length=2.,
                   **k):
        self.part('PipeWith3wValve', name, length=length, grid_points=n,
                  valve_location=loc, start_portA_opening=start,
                  lower_limit=lo, upper_limit=hi, **g(**k))

    def heated(self, name, n=4, spread='all', cells=None, lo=0., hi=1e5,
               length=2., **k):
        d = dict(heat_spread=spread)
        if cells is not None:
            d['heated_cells'] = cells
        self.part('HeatedPipe', name, length=length, grid_points=n,
                  lower_limit=lo, upper_limit=hi, **d, **g(**k))

    def tes(self, name, n=4, new_ports=None, volume=.5, d=.8, **k):
        self.part('Tes', name, volume=volume, grid_points=n,
                  outer_diameter=d, shell_thickness=5e-3,
                  new_ports=new_ports, **g(**k))

    def mixval(self, name, mode='mix', start=.5, lo=0., hi=1., **k):
        self.part('MixingValve', name, mix_or_split=mode, port_A_init=start,
                  lower_limit=lo, upper_limit=hi, material='carbon_steel',
                  pipe_specs=PS, **k)

    def conn(self, name, **k):
        self.part('Connector3w', name, material='carbon_steel',
                  pipe_specs=PS, **k)

    def chp(self, name, n=4, spread='all', cells=None, power=20e3,
            mod=(.5, 1.), lo=0., hi=1., length=2., **k):
        d = dict(heat_spread=spread)
        if cells is not None:
            d['heated_cells'] = cells
        for x in ('min_on_time', 'min_off_time', 'max_slope_el', 'eta_el',
                  'p2h_ratio', 'chp_on_at_start'):
            if x in k:
                d[x] = k.pop(x)
        self.part('CHPPlant', name, length=length, grid_points=n,
                  power_electrical=power, modulation_range=mod,
                  lower_limit=lo, upper_limit=hi,
                  connect_fluegas_hex=False, **d, **g(**k))

    def hexnum(self, name, n=3, flow_type='counter', plates=6, passes=1,
               max_channels='supply', **k):
        kk = dict(HEX_GEO)
        kk.update(k)
        self.part('HexNum', name, HEx_type='plate_hex', passes=passes,
                  plates=plates, max_channels=max_channels, grid_points=n,
                  flow_type=flow_type, insulation_thickness=.02,
                  insulation_lambda=.035, T_init=20., T_amb=20.,
                  material='carbon_steel', pipe_specs=PS, **kk)

    def platehex(self, name, plates=6, passes=1, **k):
        kk = dict(HEX_GEO, mass_total=3.)
        del kk['mass_base']
        kk.update(k)
        self.part('HeatExchanger', name, HEx_type='plate_hex', passes=passes,
                  plates=plates, max_channels='supply',
                  insulation_thickness=.02, insulation_lambda=.035,
                  T_init=20., T_amb=20., Reynolds_correction=1.,
                  material='carbon_steel', pipe_specs=PS, **kk)

    def pid(self, name, act, sat=(0., 1.), part=None, port=-1, sp=40., **k):
        d = dict(PID_DEF)
        d.update(k)
        self.s.add_control(ms.ap.PID, name=name, actuator=act,
                           CV_saturation=sat, controlled_part=part or act,
                           controlled_port=port, setpoint=sp, **d)

    def ctrl(self, cls, name, act, sat=(0., 1.), part=None, port=-1, sp=40.,
             **k):
        d = dict(process_CV_mode='part_specific', reference_part='none',
                 sub_controller=False, off_state=0., time_domain='discrete',
                 deadtime=0., slope=(0, 0), invert=False)
        if sp is not None:
            d['setpoint'] = sp
        d.update(k)
        self.s.add_control(getattr(ms.ap, cls), name=name, actuator=act,
                           CV_saturation=sat, controlled_part=part or act,
                           controlled_port=port, **d)

    def done(self):
        self.s.initialize_sim()
        return World(self.s)


def pump_pipe(n=3, **k):
    b = Builder(**k)
    b.pump('pp', n)
    b.open('pp', 'in', 60.)
    b.open('pp', 'out')
    return b.done()


def pipe(n=3, **k):
    b = Builder()
    b.pump('pp', 2)
    b.pipe('x', n, **k)
    b.open('pp', 'in', 60.)
    b.con('pp', 'out', 'x', 'in')
    b.open('x', 'out')
    return b.done()


def pipe_as(kind='pump', n=3):
    """a pumped pipe named x"""
    b = Builder()
    b.pump('x', n)
    b.open('x', 'in', 60.)
    b.open('x', 'out')
    return b.done()


def branched(n=4, new_ports=None):
    """one pump at every port but the first"""
    b = Builder()
    new_ports = new_ports or {'p1': [1, 'index']}
    b.branched('x', n, new_ports)
    b.open('x', 'in', 50.)
    for i, p in enumerate(list(new_ports) + ['out']):
        b.pump('pp%d' % i, 2)
        b.con('x', p, 'pp%d' % i, 'in')
        b.open('pp%d' % i, 'out')
    return b.done()


def tes(n=4, new_ports=None, **k):
    b = Builder()
    b.tes('x', n, new_ports, **k)
    b.open('x', 'in', 50.)
    for i, p in enumerate(list(new_ports or {}) + ['out']):
        b.pump('pp%d' % i, 2)
        b.con('x', p, 'pp%d' % i, 'in')
        b.open('pp%d' % i, 'out')
    return b.done()


def valve_pipe(n=4, loc=1, dm=.75, **k):
    b = Builder()
    b.valve_pipe('x', n, loc, **k)
    b.pump('pp', 2, dm)
    b.open('x', 'A', 60.)
    b.open('x', 'B', 20.)
    b.con('x', 'AB', 'pp', 'in')
    b.open('pp', 'out')
    b.pid('pid', 'x')
    return b.done()


def heated(n=4, spread='all', cells=None, **k):
    b = Builder()
    b.pump('pp', 2)
    b.heated('x', n, spread, cells, **k)
    b.open('pp', 'in', 60.)
    b.con('pp', 'out', 'x', 'in')
    b.open('x', 'out')
    b.pid('pid', 'x', sat=(0., 1e5), process_CV_mode='direct')
    return b.done()


def chp(n=4, spread='all', cells=None, **k):
    b = Builder()
    b.pump('pp', 2)
    b.chp('x', n, spread, cells, **k)
    b.open('pp', 'in', 60.)
    b.con('pp', 'out', 'x', 'in')
    b.open('x', 'out')
    b.pid('pid', 'x', process_CV_mode='direct')
    return b.done()


def mixval(mode='mix', **k):
    b = Builder()
    b.mixval('x', mode, **k)
    b.pump('pp', 2)
    b.pipe('pa', 2)
    b.pipe('pb', 2)
    if mode == 'mix':
        b.open('pa', 'in', 60.)
        b.open('pb', 'in', 20.)
        b.con('pa', 'out', 'x', 'A')
        b.con('pb', 'out', 'x', 'B')
        b.con('x', 'AB', 'pp', 'in')
        b.open('pp', 'out')
    else:
        b.open('pp', 'in', 60.)
        b.con('pp', 'out', 'x', 'AB')
        b.con('x', 'A', 'pa', 'in')
        b.con('x', 'B', 'pb', 'in')
        b.open('pa', 'out')
        b.open('pb', 'out')
    b.pid('pid', 'x', part='pp')
    return b.done()


def conn():
    b = Builder()
    b.conn('x')
    b.pump('pa', 2)
    b.pump('pb', 2)
    b.pipe('pc', 2)
    b.open('pa', 'in', 60.)
    b.open('pb', 'in', 20.)
    b.con('pa', 'out', 'x', 'A')
    b.con('pb', 'out', 'x', 'B')
    b.con('x', 'C', 'pc', 'in')
    b.open('pc', 'out')
    return b.done()


def _hex(b, extra=None):
    b.pump('ps', 2)
    b.pump('pd', 2)
    b.pipe('qs', 2)
    b.pipe('qd', 2)
    b.open('ps', 'in', 60.)
    b.open('pd', 'in', 20.)
    b.con('ps', 'out', 'x', 'sup_in')
    b.con('pd', 'out', 'x', 'dmd_in')
    b.con('x', 'sup_out', 'qs', 'in')
    b.con('x', 'dmd_out', 'qd', 'in')
    b.open('qs', 'out')
    b.open('qd', 'out')
    return b.done()


def hexnum(n=3, flow_type='counter', **k):
    b = Builder()
    b.hexnum('x', n, flow_type, **k)
    return _hex(b)


def platehex(**k):
    b = Builder()
    b.platehex('x', **k)
    return _hex(b)


def pump_only(mode='part_specific', lo=0., hi=2.):
    b = Builder()
    b.part('Pump', 'x', start_massflow=.5, lower_limit=lo, upper_limit=hi,
           maximum_flow=2., material='carbon_steel', pipe_specs=PS)
    b.pipe('pa', 2)
    b.pipe('pb', 2)
    b.open('pa', 'in', 60.)
    b.con('pa', 'out', 'x', 'in')
    b.con('x', 'out', 'pb', 'in')
    b.open('pb', 'out')
    b.pid('pid', 'x', part='pb', sat=(0., 2.), process_CV_mode=mode)
    return b.done()


# ------------------------------------------------- hydraulic networks (C01)
def net_loops(n=3):
    """two closed circuits sharing a storage"""
    b = Builder()
    b.tes('tes', n, {'p1': [0, 'index'], 'p2': [n - 1, 'index']})
    b.pump('p1', 2)
    b.pipe('a1', 2)
    b.pump('p2', 2)
    b.pipe('a2', 2)
    b.con('tes', 'out', 'p1', 'in')
    b.con('p1', 'out', 'a1', 'in')
    b.con('a1', 'out', 'tes', 'in')
    b.con('tes', 'p1', 'p2', 'in')
    b.con('p2', 'out', 'a2', 'in')
    b.con('a2', 'out', 'tes', 'p2')
    return b.done()


def net_open_tes():
    """storage with three pumped ports: the fourth is the balance"""
    b = Builder()
    b.tes('tes', 4, {'p1': [1, 'index'], 'p2': [2, 'index']})
    for i, p in enumerate(('in', 'p1', 'p2')):
        b.pump('pp%d' % i, 2)
        b.con('pp%d' % i, 'out', 'tes', p)
        b.open('pp%d' % i, 'in', 60.)
    b.pipe('rest', 2)
    b.con('tes', 'out', 'rest', 'in')
    b.open('rest', 'out')
    return b.done()


def net_bypass(valve='mix'):
    """consumer circuit with mixing (or splitting) valve and bypass"""
    b = Builder()
    b.mixval('v', valve)
    b.pump('pp', 2)
    b.heated('hp', 3)
    for x in ('a', 'byp', 'ret'):
        b.pipe(x, 2)
    b.conn('c')
    if valve == 'mix':
        b.con('a', 'out', 'v', 'A')
        b.con('byp', 'out', 'v', 'B')
        b.con('v', 'AB', 'pp', 'in')
        b.con('pp', 'out', 'hp', 'in')
        b.con('hp', 'out', 'c', 'A')
        b.con('c', 'B', 'byp', 'in')
        b.con('c', 'C', 'ret', 'in')
        b.open('a', 'in', 70.)
        b.open('ret', 'out', 30.)
    else:
        b.con('pp', 'out', 'hp', 'in')
        b.con('hp', 'out', 'v', 'AB')
        b.con('v', 'A', 'a', 'in')
        b.con('v', 'B', 'byp', 'in')
        b.con('byp', 'out', 'c', 'A')
        b.con('ret', 'out', 'c', 'C')
        b.con('c', 'B', 'pp', 'in')
        b.open('a', 'out', 70.)
        b.open('ret', 'in', 30.)
    b.pid('pid', 'v', part='hp')
    b.pid('pid2', 'hp', sat=(0., 1e5), process_CV_mode='direct')
    return b.done()


def net_valve_pipe(pump_at='AB', side='in'):
    """pipe with three-way valve, pump at any of its ports, either way"""
    b = Builder()
    b.valve_pipe('v', 4, 1, lo=.01, hi=.99)
    b.pump('pp', 2)
    other = 'out' if side == 'in' else 'in'
    b.con('v', pump_at, 'pp', side)
    b.open('pp', other, 50.)
    for p in ('A', 'B', 'AB'):
        if p != pump_at:
            b.pipe('q' + p, 2)
            b.con('v', p, 'q' + p, 'in' if p != 'A' else 'out')
            b.open('q' + p, 'out' if p != 'A' else 'in', 40.)
    b.pid('pid', 'v', sat=(.01, .99))
    return b.done()


def net_connectors():
    """three pumps joined and split by two connectors and a branched pipe"""
    b = Builder()
    for i in range(3):
        b.pump('p%d' % i, 2)
    b.conn('c1')
    b.conn('c2')
    b.pipe('m', 2)
    b.branched('br', 4, {'s': [2, 'index']})
    b.pipe('o1', 2)
    b.open('p0', 'in', 60.)
    b.open('p1', 'in', 50.)
    b.con('p0', 'out', 'c1', 'A')
    b.con('p1', 'out', 'c1', 'B')
    b.con('c1', 'C', 'm', 'in')
    b.con('m', 'out', 'c2', 'C')
    b.con('c2', 'A', 'p2', 'in')
    b.open('p2', 'out', 20.)
    b.con('c2', 'B', 'br', 'in')
    b.pump('p3', 2)
    b.con('br', 's', 'p3', 'in')
    b.open('p3', 'out', 20.)
    b.con('br', 'out', 'o1', 'in')
    b.open('o1', 'out', 20.)
    return b.done()


def net_hex(kind='hexnum', flip=False):
    """heat exchanger between two circuits, supply side reversible"""
    b = Builder()
    if kind == 'hexnum':
        b.hexnum('x', 3)
    else:
        b.platehex('x')
    b.part('Pump', 'pu', start_massflow=.5, lower_limit=-2., upper_limit=2.,
           maximum_flow=2., material='carbon_steel', pipe_specs=PS)
    for q in ('s1', 's2', 'd1'):
        b.pipe(q, 2)
    b.pump('pd', 2)
    b.open('s1', 'in', 60.)
    b.con('s1', 'out', 'pu', 'in')
    b.con('pu', 'out', 's2', 'in')
    b.con('s2', 'out', 'x', 'sup_out' if flip else 'sup_in')
    b.open('x', 'sup_in' if flip else 'sup_out', 40.)
    b.con('x', 'dmd_in' if flip else 'dmd_out', 'pd', 'in')
    b.open('pd', 'out', 40.)
    b.con('d1', 'out', 'x', 'dmd_out' if flip else 'dmd_in')
    b.open('d1', 'in', 20.)
    b.pid('pid', 'pu', part='s2', sat=(-2., 2.))
    return b.done()


# ------------------------------------------------------------ control loops
def net_module(kind):
    """storage with a ready-made module of multisim (part_modules)"""
    import glob
    import os
    import types
    import numpy as np
    import pandas as pd
    import multisim.utility_functions as ut

    def tables(**k):  # (the original looks for them under a Windows path)
        d = os.path.join(os.path.dirname(ms.__file__), 'data_tables')
        return {os.path.basename(f)[:-4]: pd.read_pickle(f)
                for f in glob.glob(os.path.join(d, '*.pkl'))}
    idx = pd.date_range('2021-01-01', periods=20, freq='s')
    flow = pd.Series(.3, index=idx)
    lhs = types.SimpleNamespace(wfl=500., v_stor_phw=1., theta_ff=70.)
    b = Builder()
    ports = {'a': [1, 'index'], 'b': [8, 'index']}
    if kind != 'charging':
        ports['c'] = [6, 'index']
    if kind == 'heating':
        ports['d'] = [2, 'index']
    b.tes('tes', 10, ports)
    mod = ms.ap.consumers
    keep = ut.database_import
    ut.database_import = tables
    try:
        if kind == 'heating':
            ms.ap.suppliers.gasboiler(
                b.s, 150e3, None, None, None, adjust_pipes=False,
                ff_connector={'tes': 'a'}, ltrf_connector={'tes': 'b'},
                gasboiler_ctrl=dict(
                    on_sens_part='tes', on_sens_port=3, setpoint=70.,
                    off_sens_part='tes', off_sens_port=7, off_val=75.,
                    theta_ff_gasb=75.))
            mod.space_heating(
                b.s, None, pd.DataFrame(dict(
                    sh_dmd=.5, theta_ff=60., theta_rf=40.), index=idx),
                100e3, 75., adjust_pipes=False,
                tes_ff_connector={'tes': 'd'}, tes_rf_connector={'tes': 'c'})
        elif kind == 'hot_water':
            mod.lowex_phwrc(
                b.s, lhs, flow, np.float64(.1), adjust_pipes=False,
                ff_connector={'tes': 'a'}, rf_connector={'tes': 'b'},
                rc_connector={'tes': 'c'})
        else:
            mod.speicherladesys(
                b.s, lhs, flow, np.float64(.1), adjust_pipes=False,
                store_gp=10, store_ports={
                    'ff_tes': [0, 'index'], 'rc': [4, 'index'],
                    'cw': [8, 'index']},
                ff_connector={'tes': 'a'}, rf_connector={'tes': 'b'})
        b.pump('pp', 2)
        b.con('tes', 'out', 'pp', 'in')
        b.con('pp', 'out', 'tes', 'in')
        return b.done()
    finally:
        ut.database_import = keep


def control(cls='PID', sat=(-9., 9.), lim=(-99., 99.), master=None,
            mlim=None, **k):
    """a pump in front of a pipe, controlled by the temperature of the pipe;
    optionally a second, independent loop whose pump is the master"""
    b = Builder()
    b.part('Pump', 'x', start_massflow=.5, lower_limit=lim[0],
           upper_limit=lim[1], maximum_flow=lim[1], material='carbon_steel',
           pipe_specs=PS)
    b.pipe('pa', 3)
    b.pipe('pb', 3)
    b.open('pa', 'in', 60.)
    b.con('pa', 'out', 'x', 'in')
    b.con('x', 'out', 'pb', 'in')
    b.open('pb', 'out')
    lo, hi = mlim or (-9., 9.)
    b.pump('m', 2, .5, ctrl=True, lo=lo, hi=hi)
    b.pipe('ma', 2)
    b.open('m', 'in', 60.)
    b.con('m', 'out', 'ma', 'in')
    b.open('ma', 'out')
    b.pid('mctrl', 'm', part='ma', sat=(-9., 9.), off_state=.25)
    d = dict(PID_DEF) if cls == 'PID' else dict()
    if master == 'controller':
        d.update(sub_controller=True, master_type='controller',
                 master_controller='mctrl')
    elif master == 'part':
        d.update(sub_controller=True, master_type='part', master_part='m',
                 master_variable='dm', master_variable_index=0)
    d.update(k)
    if d.get('reference_part', 'none') != 'none':
        d['sp'] = None
    b.ctrl(cls, 'c', 'x', sat, part='pb', port=k.get('port', -1), **{
        q: v for q, v in d.items() if q != 'port'})
    return b.done()
