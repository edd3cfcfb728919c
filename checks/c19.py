"""C19: sensors and heat meters."""
import numpy as np
import multisim as ms
from vf.env import Scenario
from vf import world
from .common import cp

BOUNDS = ('three recorded steps, irregular step lengths; recorded '
          'temperatures and massflows symbolic; results not resampled')
TIME = [0., 1.25, 4., 4.5]


def record(env, w, *names, n=4):
    """arbitrary results of the named parts"""
    s = w.s
    time = TIME[:n]
    st = [time[i + 1] - time[i] for i in range(n - 1)]
    st.append(st[-1])
    s.time_vec = np.array(time)
    s.time_step_vec = np.array(st)
    s._disk_store = {'resample': False, 'resample_freq': None}
    out = {}
    for x in names:
        p = w[x]
        for a, lo, hi, shp in (('res', 1., 99., np.shape(p.T)),
                               ('res_dm', -3., 3., np.shape(p.dm)[:1])):
            v = [env.real('%s_%s%d' % (x, a, i), lo, hi)
                 for i in range(n * int(np.prod(shp)))]
            q = np.array(v, dtype=object if env.sym else float)
            out[x, a] = q.reshape((n, -1))
            setattr(p, a, q.reshape((n,) + shp).copy())
    return out, st


def channel(p, cell):
    """massflow of a cell: one per part, one per flow channel or one per
    cell"""
    if not p.dm_invariant:
        return cell
    if not getattr(p, 'multiple_flows', False):
        return 0
    shp = np.shape(p.T)
    if len(shp) == 2:   # columns: supply, (wall,) demand
        return 0 if cell % shp[1] == 0 else 1
    return 0 if cell % shp[0] < 2 else 1


def heat(warm, cold, hot, full, cells, n=4):
    def f(env, w):
        rec, st = record(env, w, *sorted({warm, cold}), n=n)
        m = ms.Meters(w.s, start_time='2021-01-01')
        m.heat_meter(name='h', warm_part=warm, warm_cell=cells[0],
                     cold_part=cold, cold_cell=cells[1],
                     massflow_from_hot_part=hot, full_output=full)
        df = m.meters['heat_meter']['h']
        Tw = rec[warm, 'res'][:, cells[0]]
        Tc = rec[cold, 'res'][:, cells[1]]
        src, cell = (warm, cells[0]) if hot else (cold, cells[1])
        dm = rec[src, 'res_dm'][:, channel(w[src], cell)]
        M = V = Q = Mp = Vp = Qp = 0.
        for i in range(n):
            def g(col, exp, tol=1e-6):
                env.eq('heat meter: ' + col, df[col].values[i], exp, tol=tol)
                env.eq('heat meter, table: ' + col,
                       m.meters_df[('heat_meter', 'h', col)].values[i], exp,
                       tol=tol)
            rho = ms.matprops.rho_water(Tc[i])
            q = (Tw[i] - Tc[i]) * dm[i] / 1e3 * (cp(Tc[i]) + cp(Tw[i])) / 2
            M = M + dm[i] * st[i]
            v = dm[i] / rho
            V = V + v * st[i]
            Q = Q + q * st[i] / 1e3
            g('T_ff', Tw[i])
            g('T_rf', Tc[i])
            g('T_diff', Tw[i] - Tc[i])
            g('massflow_kgps', dm[i])
            g('volume_flow_m3ps', v)
            g('flown_mass_kg', M)
            g('flown_volume_m3', V)
            g('heatflow_kW', q)
            g('flown_heat_MJ', Q)
            g('flown_heat_kWh', Q / 3.6)
            if full:
                if not dm[i] < 0.:
                    Mp = Mp + dm[i] * st[i]
                    Vp = Vp + v * st[i]
                if not q < 0.:
                    Qp = Qp + q * st[i] / 1e3
                g('flown_mass_pos_kg', Mp)
                g('flown_volume_pos_m3', Vp)
                g('flown_heat_pos_MJ', Qp)
                g('flown_heat_pos_kWh', Qp / 3.6)
        unchanged(env, w, rec)
    return f


def unchanged(env, w, rec):
    for (x, a), v in rec.items():
        for q, r in zip(np.ravel(getattr(w[x], a)), v.ravel()):
            env.eq('metering leaves the results alone', q, r)


def sensors(kinds=('temperature', 'massflow', 'volumeflow'), skip=()):
    def f(env, w):
        rec, st = record(env, w, 'x')
        m = ms.Meters(w.s, start_time='2021-01-01')
        T = rec['x', 'res']
        dm = rec['x', 'res_dm']
        n = T.shape[1]
        for cell in list(range(n)) + [-1]:
            if cell % n in skip:
                continue
            for k in kinds:
                nm = '%s_%d' % (k, cell)
                getattr(m, k)(name=nm, part='x', cell=cell)
        for cell in list(range(n)) + [-1]:
            if cell % n in skip:
                continue
            c = channel(w['x'], cell)
            for k in kinds:
                nm = '%s_%d' % (k, cell)
                df = m.meters[k][nm]
                col = 'T_' + nm if k == 'temperature' else nm
                for i in range(len(TIME)):
                    e = (T[i, cell] if k == 'temperature' else dm[i, c])
                    if k == 'volumeflow':
                        e = e / ms.matprops.rho_water(T[i, cell])
                    env.eq('sensor: ' + k, df[col].values[i], e, tol=1e-9)
                    env.eq('sensor, table: ' + k,
                           m.meters_df[(k, nm, col)].values[i], e, tol=1e-9)
        unchanged(env, w, rec)
    return f


def names(env, w):
    """a second sensor with the name of another one is refused"""
    rec, st = record(env, w, 'x')
    m = ms.Meters(w.s, start_time='2021-01-01')
    for k in ('volumeflow', 'temperature', 'massflow'):
        getattr(m, k)(name='a', part='x', cell=0)
        got = m.meters[k]['a']
        try:
            getattr(m, k)(name='a', part='x', cell=1)
        except AssertionError:
            pass
        env.check('a sensor is not replaced: ' + k, m.meters[k]['a'] is got)


def scenarios(tier):
    out = []

    def add(name, body, setup, **o):
        out.append(Scenario(name, body, setup, bounds=BOUNDS,
                            opts=dict(max_paths=20000, batch=True, **o)))
    for hot in (False, True):
        for full in (False, True):
            nm = 'heat_meter%s%s' % ('_hot' * hot, '_full' * full)
            add(nm, heat('pp', 'x', hot, full, (0, -1),
                         3 if full and tier == 'quick' else 4), world.pipe)
    add('heat_meter_storage', heat('x', 'x', False, False, (0, 3)), world.tes)
    add('heat_meter_storage_hot', heat('x', 'pp0', True, False, (2, 1)),
        world.tes)
    add('heat_meter_valve', heat('x', 'x', False, False, (-1, 2)),
        world.valve_pipe)
    for nm, su in (('pipe', world.pipe), ('pump', world.pipe_as),
                   ('storage', world.tes), ('branched', world.branched),
                   ('valve_pipe', world.valve_pipe),
                   ('heated', world.heated), ('mixing_valve', world.mixval),
                   ('connector', world.conn), ('plate_hex', world.platehex)):
        add('sensors_' + nm, sensors(), su)
    # cells of the wall have no massflow
    add('sensors_hex', sensors(skip=(1, 4, 7)), world.hexnum)
    add('heat_meter_hex', heat('x', 'x', False, False, (0, 5)), world.hexnum)
    add('heat_meter_hex_hot', heat('x', 'qd', True, False, (8, 0)),
        world.hexnum)
    add('heat_meter_plate_hex', heat('x', 'x', False, False, (3, -3)),
        world.platehex)
    add('names', names, world.pipe)
    return out
