"""C11: one accepted solver step is Heun's method, with ports exchanged after
both stages."""
from vf.env import Scenario
from vf import world

BOUNDS = ('one accepted step at the first try, any step size 0.01..50 s, '
          'every stage derivative of every cell arbitrary (-50..50 K/s), any '
          'start temperatures; networks of 2-5 explicit parts of 2-4 cells '
          '(pipes, branched pipe, storage, discretised heat exchanger) with '
          'and without non-numeric parts')


def flat(a):
    b = a.reshape(-1)
    return [b[i] for i in range(b.shape[0])]


def body(rnd):
    def f(env, w):
        s = w.s
        k = rnd
        s.stepnum[0] = k
        names = list(s.solve_num_expl)
        prev, before = {}, {}
        for n in names:
            p = w[n]
            t = p.T.reshape(-1)
            r = p.res[k - 1].reshape(-1)
            for i in range(t.shape[0]):
                t[i] = env.real('T_%s_%d' % (n, i), 1., 99.)
                r[i] = env.real('R_%s_%d' % (n, i), 1., 99.)
            prev[n] = flat(p.res[k - 1])
            if k > 1:
                before[n] = flat(p.res[k - 2])
        own = {}
        for n, p in s.parts.items():
            for q, i in zip(p.port_ids, p._port_own_idx):
                own[int(q)] = (n, int(i))
        for i in range(len(s.ports_all)):
            s.ports_all[i] = env.real('P%d' % i, 1., 99.)
        start = [s.ports_all[i] for i in range(len(s.ports_all))]
        h0 = env.real('h0', .01, 50.)
        env.put(s, _new_step=h0)
        calls = {n: [] for n in names}

        def fun(n):
            p = w[n]

            def d(h):
                j = len(calls[n])
                if j > 1:
                    env.stop()
                m = p.T.reshape(-1).shape[0]
                x = [env.real('d%d_%s_%d' % (j, n, i), -50., 50.)
                     for i in range(m)]
                calls[n].append(dict(
                    h=h, T=flat(p.T), d=x,
                    ports=[s.ports_all[i] for i in range(len(s.ports_all))]))
                return env.arr(x).reshape(p.T.shape)
            return d
        s._heun_adaptive({n: fun(n) for n in names}, {}, s.solve_nonnum,
                         s.timestep)
        h = h0
        pred = {}
        env.eq('the step taken is the planned one', s.timestep, h0)
        tot, cells = 0., 0
        for n in names:
            a, b = calls[n]
            env.check('first stage sees the start temperatures of the ports',
                      env.and_(*[x == y for x, y in
                                 zip(a['ports'], start)]))
            for i, v in enumerate(prev[n]):
                env.eq('first stage starts from the last result',
                       a['T'][i], v)
                pr = v + h * a['d'][i]
                pred[n, i] = pr
                env.eq('second stage is taken at the predictor',
                       b['T'][i], pr)
                new = flat(w[n].res[k])[i]
                env.eq('Heun step', new,
                       v + h / 2. * (a['d'][i] + b['d'][i]))
                env.eq('result is the current temperature',
                       flat(w[n].T)[i], new)
                env.eq('earlier results stay', flat(w[n].res[k - 1])[i], v)
                if k > 1:
                    env.eq('earlier results stay',
                           flat(w[n].res[k - 2])[i], before[n][i])
                wg = w[n]._trnc_err_cell_weight
                try:
                    wg = wg.reshape(-1)[i if wg.size > 1 else 0]
                except AttributeError:
                    pass
                e = (new - pr) * wg / (
                    env.max(v, new) * 1e-3 + 1e-6)
                tot = tot + e * e
            cells += w[n].num_gp
        for q in range(len(s.ports_all)):
            n, i = own.get(q, (None, 0))
            if n is None:
                for m in names:
                    env.eq('boundary conditions stay during a step',
                           calls[m][1]['ports'][q], start[q])
                env.eq('boundary conditions stay during a step',
                       s.ports_all[q], start[q])
            elif n in names:
                for m in names:
                    env.eq('second stage sees the predictor of its '
                           'neighbours', calls[m][1]['ports'][q],
                           pred[n, i])
                env.eq('ports show the result of the step', s.ports_all[q],
                       flat(w[n].res[k])[i])
            else:
                env.eq('ports show the result of the step', s.ports_all[q],
                       flat(w[n].res[k])[i])
        e = s._sys_trnc_err[k]
        env.eq('system error is the RMS over the grid points', e * e,
               tot / float(cells), tol=1e-6)
    return f


def two():
    b = world.Builder()
    b.pump('pp', 2)
    b.pipe('x', 3)
    b.open('pp', 'in', 60.)
    b.con('pp', 'out', 'x', 'in')
    b.open('x', 'out')
    return b.done()


def scenarios(tier):
    out = []
    for n, f, rnd in (
            ('two_pipes', two, 1),
            ('later_step', two, 5),
            ('branched', lambda: world.branched(3, {'p1': [1, 'index']}), 2),
            ('storage', lambda: world.tes(3, {'p1': [1, 'index']}), 2),
            ('hexnum', lambda: world.hexnum(2), 2),
            ('mixing_valve', lambda: world.mixval('mix'), 2),
            ('connector', world.conn, 1)):
        out.append(Scenario(n, body(rnd), f, bounds=BOUNDS))
    return out
