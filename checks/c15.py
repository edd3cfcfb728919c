"""C15: operating rules of the CHP plant (state machine, one step from every
state, together with the preservation of the state invariant)."""
from vf.env import Scenario
from vf import world
from . import common as C
import multisim.precomp_funs as pf

BOUNDS = ('one solver step from every admissible plant state: requested '
          'modulation 0..1, previous modulation 0 or lower bound..1, any '
          'start/stop times up to 10000 s ago, minimum on/off times 1..3600 s,'
          ' step 0.01..60 s, 3 cells of 1..112 degC, any timer state; the '
          'table of remaining heat is shortened to 3 entries')

ML = .5


def inv(env, p, on, now):
    """what every reachable plant state satisfies"""
    yield 'start-up factors within 0..1', env.and_(
        p._startup_factor_el >= 0., p._startup_factor_el <= 1.,
        p._startup_factor_th >= 0., p._startup_factor_th <= 1.,
        p._startup_factor_gas >= 0., p._startup_factor_gas <= 1.)
    yield 'after-heat factor within 0..1', env.and_(
        p._shutdown_factor_th >= 0., p._shutdown_factor_th <= 1.001)
    yield 'running plant was started after its last stop', env.implies(
        on, p._startup_at_time > p._shutdown_at_time)
    yield 'after-heat only when stopped', env.implies(
        on, env.not_(p._shutdown_in_progress))
    yield 'after-heat ends below one percent', env.implies(
        p._shutdown_in_progress, p._shutdown_factor_th >= .01)
    yield 'stop not before start while cooling down', env.implies(
        p._shutdown_in_progress, p._shutdown_at_time >= p._startup_at_time)
    yield 'start/stop times are in the past', env.and_(
        p._startup_at_time <= now, p._shutdown_at_time <= now)
    yield 'completed start-up means full factors', env.implies(
        env.and_(on, env.not_(p._startup_in_progress)),
        env.and_(p._startup_factor_el == 1., p._startup_factor_th == 1.,
                 p._startup_factor_gas == 1.))


def body(mode, starting, stopping, clamps=False):
    def f(env, w):
        p = w['x']
        n = p.num_gp
        tflat = p.T.reshape(-1)
        for i in range(n):
            tflat[i] = env.real('T%d' % i, 1., 112.)
        p._dm_io[0] = .5
        p._process_flows[0] = True
        dt = env.real('dt', .01, 60.)
        t0 = env.real('t0', 0., 1e5)
        p.stepnum[0] = k = 1
        w.s.time_vec[k - 1] = t0
        now = t0 + dt
        req = env.real('req', 0., 1.)
        p._power_modulation[0] = req
        p._min_on_time = env.real('min_on', 1., 3600.)
        p._min_off_time = env.real('min_off', 1., 3600.)
        p._max_ramp_el = env.real('ramp', 1e-4, 1.)
        p._max_temp_exc_time = env.real('exc_max', 0., 600.)
        exc = env.real('exc', 0., 1000.)
        p._dt_time_temp_exc = exc
        # table shortened (symbolic search over it would be pointless)
        p._startuptsteps = env.arr([.05, .4, .9])
        on = mode != 'off'
        last = env.real('last', ML, 1.) if on else 0.
        p._chp_state[k - 1] = last
        su = env.real('start_ago', 0., 1e4)
        sd = env.real('stop_ago', 0., 2e4)
        p._startup_at_time = t0 - su
        p._shutdown_at_time = t0 - sd
        p._startup_factor_el = env.real('fel', 0., 1.)
        p._startup_factor_th = env.real('fth', 0., 1.)
        p._startup_factor_gas = env.real('fgas', 0., 1.)
        p._shutdown_factor_th = env.real('fsd', 0., 1.001)
        p._remaining_heat = env.real('rem', 0., 1000.)
        p._startup_in_progress = starting
        p._shutdown_in_progress = stopping
        p._bin_pow_fac = 1. if on else 0.
        p._chp_on = on
        lastdq = env.real('lastdQ', 0., 1e5)
        p._last_dQ[0] = lastdq
        for _, c in inv(env, p, on, t0):
            env.assume(c)
        env.assume(p._shutdown_factor_th != .01)
        sup, sdp = p._startup_at_time, p._shutdown_at_time
        p.get_diff(dt)
        state = _sc(p._chp_state[k])
        onn = state != 0.
        hot = p.T[0] > 75.
        em = env.or_(*[p.T[i] > 110. for i in range(n)])
        # -- rules
        env.check('modulation is zero or at least the lower bound',
                  env.or_(state == 0., state >= ML), str(state))
        env.le('modulation at most full load', state, 1.)
        env.check('emergency temperature stops the plant',
                  env.implies(em, env.not_(onn)))
        env.check('overtemperature longer than allowed stops the plant',
                  env.implies(env.and_(hot, exc > p._max_temp_exc_time),
                              env.not_(onn)))
        env.check('off request below the lower bound is obeyed after the '
                  'minimum run time', env.implies(
                      env.and_(req < ML, now - sup >= p._min_on_time),
                      env.not_(onn)))
        if on:
            over = env.or_(em, env.and_(hot, exc > p._max_temp_exc_time))
            env.check('no stop before the minimum run time', env.implies(
                env.and_(now - sup < p._min_on_time, env.not_(over)), onn))
            env.check('a running plant is not stopped without a reason',
                      env.implies(env.and_(req >= ML, env.not_(over)), onn))
            env.check('ramp limit', env.implies(
                env.and_(onn, req >= ML),
                env.and_(state - last <= p._max_ramp_el * dt + 1e-9,
                         last - state <= p._max_ramp_el * dt + 1e-9)))
            env.check('request within the ramp is followed', env.implies(
                env.and_(onn, req >= ML,
                         req - last <= p._max_ramp_el * dt,
                         last - req <= p._max_ramp_el * dt), state == req))
            env.check('a kept-on plant runs at its lower bound',
                      env.implies(env.and_(onn, req < ML), state == ML))
        else:
            env.check('no start before the minimum off time', env.implies(
                now - sdp < p._min_off_time, env.not_(onn)))
            env.check('no start with a hot inlet',
                      env.implies(hot, env.not_(onn)))
            env.check('start on request', env.implies(
                env.and_(req >= ML, now - sdp >= p._min_off_time,
                         env.not_(hot), env.not_(em)),
                env.and_(onn, state == req)))
        # -- timers
        tm = p._dt_time_temp_exc
        env.check('overtemperature timer', env.and_(
            tm >= 0., env.implies(onn, tm == env.ite(hot, exc + dt, 0.)),
            env.implies(env.and_(env.not_(onn), env.not_(hot), env.not_(em)),
                        tm == 0.)))
        sw_off = on and env.not_(onn)
        sw_on = (not on) and onn
        env.eq('start time', p._startup_at_time, env.ite(sw_on, now, sup))
        env.eq('stop time', p._shutdown_at_time, env.ite(sw_off, now, sdp))
        # -- powers
        P = p.chp_power_el
        pel, pg, dq = _sc(p.res_Pel[k]), _sc(p.res_Pgas[k]), _sc(
            p.res_dQ[k])
        env.eq('electrical power', pel, state * P * p._startup_factor_el,
               tol=1e-3)
        env.le('electrical power within the rating', pel, P * 1.)
        env.le('electrical power not negative', 0., pel)
        env.check('no gas, no electricity when off', env.implies(
            env.not_(onn), env.and_(pel == 0., pg == 0.)))
        env.eq('gas power', pg, env.ite(
            onn, p._startup_factor_gas * (p._eta_el_base / p.eta_el)
            * pf.chp_gas_power(state) * P, 0.), tol=1e-3)
        th = pf.chp_thermal_power(state) * P * p._startup_factor_th * (
            p._p2h_base / p.p2h_ratio)
        env.eq('thermal power', dq, env.ite(
            onn, th, env.ite(p._shutdown_in_progress,
                             lastdq * p._shutdown_factor_th, 0.)), tol=1e-3)
        for lab, c in inv(env, p, onn, now):
            env.check(lab, c)
    return f


def _sc(x):
    try:
        return x[0]
    except (TypeError, IndexError):
        return x


def fixed(env, w):
    p = w['x']
    P = 20e3
    env.eq('full load: thermal power', pf.chp_thermal_power(1.)
           * p._p2h_ratio, 1. / p.p2h_ratio)
    env.eq('full load: gas power', pf.chp_gas_power(1.) * p._eta_el_fac,
           1. / p.eta_el)


def factor_stub(lo, hi):
    """start-up curve: an arbitrary number within lo..hi"""
    def f(*a, **k):
        from vf import engine as E
        v = E.CUR.fresh('curve')
        E.CUR.assume(E.SymB(E.z3.And(v >= lo, v <= hi)))
        return E.Sym(v)
    return f


def clamps(env, w):
    """start-up factors stay within 0..1 for any value of the curves"""
    p = w['x']
    p._dm_io[0] = .5
    p._process_flows[0] = True
    p.stepnum[0] = 1
    w.s.time_vec[0] = t0 = env.real('t0', 0., 1e5)
    dt = env.real('dt', .01, 60.)
    p._power_modulation[0] = 1.
    p._chp_state[0] = 1.
    p._startup_at_time = t0 - env.real('start_ago', 0., 1e4)
    p._shutdown_at_time = p._startup_at_time - 1.
    p._startup_in_progress = True
    p._bin_pow_fac = 1.
    p._chp_on = True
    p.get_diff(dt)
    for lab, c in inv(env, p, True, t0 + dt):
        env.check(lab, c)


def scenarios(tier):
    out = []
    stubs = dict(C.ALPHA_STUBS)
    stubs['_vonNeumann_stability_invar'] = C.vn_stub
    unit = {'chp_startup_' + k: factor_stub(0, 1) for k in
            ('th', 'el', 'gas')}
    for mode, st, sp in (('on', True, False), ('on', False, False),
                         ('off', True, False), ('off', False, False),
                         ('off', True, True), ('off', False, True)):
        out.append(Scenario(
            'step_from_%s%s%s' % (mode, '_starting' if st else '',
                                  '_stopping' if sp else ''),
            body(mode, st, sp), lambda: world.chp(3),
            stubs=dict(stubs, **unit), bounds=BOUNDS,
            opts=dict(max_paths=20000, batch=True)))
    out.append(Scenario('start_up_factors', clamps, lambda: world.chp(3),
                        stubs=stubs, bounds=BOUNDS,
                        opts=dict(batch=True)))
    out.append(Scenario('full_load', fixed, lambda: world.chp(3)))
    return out
