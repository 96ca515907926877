"""Offline checkers over the log of a simulation.

Each function gets (ctx, house, drive, tr, skip) where tr is the reported Trace and skip is 1 when the state before
the first reported step is unknown (a run-up was simulated), else 0 (documented initial state).
Nothing here imports the code under test except oracle-free helpers (response factors of a wall are asked for through
the public factory only where stated).
"""
import json
import math

import numpy as np

from vlib import gen_core, ref_rf

CA, RHO, LW = 1005.0, 1.2, 2501000.0


def p_vs(theta):
    """saturation vapour pressure (Sonntag), Pa; over ice below 0 degree C"""
    theta = np.asarray(theta, dtype=float)
    t = theta + 273.15
    w = -6096.9385 / t + 21.2409642 - 0.02711193 * t + 0.00001673952 * t ** 2 + 2.433502 * np.log(t)
    i = -6024.5282 / t + 29.32707 + 0.010613863 * t - 0.000013198825 * t ** 2 - 0.49382577 * np.log(t)
    return np.exp(np.where(theta >= 0.0, w, i))


def x_from_pv(p):
    return 0.622 * p / (101325.0 - p)


def pv_from_x(x):
    return 101325.0 * x / (x + 0.62198)


X0 = float(x_from_pv(p_vs(20.0) * 0.4))


class Sys:
    """constants of a house and per-step inputs as arrays"""

    def __init__(self, house, drive, T):
        ss, bs = house['spaces'], house['boundaries']
        self.ni, self.nj, self.T = len(ss), len(bs), T
        self.dt = 3600.0 / house.get('steps_hourly', 4)
        self.room = np.array([b['connected_space_id'] for b in bs])
        self.P = (self.room[None, :] == np.arange(self.ni)[:, None]).astype(float)  # [i, j]
        self.area = np.array([b['area'] for b in bs], dtype=float)
        self.h_c = np.array([b['h_c'] for b in bs], dtype=float)
        self.vol = np.array([s['volume'] for s in ss], dtype=float)
        self.beta = np.array([s['beta'] for s in ss], dtype=float)
        self.mech = np.array([s['ventilation']['mechanical'] for s in ss], dtype=float)
        self.nxt = np.array([s['ventilation']['next_spaces'] for s in ss], dtype=float)
        self.ntrl = np.array([s['ventilation']['natural'] for s in ss], dtype=float)
        f = [s['furniture'] for s in ss]
        self.Cf = np.array([x['heat_capacity'] for x in f], dtype=float)
        self.Gf = np.array([x['heat_cond'] for x in f], dtype=float)
        self.Cx = np.array([x['moisture_capacity'] for x in f], dtype=float)
        self.Gx = np.array([x['moisture_cond'] for x in f], dtype=float)
        self.flr = np.array([b['flr'] for b in bs], dtype=float)
        self.fhum = np.array([b['f_mrt_hum'] for b in bs], dtype=float)
        self.absb = np.array([b['is_solar_absorbed'] == 'True' for b in bs])
        self.k_out = np.array([b['k_outside'] for b in bs], dtype=float)
        self.k_in = np.zeros((self.nj, self.nj))
        for j, b in enumerate(bs):
            if b['k_inside'] is not None:
                self.k_in[j, b['k_inside']['id']] = b['k_inside']['coef']
        eq = [s['equipment'] for s in ss]
        self.rad_h = np.array([bool(e['heating']['radiative']['installed']) for e in eq])
        self.rad_c = np.array([bool(e['cooling']['radiative']['installed']) for e in eq])
        self.cap_h = np.array([e['heating']['radiative'].get('max_capacity', 0.0) if r else 0.0
                               for e, r in zip(eq, self.rad_h)], dtype=float)
        self.cap_c = np.array([e['cooling']['radiative'].get('max_capacity', 0.0) if r else 0.0
                               for e, r in zip(eq, self.rad_c)], dtype=float)
        cc = [e['cooling']['convective'] for e in eq]
        self.rac = {k: np.array([c.get(k, 0.0) for c in cc], dtype=float) for k in ('q_min', 'q_max', 'v_min', 'v_max')}

        def d(k):
            return np.asarray(drive[k], dtype=float)[:T].T

        self.drive_theta_o = np.asarray(drive['theta_o'], dtype=float)
        self.theta_o = self.drive_theta_o[:T]
        self.x_o = np.asarray(drive['x_o'], dtype=float)[:T]
        self.local, self.q_gen, self.x_gen = d('local_vent'), d('heat_generation'), d('moisture_generation')
        self.n_hum, self.dem, self.q_trs, self.tos = d('occupants'), d('ac_demand'), d('q_trs_sol'), d('theta_o_sol')

    def prev(self, a, init):
        """the state before each step: a shifted by one, with the initial state in front"""
        out = np.empty_like(a)
        out[:, 1:] = a[:, :-1]
        out[:, 0] = init
        return out


def form_factors(area):
    """form factors of a small sphere towards the surfaces of one room (Nagata), summing to 1; None if no solution"""
    from scipy.optimize import brentq
    r = np.asarray(area, dtype=float) / np.sum(area)

    def f(v):
        t = 1.0 - 4.0 * r / v
        return 0.5 * (1.0 - np.sign(t) * np.sqrt(np.abs(t)))

    lo = 1e-6
    g = lambda v: float(np.sum(f(v)) - 1.0)
    hi = 1e6
    if g(lo) * g(hi) > 0:
        return None
    v = brentq(g, lo, hi, xtol=1e-14, rtol=8.9e-16, maxiter=500)
    return f(v)


def h_r_room(area):
    f = form_factors(area)
    if f is None:
        return None
    return 0.9 / (1.0 - 0.9 * f) * 4.0 * 5.67e-8 * 293.15 ** 3


def v_out(S, tr):
    return tr.v_leak + tr.v_ntrl + S.mech[:, None] + S.local


def room_heat_balance(ctx, S, tr, skip=0):
    th0 = S.prev(tr.th_r, 15.0)
    thf0 = S.prev(tr.th_frt, 15.0)
    vo = v_out(S, tr)
    cr = CA * RHO
    surf = S.P @ (S.h_c[:, None] * S.area[:, None] * (tr.t_s - S.P.T @ tr.th_r))
    frt = S.Gf[:, None] * (tr.th_frt - tr.th_r)
    store = cr * S.vol[:, None] / S.dt * (tr.th_r - th0)
    vent = cr * vo * (S.theta_o[None, :] - tr.th_r)
    gains = S.q_gen + tr.q_hum + tr.l_cs + S.beta[:, None] * tr.l_rs
    base = surf + frt + vent + gains - store
    scale = np.abs(surf) + np.abs(frt) + np.abs(vent) + np.abs(store) + np.abs(S.q_gen) + np.abs(tr.q_hum) \
        + np.abs(tr.l_cs) + np.abs(tr.l_rs) + cr * S.vol[:, None] / S.dt * np.abs(tr.th_r) \
        + S.P @ (S.h_c[:, None] * S.area[:, None] * np.abs(tr.t_s)) + cr * vo * np.abs(S.theta_o[None, :]) + 1.0
    inter = cr * (S.nxt @ tr.th_r - S.nxt.sum(axis=1)[:, None] * tr.th_r)
    defect = -cr * (S.nxt @ tr.th_r)
    scale = scale + np.abs(defect) + np.abs(inter)
    r_phys = np.abs(base + inter)
    r_def = np.abs(base + defect)
    tol = 1e-7 * scale
    sl = slice(skip, None)
    has = (S.nxt.sum(axis=1) > 0)
    ok = (r_phys <= tol)[:, sl]
    okd = (r_def <= tol)[:, sl]
    ctx.count('eval:room heat balance', ok.size)
    ctx.count('room-steps with air from another room', int(has.sum()) * ok.shape[1])
    ctx.count('room-steps conditioned', int((np.abs(tr.l_cs) + np.abs(tr.l_rs) > 1).sum()))
    for i in range(S.ni):
        if ok[i].all():
            continue
        if has[i] and okd[i].all():
            ctx.known_finding('interroom-air-heat', f'air from other rooms into room {i}: balance only closes with the '
                              f'sign of the incoming heat reversed and no heat carried away')
            continue
        n = int(np.argmin(ok[i])) + skip
        ctx.violation('room heat balance', f'room {i} step {n}: residual {float((base + inter)[i, n])!r} W '
                      f'(surfaces {surf[i, n]:.3f}, furniture {frt[i, n]:.3f}, ventilation {vent[i, n]:.3f}, '
                      f'gains and equipment {gains[i, n]:.3f}, stored {store[i, n]:.3f})')
    # furniture
    st = S.Cf[:, None] * (tr.th_frt - thf0) / S.dt
    rhs = S.Gf[:, None] * (tr.th_r - tr.th_frt) + 0.5 * S.q_trs
    sc = S.Cf[:, None] / S.dt * np.abs(tr.th_frt) + S.Gf[:, None] * np.abs(tr.th_r) + np.abs(S.q_trs) + 1.0
    ctx.close('furniture heat balance', ((st - rhs) / sc)[:, sl], 0.0, 0.0, 1e-8, 'furniture')


def moisture_balance(ctx, S, tr, skip=0):
    x0 = S.prev(tr.x_r, X0)
    xf0 = S.prev(tr.x_frt, X0)
    vo = v_out(S, tr)
    store = RHO * S.vol[:, None] / S.dt * (tr.x_r - x0)
    vent = RHO * vo * (S.x_o[None, :] - tr.x_r)
    frt = S.Gx[:, None] * (tr.x_frt - tr.x_r)
    gain = S.x_gen + tr.x_hum + tr.l_l / LW
    base = vent + frt + gain - store
    inter = RHO * (S.nxt @ tr.x_r - S.nxt.sum(axis=1)[:, None] * tr.x_r)
    defect = RHO * (S.nxt @ tr.x_r)
    scale = RHO * S.vol[:, None] / S.dt * np.abs(tr.x_r) + RHO * vo * (np.abs(S.x_o)[None, :] + np.abs(tr.x_r)) \
        + S.Gx[:, None] * np.abs(tr.x_frt) + np.abs(S.x_gen) + np.abs(tr.x_hum) + np.abs(tr.l_l / LW) \
        + np.abs(defect) + np.abs(inter) + 1e-9
    tol = 1e-7 * scale
    sl = slice(skip, None)
    ok = (np.abs(base + inter) <= tol)[:, sl]
    okd = (np.abs(base + defect) <= tol)[:, sl]
    has = S.nxt.sum(axis=1) > 0
    ctx.count('eval:room moisture balance', ok.size)
    ctx.count('room-steps with air from another room', int(has.sum()) * ok.shape[1])
    ctx.count('room-steps dehumidified', int((tr.l_l < -1e-6).sum()))
    for i in range(S.ni):
        if ok[i].all():
            continue
        if has[i] and okd[i].all():
            ctx.known_finding('interroom-air-moisture', f'air from other rooms into room {i} brings moisture but takes '
                              f'none away')
            continue
        n = int(np.argmin(ok[i])) + skip
        ctx.violation('room moisture balance', f'room {i} step {n}: residual {float((base + inter)[i, n])!r} kg/s of '
                      f'(ventilation {vent[i, n]:.3e}, furniture {frt[i, n]:.3e}, gains {gain[i, n]:.3e}, '
                      f'stored {store[i, n]:.3e})')
    st = S.Cx[:, None] * (tr.x_frt - xf0) / S.dt
    rhs = S.Gx[:, None] * (tr.x_r - tr.x_frt)
    sc = S.Cx[:, None] / S.dt * np.abs(tr.x_frt) + S.Gx[:, None] * np.abs(tr.x_r) + 1e-12
    ctx.close('furniture moisture balance', ((st - rhs) / sc)[:, sl], 0.0, 0.0, 1e-8, 'furniture moisture')


def _wall_rf(ctx, house):
    """response factors of every wall, asked through the public factory"""
    from heat_load_calc.initializer import response_factor
    out = []
    nsh = house.get('steps_hourly', 4)
    for b in house['boundaries']:
        rf = ctx.sut('response factors', lambda s: response_factor.ResponseFactorFactory.create(spec=s)
                     .get_response_factors(), json.loads(json.dumps(b['spec'])))
        out.append((float(rf.rfa0), np.asarray(rf.rfa1, float).flatten(), float(rf.rft0),
                    np.asarray(rf.rft1, float).flatten(), np.asarray(rf.row, float).flatten()))
        # at rest the factors are the resistance and the whole temperature of the construction
        a0, a1, t0, t1, row = out[-1]
        res = ref_rf.resistance(b['spec'])
        ctx.close('response factors carry the resistance of the construction', a0 + np.sum(a1 / (1.0 - row)), res,
                  1e-7, 1e-9, f'{b["spec"]["method"]} of {b["name"]}')
        if 'layers' in b['spec'] or b['spec']['method'] == 'u_value':
            ctx.close('response factors carry the temperature behind', t0 + np.sum(t1 / (1.0 - row)), 1.0, 1e-7, 0,
                      f'{b["spec"]["method"]} of {b["name"]}')
        if nsh != 4 and 'layers' in b['spec']:
            out[-1] = ref_rf.other_step(*out[-1], 3600.0 / nsh)
    return out


def surface_heat(ctx, S, tr):
    """surface heat flow as reported closes over its parts, and the equivalent temperature is what drives it"""
    rad = S.flr[:, None] * ((1.0 - S.beta)[:, None] * tr.l_rs)[S.room]
    q = tr.qc + tr.qr + tr.q_sol_s + rad
    sc = np.abs(tr.qc) + np.abs(tr.qr) + np.abs(tr.q_sol_s) + np.abs(rad) + S.area[:, None] * 1.0
    ctx.close('surface heat flow is the sum of its parts', (q - tr.q_all * S.area[:, None]) / sc, 0.0, 0.0, 1e-8,
              'surface heat flow [boundary, step]')
    h_i = tr.h_r + tr.h_c
    ctx.close('surface heat flow follows the equivalent temperature', tr.q_all, h_i * (tr.t_e - tr.t_s), 1e-8, 1e-8,
              'q = h (te - ts)')
    ctx.close('convective part', tr.qc, (S.h_c * S.area)[:, None] * (tr.th_r[S.room] - tr.t_s), 1e-8, 1e-7, 'qc')
    ctx.count('surface-steps with radiant heating', int((np.abs(rad) > 1).sum()))


def walls(ctx, house, S, tr, skip=0, ground_init=None, only=None):
    """rear temperature and dynamic response of every wall against the exact recursion of its response factors"""
    rfs = _wall_rf(ctx, house)
    te0 = S.prev(tr.t_e, 15.0)
    rear = S.k_in @ te0 + S.k_out[:, None] * S.tos
    sl = slice(skip, None)
    ctx.close('rear temperature', tr.t_b[:, sl], rear[:, sl], 1e-9, 1e-8, 'temperature behind the wall [boundary, step]')
    h_i = tr.h_r + tr.h_c
    mrt_r = _surface_mrt(S, tr)  # [i, n]
    rad_w = S.flr[:, None] * ((1.0 - S.beta)[:, None] * tr.l_rs)[S.room]  # W
    for j, (a0, a1, t0, t1, r) in enumerate(rfs):
        if only is not None and not only(j):
            continue
        va = np.zeros_like(r)
        ground = house['boundaries'][j]['is_ground'] == 'true'
        th_deep = None
        if ground:
            th_deep = S.k_out[j] * float(np.average(S.drive_theta_o))
        vt = t1 * th_deep / (1.0 - r) if ground else np.zeros_like(r)
        k = int(np.argmax(S.k_in[j])) if S.k_in[j].any() else None
        q_prev = 0.0
        if ground and ground_init is not None:
            va, q_prev = ground_init(j, (a0, a1, t0, t1, r), float(tr.h_r[j, 0] + tr.h_c[j, 0]), th_deep)
        first_bad = None
        defect_ok = True
        differs = False
        for n in range(S.T):
            va = a1 * q_prev + r * va
            vt = t1 * tr.t_b[j, n] + r * vt
            rear_new = S.k_out[j] * S.tos[j, n]
            rear_def = rear_new
            if k is not None:
                c = S.k_in[j, k]
                rear_new = rear_new + c * tr.t_e[k, n]
                rk = S.room[k]
                rear_def = rear_def + c * (
                    S.h_c[j] * tr.th_r[rk, n] + tr.h_r[j, n] * mrt_r[rk, n] + tr.q_sol_s[k, n] / S.area[k]
                    + rad_w[k, n] / S.area[j]) / h_i[j, n]
            base = a0 * tr.q_all[j, n] + va.sum() + vt.sum()
            tol = (1e-7 if S.dt == 900.0 else 1e-6) * (1.0 + abs(tr.t_s[j, n]) + np.abs(va).sum() + np.abs(vt).sum() + abs(a0 * tr.q_all[j, n]))
            if not abs(base + t0 * rear_new - tr.t_s[j, n]) <= tol and first_bad is None:
                first_bad = (n, base + t0 * rear_new, tr.t_s[j, n])
            if not abs(base + t0 * rear_def - tr.t_s[j, n]) <= tol:
                defect_ok = False
            if abs(rear_def - rear_new) * abs(t0) > tol:
                differs = True
            q_prev = tr.q_all[j, n]
        ctx.count('eval:wall response', S.T)
        kind = 'ground' if ground else ('other room' if k is not None and k != j else
                                        ('partly own room' if k is not None else 'outside'))
        ctx.count('walls backed by ' + kind)
        if first_bad is not None:
            if k is not None and k != j and defect_ok and differs:
                ctx.known_finding('rear-wall-coefficients', f'wall {j} between rooms {S.room[j]} and {S.room[k]}: the '
                                  f'heat transfer coefficients, area and radiant heat of the near side are used for '
                                  f'the far side')
            else:
                n, e, o = first_bad
                ctx.violation('wall response', f'wall {j} ({kind}) step {n}: surface temperature {o!r}, the response '
                              f'to its heat flow and rear temperature gives {e!r}')


def _surface_mrt(S, tr):
    w = S.area[:, None] * tr.h_r
    return (S.P @ (w * tr.t_s)) / (S.P @ w)


def radiation(ctx, S, tr):
    mrt = _surface_mrt(S, tr)
    exp = S.area[:, None] * tr.h_r * (mrt[S.room] - tr.t_s)
    ctx.close('radiative exchange of a surface', tr.qr, exp, 1e-8, 1e-7, 'qr [boundary, step]')
    tot = S.P @ tr.qr
    sc = S.P @ np.abs(tr.qr) + S.P @ (S.area[:, None] * tr.h_r * np.abs(tr.t_s)) + 1.0
    ctx.close('radiation emitted is absorbed in the same room', tot / sc, 0.0, 0.0, 1e-9, 'net radiation [room, step]')
    for i in range(S.ni):
        js = np.where(S.room == i)[0]
        h = h_r_room(S.area[js])
        if h is None:
            continue
        for k, j in enumerate(js):
            ctx.close('radiative heat transfer coefficient', tr.h_r[j], h[k], 1e-5, 0.0, f'room {i} boundary {j}')
            ctx.close('convective heat transfer coefficient', tr.h_c[j], S.h_c[j], 1e-9, 0.0, f'boundary {j}')
    m = (S.P * S.fhum[None, :]) @ tr.t_s
    ctx.close('mean radiant temperature at the occupant', tr.mrt, m, 1e-9, 1e-8, 'mrt [room, step]')
    ot = (tr.hc_hum * tr.th_r + tr.hr_hum * tr.mrt) / (tr.hc_hum + tr.hr_hum)
    ctx.close('operative temperature', tr.ot, ot, 1e-8, 1e-7, 'ot [room, step]')
    ctx.close('occupant convective coefficient', tr.hc_hum, 4.0, 1e-9, 0, 'hc')
    ctx.close('occupant radiative coefficient', tr.hr_hum, 4 * 3.96e-8 * 293.15 ** 3, 1e-9, 0, 'hr')


def solar(ctx, S, tr):
    ctx.close('transmitted solar heat reported', tr.q_sol_t, S.q_trs, 1e-9, 1e-9, 'q_sol_t')
    ctx.close('furniture share of the solar heat', tr.q_sol_frt, 0.5 * S.q_trs, 1e-9, 1e-9, 'q_s_sol_fun')
    ctx.close('all transmitted solar heat is absorbed in the room', S.P @ tr.q_sol_s + tr.q_sol_frt, S.q_trs, 1e-8,
              1e-7, 'sum over surfaces and furniture [room, step]')
    tot = S.P @ (S.area * S.absb)
    tot = np.where(tot > 0, tot, 1.0)
    exp = np.where(S.absb[:, None], 0.5 * S.q_trs[S.room] / tot[S.room][:, None] * S.area[:, None], 0.0)
    ctx.count('rooms without absorbing surfaces', int((S.P @ (S.area * S.absb) == 0).sum()))
    ctx.close('solar heat spreads evenly over the absorbing surfaces', tr.q_sol_s, exp, 1e-8, 1e-8, 'qisol_s')
    ctx.count('room-steps with sun', int((S.q_trs > 1).sum()))
    ctx.count('surfaces not absorbing', int((~S.absb).sum()))


def occupants(ctx, S, tr, skip=0):
    th0 = S.prev(tr.th_r, 15.0)
    q1 = np.minimum(63.0 - 4.0 * (th0 - 24.0), 119.0)
    sl = slice(skip, None)
    ctx.close('occupant sensible heat', tr.q_hum[:, sl], (q1 * S.n_hum)[:, sl], 1e-8, 1e-7, 'q_hum [room, step]')
    ctx.close('occupant moisture', tr.x_hum[:, sl], ((119.0 - q1) / LW * S.n_hum)[:, sl], 1e-8, 1e-14, 'x_hum')
    ctx.close('occupant total heat', (tr.q_hum + LW * tr.x_hum)[:, sl], (119.0 * S.n_hum)[:, sl], 1e-8, 1e-6, '119 W')
    ctx.count('occupied room-steps', int((S.n_hum > 0).sum()))
    ctx.count('occupied room-steps at the cold limit', int(((S.n_hum > 0) & (th0 < 10.0)).sum()))
    ctx.count('occupied room-steps above the cold limit', int(((S.n_hum > 0) & (th0 > 10.0)).sum()))


def airflow(ctx, house, S, tr, skip=0):
    b = house['building']
    th0 = S.prev(tr.th_r, 15.0)
    avg = (S.vol[:, None] * th0).sum(axis=0) / S.vol.sum()
    a = {1: 0.022, 2: 0.020}[b['story']]
    off = {'balanced': {1: 0.0, 2: 0.0}, 'positive': {1: 0.26, 2: 0.14}, 'negative': {1: 0.28, 2: 0.13}}[
        b['inside_pressure']][b['story']]
    rate = np.maximum(a * b['c_value'] * np.sqrt(np.abs(avg - S.theta_o)) - off, 0.0)
    exp = rate[None, :] * S.vol[:, None] / 3600.0
    sl = slice(skip, None)
    ctx.close('infiltration', tr.v_leak[:, sl], exp[:, sl], 1e-8, 1e-10, 'v_leak [room, step]')
    ctx.check('infiltration never negative', bool((tr.v_leak >= 0).all()), 'negative infiltration')
    nt = np.where(tr.mode == 'STOP_OPEN', S.ntrl[:, None], 0.0)
    ctx.close('natural ventilation only with the windows open', tr.v_ntrl, nt, 1e-9, 1e-15, 'v_ntrl [room, step]')
    ctx.count('room-steps with open windows', int(((tr.mode == 'STOP_OPEN') & (S.ntrl[:, None] > 0)).sum()))
    ctx.count('steps with infiltration', int((exp.max(axis=0) > 0).sum()))
    ctx.count('steps without infiltration', int((exp.max(axis=0) == 0).sum()))


def pmv(theta_r, ot, x, clo, hc=4.0, hr=4 * 3.96e-8 * 293.15 ** 3):
    m = 58.15
    pa = pv_from_x(x)
    i = 0.155 * clo
    f = np.where(i <= 0.078, 1.0 + 1.29 * i, 1.05 + 0.645 * i)
    h = hc + hr
    return (0.303 * math.exp(-0.036 * m) + 0.028) * (
        m - 3.05e-3 * (5733.0 - 6.99 * m - pa) - 1.7e-5 * m * (5867.0 - pa) - 0.0014 * m * (34.0 - theta_r)
        - f * h * (35.7 - 0.028 * m - ot) / (1.0 + i * f * h))


def ot_for_pmv(target, x, clo):
    """operative temperature (air temperature equal to it) at which the comfort index is the target"""
    lo, hi = np.full_like(np.asarray(x, float), -60.0), np.full_like(np.asarray(x, float), 100.0)
    p0, p1 = pmv(lo, lo, x, clo), pmv(hi, hi, x, clo)
    return lo + (target - p0) * (hi - lo) / (p1 - p0)  # the index is linear in the temperature


def next_mode(prev, demand, heavy, middle, light):
    if not demand > 0.0:
        return 'STOP_CLOSE'
    if prev == 'HEATING':
        return 'HEATING' if heavy <= 0.7 else ('COOLING' if light >= 0.7 else 'STOP_CLOSE')
    if prev == 'COOLING':
        return 'COOLING' if light >= -0.7 else ('HEATING' if heavy <= -0.7 else 'STOP_CLOSE')
    if light >= 0.7:
        return 'COOLING'
    if heavy <= -0.7:
        return 'HEATING'
    if prev == 'STOP_OPEN':
        return 'STOP_CLOSE' if middle <= 0.0 else 'STOP_OPEN'
    return 'STOP_OPEN' if middle >= 0.0 else 'STOP_CLOSE'


def modes(ctx, S, tr, skip=0):
    th0, m0, x0 = S.prev(tr.th_r, 15.0), S.prev(tr.mrt, 15.0), S.prev(tr.x_r, X0)
    hc, hr = 4.0, 4 * 3.96e-8 * 293.15 ** 3
    ot0 = (hc * th0 + hr * m0) / (hc + hr)
    idx = {c: pmv(th0, ot0, x0, v) for c, v in (('h', 1.1), ('m', 0.7), ('l', 0.3))}
    for i in range(S.ni):
        prev = 'STOP_CLOSE'
        for n in range(S.T):
            if n >= skip:
                h, m, l = (float(idx[c][i, n]) for c in 'hml')
                near = min(abs(abs(h) - 0.7), abs(abs(l) - 0.7), abs(m)) < 1e-7
                exp = next_mode(prev, S.dem[i, n], h, m, l)
                ctx.count('eval:operation mode')
                ctx.count(f'transition {prev}->{tr.mode[i, n]}')
                if tr.mode[i, n] != exp and not near:
                    ctx.violation('operation mode', f'room {i} step {n}: {tr.mode[i, n]} after {prev} with demand '
                                  f'{S.dem[i, n]}, comfort index heavy/middle/light {h:.4f}/{m:.4f}/{l:.4f}; '
                                  f'expected {exp}')
                    return
            prev = tr.mode[i, n]
    # reported circumstances follow the mode
    for i in range(S.ni):
        for n in range(skip, S.T):
            r = json.loads(tr.remarks[i][n])
            md = tr.mode[i, n]
            v = 0.0
            if md == 'HEATING' and not S.rad_h[i]:
                v = 0.2
            if md == 'COOLING' and not S.rad_c[i]:
                v = 0.2
            if md == 'STOP_OPEN':
                v = 0.1
            e = {'pmv_target': {'HEATING': -0.5, 'COOLING': 0.5}.get(md, 0.0), 'v_hum m/s': v,
                 'clo': {'HEATING': 1.1, 'COOLING': 0.3}.get(md, 0.7)}
            if any(abs(r[k] - e[k]) > 1e-12 for k in e):
                ctx.violation('circumstances of the occupant', f'room {i} step {n} mode {md}: {r} expected {e}')
                return
            ctx.count('eval:circumstances')


class Step:
    """linear response of the operative temperatures of one step to heat given off by the equipment, W, by air (c) and
    by radiation (r), worked out from the reported coefficients; between rooms as it should be or with the known defect
    of walls between rooms (known finding rear-wall-coefficients) and of air between rooms (interroom-air-heat)"""

    def __init__(self, S, tr, a0, t0, n, defect, air_defect=False):
        ni, nj = S.ni, S.nj
        self.air_defect = air_defect
        R = S.P.T  # [j, i]
        cr = CA * RHO
        kf = S.Cf * S.Gf / (S.Cf + S.dt * S.Gf)
        kc = tr.hc_hum[:, n] / (tr.hc_hum[:, n] + tr.hr_hum[:, n])
        hr, hc = tr.h_r[:, n], tr.h_c[:, n]
        h = hr + hc
        w = S.area * hr
        F = (S.P * w) / (S.P @ w)[:, None]      # mean radiant temperature of a room from its surfaces
        FM = R @ F                              # ... seen from each surface
        rad = (S.flr * (1.0 - S.beta)[S.room])[:, None] * R   # W on surface j for 1 W of radiative output of room i
        # temperature driving each surface: th_e = E_r thr + E_s ths + E_l lr
        Er, Es, El = (hc / h)[:, None] * R, (hr / h)[:, None] * FM, rad / (S.area * h)[:, None]
        if defect:
            Kr, Ks, Kl = np.zeros((nj, ni)), np.zeros((nj, nj)), np.zeros((nj, ni))
            for j, k in zip(*np.where(S.k_in > 0)):
                c = S.k_in[j, k]
                Kr[j] += c * hc[j] / h[j] * R[k]
                Ks[j] += c * hr[j] / h[j] * FM[k]
                Kl[j] += c * rad[k] / S.area[j] / h[j]
        else:
            Kr, Ks, Kl = S.k_in @ Er, S.k_in @ Es, S.k_in @ El
        A = np.zeros((ni + nj, ni + nj))
        b = np.zeros((ni + nj, 2 * ni))
        g = S.P * (hc * S.area)
        A[:ni, :ni] = np.diag(cr * S.vol / S.dt + g.sum(axis=1) + cr * v_out(S, tr)[:, n] + kf)
        A[:ni, :ni] += cr * (S.nxt if air_defect else np.diag(S.nxt.sum(axis=1)) - S.nxt)
        A[:ni, ni:] = -g
        b[:ni, :ni] = np.eye(ni)
        b[:ni, ni:] = np.diag(S.beta)
        # ths = a0 h (the - ths) + t0 rear
        A[ni:, ni:] = np.diag(1.0 + a0 * h) - (a0 * h)[:, None] * Es - t0[:, None] * Ks
        A[ni:, :ni] = -(a0 * h)[:, None] * Er - t0[:, None] * Kr
        b[ni:, ni:] = (a0 * h)[:, None] * El + t0[:, None] * Kl
        d = np.linalg.solve(A, b)
        B = kc[:, None] * d[:ni] + (1.0 - kc)[:, None] * ((S.P * S.fhum) @ d[ni:])
        self.c, self.r = B[:, :ni], B[:, ni:]
        self.natural = tr.ot[:, n] - self.c @ tr.l_cs[:, n] - self.r @ tr.l_rs[:, n]

    def unlimited(self, S, heat, ot, on):
        """loads that hold the given operative temperatures in the rooms that are on, radiative equipment first and
        without any limit"""
        use_r = np.where(heat, S.rad_h, S.rad_c)
        B = np.where(use_r[None, :], self.r, self.c)
        load = np.zeros(S.ni)
        k = np.where(on)[0]
        load[k] = np.linalg.solve(B[np.ix_(k, k)], (ot - self.natural)[k])
        return load


def steps_of(ctx, house, S, tr):
    """function n -> list of Step, with and without the known defects"""
    rfs = _wall_rf(ctx, house)
    a0 = np.array([r[0] for r in rfs])
    t0 = np.array([r[2] for r in rfs])
    between = bool((S.k_in - np.diag(np.diag(S.k_in))).any())
    air = bool((S.nxt > 0).any())
    return lambda n: [Step(S, tr, a0, t0, n, d, a) for d in ([False, True] if between else [False])
                      for a in ([False, True] if air else [False])]


def control(ctx, S, tr, skip=0, house=None):
    """loads only against the comfort limit, target met when conditioned, equipment limits"""
    x0 = S.prev(tr.x_r, X0)
    eps = 1e-6
    tgt_h = ot_for_pmv(-0.5, x0, 1.1)
    tgt_c = ot_for_pmv(0.5, x0, 0.3)
    load = tr.l_cs + tr.l_rs
    tol = 1e-6 * (1.0 + np.abs(load)) + 1e-5
    any_other = np.array([[np.any(np.delete(np.abs(load[:, n]), i) > 1e-9) for n in range(S.T)] for i in range(S.ni)]) \
        if S.ni > 1 else np.zeros((1, S.T), bool)
    at_step = steps_of(ctx, house, S, tr)
    for n in range(skip, S.T):
        steps = at_step(n) if (np.array([m in ('HEATING', 'COOLING') for m in tr.mode[:, n]])).any() else []
        for i in range(S.ni):
            md, l, lc, lr, ot, d = tr.mode[i, n], load[i, n], tr.l_cs[i, n], tr.l_rs[i, n], tr.ot[i, n], S.dem[i, n]
            t = tol[i, n]
            ctx.count('eval:control')
            at = f'room {i} step {n} mode {md} demand {d:.3f}: convective {lc:.4f} W, radiative {lr:.4f} W, ' \
                 f'operative {ot:.6f}'
            if not d > 0.0 or md in ('STOP_OPEN', 'STOP_CLOSE'):
                if abs(lc) > t or abs(lr) > t:
                    ctx.violation('no equipment works without demand or while stopped', at)
                    return
                continue
            heat = md == 'HEATING'
            sgn = 1.0 if heat else -1.0
            tg = float(tgt_h[i, n] if heat else tgt_c[i, n])
            rad = S.rad_h[i] if heat else S.rad_c[i]
            cap = S.cap_h[i] if heat else S.cap_c[i]
            beyond = sgn * (ot - tg)  # >0: warmer than the heating target / cooler than the cooling target
            tt = 1e-6 * (1 + abs(tg)) + 1e-6
            active = abs(lc) > t or abs(lr) > t
            # what the room needs is judged from where it would drift without any equipment
            good = []
            for nat in (float(x.natural[i]) for x in steps):
                need = sgn * (tg - nat)
                if need > tt:
                    good.append(abs(ot - (d * tg + (1.0 - d) * nat)) <= 4 * tt)
                elif need < -tt:
                    good.append(not active)
                else:
                    good.append(True)
            ctx.count('room-steps in need of equipment' if sgn * (tg - steps[0].natural[i]) > tt else
                      'room-steps not in need')
            if not any(good):
                ctx.violation('equipment follows the need of the room', at + f', target {tg:.6f}, without equipment '
                              f'{[float(x.natural[i]) for x in steps]}')
                return
            if not rad and abs(lr) > t:
                ctx.violation('no radiative output without radiative equipment', at)
                return
            wrong = sgn * l < -t or sgn * lr < -t or sgn * lc < -t
            if wrong:
                if any_other[i, n] and beyond <= tt:
                    ctx.known_finding('neighbours-not-considered', at)
                    ctx.count('wrong-sign steps')
                else:
                    ctx.violation('heating never cools and cooling never heats', at)
                    return
            if d == 1.0:
                if active:
                    ctx.count('room-steps held at the target')
                    if abs(beyond) > tt:
                        ctx.violation('the target is met while conditioned at full demand', at + f', target {tg:.6f}')
                        return
                elif beyond < -tt and any(sgn * load[k, n] < -1e-3 for k in range(S.ni) if k != i):
                    ctx.known_finding('neighbours-not-considered', at + ', left alone although a neighbour drags it '
                                      'beyond its limit')
                elif beyond < -tt and any_other[i, n] and S.nxt[i].any() and any(
                        x.air_defect and sgn * (tg - x.natural[i]) <= tt for x in steps):
                    ctx.known_finding('interroom-air-heat', at + ', left alone although the equipment of the room its '
                                      'air comes from pushes it the wrong way')
                elif beyond < -tt:
                    ctx.violation('the comfort limit is kept at full demand', at + f', target {tg:.6f}')
                    return
                else:
                    ctx.count('room-steps floating inside the limit')
            else:
                ctx.count('room-steps at part demand')
                if active and beyond > tt:
                    ctx.violation('part demand never goes beyond the target', at + f', target {tg:.6f}')
                    return
            if rad and active and not wrong:
                if sgn * lr > cap * (1 + 1e-6) + t:
                    ctx.violation('radiative output within its capacity', at + f', capacity {cap}')
                    return
                if abs(lc) > t:
                    ctx.count('room-steps with radiative equipment at its capacity')
                    if abs(sgn * lr - cap) > 1e-6 * (1 + cap):
                        other = (S.cap_c if heat else S.cap_h)[i]
                        if abs(sgn * lr + other) <= 1e-6 * (1 + other) and any(
                                sgn * x.unlimited(S, tr.mode[:, n] == 'HEATING', tr.ot[:, n],
                                                  np.abs(load[:, n]) > 1e-9)[i] < 0 for x in steps):
                            ctx.known_finding('neighbours-not-considered', at + ', its radiative equipment would have '
                                              'to work the other way until its neighbours reach their limits')
                            continue
                        ctx.violation('convective equipment only helps once the radiative one is at its capacity',
                                      at + f', capacity {cap}')
                        return
                else:
                    ctx.count('room-steps with radiative equipment alone')


def dehumidification(ctx, S, tr, skip=0):
    """latent load of the cooling coil"""
    x0 = S.prev(tr.x_r, X0)
    xf0 = S.prev(tr.x_frt, X0)
    vo = v_out(S, tr)
    qs = -tr.l_cs
    sl = range(skip, S.T)
    air = bool((S.nxt > 0).any())
    added = 0
    # humidity without the coil, from the reported flows (several rooms are coupled by air flows between them, as it should be or with
    # the known defect interroom-air-moisture)
    for n in sl:
        dh = (qs[:, n] > 1.0e-3) & (S.rac['v_max'] > 0)
        near = np.abs(qs[:, n] - 1.0e-3) < 1e-6
        K = S.Cx * S.Gx / (S.Cx + S.dt * S.Gx)
        M = np.diag(RHO * (S.vol / S.dt + vo[:, n]) + K) - RHO * S.nxt
        undried = [M + np.diag(RHO * S.nxt.sum(axis=1)), M] if air else [M]
        rhs = RHO * (S.vol / S.dt * x0[:, n] + vo[:, n] * S.x_o[n]) + K * xf0[:, n] + S.x_gen[:, n] + tr.x_hum[:, n]
        x_nons = [np.linalg.solve(m, rhs) for m in undried]
        for i in range(S.ni):
            ctx.count('eval:latent load')
            ll = tr.l_l[i, n]
            at = f'room {i} step {n}: sensible {tr.l_cs[i, n]:.4f} W, latent {ll:.4f} W'
            if near[i]:
                continue
            if not dh[i]:
                if abs(ll) > 1e-6:
                    ctx.violation('latent load only while cooling by air', at)
                    return
                continue
            q = qs[i, n]
            r = {k: v[i] for k, v in S.rac.items()}
            v_lin = r['v_min'] + (r['v_max'] - r['v_min']) / (r['q_max'] - r['q_min']) * (q - r['q_min'])
            ok = {}
            for name, v in (('clipped', min(max(v_lin, r['v_min']), r['v_max'])), ('linear', v_lin)):
                va = v / 60.0 * 0.8
                te = tr.th_r[i, n] - q / (CA * RHO * va)
                if not te > -273.0:
                    xe = float('nan')
                else:
                    xe = float(x_from_pv(p_vs(te)))
                sc = LW * RHO * va * (abs(tr.x_r[i, n]) + abs(xe))
                ok[name] = False
                for x_non in x_nons:
                    wet = not (xe > x_non[i])
                    e = -LW * RHO * va * (tr.x_r[i, n] - xe) if wet else 0.0
                    marginal = abs(xe - x_non[i]) < 1e-9
                    ok[name] = ok[name] or bool(abs(e - ll) <= 1e-6 * abs(sc) + 1e-6) or (
                        marginal and abs(ll) < 1e-3 * abs(sc))
                if name == 'clipped':
                    ctx.count('room-steps with a wet coil' if not xe > x_nons[0][i] else 'room-steps with a dry coil')
            inside = r['q_min'] <= q <= r['q_max']
            ctx.count('coil within its range' if inside else 'coil outside its range')
            if ll > 1e-6 and any(ok.values()) and S.nxt[i].any() and bool((np.delete(tr.l_l[:, n], i) < -1e-6).any()):
                ctx.known_finding('coil-adds-moisture', at + ', air from rooms with a wet coil is drier than '
                                  'saturated air at this coil')
                added += 1
            if ok['clipped']:
                continue
            if ok['linear'] and not inside:
                ctx.known_finding('coil-air-volume-not-limited', at + f', rated range {r["q_min"]:.0f} to '
                                  f'{r["q_max"]:.0f} W')
                continue
            ctx.violation('latent load of the coil', at + f' does not follow from the coil (x {tr.x_r[i, n]:.6f}, '
                          f'undried {x_nons[0][i]:.6f})')
            return
    ctx.check('no condensation adds moisture', int((tr.l_l[:, skip:] > 1e-6).sum()) == added, 'positive latent load')


def ground_run(ctx, house, drive, rng, days, opt):
    """a run-up of the ground alone: it hands each slab over as its own convolution with the outdoor air leaves it"""
    up = int(rng.integers(1, 4))
    T = len(drive['theta_o'])
    d3 = {n: np.concatenate([v] + [gen_core.random_drive(rng, house, T, opt)[n] for _ in range(3)]) for n, v in drive.items()}
    mean = float(d3['theta_o'].mean())
    for j, b in enumerate(house['boundaries']):
        if b['is_ground'] == 'true':
            d3['theta_o_sol'][:, j] = mean
    tr = gen_core.simulate(ctx, house, d3, days, up, 0)
    slabs = sum(b['is_ground'] == 'true' for b in house['boundaries'])
    ctx.count('houses of three or more slabs', slabs > 2)

    def init(j, rf, h, deep):
        a0, a1, tt0, tt1, r = rf
        va, q = np.zeros_like(r), 0.0
        back = deep * (tt0 + (tt1 / (1.0 - r)).sum())
        for th in d3['theta_o'][len(d3['theta_o']) - up * 96:]:
            va = a1 * q + r * va
            ts = (a0 * h * th + va.sum() + back) / (1.0 + a0 * h)
            q = h * (th - ts)
        ctx.count('walls with a run-up of the ground alone')
        return va, q

    walls(ctx, house, Sys(house, d3, tr.T), tr, 0, ground_init=init, only=lambda j: house['boundaries'][j]['is_ground'] == 'true')
    return tr
