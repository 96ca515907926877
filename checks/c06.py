import numpy as np

from vlib import core_cases, core_oracle, gen_core, ref_rf

ID = 'C06'
RULE = core_cases.RULE + ('Here weather, gains and ventilation are held constant for weeks. "uniform": outdoors, sol-air '
                          'and ground have one temperature and one humidity and nothing is released indoors; "steady": '
                          'different temperatures, gains, sun and (in half of the cases) conditioning. Non-trivial: '
                          'the final state was close enough to rest to be judged.')
ASSUMPTIONS = ['rest is judged with a tolerance of 12 times the drift during the last day or twice the range of the '
               'last eight days (the slowest documented root of a wall decays within 5.8 days)', 'the steady case leaves out ground floors (time constants of '
               'years) and walls shared by two rooms (known finding under C03)']
REQUIRE = {'eval:uniform house takes the outdoor temperature': 20, 'eval:steady heat flow through a wall': 40,
           'eval:steady room heat balance': 10}


def cases(tier, rng):
    q = tier == 'quick'
    cs = core_cases.std_cases(rng, 12 if q else 60, days=40 if q else 90, kind='uniform', opt={'demand': 'none'})
    cs += core_cases.std_cases(rng, 16 if q else 80, days=40 if q else 90, kind='steady',
                               opt=lambda k: {'demand': ['none', 'always'][k % 2], 'ground': 0.0, 'pairs': 0, 'within': 0.0})
    cs += core_cases.std_cases(rng, 2 if q else 10, days=40, rooms=lambda k: 5 + 3 * k, kind='steady',
                               opt=lambda k: {'demand': ['none', 'always'][k % 2], 'ground': 0.0, 'pairs': 0, 'within': 0.0})
    return cs


def unrest(a):
    """how far signals [item, step] may still be from where they are heading"""
    d1, d0 = np.abs(a[:, -1] - a[:, -385]), np.abs(a[:, -385] - a[:, -769])
    r = np.minimum(d1 / np.maximum(d0, 1e-300), 1.0)
    slow = np.where(r < 0.8, 4.0 * d1 * r / (1.0 - np.minimum(r, 0.8)), 100.0 * d1)
    # windows opened and closed in turn, or a slow swing, are no rest either: look at all of the last eight days
    t = np.maximum(np.maximum(12.0 * np.abs(a[:, -1] - a[:, -97]), 2.0 * np.ptp(a[:, -769:], axis=1)), slow)
    return float(t.max())


def run(case, ctx):
    rng = np.random.default_rng(case['seed'])
    house, d1 = gen_core.random_house(rng, n_rooms=case['rooms'], days=1, opt=case['opt'])
    days = case['days']
    T = days * 96
    n, nb = len(house['spaces']), len(house['boundaries'])
    row = {k: np.asarray(v, float).mean(axis=0) for k, v in d1.items()}
    row['occupants'] = row['occupants'] * 0.0
    if case['kind'] == 'uniform':
        th = float(rng.uniform(-10.0, 35.0))
        row['theta_o'], row['x_o'] = np.array(th), np.array(rng.uniform(0.001, 0.015))
        row['theta_o_sol'] = np.array([0.0 if b['k_outside'] == 0.0 else th for b in house['boundaries']])
        for k in ('heat_generation', 'moisture_generation', 'q_trs_sol'):
            row[k] = row[k] * 0.0
        row['ac_demand'] = np.zeros(n)
    else:
        row['ac_demand'] = np.ones(n) if case['opt']['demand'] == 'always' else np.zeros(n)
    drive = {k: np.broadcast_to(v, (T,) + np.shape(v)).copy() for k, v in row.items()}
    tr = gen_core.simulate(ctx, house, drive, days)
    S = core_oracle.Sys(house, drive, tr.T)
    drift = max(float(np.abs(a[:, -1] - a[:, -97]).max()) for a in (tr.th_r, tr.t_s, tr.th_frt))
    swing = max(float(np.ptp(a[:, -769:], axis=1).max()) for a in (tr.th_r, tr.t_s, tr.th_frt))
    tol = max(max(unrest(a) for a in (tr.th_r, tr.t_s, tr.th_frt)), 2.0 * swing) + 1e-6
    ctx.count('houses')
    ctx.set_sample({'kind': case['kind'], 'rooms': n, 'boundaries': nb, 'days': days, 'drift last day K': drift,
                    'final room temperatures': [round(float(v), 4) for v in tr.th_r[:, -1]]})
    if tol > 0.2:
        ctx.count('not at rest')
        return
    ctx.nontrivial(core_cases.signature(house, tr))
    if case['kind'] == 'uniform':
        # ground stays in contact with its own large storage; judge with its slow drift
        g = 60.0 if any(b['is_ground'] == 'true' for b in house['boundaries']) else 1.0
        ctx.close('uniform house takes the outdoor temperature', tr.th_r[:, -1], th, 0.0, max(tol * g, 1e-4), 'rooms')
        ctx.close('uniform house takes the outdoor temperature', tr.t_s[:, -1], th, 0.0, max(tol * g, 1e-4), 'surfaces')
        ctx.close('uniform house takes the outdoor temperature', tr.ot[:, -1], th, 0.0, max(tol * g, 1e-4), 'operative')
        ctx.close('uniform house carries no heat', tr.q_all[:, -1], 0.0, 0.0, 20.0 * tol * g + 1e-3, 'surface heat flow')
        vo = (tr.v_leak + S.mech[:, None] + S.local)[:, -1]
        fresh = vo > 1e-3
        tx = max(unrest(tr.x_r), unrest(tr.x_frt))
        if tx < 1e-3:
            ctx.close('uniform house takes the outdoor humidity', tr.x_r[fresh, -1], S.x_o[-1], 0.0, tx + 1e-7, 'rooms')
        else:
            ctx.count('humidity not at rest')
        return
    R = np.array([ref_rf.resistance(b['spec']) for b in house['boundaries']])
    rear = S.k_in @ tr.t_e[:, -1] + S.k_out * S.tos[:, -1]
    q = tr.q_all[:, -1]
    h_i = (tr.h_r + tr.h_c)[:, -1]
    # heat flow from the equivalent room temperature through film and wall: U (theta_e - theta_rear)
    u = 1.0 / (1.0 / h_i + R)
    ctx.close('steady heat flow through a wall', q, u * (tr.t_e[:, -1] - rear), 0.0, 5.0 * tol * (u + 1.0) + 1e-5,
              'walls at rest')
    # whole room: everything released indoors leaves through walls and ventilation
    vo = (tr.v_leak + tr.v_ntrl + S.mech[:, None] + S.local)[:, -1]
    gains = S.q_gen[:, -1] + S.q_trs[:, -1] + tr.l_cs[:, -1] + tr.l_rs[:, -1]
    out = S.P @ (S.area * u * (tr.t_e[:, -1] - rear)) + 1005.0 * 1.2 * vo * (tr.th_r[:, -1] - S.theta_o[-1])
    rad_ok = np.array([not (S.rad_h[i] or S.rad_c[i]) or abs(S.flr[S.room == i].sum() - 1.0) < 1e-9
                       for i in range(n)])
    a = S.P @ S.area
    cap = 1005 * 1.2 * S.vol / 900.0 + S.Cf / 900.0 + 12 * a
    ctx.close('steady room heat balance', (gains - out)[rad_ok], 0.0, 0.0, (tol * cap)[rad_ok] + 1e-3, 'rooms at rest')
