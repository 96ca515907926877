import copy

import numpy as np

from vlib import core_cases, gen_core

ID = 'C08'
RULE = core_cases.RULE + ('Here the same house is simulated again with rooms renumbered and boundaries listed in another '
                          'order ("permuted"), together with an identical twin house ("twin"), and together with '
        'another house of other season and use ("company", without infiltration, which the program documents as a '
        'function of the mean temperature of all rooms); every room and '
                          'every boundary must report the same. Non-trivial: the order really changed.')
ASSUMPTIONS = ['comparison stops at a step where a room switches its mode in one run only by rounding (never seen)']
REQUIRE = {'eval:same rooms': 20000, 'eval:same boundaries': 50000, 'permuted': 10, 'twins': 5, 'companies': 8,
           'steps of opposite operation': 50}


def cases(tier, rng):
    q = tier == 'quick'
    cs = core_cases.std_cases(rng, 60 if q else 600, days=1, rooms=lambda k: [None, 2, 3, 4][k % 4],
                              intervent=lambda k: k % 6 == 5, kind='permuted')
    cs += core_cases.std_cases(rng, 24 if q else 180, days=1, rooms=lambda k: [1, 2][k % 2], kind='twin')
    cs += core_cases.std_cases(rng, 48 if q else 360, days=1, rooms=lambda k: [1, 2, 3][k % 3], kind='company')
    cs += core_cases.std_cases(rng, 8 if q else 40, days=1, rooms=lambda k: 5 + k % 8, intervent=lambda k: k % 3 == 2,
                               kind='permuted')
    cs += core_cases.std_cases(rng, 4 if q else 20, days=1, rooms=lambda k: 4 + k % 4, kind='company')
    if not q:
        cs += core_cases.std_cases(rng, 16, days=6, kind='permuted')
    return cs


ROOMS = [('th_r', 1e-5), ('ot', 1e-5), ('mrt', 1e-5), ('x_r', 1e-9), ('th_frt', 1e-5), ('l_cs', 1e-2), ('l_rs', 1e-2),
         ('l_l', 1e-2), ('q_hum', 1e-4), ('v_leak', 1e-9), ('v_ntrl', 1e-9), ('q_sol_frt', 1e-6)]
BDRY = [('t_s', 1e-5), ('t_e', 1e-5), ('t_b', 1e-5), ('q_all', 1e-3), ('qr', 1e-2), ('qc', 1e-2), ('q_sol_s', 1e-6),
        ('h_r', 1e-7)]


def compare(ctx, t0, t1, rmap, bmap):
    """rmap[i], bmap[j]: index in t1 of room i / boundary j of t0"""
    m1 = t1.mode[rmap]
    ctx.check('same modes', bool((t0.mode == m1).all()), lambda: f'modes differ at {np.argwhere(t0.mode != m1)[0]}')
    for g, tol in ROOMS:
        ctx.close('same rooms', getattr(t1, g)[rmap], getattr(t0, g), 1e-6, tol, g)
    for g, tol in BDRY:
        ctx.close('same boundaries', getattr(t1, g)[bmap], getattr(t0, g), 1e-6, tol, g)


def join(h1, h2, d1, d2):
    """one description of two houses with nothing in common but the weather"""
    n1, n2, b1 = len(h1['spaces']), len(h2['spaces']), len(h1['boundaries'])
    h = copy.deepcopy(h1)
    s2, bs2 = copy.deepcopy(h2['spaces']), copy.deepcopy(h2['boundaries'])
    for s in h['spaces']:
        s['ventilation']['next_spaces'] = s['ventilation']['next_spaces'] + [0.0] * n2
    for s in s2:
        s['id'] += n1
        s['ventilation']['next_spaces'] = [0.0] * n1 + s['ventilation']['next_spaces']
    for b in bs2:
        b['id'] += b1
        b['connected_space_id'] += n1
        if b['k_inside'] is not None:
            b['k_inside']['id'] += b1
    h['spaces'] += s2
    h['boundaries'] += bs2
    return h, {k: (np.concatenate([v, d2[k]], axis=1) if np.ndim(v) == 2 else v) for k, v in d1.items()}


def run(case, ctx):
    rng = np.random.default_rng(case['seed'])
    house, drive = gen_core.random_house(rng, n_rooms=case['rooms'], days=case['days'], intervent=case['intervent'],
                                         opt=case['opt'])
    ni, nb = len(house['spaces']), len(house['boundaries'])
    t0 = None if case['kind'] == 'company' else gen_core.simulate(ctx, house, drive, case['days'])
    if case['kind'] == 'permuted':
        pr = [int(v) for v in rng.permutation(ni)]      # new room r is old room pr[r]
        pb = [int(v) for v in rng.permutation(nb)]
        rpos = {o: n for n, o in enumerate(pr)}
        bpos = {o: n for n, o in enumerate(pb)}
        h2 = copy.deepcopy(house)
        h2['spaces'] = [copy.deepcopy(house['spaces'][o]) for o in pr]
        for n, s in enumerate(h2['spaces']):
            s['id'] = n
            s['ventilation']['next_spaces'] = [s['ventilation']['next_spaces'][o] for o in pr]
        h2['boundaries'] = [copy.deepcopy(house['boundaries'][o]) for o in pb]
        for n, b in enumerate(h2['boundaries']):
            b['id'] = n
            b['connected_space_id'] = rpos[b['connected_space_id']]
            if b['k_inside'] is not None:
                b['k_inside']['id'] = bpos[b['k_inside']['id']]
        d2 = {k: (v[:, pb] if k == 'theta_o_sol' else v[:, pr] if np.ndim(v) == 2 else v) for k, v in drive.items()}
        t1 = gen_core.simulate(ctx, h2, d2, case['days'])
        compare(ctx, t0, t1, [rpos[i] for i in range(ni)], [bpos[j] for j in range(nb)])
        ctx.count('permuted')
        if pr != sorted(pr) or pb != sorted(pb):
            ctx.nontrivial((pr, pb, core_cases.signature(house, t0)))
    elif case['kind'] == 'twin':
        h2, d2 = join(house, house, drive, drive)
        t1 = gen_core.simulate(ctx, h2, d2, case['days'])
        compare(ctx, t0, t1, list(range(ni)), list(range(nb)))
        compare(ctx, t0, t1, list(range(ni, 2 * ni)), list(range(nb, 2 * nb)))
        ctx.count('twins')
        ctx.nontrivial(('twin', core_cases.signature(house, t0)))
    else:
        other, d_other = gen_core.random_house(rng, n_rooms=int(rng.integers(1, 3)), days=case['days'],
                                               opt={'demand': 'always', 'shock': bool(rng.random() < 0.3)})
        for h in (house, other):
            h['building'].update(inside_pressure='balanced', c_value=0.0)
        if rng.random() < 0.7:
            # the one cold, the other full of heat
            hot, cold = (drive, d_other) if rng.random() < 0.5 else (d_other, drive)
            hot['heat_generation'] += rng.uniform(1500.0, 6000.0)
            cold['heat_generation'] *= 0.1
            drive['theta_o'] -= drive['theta_o'].mean() - rng.uniform(-5.0, 14.0)
            drive['x_o'] = np.minimum(drive['x_o'], 0.004)
            drive['ac_demand'][:] = 1.0
        d_other['theta_o'], d_other['x_o'] = drive['theta_o'], drive['x_o']
        t0 = gen_core.simulate(ctx, house, drive, case['days'])
        t2 = gen_core.simulate(ctx, other, d_other, case['days'])
        first = bool(rng.random() < 0.5)
        n2, nb2 = len(other['spaces']), len(other['boundaries'])
        h2, d2 = join(house, other, drive, d_other) if first else join(other, house, d_other, drive)
        t1 = gen_core.simulate(ctx, h2, d2, case['days'])
        o, p = (0, 0) if first else (n2, nb2)
        compare(ctx, t0, t1, [o + i for i in range(ni)], [p + j for j in range(nb)])
        o, p = (ni, nb) if first else (0, 0)
        compare(ctx, t2, t1, [o + i for i in range(n2)], [p + j for j in range(nb2)])
        ctx.count('companies')
        heats = ((t0.l_cs + t0.l_rs) > 1.0).any(axis=0), ((t2.l_cs + t2.l_rs) > 1.0).any(axis=0)
        cools = ((t0.l_cs + t0.l_rs) < -1.0).any(axis=0), ((t2.l_cs + t2.l_rs) < -1.0).any(axis=0)
        ctx.count('steps of opposite operation', int((heats[0] & cools[1] | heats[1] & cools[0]).sum()))
        ctx.nontrivial(('company', core_cases.signature(house, t0), core_cases.signature(other, t2)))
    ctx.set_sample({'kind': case['kind'], 'rooms': ni, 'boundaries': nb})
