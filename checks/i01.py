import numpy as np

from vlib import gen_init

ID = 'I01'
RULE = ('each case is a random house (floor areas for fewer than one to more than four residents, rooms in any order); '
        'ventilation, gains, moisture, occupants and demand written by the real initializer are compared at every '
        'quarter of an hour with an independent reading of the schedules. Non-trivial: every room; distinct by kind of '
        'room, floor area and number of residents.')
ASSUMPTIONS = ['the schedules file is the specification of use']
REQUIRE = {'rooms': 20, 'whole residents': 2, 'fractional residents': 4, 'one resident': 2, 'four residents': 2}


def cases(tier, rng):
    # with known floor areas: limits and whole numbers of residents
    fixed = [20.0, 29.999, 30.0, 60.0, 90.0, 120.0, 200.0, 45.0]
    return [{'seed': int(rng.integers(0, 2 ** 62)), 'total': fixed[k] if k < len(fixed) else None}
            for k in range(72 if tier == 'quick' else 400)]


def run(case, ctx):
    rng = np.random.default_rng(case['seed'])
    d = gen_init.random_input(rng)
    if case['total']:
        f = case['total'] / sum(r['floor_area'] for r in d['rooms'])
        for r in d['rooms']:
            r['floor_area'] *= f
        if len(d['rooms']) == 1:
            d['rooms'][0]['floor_area'] = case['total']
    w = {k: np.zeros(gen_init.N) for k in ('temperature', 'absolute humidity', 'normal direct solar radiation',
                                           'horizontal sky solar radiation', 'outward radiation', 'sun altitude',
                                           'sun azimuth')}
    m = gen_init.initialize(ctx, d, w)
    s = gen_init.schedules()
    n = gen_init.residents(sum(r['floor_area'] for r in d['rooms']))
    ctx.count('one resident' if n == 1 else 'four residents' if n == 4 else 'fractional residents')
    if abs(n - round(n)) < 1e-9:
        ctx.count('whole residents')
    for name in gen_init.MID[:5]:
        a = getattr(m, name)
        if not ctx.check('a year for every room', a.shape == (gen_init.N, len(d['rooms'])),
                         lambda: f'{name} {a.shape}'):
            return
    for i, r in enumerate(d['rooms']):
        q = {k: gen_init.series(s, r['name'], t, n) for k, t in gen_init.TYPES.items()}
        ctx.count('rooms')
        ctx.nontrivial((r['name'], round(r['floor_area'], 6), round(n, 6)))
        w_ = f'room {r["name"]} with {n:.3f} residents'
        ctx.close('local ventilation', m.local_vent[:, i], q['v'] / 3600.0, 1e-9, 1e-12, w_)
        ctx.close('occupants', m.occupants[:, i], q['n'], 1e-9, 1e-9, w_)
        ctx.close('demand', m.ac_demand[:, i], q['ac'], 1e-9, 1e-9, w_)
        known = q['app'] + q['xckg'] + q['lgt'] * r['floor_area']
        right = q['app'] + q['ckg'] + q['lgt'] * r['floor_area']
        kx, rx = q['ckg'] / 1000.0 / 3600.0, q['xckg'] / 1000.0 / 3600.0
        for name, obs, e, k, at in (('heat generation', m.heat_generation[:, i], right, known, 1e-6),
                                    ('moisture generation', m.moisture_generation[:, i], rx, kx, 1e-13)):
            same = np.abs(obs - e) <= at + 1e-9 * np.abs(e)
            if not same.all() and np.all(np.abs(obs - k) <= at + 1e-9 * np.abs(k)):
                ctx.count('eval:' + name, obs.size)
                ctx.known_finding('cooking-heat-and-moisture-swapped', f'{w_}: {name} is that of the other schedule, '
                                                                       f'peak {obs.max():.3g} instead of {e.max():.3g}')
                continue
            ctx.close(name, obs, e, 1e-9, at, w_)
    ctx.set_sample({'rooms': [r['name'] for r in d['rooms']], 'residents': n})
