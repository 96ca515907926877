import json

import numpy as np

from vlib import gen_init

ID = 'I04'
RULE = ('each case is a random house; rooms, furniture, ventilation, equipment and building handed over by the real '
        'initializer (mid_data_house.json) are compared with the description of the house. Non-trivial: a room; '
        'distinct by volume, equipment and ventilation.')
ASSUMPTIONS = ['documented furniture (12.6 kJ/K, 16.8 kg/(kg/kg) per cubic metre of room, 0.00022 and 0.0018 per '
               'second)', 'temporary equipment such as air volume of heating is not used by the simulation']
REQUIRE = {'convective': 20, 'radiative': 15, 'not_installed': 8, 'rooms with air from others': 15,
           'several ways of air from one room': 2, 'whole volumes': 8}


def cases(tier, rng):
    return [{'seed': int(rng.integers(0, 2 ** 62))} for _ in range(160 if tier == 'quick' else 1200)]


def run(case, ctx):
    rng = np.random.default_rng(case['seed'])
    d = gen_init.random_input(rng)
    w = {k: np.zeros(gen_init.N) for k in ('temperature', 'absolute humidity', 'normal direct solar radiation',
                                           'horizontal sky solar radiation', 'outward radiation', 'sun altitude',
                                           'sun azimuth')}
    m = gen_init.initialize(ctx, d, w)
    ctx.check('building', m.house['building'] == dict(d['building'], infiltration_method='balance_residential'),
              lambda: f'{m.house["building"]} for {d["building"]}')
    ss = m.house['spaces']
    n = len(d['rooms'])
    if not ctx.check('all rooms in their order', [s['id'] for s in ss] == list(range(n))
                     and [s['name'] for s in ss] == [r['name'] for r in d['rooms']], lambda: str([s['id'] for s in ss])):
        return
    for i, (r, s) in enumerate(zip(d['rooms'], ss)):
        v = r['volume']
        where = f'room {i}'
        ctx.nontrivial((v, json.dumps(r['heating_equipment']), json.dumps(r['cooling_equipment']), r['vent']))
        ctx.count('whole volumes', isinstance(v, int))
        ctx.close('volume', s['volume'], v, 1e-12, 0, where)
        f = s['furniture']
        ctx.close('furniture', [f['heat_capacity'], f['heat_cond'], f['moisture_capacity'], f['moisture_cond']],
                  [12600.0 * v, 12600.0 * v * 0.00022, 16.8 * v, 16.8 * v * 0.0018], 1e-9, 0, where)
        ve = s['ventilation']
        ctx.close('mechanical ventilation', ve['mechanical'], r['vent'] / 3600.0, 1e-9, 1e-15, where)
        ctx.close('natural ventilation', ve['natural'], v * r['natural_vent_time'] / 3600.0, 1e-9, 1e-15, where)
        exp = np.zeros(n)
        for x in r['next_vent']:
            exp[x['upstream_room_id']] += x['volume'] / 3600.0
        up = [x['upstream_room_id'] for x in r['next_vent']]
        ctx.count('rooms with air from others', bool(up))
        ctx.count('several ways of air from one room', len(set(up)) < len(up))
        ctx.close('air from other rooms', ve['next_spaces'], exp, 1e-9, 1e-15, where)
        ctx.close('share of convection', s['beta'], 0.0, 0, 1e-12, where)
        for kind in ('heating', 'cooling'):
            e = r[kind + '_equipment']
            o = s['equipment'][kind]
            t = e['equipment_type']
            ctx.count(t)
            ctx.check('kind of equipment', bool(o['convective']['installed']) == (t == 'convective')
                      and bool(o['radiative']['installed']) == (t == 'radiative'), lambda: f'{where} {kind} {t}: {o}')
            if t == 'radiative':
                ctx.close('radiative capacity', o['radiative'].get('max_capacity', np.nan),
                          e['radiative']['max_capacity'] * e['radiative']['area'], 1e-12, 0, f'{where} {kind}')
            if t == 'convective' and kind == 'cooling':
                k = ('q_min', 'q_max', 'v_min', 'v_max')
                ctx.close('air conditioner', [o['convective'].get(x, np.nan) for x in k],
                          [e['convective'][x] for x in k], 1e-12, 0, where)
    ctx.set_sample({'rooms': [(r['name'], r['heating_equipment']['equipment_type'],
                               r['cooling_equipment']['equipment_type']) for r in d['rooms']]})
