import json

import numpy as np

from vlib import gen_init

ID = 'I03'
RULE = ('each case is a random house; everything the real initializer hands over about boundaries, form factors and '
        'radiant floors (mid_data_house.json) is compared with the description of the house. Non-trivial: boundaries '
        'by kind; distinct by kind, area and construction.')
ASSUMPTIONS = ['documented coupling rules (temperature difference coefficient, far side of inner walls)']
REQUIRE = {'internal': 10, 'ground': 4, 'external_general_part': 30, 'external_transparent_part': 15,
           'external_opaque_part': 6, 'rooms with radiant floor': 4, 'boundaries with part of the outdoor temperature': 8}


def cases(tier, rng):
    return [{'seed': int(rng.integers(0, 2 ** 62))} for _ in range(160 if tier == 'quick' else 1200)]


def run(case, ctx):
    rng = np.random.default_rng(case['seed'])
    d = gen_init.random_input(rng)
    w = {k: np.zeros(gen_init.N) for k in ('temperature', 'absolute humidity', 'normal direct solar radiation',
                                           'horizontal sky solar radiation', 'outward radiation', 'sun altitude',
                                           'sun azimuth')}
    m = gen_init.initialize(ctx, d, w)
    bs = m.house['boundaries']
    if not ctx.check('all boundaries in their order', [b['id'] for b in bs] == [b['id'] for b in d['boundaries']],
                     lambda: str([b['id'] for b in bs])):
        return
    for b, o in zip(d['boundaries'], bs):
        t = b['boundary_type']
        ctx.count(t)
        ctx.nontrivial((t, b['area'], json.dumps(b.get('layers', b.get('u_value')))))
        where = f'boundary {b["id"]} ({t})'
        for k, v in (('name', b['name']), ('connected_space_id', b['connected_room_id']),
                     ('is_ground', 'true' if t == 'ground' else 'false'),
                     ('is_solar_absorbed', str(b['is_solar_absorbed_inside']))):
            ctx.check('carried over: ' + k, o[k] == v, lambda: f'{where}: {o[k]!r} instead of {v!r}')
        ctx.close('carried over: numbers', [o['area'], o['h_c'], o['h_i']],
                  [b['area'], b['h_c'], 1.0 / b['inside_heat_transfer_resistance']], 1e-12, 0, where + ' area, h_c, h_i')
        td = b['temp_dif_coef'] if t.startswith('external') else 1.0 if t == 'ground' else 0.0
        ctx.close('weight of the outdoor side', o['k_outside'], td, 0, 1e-12, where)
        if t == 'internal':
            ctx.check('far side of inner walls', o['k_inside'] is not None and o['k_inside']['id'] ==
                      b['rear_surface_boundary_id'] and o['k_inside']['coef'] == 1.0, lambda: f'{where}: {o["k_inside"]}')
        elif t.startswith('external') and td < 1.0:
            ctx.count('boundaries with part of the outdoor temperature')
            ctx.check('own side of reduced walls', o['k_inside'] is not None and o['k_inside']['id'] == b['id']
                      and abs(o['k_inside']['coef'] - (1.0 - td)) < 1e-12, lambda: f'{where}: {o["k_inside"]}')
        else:
            ctx.check('nothing behind outside walls', o['k_inside'] is None, lambda: f'{where}: {o["k_inside"]}')
        s = o['spec']
        exp = {'boundary_type': t}
        if t in ('external_general_part', 'internal'):
            exp.update(method='layers', layers=b['layers'],
                       outside_heat_transfer_resistance=b['outside_heat_transfer_resistance'])
        elif t == 'ground':
            exp.update(method='layers_ground', layers=b['layers'])
        else:
            exp.update(method='u_value', u_value=b['u_value'],
                       inside_heat_transfer_resistance=b['inside_heat_transfer_resistance'])
        ctx.check('construction', all(s.get(k) == v for k, v in exp.items()), lambda: f'{where}: {s} for {exp}')
    for i, r in enumerate(d['rooms']):
        mine = [k for k, b in enumerate(d['boundaries']) if b['connected_room_id'] == i]
        fl = [k for k in mine if d['boundaries'][k]['is_floor']]
        nf = [k for k in mine if k not in fl]
        a = {k: d['boundaries'][k]['area'] for k in mine}
        for ks, tot in ((fl, 0.45 if nf else 1.0), (nf, 0.55 if fl else 1.0)):
            s = sum(a[k] for k in ks)
            for k in ks:
                ctx.close('view of the occupants', bs[k]['f_mrt_hum'], tot * a[k] / s, 1e-9, 0, f'room {i} boundary {k}')
        if mine:
            ctx.close('occupants see the whole room', sum(bs[k]['f_mrt_hum'] for k in mine), 1.0, 1e-9, 0, f'room {i}')
        rad = 'radiative' in (r['heating_equipment']['equipment_type'], r['cooling_equipment']['equipment_type'])
        if rad:
            ctx.count('rooms with radiant floor')
        for k in mine:
            e = a[k] / sum(a[q] for q in fl) if rad and k in fl else 0.0
            ctx.close('radiant floor heat by area', bs[k]['flr'], e, 1e-9, 1e-12, f'room {i} boundary {k}')
        if rad and fl:
            ctx.close('all radiant heat goes to the floor', sum(bs[k]['flr'] for k in mine), 1.0, 1e-9, 0, f'room {i}')
    ctx.set_sample({'boundaries': [b['boundary_type'] for b in d['boundaries']]})
