import copy
import json

import numpy as np

from vlib import gen_env

ID = 'V04'
RULE = ('each case is a random envelope with random rooms (all kinds of parts, constructions, shades, neighbours, directions); '
        'every part is read into the objects of the program and written again, asked for its heat loss and solar gain, and '
        'turned into its description for the initializer. Non-trivial: every part; distinct by part.')
ASSUMPTIONS = ['standard constructions for parts given by U value only, and surface resistances, as documented']
REQUIRE = {'eval:written as read': 500, 'eval:U value reaches the initializer': 200, 'structure wood': 30, 'structure rc': 30,
           'structure steel': 30, 'structure other': 30, 'without insulation': 5, 'complex shades': 20, 'heat bridges of many sides': 60,
           'refused:ratio of parts': 30, 'refused:room unknown': 30, 'refused:word': 50}
GB, PW12, PW24, CON = (.0095 / .221, .0095 * 830), (.012 / .16, .012 * 720), (.024 / .16, .024 * 720), (.12 / 1.6, .12 * 2000)
INS = None
LAYERS = {'light': {'roof': [GB, INS], 'ceiling': [GB, INS], 'wall': [GB, INS, PW12], 'floor': [PW24, INS],
                    'boundary_wall': [GB, INS, GB], 'upward_boundary_floor': [GB, INS, PW24],
                    'downward_boundary_floor': [PW24, INS, GB]},
          'heavy': {'roof': [GB, INS, CON], 'ceiling': [GB, INS, CON], 'wall': [GB, INS, CON], 'floor': [PW24, INS, CON],
                    'boundary_wall': [GB, INS, GB], 'upward_boundary_floor': [GB, CON, INS, PW24],
                    'downward_boundary_floor': [PW24, INS, CON, GB]}}
SRF = {'roof': (.09, .04), 'ceiling': (.09, .09), 'wall': (.11, .04), 'floor': (.15, .15), 'boundary_wall': (.11, .11),
       'upward_boundary_floor': (.09, .09), 'downward_boundary_floor': (.15, .15)}
ROOM = {'main_occupant_room': 0, 'other_occupant_room': 1, 'non_occupant_room': 2, 'underfloor': 3}


def cases(tier, rng):
    return [{'seed': int(rng.integers(0, 2 ** 62))} for _ in range(1500 if tier == "quick" else 30000)]


def shade_dict(s):
    if not s['is_defined'] or s['input'] == 'not_exist':
        return {'existence': False}
    if s['input'] == 'not_input':
        return None
    return dict({'existence': True, 'input_method': {'simple': 'simple', 'complex': 'detailed'}[s['input']]},
                **{k: v for k, v in s.items() if k not in ('is_defined', 'input')})


def common(ctx, p, d, region, absorbed):
    sun = p['next_space'] == 'outdoor'
    ctx.check('the room by its number', d['connected_room_id'] == ROOM[p['space_type']], lambda: f'{p} {d}')
    ctx.check('sun only from outdoors', d['is_sun_striked_outside'] is sun, lambda: f'{p} {d}')
    ctx.close('temperature difference coefficient', d['temp_dif_coef'], gen_env.h(p['next_space'], region), 0, 0,
              f'{p["next_space"]} region {region}')
    ctx.check('sun is absorbed by floors', d['is_solar_absorbed_inside'] is absorbed, lambda: f'{p} {d}')
    ctx.check('direction of sunlit parts', not sun or d['direction'] == p['direction'], lambda: f'{p} {d}')


def run(case, ctx):
    from heat_load_calc.convert import ees_house as h
    rng = np.random.default_rng(case['seed'])
    region = int(rng.integers(1, 9))
    e = gen_env.random_envelope(rng, space=lambda: str(rng.choice(list(ROOM))), complex_ok=True)
    makers = {'general_parts': h.GeneralPart.make_general_parts, 'windows': h.Window.make_windows, 'doors': h.Door.make_doors,
              'earthfloor_perimeters': h.EarthfloorPerimeter.make_earthfloor_perimeters,
              'earthfloor_centers': h.EarthfloorCenter.make_earthfloor_centers,
              'heat_bridges': h.Heatbridge.make_heatbridges}
    e['inner_floors'] = [{'name': f'if{k}', 'area': float(rng.uniform(1, 30)), 'upper_space_type': str(rng.choice(list(ROOM))),
                          'lower_space_type': str(rng.choice(list(ROOM))), 'spec': {'layers': [gen_env.layer(rng)]}}
                         for k in range(gen_env.several(rng, 0, 3, 12))]
    e['inner_walls'] = [{'name': f'iw{k}', 'area': float(rng.uniform(1, 30)), 'space_type_1': str(rng.choice(list(ROOM))),
                         'space_type_2': str(rng.choice(list(ROOM))), 'spec': {'layers': [gen_env.layer(rng)]}}
                        for k in range(gen_env.several(rng, 0, 3, 12))]
    makers.update(inner_floors=h.InnerFloor.make_inner_floors, inner_walls=h.InnerWall.make_inner_walls)
    before = copy.deepcopy(e)
    obj = {k: ctx.sut('reading ' + k, makers[k], e[k]) for k in e}
    u_add = float(rng.choice([0.0, rng.uniform(0.0, 0.3), rng.uniform(0.3, 2.0)], p=[.5, .4, .1]))
    for k, os in obj.items():
        ctx.check('as many parts as given', len(os) == len(e[k]), lambda: f'{k} {len(os)} {len(e[k])}')
        for p, o in zip(before[k], os):
            ctx.nontrivial((k, json.dumps(p, sort_keys=True)))
            d = ctx.sut('writing', o.get_as_dict)
            ctx.check('written as read', json.loads(json.dumps(d)) == p, lambda: f'{k}: {p} became {d}')
            shade = p.get('sunshade', {})
            cplx = shade.get('input') in ('complex', 'not_exist')
            ctx.count('complex shades', cplx)
            if k in ('earthfloor_centers', 'inner_floors', 'inner_walls'):
                continue
            # heat loss and solar gain
            sp = p['spec']
            u = {'general_parts': lambda: gen_env.u_spec(sp)}.get(k, lambda: sp.get('u_value', sp.get('psi_value')))()
            size = p.get('area', p.get('length'))
            ctx.count('heat bridges of many sides', len(p.get('next_spaces', [])) > 2)
            hs = [gen_env.h(s, region) for s in p.get('next_spaces', [p.get('next_space')])]
            ctx.close('heat loss of a part', o.get_q(region=region), size * u * float(np.mean(hs)), 1e-12, 0, f'{k} {p}')
            for season in ('heating', 'cooling'):
                if k == 'earthfloor_perimeters' or season == 'heating' and region == 8:
                    continue
                if k == 'heat_bridges':
                    m = size * 0.034 * u * float(np.mean([
                        gen_env.nu(v, region, season) if s == 'outdoor' else 0.0
                        for s, v in zip(p['next_spaces'], p['directions'])]))
                elif p['next_space'] != 'outdoor':
                    m = 0.0
                elif cplx:
                    continue
                else:
                    m = size * gen_env.nu(p['direction'], region, season)
                    if k == 'windows':
                        m *= sp[{'heating': 'eta_d_h_value', 'cooling': 'eta_d_c_value'}[season]] * gen_env.f_window(
                            shade, p['direction'], region, season)
                    else:
                        m *= 0.034 * u
                ctx.close('solar gain of a part', o.get_m(region=region, season=season), m, 1e-12, 0,
                          f'{k} {season} region {region} {p}')
            # description for the initializer
            if k in ('windows', 'doors'):
                d = ctx.sut('initializer', o.make_initializer_dict, region=region)
                common(ctx, p, d, region, False)
                ctx.check('name and kind', (d['name'], d['boundary_type']) == (p['name'], {
                    'windows': 'external_transparent_part', 'doors': 'external_opaque_part'}[k]), lambda: str(d))
                got = [d['area'], d['u_value'], d['inside_heat_transfer_resistance'], d['outside_heat_transfer_resistance'],
                       d['outside_emissivity']]
                exp = [p['area'], sp['u_value'], .13, .04, .9]
                if k == 'windows':
                    got += [d['eta_d_h_value'], d['eta_d_c_value']]
                    exp += [sp['eta_d_h_value'], sp['eta_d_c_value']]
                    ctx.check('glass', d['incident_angle_characteristics'] == sp['glass_type'], lambda: str(d))
                else:
                    got.append(d['outside_solar_absorption'])
                    exp.append(.8)
                ctx.close('figures of openings', got, exp, 0, 0, f'{k} {p}')
            elif k == 'general_parts':
                ds = ctx.sut('initializer', o.make_initializer_dict, u_add=u_add, region=region)
                t = p['general_part_type']
                if sp['structure'] == 'other':
                    rin, rex = SRF[t]
                    fixed = [v for v in LAYERS[sp['weight']][t]]
                    r_ins = 1 / sp['u_value_other'] - rin - rex - sum(v[0] for v in fixed if v)
                    ctx.count('without insulation', r_ins <= 0)
                    r_ins = max(r_ins, 0.0)
                    ref = [('sole_part', 1.0, [v or (r_ins, r_ins * .045 * 13.0) for v in fixed])]
                else:
                    rin, rex = sp['r_srf_in'], sp['r_srf_ex']
                    ref = [(q['name'], q['part_area_ratio'], [(gen_env.r_layer(v), v['thickness'] * v['volumetric_specific_heat'])
                                                             for v in q['layers']]) for q in sp['parts']]
                ctx.count('structure ' + sp['structure'])
                if not ctx.check('one boundary for each part', len(ds) == len(ref), lambda: f'{len(ds)} {len(ref)}'):
                    continue
                more = u_add + sp.get('u_r_value_steel', 0.0)
                for d, (n, a, ls) in zip(ds, ref):
                    common(ctx, p, d, region, t in ('floor', 'downward_boundary_floor'))
                    ctx.check('name and kind', (d['name'], d['boundary_type']) == (
                        p['name'] + '_' + n, 'external_general_part'), lambda: str(d))
                    ctx.close('figures of general parts', [d['area'], d['inside_heat_transfer_resistance'],
                                                           d['outside_heat_transfer_resistance'], d['outside_emissivity'],
                                                           d['outside_solar_absorption']],
                              [p['area'] * a, rin, rex, .9, .8], 1e-12, 0, str(p))
                    r = [v['thermal_resistance'] for v in d['layers']]
                    want = 1 / (rin + rex + sum(v[0] for v in ls)) + more
                    ctx.close('U value reaches the initializer', 1 / (rin + rex + sum(r)), want, 1e-9, 0,
                              f'{sp["structure"]} {t} {sp.get("weight")} + {more}')
                    ctx.close('heat capacity of the layers', [v['thermal_capacity'] for v in d['layers']],
                              [v[1] for v in ls], 1e-9, 1e-9, f'{sp["structure"]} {t}')
                    s = sum(v[0] for v in ls)
                    ctx.close('layers share the resistance as before', np.array(r) / sum(r), [v[0] / s for v in ls], 1e-9,
                              1e-9, f'{sp["structure"]} {t}')
                ctx.close('areas of the parts add up', sum(d['area'] for d in ds), p['area'], 1e-9, 0, str(p))
                d = ds[0]
            else:
                continue
            exp = shade_dict(shade)
            if exp is not None:
                ctx.check('shade reaches the initializer', d['solar_shading_part'] == exp, lambda: f'{shade} {d}')
            elif k == 'windows':
                ctx.check('shade reaches the initializer', d['solar_shading_part'] == {
                    'existence': True, 'input_method': 'default'}, lambda: f'{shade} {d}')
            else:
                ctx.check('shade reaches the initializer', d['solar_shading_part'] == {'existence': False},
                          lambda: f'{shade} {d}')
            q = copy.deepcopy(p)
            q['space_type'] = 'undefined'
            kw = {'u_add': u_add} if k == 'general_parts' else {}
            ctx.raises('room unknown', (ValueError,), lambda: makers[k]([q])[0].make_initializer_dict(region=region, **kw))
    ctx.check('input is not changed', e == before, 'the input was changed')
    # asked once more, the parts say the same
    for k, os in obj.items():
        for o in os:
            first, kw = ctx.sut('writing', o.get_as_dict), {'u_add': u_add} if k == 'general_parts' else {}
            if k in ('windows', 'doors', 'general_parts'):
                one = json.dumps(ctx.sut('initializer', o.make_initializer_dict, region=region, **kw))
                two = json.dumps(ctx.sut('initializer', o.make_initializer_dict, region=region, **kw))
                ctx.check('asked again, a part says the same', one == two and ctx.sut('writing', o.get_as_dict) == first,
                          lambda: f'{one} {two}')
    # faults
    k = str(rng.choice(['general_parts', 'windows']))
    for key, val in (('next_space', 'cellar'), ('direction', 'up'), ('space_type', 'kitchen')):
        q = copy.deepcopy(before[k][0])
        q[key] = val
        ctx.raises('word', (ValueError,), makers[k], [q])
    for p in before['general_parts']:
        if p['spec']['structure'] != 'other':
            q = copy.deepcopy(p)
            q['spec']['parts'][0]['part_area_ratio'] += float(rng.choice([-0.3, 1e-4, 0.01, -1e-4]))
            ctx.raises('ratio of parts', (Exception,), makers['general_parts'], [q])
            break
    ctx.set_sample({'region': region, 'U value added': u_add, 'parts': {k: len(v) for k, v in e.items()}})
