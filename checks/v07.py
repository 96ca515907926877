import copy
import json

import numpy as np

from vlib import gen_env

ID = 'V07'
RULE = ('each case is one set of indices taken through all steps of the conversion (indices, envelope, division among rooms, '
        'inner floors and walls, boundaries for the initializer) by the real code, then houses that share most of it, another house, then the first again '
        'after everything returned before was scribbled over. At every step an independent computation has to find '
        'the same envelope area, UA and eta A, every room its share of every part, and the repetition has to be equal to the '
        'last digit. Non-trivial: every house; distinct by indices and floor areas.')
ASSUMPTIONS = ['division in proportion to floor areas (documented)', 'constructions of the converter cannot exceed the U value of '
               'their fixed layers, so that U values above 1 W/m2K are only bounded']
REQUIRE = {'eval:area, UA and eta A are kept': 300, 'boundaries': 3000, 'houses without other occupant rooms': 10,
           'houses without non occupant rooms': 10, 'detached': 40, 'attached': 40, 'region 8': 10,
           'eval:repetition is equal': 80, 'relatives of a house': 300}
KEYS = ('general_parts', 'windows', 'doors', 'earthfloor_perimeters', 'earthfloor_centers', 'heat_bridges')


def cases(tier, rng):
    return [{'seed': int(rng.integers(0, 2 ** 62)), 'region': 1 + k % 8, 'house_type': 'detached' if k // 8 % 2 else 'attached',
             'edge': gen_env.EDGES[k % 6]} for k in range(1200 if tier == 'quick' else 20000)]


def draw(rng, region, house_type, edge):
    c = gen_env.random_common(rng, edge)
    tot = gen_env.pick(rng, (50.0, 200.0), (50.0, 200.0), (25.0, 50.0), (200.0, 450.0))
    f = tot / c['total_floor_area']
    common = {k: v * f for k, v in c.items() if k.endswith('area')}
    if edge is not None and abs(common['total_floor_area'] - common['main_occupant_room_floor_area']
                                - common['other_occupant_room_floor_area']) < 1e-9:
        common['total_floor_area'] = common['main_occupant_room_floor_area'] + common['other_occupant_room_floor_area']
    common.update(region=region, house_type=house_type)
    idx = {'u_a': float(rng.choice([rng.uniform(0.25, 0.8), rng.uniform(0.8, 2.5)])),
           'eta_a_h': None if region == 8 else float(rng.uniform(0.5, 5.0)), 'eta_a_c': float(rng.uniform(0.5, 4.0))}
    return {'common': common, 'envelope': {'input_method': 'index', 'total_area': None, 'indices': idx}}


def chain(ctx, d):
    from heat_load_calc.convert import convert_indices_to_lv2_info, convert_lv2_to_lv3, convert_lv3_to_lv4, ees_house as h
    l2 = ctx.sut('indices', convert_indices_to_lv2_info.convert_spec, d)
    k2 = copy.deepcopy(l2)
    l3 = ctx.sut('lv2 to lv3', convert_lv2_to_lv3.convert_spec, d['common'], l2)
    ctx.check('what a step was given is not changed', l2 == k2, 'the rooms of the house were separated in its description')
    k3 = copy.deepcopy(l3)
    l4 = ctx.sut('lv3 to lv4', convert_lv3_to_lv4.convert_spec, d['common'], l3)
    ctx.check('what a step was given is not changed', l3 == k3, 'inner walls and floors changed the rooms given')
    k4 = copy.deepcopy(l4)
    r = d['common']['region']
    bs = []
    for k, make, kw in (('general_parts', h.GeneralPart.make_general_parts, {'u_add': 0.0}),
                        ('windows', h.Window.make_windows, {}), ('doors', h.Door.make_doors, {})):
        for o in ctx.sut('reading', make, l4[k]):
            b = ctx.sut('boundaries', o.make_initializer_dict, region=r, **kw)
            bs.append(b if isinstance(b, list) else [b])
    ctx.check('what a step was given is not changed', l4 == k4, 'reading changed the description')
    return l2, l3, l4, bs


def scribble(x):
    """change everything that was returned"""
    if isinstance(x, dict):
        for k in list(x):
            if isinstance(x[k], (dict, list)):
                scribble(x[k])
            else:
                x[k] = -1.0
    elif isinstance(x, (list, tuple)):
        for v in x:
            if isinstance(v, (dict, list, tuple)):
                scribble(v)
        if isinstance(x, list):
            x.clear()


def plain(x):
    """full precision text"""
    return json.dumps(x, sort_keys=True, default=str)


def size(ctx, d, stretch):
    """an envelope area the house can have"""
    from heat_load_calc.convert import model_house
    c = d['common']
    kw = dict(floor_ins_type='floor', bath_ins_type='base') if c['house_type'] == 'detached' else {}
    base = ctx.sut('model house', model_house.calc_area, house_type=c['house_type'], a_f_total=c['total_floor_area'], r_open=0.1,
                   **kw)
    d['envelope']['total_area'] = float(base['a_evp_total'] + np.sum(base['a_evp_srf']) * stretch)


def relative(rng, d):
    """a house that shares most of what describes another"""
    r = copy.deepcopy(d)
    e = draw(rng, int(rng.integers(1, 9)), str(rng.choice(['detached', 'attached'])), None)
    stretch = None
    for what in rng.choice(['area', 'floor', 'split', 'region', 'kind', 'u_a', 'eta'], size=int(rng.integers(1, 3)), replace=False):
        c, x = r['common'], e['common']
        if what == 'area':
            stretch = gen_env.pick(rng, (0.0, 0.4), (0.0, 0.4), (0.4, 1.2))
        elif what == 'floor':
            f = gen_env.pick(rng, (0.8, 1.2), (0.5, 2.0))
            for k in c:
                if k.endswith('area'):
                    c[k] *= f
            stretch = gen_env.pick(rng, (0.0, 0.4), (0.0, 0.4), (0.4, 1.2))
        elif what == 'split':
            for k in ('main_occupant_room_floor_area', 'other_occupant_room_floor_area'):
                c[k] = x[k] * c['total_floor_area'] / x['total_floor_area']
        elif what == 'region':
            c['region'] = x['region']
        elif what == 'kind':
            c['house_type'] = x['house_type']
            stretch = gen_env.pick(rng, (0.0, 0.4), (0.0, 0.4), (0.4, 1.2))
        elif what == 'u_a':
            r['envelope']['indices']['u_a'] = e['envelope']['indices']['u_a']
        else:
            for k in ('eta_a_h', 'eta_a_c'):
                r['envelope']['indices'][k] = float(rng.uniform(0.5, 4.0))
    i = r['envelope']['indices']
    i['eta_a_h'] = None if r['common']['region'] == 8 else i['eta_a_h'] or 2.0
    return r, stretch


def run(case, ctx):
    rng = np.random.default_rng(case['seed'])
    d = draw(rng, case['region'], case['house_type'], case['edge'])
    size(ctx, d, gen_env.pick(rng, (0.0, 0.4), (0.0, 0.4), (0.4, 1.2)))
    judge(ctx, rng, d)
    for _ in range(2):
        r, stretch = relative(rng, d)
        if stretch is not None:
            size(ctx, r, stretch)
        ctx.count('relatives of a house')
        judge(ctx, rng, r)


def judge(ctx, rng, d):
    c = d['common']
    region, ht = c['region'], c['house_type']
    before = copy.deepcopy(d)
    l2, l3, l4, bs = chain(ctx, d)
    ctx.check('input is not changed', d == before, 'the input was changed')
    ctx.count(ht)
    ctx.count('region 8', region == 8)
    tot, a, b = (c[k] for k in ('total_floor_area', 'main_occupant_room_floor_area', 'other_occupant_room_floor_area'))
    ctx.nontrivial((region, ht, tot, a, b, d['envelope']['indices']['u_a']))
    ctx.count('houses without other occupant rooms', b == 0.0)
    ctx.count('houses without non occupant rooms', abs(tot - a - b) < 1e-9)
    share = dict(zip(gen_env.ROOMS, (a / tot, b / tot, (tot - a - b) / tot)))
    ref = gen_env.figures(l2, region)
    k = [0, 1, 3] + ([2] if region != 8 else [])
    ctx.close('envelope area as asked', ref[0], before['envelope']['total_area'], 1e-9, 0, f'{ht} {tot}')
    for name, x in (('lv3', l3), ('lv4', l4)):
        y = gen_env.figures(x, region)
        ctx.close('area, UA and eta A are kept', [y[i] for i in k], [ref[i] for i in k], 1e-10, 0, f'{name} region {region} {ht}')
    for kind, size in (('general_parts', 'area'), ('windows', 'area'), ('doors', 'area')):
        whole = sum(p[size] for p in l2[kind])
        for s in gen_env.ROOMS:
            got = sum(p[size] for p in l4[kind] if p['space_type'] == s)
            ctx.close('every room has its share', got, whole * share[s], 1e-10, 1e-9, f'{kind} {s}')
    # boundaries: area and heat loss of what the initializer is told
    parts = [p for kind in ('general_parts', 'windows', 'doors') for p in l4[kind]]
    if ctx.check('boundaries for every part', len(parts) == len(bs), lambda: f'{len(bs)} for {len(parts)}'):
        q = qb = ar = 0.0
        exact = True
        for p, x in zip(parts, bs):
            ctx.count('boundaries', len(x))
            u = p['spec'].get('u_value', p['spec'].get('u_value_other'))
            hh = gen_env.h(p['next_space'], region)
            area = sum(v['area'] for v in x)
            ctx.close('area of the boundaries', area, p['area'], 1e-12, 0, p['name'])
            loss = 0.0
            for v in x:
                ub = v['u_value'] if 'u_value' in v else 1.0 / (
                    v['inside_heat_transfer_resistance'] + v['outside_heat_transfer_resistance']
                    + sum(w['thermal_resistance'] for w in v['layers']))
                loss += v['area'] * ub * v['temp_dif_coef']
                ctx.check('room of the boundary', v['connected_room_id'] == gen_env.ROOMS.index(p['space_type']),
                          lambda: f'{v["connected_room_id"]} for {p["space_type"]}')
            full = 'u_value' in p['spec'] or u <= 1.0
            exact = exact and full
            e = p['area'] * u * hh
            if full:
                ctx.close('heat loss of the boundaries', loss, e, 1e-9, 0, f'{p["name"]} U {u} h {hh}')
            else:
                # walls can be negative (known finding of V05)
                ctx.check('no boundary loses more than its part', abs(loss) <= abs(e) * (1 + 1e-9), lambda: f'{p["name"]} {loss} {e}')
            q, qb, ar = q + e, qb + loss, ar + area
        ctx.close('area of the whole', ar + sum(p['area'] for p in l4['earthfloor_centers']), ref[0], 1e-9, 0, ht)
        if exact:
            ctx.count('houses whose UA reaches the initializer')
            q2 = sum(p['length'] * p['spec']['psi_value'] * gen_env.h(p['next_space'], region)
                     for p in l4['earthfloor_perimeters'])
            ctx.close('UA reaches the initializer', (qb + q2) / ref[0], ref[1], 1e-9, 0, f'region {region} {ht}')
    # history
    first = plain([l2, l3, l4, bs])
    d2 = draw(rng, int(rng.integers(1, 9)), str(rng.choice(['detached', 'attached'])), None)
    d2['envelope']['total_area'] = d['envelope']['total_area'] * 1.05 * d2['common']['total_floor_area'] / tot
    for x in (l2, l3, l4, bs):
        scribble(x)
    chain(ctx, d2)
    again = plain(list(chain(ctx, copy.deepcopy(before))))
    ctx.check('repetition is equal', again == first, lambda: 'differs after another house was converted: ' + next(
        (f'{u!r} {v!r}' for u, v in zip(first.split(','), again.split(',')) if u != v), 'length'))
    ctx.set_sample({'region': region, 'house': ht, 'floor areas': [tot, a, b], 'figures': ref, 'boundaries': len(bs)})
