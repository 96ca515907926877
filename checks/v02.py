import copy

import numpy as np

from vlib import gen_env

ID = 'V02'
RULE = ('each case is a random envelope without rooms (all kinds of parts, constructions, shades, neighbours) and random '
        'floor areas (partly without other or non occupant rooms); the envelope divided by the real code is compared '
        'part by part and in total. Non-trivial: every part divided; distinct by part and floor areas.')
ASSUMPTIONS = ['division in proportion to floor areas, earth floors belong to the underfloor space (documented)']
REQUIRE = {'relatives of a house': 300, 'parts divided': 300, 'houses without other occupant rooms': 3, 'houses without non occupant rooms': 3,
           'heat bridges': 30, 'earth floors': 40}


def cases(tier, rng):
    return [{'seed': int(rng.integers(0, 2 ** 62)), 'edge': gen_env.EDGES[k % 6]}
            for k in range(1200 if tier == "quick" else 20000)]


def run(case, ctx):
    judge(case, ctx, case['seed'], case['seed'])
    # the same rooms with another envelope, then the same envelope with other rooms
    ctx.count('relatives of a house', 2)
    judge(case, ctx, case['seed'], case['seed'] + 1)
    judge(case, ctx, case['seed'] + 1, case['seed'] + 1)


def judge(case, ctx, rooms, parts):
    from heat_load_calc.convert import check_ua_a_eta_a, convert_lv2_to_lv3
    c = gen_env.random_common(np.random.default_rng(rooms), case['edge'])
    rng = np.random.default_rng(parts + 10 ** 6)
    e = gen_env.random_envelope(rng, complex_ok=parts % 3 == 0)
    if c['other_occupant_room_floor_area'] == 0.0:
        ctx.count('houses without other occupant rooms')
    tot, a, b = (c[k] for k in ('total_floor_area', 'main_occupant_room_floor_area', 'other_occupant_room_floor_area'))
    share = dict(zip(gen_env.ROOMS, (a / tot, b / tot, (tot - a - b) / tot)))
    if share['non_occupant_room'] < 1e-12:
        ctx.count('houses without non occupant rooms')
    before = copy.deepcopy((c, e))
    r = ctx.sut('lv2 to lv3', convert_lv2_to_lv3.convert_spec, c, e)
    ctx.check('input is not changed', (c, e) == before, 'the input was changed')
    ctx.check('kinds of parts', set(r) == set(e) | {'input_method'}, lambda: str(sorted(r)))
    for kind, size in (('general_parts', 'area'), ('windows', 'area'), ('doors', 'area'), ('heat_bridges', 'length')):
        out = {}
        for p in r[kind]:
            out.setdefault(p['space_type'], []).append(p)
        ctx.check('every room has its part of every part', len(r[kind]) == 3 * len(e[kind]) and all(
            len(out.get(s, [])) == len(e[kind]) for s in gen_env.ROOMS) or not e[kind], lambda: f'{kind}: {len(r[kind])}')
        for s in gen_env.ROOMS:
            for p, o in zip(e[kind], out.get(s, [])):
                ctx.count('parts divided')
                ctx.nontrivial((kind, s, p['name'], p[size], tot, a, b))
                ctx.check('size of the part of a room', abs(o[size] - p[size] * share[s]) <= 1e-9 * p[size] + 1e-9,
                          lambda: f'{kind} {p["name"]} {s}: {o[size]} of {p[size]}')
                exp = gen_env.rename(p, name=p['name'] + '_' + s, space_type=s, **{size: o[size]})
                ctx.check('everything else is kept', o == exp, lambda: f'{o} instead of {exp}')
        ctx.close('sizes add up', sum(o[size] for o in r[kind]), sum(p[size] for p in e[kind]), 1e-12, 1e-9, kind)
        if kind == 'heat_bridges':
            ctx.count('heat bridges', len(e[kind]))
    for kind in ('earthfloor_perimeters', 'earthfloor_centers'):
        exp = [gen_env.rename(p, space_type='underfloor') for p in e[kind]]
        ctx.count('earth floors', len(exp))
        ctx.check('earth floors stay whole and lie below the floor', r[kind] == exp, lambda: f'{r[kind]} for {e[kind]}')
    if parts % 3 != 0:
        for region in range(1, 9):
            x, y = gen_env.figures(e, region), gen_env.figures(r, region)
            k = [0, 1, 3] + ([2] if region != 8 else [])
            ctx.close('area, UA and eta A are kept', [y[i] for i in k], [x[i] for i in k], 1e-10, 0, f'region {region}')
            o = ctx.sut('check of UA', check_ua_a_eta_a.check_u_a_and_eta_a, region, r)
            k = [0, 2] + ([1] if region != 8 else [])
            ctx.close('UA and eta A by the program', [o[i] for i in k], [x[i + 1] for i in k], 1e-10, 0,
                      f'region {region}')
            if region == 8:
                ctx.check('no heating season in region 8', o[1] is None, lambda: str(o[1]))
    ctx.set_sample({'floor areas': [tot, a, b], 'parts': {k: len(v) for k, v in e.items()}})
