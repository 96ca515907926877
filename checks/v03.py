import copy

import numpy as np

from vlib import gen_env

ID = 'V03'
RULE = ('each case is a random envelope divided into rooms and random floor areas (partly without other or non occupant '
        'rooms, with and without underfloor); inner floors and walls added by the real code are compared with an '
        'independent computation, everything else has to stay. Non-trivial: an inner floor or wall; distinct by size.')
ASSUMPTIONS = ['documented rules: shape 1.2 / 1.4, height 2.8 m, even split between the two other rooms']
REQUIRE = {'relatives of a house': 300, 'inner floors': 60, 'inner walls': 60, 'houses without other occupant rooms': 3,
           'houses without non occupant rooms': 3, 'floors over underfloor': 20, 'refused:no main room': 1}
M, O, N, U = 'main_occupant_room', 'other_occupant_room', 'non_occupant_room', 'underfloor'


def cases(tier, rng):
    return [{'seed': int(rng.integers(0, 2 ** 62)), 'edge': gen_env.EDGES[k % 6]}
            for k in range(2400 if tier == "quick" else 40000)]


def run(case, ctx):
    judge(case, ctx, case['seed'], case['seed'])
    # the same rooms with another envelope, then the same envelope with other rooms
    ctx.count('relatives of a house', 2)
    judge(case, ctx, case['seed'], case['seed'] + 1)
    judge(case, ctx, case['seed'] + 1, case['seed'] + 1)


def judge(case, ctx, rooms, parts):
    from heat_load_calc.convert import convert_lv3_to_lv4
    c = gen_env.random_common(np.random.default_rng(rooms), case['edge'])
    rng = np.random.default_rng(parts + 10 ** 6)
    tot, a, b = (c[k] for k in ('total_floor_area', 'main_occupant_room_floor_area', 'other_occupant_room_floor_area'))
    size = {M: a, O: b, N: tot - a - b}
    if abs(size[N]) < 1e-9 and case['edge']:
        size[N] = size[N] if size[N] == 0.0 else size[N]
    e = gen_env.random_envelope(rng, space=lambda: str(rng.choice([M, O, N])), complex_ok=True)
    if rng.random() < 0.5:
        for p in e['earthfloor_perimeters'] + e['earthfloor_centers']:
            p['space_type'] = U
    if rng.random() < 0.6:
        # small envelope below, so that something is left for inner floors
        for p in e['general_parts'] + e['windows'] + e['doors'] + e['earthfloor_centers']:
            p['area'] *= 0.2
    before = copy.deepcopy((c, e))
    r = ctx.sut('lv3 to lv4', convert_lv3_to_lv4.convert_spec, c, e)
    ctx.check('input is not changed', (c, e) == before, 'the input was changed')
    ctx.check('kinds of parts', set(r) == set(e) | {'inner_floors', 'inner_walls'}, lambda: str(sorted(r)))
    for k in e:
        ctx.check('the envelope stays as it is', r[k] == e[k], lambda: f'{k}: {r[k]} instead of {e[k]}')
    ss = e['general_parts'] + e['windows'] + e['doors']
    down = {s: sum(p['area'] for p in ss if p['space_type'] == s and p['direction'] in ('bottom', 'downward')) for s in size}
    side = {s: sum(p['area'] for p in ss if p['space_type'] == s and p['direction'] not in (
        'bottom', 'downward', 'top', 'upward')) for s in size}
    earth = {s: sum(p['area'] for p in e['earthfloor_centers'] if p['space_type'] == s) for s in list(size) + [U]}
    left = {s: max(0.0, size[s] - down[s] - earth[s]) for s in size}
    alll = sum(left.values())
    over = {s: earth[U] * left[s] / alll if alll > 0 else 0.0 for s in size}
    here = [s for s in (M, O, N) if size[s] > 0.0]
    if O not in here:
        ctx.count('houses without other occupant rooms')
    if abs(size[N]) < 1e-9:
        ctx.count('houses without non occupant rooms')
    fl = {(s, U): over[s] for s in size}
    for s in here:
        others = [t for t in here if t != s]
        for t in others:
            fl[s, t] = max(0.0, left[s] - over[s]) / len(others)
    got = {}
    for f in r['inner_floors']:
        k = f['upper_space_type'], f['lower_space_type']
        ctx.check('one floor for each pair of rooms', k not in got, lambda: str(k))
        got[k] = f['area']
        ctx.count('inner floors')
        ctx.count('floors over underfloor', k[1] == U)
        ctx.nontrivial((k, f['area']))
        ctx.check('floors have an area', f['area'] > 0.0, lambda: str(f['area']))
        x = f['spec']['layers']
        ctx.check('floor of plywood', len(x) == 1 and (x[0]['thickness'], x[0]['thermal_conductivity'],
                                                       x[0]['volumetric_specific_heat']) == (0.024, 0.16, 720.0), str(x))
    for k in set(fl) | set(got):
        ctx.close('inner floor between two rooms', got.get(k, 0.0), fl.get(k, 0.0), 1e-9, 1e-9, f'{k}')
    for s in here:
        if len(here) > 1 and left[s] >= over[s]:
            ctx.close('every room has a floor of its size', sum(v for k, v in got.items() if k[0] == s) + min(
                size[s], down[s] + earth[s]), max(size[s], min(size[s], down[s] + earth[s])), 1e-9, 1e-7, s)
    # walls
    need = {s: max(0.0, 4 * {M: 1.2}.get(s, 1.4) * 2.8 * max(0.0, size[s]) ** 0.5 - side[s]) for s in size}
    wl = {}
    if len(here) == 3:
        for p, q, o in ((M, O, N), (M, N, O), (O, N, M)):
            wl[p, q] = max(0.0, (need[p] + need[q] - need[o]) / 2)
    elif len(here) == 2:
        p, q = here
        wl[p, q] = (need[p] + need[q]) / 2
    got = {}
    for f in r['inner_walls']:
        k = f['space_type_1'], f['space_type_2']
        ctx.check('one wall for each pair of rooms', k not in got, lambda: str(k))
        got[k] = f['area']
        ctx.count('inner walls')
        ctx.nontrivial((k, f['area']))
        ctx.check('walls have an area', f['area'] > 0.0, lambda: str(f['area']))
        x = f['spec']['layers']
        ctx.check('wall of two boards', len(x) == 3 and [v['thickness'] for v in x] == [0.0125, 0.12, 0.0125] and
                  [v.get('thermal_conductivity') for v in x] == [0.22, None, 0.22] and x[1]['thermal_resistance'] == 0.09
                  and [v['volumetric_specific_heat'] for v in x] == [830.0, 0.0, 830.0], str(x))
    for k in set(wl) | set(got):
        ctx.close('inner wall between two rooms', got.get(k, 0.0), wl.get(k, 0.0), 1e-9, 1e-7, f'{k}')
    if case['edge'] is None and parts % 2 == 0:
        ctx.raises('no main room', (ValueError,), convert_lv3_to_lv4.convert_spec,
                   dict(c, main_occupant_room_floor_area=0.0), e)
    ctx.set_sample({'floor areas': size, 'inner floors': len(r['inner_floors']), 'inner walls': len(r['inner_walls'])})
