import numpy as np

from vlib import gen_env

ID = 'V08'
RULE = ('each case draws floor areas (partly without other or non occupant rooms, with and without underfloor), air change rate, '
        'window ventilation and earth floors; the rooms made by the real code are compared with the documented rules and '
        'balances of volume and air. Non-trivial: every house; distinct by floor areas and air change rate.')
ASSUMPTIONS = ['room height 2.4 m, underfloor 0.4 m, ventilation with a margin of 1.1 (documented)']
REQUIRE = {'houses without other occupant rooms': 100, 'houses without non occupant rooms': 100, 'houses with underfloor': 200,
           'houses without underfloor': 100, 'eval:fresh air of the house': 500, 'refused:no main room': 100}
M, O, N = gen_env.ROOMS


def cases(tier, rng):
    return [{'seed': int(rng.integers(0, 2 ** 62)), 'edge': gen_env.EDGES[k % 6]}
            for k in range(6000 if tier == 'quick' else 200000)]


def run(case, ctx):
    from heat_load_calc.convert import convert_lv4_to_h_hlc as x
    rng = np.random.default_rng(case['seed'])
    c = gen_env.random_common(rng, case['edge'])
    tot, a, b = (c[k] for k in ('total_floor_area', 'main_occupant_room_floor_area', 'other_occupant_room_floor_area'))
    n = tot - a - b
    if case['edge'] in ('no_non', 'main_only'):
        n = 0.0
    ecs = [{'name': f'e{k}', 'area': float(rng.uniform(0.5, 60.0)), 'space_type': str(rng.choice(
        ['underfloor', 'underfloor', M, N]))} for k in range(gen_env.several(rng, 0, 5, 16))]
    uf = sum(e['area'] for e in ecs if e['space_type'] == 'underfloor')
    got = ctx.sut('underfloor area', x.get_a_uf, ecs)
    ctx.close('underfloor area', got, uf, 1e-12, 1e-12, str(ecs))
    far = 1.0 if rng.random() < 0.8 else 5.0
    rate, vm, vo = float(far * rng.uniform(0.0, 3.0)), float(far * rng.uniform(0.0, 20.0)), float(far * rng.uniform(0.0, 20.0))
    rooms = ctx.sut('rooms', x.make_initial_rooms, a_a=tot, a_mr=a, a_or=b, a_nr=n, a_uf=uf, n=rate, v_nv_mr=vm, v_nv_or=vo)
    ctx.nontrivial((tot, a, b, rate))
    ctx.count('houses without other occupant rooms', b == 0.0)
    ctx.count('houses without non occupant rooms', n == 0.0)
    ctx.count('houses with underfloor' if uf > 0 else 'houses without underfloor')
    size = (a, b, n, uf)
    kinds = (M, O, N, 'underfloor')
    if not ctx.check('rooms that have a floor, and no others', len(rooms) == 4 and
                     [r is not None for r in rooms] == [s > 0.0 for s in size], lambda: f'{size} {rooms}'):
        return
    air = tot * 2.4 * rate * 1.1
    fresh = {M: air * a / (a + b), O: air * b / (a + b), N: 0.0, 'underfloor': 0.0}
    for r, s, k in zip(rooms, size, kinds):
        if r is None:
            continue
        ctx.check('kind of room', (r['name'], r['room_type']) == (k, k), lambda: f'{r["name"]} {r["room_type"]} {k}')
        ctx.close('volume', r['volume'], s * (0.4 if k == 'underfloor' else 2.4), 1e-12, 0, k)
        ctx.close('fresh air of a room', r['vent'], fresh[k], 1e-12, 1e-12, k)
        ctx.close('window ventilation', r['natural_vent_time'], {M: vm, O: vo}.get(k, 0.0), 1e-12, 0, k)
        ctx.check('no boundaries yet', r['boundaries'] == [], lambda: str(r['boundaries']))
        if k == N:
            ways = {'main': a, 'other': b}
            ups = [w['upstream_room_name'] for w in r['next_vent']]
            ctx.check('air comes from every occupied room once', sorted(ups) == sorted(w for w, v in ways.items() if v > 0),
                      lambda: str(r['next_vent']))
            for w in r['next_vent']:
                ctx.close('air passed on is the fresh air of the room', w['volume'],
                          fresh[{'main': M, 'other': O}[w['upstream_room_name']]], 1e-12, 1e-12, str(w))
            ctx.close('all fresh air leaves through the other rooms', sum(w['volume'] for w in r['next_vent']), air, 1e-12,
                      1e-12, 'non occupant room')
        else:
            ctx.check('no air from other rooms', r['next_vent'] == [], lambda: f'{k} {r["next_vent"]}')
    ctx.close('fresh air of the house', sum(r['vent'] for r in rooms if r), air, 1e-12, 1e-12, f'{tot} {rate}')
    ctx.check('rooms are apart', len({id(r[k]) for r in rooms if r for k in ('boundaries', 'next_vent')}) ==
              2 * sum(r is not None for r in rooms), 'two rooms share a list')
    ctx.raises('no main room', (ValueError,), x.make_initial_rooms, a_a=tot, a_mr=0.0, a_or=max(b, 1.0), a_nr=n, a_uf=uf,
               n=rate, v_nv_mr=vm, v_nv_or=vo)
    ctx.set_sample({'floor areas': size, 'air changes': rate, 'rooms': [r and r['volume'] for r in rooms]})
