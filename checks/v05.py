import copy

import numpy as np

from vlib import gen_env

ID = 'V05'
RULE = ('each case is one model house (kind of house, floor area, share of openings, insulation of floor and bath, envelope '
        'area given or not) laid out by the real code; its geometry is computed independently and the parts listed from it '
        'have to carry the same areas and lengths. Non-trivial: every house; distinct by its figures.')
ASSUMPTIONS = ['documented dimensions of the standard houses (heights, doors, entrance, bath, shares of windows)']
REQUIRE = {'detached floor floor': 20, 'detached floor base': 20, 'detached floor not_exist': 20, 'detached base base': 20,
           'attached': 60, 'envelope area given': 100, 'relatives of a house': 100, 'envelope area too small': 5, 'eval:wall, window and door fill the side': 400,
           'refused:part that cannot be: a_evp_window': 100}
W = {'detached': (.6862, .0721, .1097, .1320), 'attached': (.6330, .1517, .2153, 0.0)}
KINDS = [('detached', 'floor', 'floor'), ('detached', 'floor', 'base'), ('detached', 'floor', 'not_exist'),
         ('detached', 'base', 'base'), ('attached', None, None), ('attached', None, None)]


def cases(tier, rng):
    cs = []
    for k in range(2000 if tier == "quick" else 40000):
        ht, fl, ba = KINDS[k % 6]
        cs.append({'house_type': ht, 'floor_ins_type': fl, 'bath_ins_type': ba, 'a_f_total': gen_env.pick(rng, (30.0, 250.0), (30.0, 250.0), (20.0, 30.0), (250.0, 600.0)),
                   'r_open': gen_env.pick(rng, (0.05, 0.2), (0.05, 0.2), (0.2, 0.45)),
                   'shape': None if rng.random() < 0.3 else float(rng.choice([rng.uniform(0.5, 1.0), rng.uniform(1.0, 1.6), rng.uniform(1.6, 3.0)]))})
    # the next house shares all but one thing with this one
    for k, c in enumerate(cs):
        o = cs[k - 6] if k % 5 else cs[k - 1]
        keys = [('a_f_total',), ('r_open',), ('shape',), ('house_type', 'floor_ins_type', 'bath_ins_type')][int(rng.integers(0, 4))]
        c['next'] = {x: o[x] for x in keys}
    return cs


def geometry(ht, fl, ba, a, fs):
    """areas of each floor, sides, heights, base"""
    if ht == 'detached':
        af = [a / 1.77, a * .77 / 1.77]
        hs = [2.9, 2.7]
    else:
        af, hs = [a], [2.8]
    sides = []
    for x, f in zip(af, fs):
        half = 2 * x ** 0.5 * f           # two neighbouring sides together
        d = max(half ** 2 / 4 - x, 0.0) ** 0.5
        long, short = half / 2 + d, half / 2 - d
        sides.append((long, short) if ht == 'detached' else (short, long))
    return af, hs, sides


def run(case, ctx):
    c = {k: v for k, v in case.items() if k != 'next'}
    judge(c, ctx)
    if case.get('next'):
        ctx.count('relatives of a house')
        judge({**c, **case['next']}, ctx)


def judge(case, ctx):
    from heat_load_calc.convert import model_house
    ht, fl, ba, a = (case[k] for k in ('house_type', 'floor_ins_type', 'bath_ins_type', 'a_f_total'))
    kw = {k: case[k] for k in ('house_type', 'floor_ins_type', 'bath_ins_type', 'a_f_total', 'r_open')}
    fs0 = [1.08, 1.04] if ht == 'detached' else [1.048215]
    base = ctx.sut('default house', model_house.calc_area, **kw)
    ctx.count(ht + ('' if fl is None else f' {fl} {ba}'))
    d, env, fs = base, None, fs0
    if case['shape'] is not None:
        ctx.count('envelope area given')
        ctx.count('envelope area too small', case['shape'] < 0.7)
        ref0 = figures(ht, fl, ba, a, fs0)
        k = case['shape'] if ht == 'attached' else max(case['shape'], 0.5)
        # the envelope area grows in proportion to all sides
        env = figures(ht, fl, ba, a, [f * k for f in fs0])['total']
        d = ctx.sut('house of given envelope', model_house.calc_area, **kw, a_env_input=env)
        # no side can be shorter than that of a square: the last floor is at least square
        k = max(k, 1.0 / fs0[-1])
        fs = [f * k for f in fs0]
        if k * fs0[-1] > 1.0 + 1e-9:
            ctx.close('envelope area is met', d['a_evp_total'], env, 1e-9, 0, f'{ht} {fl} {ba} {a} {case["shape"]}')
        del ref0
    ref = figures(ht, fl, ba, a, fs)
    ctx.nontrivial((ht, fl, ba, a, d['a_evp_total']))
    w = f'{ht} {fl} {ba} {a} shape {case["shape"]}'
    ctx.close('envelope area', d['a_evp_total'], ref['total'], 1e-9, 0, w)
    ctx.close('envelope without base', d['a_evp_total_not_base'], ref['not_base'], 1e-9, 0, w)
    ctx.close('roof', d['a_evp_roof'], ref['roof'], 1e-9, 0, w)
    ctx.close('floor', d['a_evp_f_total'], ref['floor'], 1e-9, 1e-9, w)
    ctx.close('earth floor', d['a_evp_ef_total'], ref['earth'], 1e-9, 1e-9, w)
    ctx.close('base outside', d['a_evp_base_total_outside'], ref['base'], 1e-9, 1e-9, w)
    ctx.close('base inside', d['a_evp_base_total_inside'], ref['base_in'], 1e-9, 1e-9, w)
    ctx.close('length of base outside', d['l_base_total_outside'], ref['l_base'], 1e-9, 1e-9, w)
    ctx.close('length of base inside', d['l_base_total_inside'], ref['l_base_in'], 1e-9, 1e-9, w)
    # walls, windows, doors
    open_ = case['r_open'] * ref['not_base']
    door = {'detached': (0, 1.89, 1.62, 0), 'attached': (0, 0, 1.755, 0)}[ht]
    win = [(open_ - sum(door)) * v for v in W[ht]]
    ctx.close('doors', d['a_evp_door'], door, 1e-12, 0, w)
    ctx.close('windows', d['a_evp_window'], win, 1e-9, 1e-9, w)
    ctx.close('openings as asked', sum(d['a_evp_window']) + sum(d['a_evp_door']), open_, 1e-9, 0, w)
    ctx.close('wall, window and door fill the side', np.add(np.add(d['a_evp_wall'], d['a_evp_window']), d['a_evp_door']),
              ref['side'], 1e-9, 1e-9 if fs[-1] > 1.0 + 1e-6 else 1e-4, w)  # root of a difference near a square
    if open_ > sum(door):
        for i in range(4):
            if win[i] + door[i] <= ref['side'][i]:
                ctx.check('no wall is negative', d['a_evp_wall'][i] >= -1e-9, lambda: f'{w} {d["a_evp_wall"]}')
            elif d['a_evp_wall'][i] < -1e-9:
                ctx.known_finding('windows-larger-than-their-side', f'{w}: wall of {d["a_evp_wall"][i]:.2f} m2')
    # parts
    if ht == 'detached' and fl == 'floor' and ba != 'base':
        ctx.count('houses without base of the bath')
    d = dict(d)
    for k in ('a_evp_f_total', 'a_evp_base_total_inside', 'l_base_total_inside', 'a_evp_ef_total'):
        if 0.0 < abs(d[k]) < 1e-9:
            ctx.count('nothing but rounding left of a part')
            d[k] = 0.0
    parts = ctx.sut('list of parts', model_house.get_model_house_no_spec, **copy.deepcopy(d))
    gps, ws, ds, eps, ecs = parts
    ctx.close('parts add up to the envelope', sum(p.area for p in gps + ws + ds + ecs), ref['total'], 1e-9, 0, w)
    DIR = ('sw', 'nw', 'ne', 'se')
    for i, o in enumerate(DIR):
        wall = [p for p in gps if p.name == 'wall_' + o]
        ctx.close('wall of each side', sum(p.area for p in wall), d['a_evp_wall'][i], 1e-9, 1e-9, f'{w} {o}')
        ctx.close('window of each side', sum(p.area for p in ws if p.name == 'window_' + o), d['a_evp_window'][i], 1e-9, 1e-9,
                  f'{w} {o}')
        ctx.close('door of each side', sum(p.area for p in ds if p.name == 'door_' + o), d['a_evp_door'][i], 1e-9, 1e-9,
                  f'{w} {o}')
        ctx.close('base of each side', sum(p.area for p in gps if p.name == 'base_outside_' + o),
                  d['a_evp_base_total_outside'][i], 1e-9, 1e-9, f'{w} {o}')
        ctx.close('perimeter of each side', sum(p.length for p in eps if p.name == 'earth_floor_perimeter_' + o),
                  d['l_base_total_outside'][i], 1e-9, 1e-9, f'{w} {o}')
        outdoor = ht == 'detached' or i < 2
        for p in wall + [p for p in ws + ds if p.name.endswith('_' + o)]:
            where = 'outdoor' if outdoor else 'open_space' if i == 2 else 'air_conditioned'
            ctx.check('what lies behind each side', (p.next_space.value, p.direction.value) == (
                where, o if outdoor else 'horizontal'), lambda: f'{w} {p.name} {p.next_space} {p.direction}')
    for name, area, nxt in (('roof', ref['roof'], 'outdoor' if ht == 'detached' else 'air_conditioned'),
                            ('floor', ref['floor'], 'open_underfloor' if ht == 'detached' else 'air_conditioned'),
                            ('base_inside', ref['base_in'], 'open_underfloor')):
        ps = [p for p in gps if p.name == name]
        ctx.close('roof, floor and inner base', sum(p.area for p in ps), area, 1e-9, 1e-9, f'{w} {name}')
        ctx.check('what lies behind roof and floor', all(p.next_space.value == nxt for p in ps), lambda: f'{w} {name}')
    ctx.close('earth floor as a part', sum(p.area for p in ecs), ref['earth'], 1e-9, 1e-9, w)
    ctx.close('inner perimeter', sum(p.length for p in eps if p.name == 'earth_floor_perimeter_inside'), ref['l_base_in'], 1e-9,
              1e-9, w)
    # what every part is, what lies behind it and what shades it
    kind = nature(ht, fl)
    got = sorted([p.name for p in gps + ws + ds + ecs] + [p.name for p in eps])
    if ctx.check('the parts of the kind of house', got == sorted(kind), lambda: f'{w}: {got}'):
        for p in gps + ws + ds + eps + ecs:
            what, nxt, dr, shade = kind[p.name]
            ctx.check('use of a part', getattr(p.space_type, 'value', p.space_type) == 'undefined', lambda: f'{w} {p.name} {p.space_type}')
            if nxt:
                ctx.check('what lies behind a part', p.next_space.value == nxt, lambda: f'{w} {p.name} {p.next_space}')
            if what:
                ctx.check('kind of a part', p.general_part_type.value == what, lambda: f'{w} {p.name} {p.general_part_type}')
            if dr:
                ctx.check('direction of a part', p.direction.value == dr, lambda: f'{w} {p.name} {p.direction}')
                ctx.check('overhang of a part', p.sunshade.get_as_dict() == shade, lambda: f'{w} {p.name} {p.sunshade.get_as_dict()}')
    # the pieces the totals are made of
    etrc, bath = ((1.365, 1.82), (1.82, 1.82)) if ht == 'detached' else ((1.0, 1.0), (2.1, 1.365))
    det, deep = ht == 'detached', fl == 'base' or ba == 'base'
    ctx.close('entrance', (d['a_evp_ef_etrc'], d['a_evp_f_etrc']), (etrc[0] * etrc[1], 0.0) if det else (0.0, etrc[0] * etrc[1]),
              1e-12, 0, w)
    sb = bath[0] * bath[1]
    if ba != 'not_exist':
        ctx.close('bath', (d['a_evp_ef_bath'], d['a_evp_f_bath']), (sb, 0.0) if det and deep else (0.0, sb), 1e-12, 0, w)
    ctx.close('earth floor of its pieces', d['a_evp_ef_etrc'] + d['a_evp_ef_bath'] + d['a_evp_ef_other'], ref['earth'], 1e-9, 1e-9, w)
    ctx.close('floor of its pieces', d['a_evp_f_etrc'] + d['a_evp_f_bath'] + d['a_evp_f_other'], ref['floor'], 1e-9, 1e-9, w)
    for what in ('l', 'a_evp'):
        p = [d[f'{what}_base_{k}_outside'] for k in ('etrc', 'bath', 'other')]
        q = [d[f'{what}_base_{k}_inside'] for k in ('etrc', 'bath', 'other')]
        ctx.close('base of its pieces', np.sum(p, axis=0), d[f'{what}_base_total_outside'], 1e-9, 1e-9, f'{w} {what}')
        ctx.close('base of its pieces', sum(q), d[f'{what}_base_total_inside'], 1e-9, 1e-9, f'{w} {what}')
    for k, h in (('etrc', 0.18 if det else 0.0), ('bath', 0.5 if det and deep else 0.0), ('other', 0.5 if fl == 'base' else 0.0)):
        for side in ('outside', 'inside'):
            ctx.close('base is as high as its place', d[f'a_evp_base_{k}_{side}'], np.multiply(d[f'l_base_{k}_{side}'], h), 1e-9,
                      1e-9, f'{w} {k} {side}')
    ctx.check('the question is part of the answer', (d['house_type'], d['floor_ins_type'], d['bath_ins_type']) == (ht, fl, ba),
              lambda: f'{w} {d["house_type"]} {d["floor_ins_type"]} {d["bath_ins_type"]}')
    ctx.close('floor areas', d['a_f'], geometry(ht, fl, ba, a, fs)[0], 1e-9, 0, w)
    ctx.close('floor areas add up', sum(d['a_f']), a, 1e-12, 0, w)
    ctx.close('total of openings', d['a_evp_open_total'], open_, 1e-9, 0, w)
    ctx.close('total of windows', d['a_evp_window_total'], open_ - sum(door), 1e-9, 1e-9, w)
    # parts that cannot be
    never = []
    if det:
        never += [('a_evp_door', i) for i in (0, 3)]
        if fl == 'floor':
            never += [(k, i) for k in ('a_evp_base_total_outside', 'l_base_total_outside') for i in (0, 3)]
        else:
            never += [(k, None) for k in ('a_evp_f_total', 'a_evp_base_total_inside', 'l_base_total_inside')]
    else:
        never += [('a_evp_window', 3)] + [('a_evp_door', i) for i in (0, 1, 3)]
        never += [(k, i) for k in ('a_evp_base_total_outside', 'l_base_total_outside') for i in range(4)]
        never += [(k, None) for k in ('a_evp_ef_total', 'a_evp_base_total_inside', 'l_base_total_inside')]
    for k, i in never:
        x = dict(d)
        x[k] = 0.7 if i is None else tuple(0.7 if j == i else v for j, v in enumerate(d[k]))
        ctx.raises('part that cannot be: ' + k, (Exception,), model_house.get_model_house_no_spec, **x)
    ctx.set_sample({'house': w, 'envelope': ref['total'], 'sides': list(map(float, ref['side']))})


def figures(ht, fl, ba, a, fs):
    af, hs, sides = geometry(ht, fl, ba, a, fs)
    side = [sum(s[i % 2] * h for s, h in zip(sides, hs)) for i in range(4)]
    etrc, bath = ((1.365, 1.82), (1.82, 1.82)) if ht == 'detached' else ((1.0, 1.0), (2.1, 1.365))
    l, l_in, b, b_in, earth = np.zeros(4), 0.0, np.zeros(4), 0.0, 0.0
    if ht == 'detached':
        pieces = [(etrc, 0.18)]
        if fl == 'base' or ba == 'base':
            pieces.append((bath, 0.5))
        for (ms, os), h in pieces:
            p = np.array([0.0, os, ms, 0.0])
            l += p
            b += p * h
            earth += ms * os
            if fl == 'floor':
                l_in += ms + os
                b_in += (ms + os) * h
        if fl == 'base':
            rest = np.array([sides[0][i % 2] for i in range(4)]) - l
            l = l + rest
            b = b + rest * 0.5
            earth = af[0]
    not_base = 2 * af[0] + sum(side)
    return {'side': side, 'roof': af[0], 'floor': af[0] - earth, 'earth': earth, 'base': b, 'base_in': b_in, 'l_base': l,
            'l_base_in': l_in, 'not_base': not_base, 'total': not_base + b.sum() + b_in}


def nature(ht, fl):
    """name of every part: kind, what lies behind it, direction, overhang"""
    no, bare = {'is_defined': False}, {'is_defined': True, 'input': 'not_input'}
    win = {'is_defined': True, 'input': 'simple', 'depth': 0.3, 'd_h': 1.0, 'd_e': 0.0}
    r = {}
    if ht == 'detached':
        r['roof'] = ('ceiling', 'outdoor', 'top', bare)
        for o in ('sw', 'nw', 'ne', 'se'):
            r['wall_' + o] = ('wall', 'outdoor', o, bare)
            r['window_' + o] = (None, 'outdoor', o, win)
            if fl == 'base' or o in ('nw', 'ne'):
                r['base_outside_' + o] = ('wall', 'outdoor', o, bare)
                r['earth_floor_perimeter_' + o] = (None, 'outdoor', None, None)
        for o in ('nw', 'ne'):
            r['door_' + o] = (None, 'outdoor', o, bare)
        r['earth_floor'] = (None, None, None, None)
        if fl == 'floor':
            r['floor'] = ('floor', 'open_underfloor', 'downward', no)
            r['base_inside'] = ('wall', 'open_underfloor', 'horizontal', no)
            r['earth_floor_perimeter_inside'] = (None, 'open_underfloor', None, None)
    else:
        r['roof'] = ('upward_boundary_floor', 'air_conditioned', 'upward', no)
        r['floor'] = ('downward_boundary_floor', 'air_conditioned', 'downward', no)
        for o in ('sw', 'nw'):
            r['wall_' + o] = ('wall', 'outdoor', o, bare)
            r['window_' + o] = (None, 'outdoor', o, win)
        r['wall_ne'] = ('wall', 'open_space', 'horizontal', no)
        r['window_ne'] = (None, 'open_space', 'horizontal', win)
        r['door_ne'] = (None, 'open_space', 'horizontal', no)
        r['wall_se'] = ('boundary_wall', 'air_conditioned', 'horizontal', no)
    return r
