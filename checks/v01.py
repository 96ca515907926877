import copy

import numpy as np

from vlib import gen_env

ID = 'V01'
RULE = ('each case is one set of indices (region, detached or attached, floor area, envelope area, UA, eta A) turned into '
        'an envelope by the real code; an independent computation from the dictionaries it returns has to find the '
        'indices again, and the parts have to follow the rule for distributing heat loss. Non-trivial: every envelope; '
        'distinct by indices.')
ASSUMPTIONS = ['standard and largest U values as documented', 'solar gain of windows is limited to 0.88, so that eta A '
               'is met only within these limits (documented)']
REQUIRE = {'eval:UA is met': 300, 'eval:eta A cooling is met': 40, 'eval:eta A heating is met': 40,
           'UA above what parts allow': 3, 'parts at their largest U value': 30, 'region 8': 10, 'relatives of a house': 300, 'roofs': 200, 'eval:UA of own parts': 300, 'eval:gain of windows': 300,
           'own parts: UA out of reach': 10}
STD = {'roof': [.17, .17, .24, .24, .24, .24, .24, .24], 'wall': [.35, .35, .53, .53, .53, .53, .53, 4.10],
       'floor': [.34, .34, .34, .48, .48, .48, .48, 3.52], 'window': [2.33, 2.33, 3.49, 4.65, 4.65, 4.65, 4.65, 6.51],
       'psi': [.53, .53, .53, .76, .76, .76, .76, 1.80]}
# part type: (standard values, largest value)
PART = {'roof': ('roof', 1 / (.09 + .0095 / .22 + .04)), 'ceiling': ('roof', 1 / (.09 + .0095 / .22 + .09)),
        'wall': ('wall', 1 / (.11 + .0095 / .22 + .04)), 'floor': ('floor', 1 / (.15 + .012 / .16 + .04)),
        'upward_boundary_floor': ('roof', 1 / (.09 + .0095 / .22 + .09)),
        'boundary_wall': ('wall', 1 / (.11 + .0095 / .22 + .11)),
        'downward_boundary_floor': ('floor', 1 / (.15 + .012 / .16 + .15)),
        'window': ('window', 6.51), 'door': ('window', 6.51), 'psi': ('psi', 100.0)}


def cases(tier, rng):
    cs = []
    for k in range(3000 if tier == 'quick' else 60000):
        ht = 'detached' if k % 2 else 'attached'
        cs.append({'region': 1 + k % 8 if k % 5 else int(rng.integers(1, 9)), 'house_type': ht,
                   'floor': gen_env.pick(rng, (50.0, 200.0), (25.0, 50.0), (200.0, 450.0)), 'shape': gen_env.pick(rng, (1.0, 1.4), (1.0, 1.1), (1.4, 2.2)),
                   'u_a': float(rng.choice([rng.uniform(0.2, 1.0), rng.uniform(1.0, 2.5), rng.uniform(2.5, 7.0)])),
                   'eta_h': float(rng.uniform(0.3, 6.0)), 'eta_c': float(rng.uniform(0.3, 5.0)),
                   'gain': float(rng.uniform(0.15, 0.85))})
    # the next house shares all but one or two figures with this one
    for k, c in enumerate(cs):
        c['next'] = {str(x): cs[k - 1][x] for x in rng.choice(sorted(cs[k - 1].keys() - {'next'}), size=int(rng.integers(1, 3)),
                                                             replace=False)}
    return cs


def run(case, ctx):
    c = {k: v for k, v in case.items() if k != 'next'}
    judge(c, ctx)
    if case.get('next'):
        ctx.count('relatives of a house')
        judge({**c, **case['next']}, ctx)
    own(c, ctx)


FIELD = {'roof': 'roof', 'ceiling': 'ceiling', 'wall': 'wall', 'floor': 'floor', 'boundary_wall': 'boundary_wall',
         'upward_boundary_floor': 'boundary_ceiling', 'downward_boundary_floor': 'boundary_floor', 'window': 'window', 'door': 'door',
         'psi': 'earthfloor_perimeter'}


def own(case, ctx):
    """any parts instead of those of a model house"""
    from heat_load_calc.convert import ees_house as h, get_u_psi_eta_from_u_a_and_eta_a as g
    rng = np.random.default_rng(int(case['floor'] * 1e9))
    region, u_a = case['region'], case['u_a']
    env = gen_env.random_envelope(rng)
    env['heat_bridges'] = []
    w = copy.deepcopy(env['windows'][0])
    w.update(name='front', next_space='outdoor', direction='s', sunshade={'is_defined': True, 'input': 'not_input'})
    env['windows'].append(w)
    for p in env['windows']:
        p['spec']['eta_d_h_value'] = p['spec']['eta_d_c_value'] = case['gain']
    for p in env['general_parts']:
        p['spec'] = {'structure': 'other', 'u_value_other': 1.0, 'weight': 'light'}
    made = {'gps': ctx.sut('parts', h.GeneralPart.make_general_parts, env['general_parts']),
            'ws': ctx.sut('windows', h.Window.make_windows, env['windows']),
            'ds': ctx.sut('doors', h.Door.make_doors, env['doors']),
            'eps': ctx.sut('perimeters', h.EarthfloorPerimeter.make_earthfloor_perimeters, env['earthfloor_perimeters']),
            'ecs': ctx.sut('earth floors', h.EarthfloorCenter.make_earthfloor_centers, env['earthfloor_centers'])}
    eta_h, eta_c = (None if region == 8 else case['eta_h']), case['eta_c']
    u, eta, gh, gc = ctx.sut('U values of parts', g.calc_parts_spec, region, u_a, eta_h, eta_c, **made)
    u = u._asdict()
    reach = rng.random() < 0.6
    for again in ([0, 1] if reach else [0]):
        f, lim = {}, {}
        for t, k in FIELD.items():
            s, mx = PART[t]
            f[t], lim[t] = u[k] / STD[s][region - 1], mx / STD[s][region - 1]
            ctx.check('no U value above the largest', u[k] <= mx * (1 + 1e-9), lambda: f'{t} {u[k]}')
        here = {p['general_part_type'] for p in env['general_parts']} | {'window'} | ({'door'} if env['doors'] else set()) | (
            {'psi'} if env['earthfloor_perimeters'] else set())
        level = max(f[t] for t in here)
        for t in FIELD:
            ctx.check('one share of the standard for all parts below their limit', t not in here and f[t] >= level * (1 - 1e-9) or
                      abs(f[t] - min(level, lim[t])) <= 1e-9 * level, lambda: f'{t} {f[t]} of {level}, limit {lim[t]}')
            if t == 'roof' and t in here:
                ctx.count('roofs')
        for p in env['general_parts']:
            p['spec']['u_value_other'] = u[FIELD[p['general_part_type']]]
        for kind, key in (('windows', 'window'), ('doors', 'door')):
            for p in env[kind]:
                p['spec']['u_value'] = u[key]
        for p in env['earthfloor_perimeters']:
            p['spec']['psi_value'] = u['earthfloor_perimeter']
        for p in env['windows']:
            p['spec'].update(eta_d_h_value=gh, eta_d_c_value=gc)
        a, x, mh, mc = gen_env.figures(env, region)
        if all(f[t] >= lim[t] * (1 - 1e-9) for t in here):
            ctx.count('own parts: UA out of reach')
            ctx.check('largest possible UA if the target is out of reach', x <= u_a * (1 + 1e-9), lambda: f'{x} for {u_a}')
        else:
            ctx.close('UA of own parts', x, u_a, 1e-9, 0, f'region {region}')
        ctx.close('overall gain', eta, gc if region == 8 else (gh + gc) / 2, 1e-12, 0, f'region {region}')
        for season, got, exp, gain in (('heating', mh, eta_h, gh), ('cooling', mc, eta_c, gc)):
            if season == 'heating' and region == 8:
                ctx.check('no heating season in region 8', gh == gc, lambda: f'{gh} {gc}')
            elif gain <= 0.0:
                ctx.check('no gain if eta A is exceeded by walls', gain == 0.0 and got >= exp * (1 - 1e-9), lambda: f'{got} {exp}')
            elif gain >= 0.88:
                ctx.check('largest gain if eta A is out of reach', gain == 0.88 and got <= exp * (1 + 1e-9), lambda: f'{got} {exp}')
            else:
                ctx.close(f'eta A {season} of own parts', got, exp, 1e-9, 0, f'region {region}')
        if reach and not again:
            # ask for what the windows would let in
            for p in env['windows']:
                p['spec'].update(eta_d_h_value=case['gain'], eta_d_c_value=0.9 * case['gain'])
            eta_h, eta_c = gen_env.figures(env, region)[2:]
            u, eta, gh, gc = ctx.sut('U values of parts', g.calc_parts_spec, region, u_a, eta_h, eta_c, **made)
            u = u._asdict()
            ctx.close('gain of windows', gc, 0.9 * case['gain'], 1e-7, 0, f'region {region}')
            if region != 8:
                ctx.close('gain of windows', gh, case['gain'], 1e-7, 0, f'region {region}')


def judge(case, ctx):
    from heat_load_calc.convert import check_ua_a_eta_a, convert_indices_to_lv2_info, model_house
    r = case['region']
    kw = {'detached': dict(floor_ins_type='floor', bath_ins_type='base'), 'attached': {}}[case['house_type']]
    base = ctx.sut('model house', model_house.calc_area, house_type=case['house_type'], a_f_total=case['floor'],
                   r_open=0.1, **kw)
    srf = float(np.sum(base['a_evp_srf']))
    total = float(base['a_evp_total'] + srf * (case['shape'] - 1.0))
    d = {'common': {'region': r, 'house_type': case['house_type'], 'total_floor_area': case['floor'],
                    'main_occupant_room_floor_area': case['floor'] / 3.0,
                    'other_occupant_room_floor_area': case['floor'] / 3.0},
         'envelope': {'input_method': 'index', 'total_area': total,
                      'indices': {'u_a': case['u_a'], 'eta_a_h': case['eta_h'], 'eta_a_c': case['eta_c']}}}
    # indices that can be met: take what the windows of the same envelope would let in
    first = ctx.sut('conversion', convert_indices_to_lv2_info.convert_spec, copy.deepcopy(d))
    for w in first['windows']:
        w['spec']['eta_d_h_value'] = w['spec']['eta_d_c_value'] = case['gain']
    fig = gen_env.figures(first, r)
    reach = case['floor'] % 0.01 < 0.006
    if reach:
        d['envelope']['indices'].update(eta_a_h=fig[2] if r != 8 else None, eta_a_c=fig[3])
    before = copy.deepcopy(d)
    e = ctx.sut('conversion', convert_indices_to_lv2_info.convert_spec, d)
    ctx.check('input is not changed', d == before, 'the input was changed')
    idx = d['envelope']['indices']
    if r == 8:
        ctx.count('region 8')
    ctx.nontrivial((r, case['house_type'], case['floor'], case['u_a'], idx['eta_a_c']))
    a, u, mh, mc = gen_env.figures(e, r)
    ctx.close('envelope area is met', a, total, 1e-9, 0, f'{case["house_type"]} {case["floor"]}')
    # share of the standard value of every part
    f, top = {}, {}
    for kind, key in (('general_parts', None), ('windows', 'window'), ('doors', 'door'), ('earthfloor_perimeters', 'psi')):
        for p in e[kind]:
            t = key or p['general_part_type']
            v = p['spec'].get('u_value', p['spec'].get('u_value_other', p['spec'].get('psi_value')))
            s, mx = PART[t]
            ctx.check('no U value above the largest', v <= mx * (1 + 1e-9), lambda: f'{p["name"]} {v} above {mx}')
            f.setdefault(t, []).append(v / STD[s][r - 1])
            top[t] = mx / STD[s][r - 1]
    level = max(max(v) for v in f.values())
    for t, v in f.items():
        ctx.check('equal parts alike', np.ptp(v) < 1e-12, lambda: f'{t} {v}')
        full = abs(v[0] - top[t]) <= 1e-9 * top[t]
        ctx.count('parts at their largest U value' if full else 'parts below their largest U value')
        ctx.check('one share of the standard for all parts below their limit', full or abs(v[0] - level) <= 1e-9 * level,
                  lambda: f'{t}: {v[0]} of {level}')
    if all(abs(v[0] - top[t]) <= 1e-9 * top[t] for t, v in f.items()):
        ctx.count('UA above what parts allow')
        ctx.check('largest possible UA if the target is out of reach', u <= case['u_a'] * (1 + 1e-9),
                  lambda: f'{u} for {case["u_a"]}')
    else:
        ctx.close('UA is met', u, case['u_a'], 1e-9, 0, f'region {r} {case["house_type"]}')
    for season, got, exp, key in (('heating', mh, idx['eta_a_h'], 'eta_d_h_value'), ('cooling', mc, idx['eta_a_c'],
                                                                                       'eta_d_c_value')):
        gain = {w['spec'][key] for w in e['windows']}
        if not ctx.check('one gain for all windows', len(gain) == 1, lambda: str(gain)):
            continue
        g = gain.pop()
        ctx.check('gain within its limits', 0.0 <= g <= 0.88, lambda: str(g))
        if season == 'heating' and r == 8:
            ctx.check('no heating season in region 8', g == {w['spec']['eta_d_c_value'] for w in e['windows']}.pop(), '')
        elif 0.0 < g < 0.88:
            ctx.close(f'eta A {season} is met', got, exp, 1e-9, 0, f'region {r} {case["house_type"]} gain {g}')
        elif g == 0.88:
            ctx.check('largest gain if eta A is out of reach', got <= exp * (1 + 1e-9), lambda: f'{season} {got} {exp}')
        else:
            ctx.check('no gain if eta A is exceeded by walls', got >= exp * (1 - 1e-9), lambda: f'{season} {got} {exp}')
    o = ctx.sut('check of UA', check_ua_a_eta_a.check_u_a_and_eta_a, r, e)
    ctx.close('UA and eta A by the program', [v for v in o if v is not None], [v for v in (u, mh, mc) if v is not None],
              1e-10, 0, f'region {r}')
    ctx.set_sample({'case': case, 'u_a': u, 'share of standard': level})
