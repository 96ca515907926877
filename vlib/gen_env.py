"""Random envelopes of houses (dictionary form) and an independent computation of their key figures."""
import copy
import numpy as np

OUT = ['top', 'n', 'ne', 'e', 'se', 's', 'sw', 'w', 'nw', 'bottom']
ROOMS = ['main_occupant_room', 'other_occupant_room', 'non_occupant_room']
TYPES = ['roof', 'ceiling', 'wall', 'floor', 'boundary_wall', 'upward_boundary_floor', 'downward_boundary_floor']
NEXT = ['outdoor', 'open_space', 'closed_space', 'open_underfloor', 'air_conditioned', 'closed_underfloor']
UNCOND = ('open_space', 'closed_space', 'open_underfloor', 'closed_underfloor', 'air_conditioned')

# direction factors of the energy saving standard: regions 1 to 8
NU_H = {'top': [1.0] * 7, 'bottom': [0.0] * 7,
        'n': [.260, .263, .284, .256, .238, .261, .227], 'ne': [.333, .341, .348, .330, .310, .325, .281],
        'e': [.564, .554, .540, .531, .568, .579, .543], 'se': [.823, .766, .751, .724, .846, .833, .843],
        's': [.935, .856, .851, .815, .983, .936, 1.023], 'sw': [.790, .753, .750, .723, .815, .763, .848],
        'w': [.535, .544, .542, .527, .538, .523, .548], 'nw': [.325, .341, .351, .326, .297, .317, .284]}
NU_C = {'top': [1.0] * 8, 'bottom': [0.0] * 8,
        'n': [.329, .341, .335, .322, .373, .341, .307, .325], 'ne': [.430, .412, .390, .426, .437, .431, .415, .414],
        'e': [.545, .503, .468, .518, .500, .512, .509, .515], 'se': [.560, .527, .487, .508, .500, .498, .490, .528],
        's': [.502, .507, .476, .437, .472, .434, .412, .480], 'sw': [.526, .548, .550, .481, .520, .491, .479, .517],
        'w': [.508, .529, .553, .481, .518, .504, .495, .505], 'nw': [.411, .428, .447, .401, .442, .427, .406, .411]}


def several(rng, lo, hi, far, p=0.05):
    """how many: lo to hi - 1, now and then up to far"""
    return int(rng.integers(lo, hi)) if rng.random() >= p else int(rng.integers(hi, far + 1))


def nu(direction, region, season):
    return (NU_H if season == 'heating' else NU_C)[direction][region - 1]


def h(next_space, region):
    if next_space in ('outdoor', 'open_space'):
        return 1.0
    if next_space in ('closed_space', 'open_underfloor'):
        return 0.7
    return 0.05 if region <= 3 else 0.15


def f_window(shade, direction, region, season):
    """correction of the sun through a window by overhang and angle"""
    if shade['input'] == 'not_input':
        return 0.51 if season == 'heating' else 0.93
    if direction == 'top':
        return 1.0
    if direction == 'bottom':
        return 0.0
    z, dh, de = shade['depth'], shade['d_h'], shade['d_e']
    southern = direction in ('sw', 's', 'se')
    if season == 'heating':
        a, b, k, top = (5, 20, 3, .72) if southern else (10, 15, 2, .72)
    elif region == 8:
        a, b, k, top = (16, 19, 2, .93) if southern else (16, 24, 2, .93)
    else:
        a, b, k, top = (24, 9, 3, .93) if direction == 's' else (16, 24, 2, .93)
    return min(0.01 * (a + b * (k * de + dh) / z), top)


def r_layer(x):
    return x['thickness'] / x['thermal_conductivity'] if x['heat_resistance_input_method'] == 'conductivity' \
        else x['thermal_resistance']


def u_spec(s):
    if s['structure'] == 'other':
        return s['u_value_other']
    u = sum(p['part_area_ratio'] / (s['r_srf_in'] + sum(map(r_layer, p['layers'])) + s['r_srf_ex']) for p in s['parts'])
    return u + s.get('u_r_value_steel', 0.0)


def figures(env, region):
    """(total area, UA, eta A heating or None, eta A cooling) of an envelope"""
    q = a = mh = mc = 0.0
    for g in env['general_parts']:
        u = u_spec(g['spec'])
        a += g['area']
        q += g['area'] * u * h(g['next_space'], region)
        if g['next_space'] == 'outdoor':
            if region != 8:
                mh += g['area'] * 0.034 * u * nu(g['direction'], region, 'heating')
            mc += g['area'] * 0.034 * u * nu(g['direction'], region, 'cooling')
    for d in env['doors']:
        u = d['spec']['u_value']
        a += d['area']
        q += d['area'] * u * h(d['next_space'], region)
        if d['next_space'] == 'outdoor':
            if region != 8:
                mh += d['area'] * 0.034 * u * nu(d['direction'], region, 'heating')
            mc += d['area'] * 0.034 * u * nu(d['direction'], region, 'cooling')
    for w in env['windows']:
        s = w['spec']
        a += w['area']
        q += w['area'] * s['u_value'] * h(w['next_space'], region)
        if w['next_space'] == 'outdoor':
            d = w['direction']
            if region != 8:
                mh += w['area'] * s['eta_d_h_value'] * nu(d, region, 'heating') * f_window(w['sunshade'], d, region,
                                                                                          'heating')
            mc += w['area'] * s['eta_d_c_value'] * nu(d, region, 'cooling') * f_window(w['sunshade'], d, region,
                                                                                      'cooling')
    for p in env['earthfloor_perimeters']:
        q += p['length'] * p['spec']['psi_value'] * h(p['next_space'], region)
    a += sum(c['area'] for c in env['earthfloor_centers'])
    return a, q / a, None if region == 8 else mh / a * 100.0, mc / a * 100.0


def _v(x):
    return float(np.round(x, int(np.random.default_rng(int(x * 1e6) % 1000003).integers(2, 9))))


def layer(rng):
    if rng.random() < 0.7:
        return {'name': str(rng.choice(['wood', 'gpb', 'wool', 'concrete'])),
                'heat_resistance_input_method': 'conductivity', 'thickness': float(rng.uniform(0.005, 0.2)),
                'volumetric_specific_heat': float(rng.uniform(0.0, 2500.0)),
                'thermal_conductivity': float(rng.uniform(0.02, 2.0))}
    return {'name': 'air_layer', 'heat_resistance_input_method': 'resistance',
            'thickness': float(rng.uniform(0.0, 0.15)), 'volumetric_specific_heat': float(rng.choice([0.0, 13.0])),
            'thermal_resistance': float(rng.uniform(0.05, 3.0))}


def general_spec(rng):
    k = str(rng.choice(['wood', 'rc', 'steel', 'other']))
    if k == 'other':
        return {'structure': 'other', 'u_value_other': float(rng.choice([rng.uniform(0.1, 1.5), rng.uniform(1.5, 6.0)])),
                'weight': str(rng.choice(['light', 'heavy']))}
    n = several(rng, 1, 4, 9)
    w = rng.uniform(0.1, 1.0, n)
    w = w / w.sum()
    d = {'structure': k, 'r_srf_in': float(rng.choice([0.09, 0.11, 0.15])),
         'r_srf_ex': float(rng.choice([0.04, 0.09, 0.11, 0.15])),
         'parts': [{'name': f'part{i}', 'part_area_ratio': float(w[i]),
                    'layers': [layer(rng) for _ in range(several(rng, 1, 4, 12))]} for i in range(n)]}
    if k == 'steel':
        d['u_r_value_steel'] = float(rng.choice([0.0, rng.uniform(0.01, 0.3)]))
    return d


def opaque_shade(rng, outdoor, complex_ok):
    if not outdoor:
        return {'is_defined': False}
    if complex_ok and rng.random() < 0.3:
        return dict({'is_defined': True, 'input': 'complex'}, **complex_shade(rng))
    return {'is_defined': True, 'input': 'not_input'}


def complex_shade(rng):
    return {k: float(rng.uniform(0.1, 2.0)) for k in ('x1', 'x2', 'x3', 'y1', 'y2', 'y3', 'z_x_pls', 'z_x_mns',
                                                     'z_y_pls', 'z_y_mns')}


def window_shade(rng, outdoor, complex_ok):
    if not outdoor:
        return {'is_defined': False}
    if complex_ok and rng.random() < 0.35:
        if rng.random() < 0.5:
            return {'is_defined': True, 'input': 'not_exist'}
        return dict({'is_defined': True, 'input': 'complex'}, **complex_shade(rng))
    if rng.random() < 0.3:
        return {'is_defined': True, 'input': 'not_input'}
    return {'is_defined': True, 'input': 'simple', 'depth': float(rng.uniform(0.1, 2.0)),
            'd_h': float(rng.uniform(0.3, 2.2)), 'd_e': float(rng.choice([0.0, rng.uniform(0.0, 1.0)]))}


def _where(rng, t=None):
    """(next space, direction)"""
    if t in ('boundary_wall', 'upward_boundary_floor', 'downward_boundary_floor'):
        return 'air_conditioned', {'boundary_wall': 'horizontal', 'upward_boundary_floor': 'upward',
                                   'downward_boundary_floor': 'downward'}[t]
    ns = str(rng.choice(NEXT)) if rng.random() < 0.5 else 'outdoor'
    if ns == 'outdoor':
        d = {'roof': ['top'], 'ceiling': ['top'], 'floor': ['bottom']}.get(t) or OUT[1:9]
        return ns, str(rng.choice(d))
    d = {'roof': 'upward', 'ceiling': 'upward', 'floor': 'downward'}.get(t)
    return ns, d or str(rng.choice(['upward', 'horizontal', 'horizontal', 'downward']))


def random_envelope(rng, space=None, complex_ok=False):
    """space: callable giving the room of a part, default 'undefined'"""
    sp = space or (lambda: 'undefined')
    gps, ws, ds, eps, ecs, hbs = [], [], [], [], [], []
    for k in range(several(rng, 3, 12, 45)):
        t = str(rng.choice(TYPES))
        ns, d = _where(rng, t)
        gps.append({'name': f'g{k}', 'general_part_type': t, 'next_space': ns, 'direction': d,
                    'area': float(rng.uniform(1.0, 40.0)), 'space_type': sp(), 'spec': general_spec(rng),
                    'sunshade': opaque_shade(rng, ns == 'outdoor', complex_ok)})
    for k in range(several(rng, 1, 7, 30)):
        ns, d = _where(rng)
        if ns == 'outdoor' and rng.random() < 0.1:
            d = 'top'
        ws.append({'name': f'w{k}', 'next_space': ns, 'direction': d, 'area': float(rng.uniform(0.2, 8.0)),
                   'space_type': sp(), 'sunshade': window_shade(rng, ns == 'outdoor', complex_ok),
                   'spec': {'u_value': float(rng.uniform(1.0, 6.5)), 'eta_d_h_value': float(rng.uniform(0.1, 0.88)),
                            'eta_d_c_value': float(rng.uniform(0.1, 0.88)),
                            'glass_type': str(rng.choice(['single', 'double', 'triple_and_more', 'unknown'])),
                            'flame_type': str(rng.choice(['wood', 'resin', 'metal', 'wood_and_metal',
                                                          'resin_and_metal', 'unknown']))}})
    for k in range(several(rng, 0, 3, 12)):
        ns, d = _where(rng)
        ds.append({'name': f'd{k}', 'next_space': ns, 'direction': d, 'area': float(rng.uniform(1.0, 3.0)),
                   'space_type': sp(), 'sunshade': opaque_shade(rng, ns == 'outdoor', complex_ok),
                   'spec': {'u_value': float(rng.uniform(1.0, 6.5))}})
    for k in range(several(rng, 0, 4, 14)):
        eps.append({'name': f'e{k}', 'next_space': str(rng.choice(NEXT)), 'length': float(rng.uniform(0.5, 20.0)),
                    'space_type': sp(), 'spec': {'psi_value': float(rng.uniform(0.1, 2.0))}})
    for k in range(several(rng, 0, 3, 12)):
        ecs.append({'name': f'c{k}', 'area': float(rng.uniform(1.0, 50.0)), 'space_type': sp(),
                    'spec': {'layers': [] if rng.random() < 0.5 else [layer(rng)]}})
    for k in range(several(rng, 0, 6, 20)):
        n = int(rng.choice([1, 2, 2, 3, 4, 5])) if rng.random() < 0.95 else int(rng.integers(6, 12))
        hbs.append({'name': f'h{k}', 'next_spaces': [str(rng.choice(NEXT)) for _ in range(n)],
                    'directions': [str(rng.choice(OUT)) for _ in range(n)], 'length': float(rng.uniform(0.5, 20.0)),
                    'space_type': sp(), 'spec': {'psi_value': float(rng.uniform(0.1, 1.0))}})
    if rng.random() < 0.35:
        # the very same part again, or only its figures
        for l in (gps, ws, ds, eps, ecs, hbs):
            for _ in range(int(rng.integers(0, 3)) if l else 0):
                p = copy.deepcopy(l[int(rng.integers(0, len(l)))])
                if rng.random() < 0.4:
                    p['name'] += 'x'
                if rng.random() < 0.4:
                    p['space_type'] = sp()
                l.insert(int(rng.integers(0, len(l) + 1)), p)
    if rng.random() < 0.15:
        for l in (gps, ws, ds, eps, ecs, hbs):
            for p in l:
                p['name'] = 'part'
    while rng.random() < 0.35:
        # a figure far from the usual
        l = [gps, ws, ds, eps, ecs, hbs][int(rng.integers(0, 6))]
        if l:
            p = l[int(rng.integers(0, len(l)))]
            k = 'area' if 'area' in p else 'length'
            p[k] = float(p[k] * np.exp(rng.choice([-1.0, 1.0]) * rng.uniform(1.0, 4.0)))
            if p.get('sunshade', {}).get('input') == 'simple':
                q = str(rng.choice(['depth', 'd_h', 'd_e']))
                p['sunshade'] = dict(p['sunshade'], **{q: float(rng.uniform(1.0, 8.0))})
    if rng.random() < 0.15:
        # whole numbers, written as such
        for l in (gps, ws, ds, eps, ecs, hbs):
            for p in l:
                for k in ('area', 'length'):
                    if k in p:
                        p[k] = max(1, round(p[k]))
                s = p.get('sunshade', {})
                if s.get('input') == 'simple':
                    p['sunshade'] = dict(s, depth=max(1, round(s['depth'])), d_h=max(1, round(s['d_h'])),
                                         d_e=round(s['d_e']))
    return {'general_parts': gps, 'windows': ws, 'doors': ds, 'earthfloor_perimeters': eps, 'earthfloor_centers': ecs,
            'heat_bridges': hbs}


def random_common(rng, edge=None):
    """floor areas; edge: None, 'no_other', 'no_non', 'main_only'"""
    tot = float(rng.uniform(30.0, 250.0) if rng.random() < 0.9 else rng.choice([rng.uniform(8.0, 30.0), rng.uniform(250.0, 900.0)]))
    if edge == 'main_only':
        return {'total_floor_area': tot, 'main_occupant_room_floor_area': tot, 'other_occupant_room_floor_area': 0.0}
    a = float(rng.uniform(0.1, 0.6) if rng.random() < 0.85 else rng.choice([rng.uniform(0.004, 0.1), rng.uniform(0.6, 0.97)])) * tot
    if edge == 'no_other':
        return {'total_floor_area': tot, 'main_occupant_room_floor_area': a, 'other_occupant_room_floor_area': 0.0}
    if edge == 'no_non':
        a = round(a, 2)
        b = round(tot - a, 2)
        return {'total_floor_area': a + b, 'main_occupant_room_floor_area': a, 'other_occupant_room_floor_area': b}
    b = float(rng.uniform(0.05, 0.9) if rng.random() < 0.85 else rng.choice([rng.uniform(0.002, 0.05), rng.uniform(0.9, 0.998)])) \
        * (tot - a)
    return {'total_floor_area': tot, 'main_occupant_room_floor_area': a, 'other_occupant_room_floor_area': b}


EDGES = [None, None, None, 'no_other', 'no_non', 'main_only']


def rename(part, **kw):
    return {k: v for k, v in part.items() if k not in kw} | kw


def pick(rng, *ranges):
    """a figure of one of the ranges, all equally likely"""
    lo, hi = ranges[int(rng.integers(0, len(ranges)))]
    return float(rng.uniform(lo, hi))
