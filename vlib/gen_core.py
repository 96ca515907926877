"""Random houses in the form the simulation reads (mid_data_house.json + csv files), and execution of the
simulation on them.  Everything is drawn from one numpy Generator, so a case is its seed and options."""
import json
import os
import shutil
import tempfile

import numpy as np
import pandas as pd

from vlib import ref_rf

LAYERS = [
    ('plaster', 0.0125 / 0.22, 0.0125 * 830.0),
    ('wood', 0.012 / 0.16, 0.012 * 716.0),
    ('glasswool', 0.1 / 0.045, 0.1 * 13.0),
    ('thin glasswool', 0.05 / 0.045, 0.05 * 13.0),
    ('concrete', 0.15 / 1.6, 0.15 * 2000.0),
    ('thin concrete', 0.05 / 1.6, 0.05 * 2000.0),
    ('air', 0.09, 0.0),
    ('carpet', 0.007 / 0.08, 0.007 * 318.0),
    ('polystyrene', 0.05 / 0.034, 0.05 * 50.4),
]


def _r(x):
    return float(x)


def rand_layers(rng, n=None):
    n = n or int(rng.integers(1, 5))
    if rng.random() < 0.08:
        n += int(rng.integers(1, 9))
    out = []
    for _ in range(n):
        nm, r, c = LAYERS[int(rng.integers(0, len(LAYERS)))]
        f = _r(rng.uniform(0.5, 1.5))
        out.append({'name': nm, 'thermal_resistance': r * f, 'thermal_capacity': c * f})
    while sum((y['thermal_resistance'] * y['thermal_capacity'] * 30.0) ** 0.5 for y in out) > 200.0:
        out.pop()
    if all(l['thermal_capacity'] == 0.0 for l in out):
        nm, r, c = LAYERS[0]
        out.append({'name': nm, 'thermal_resistance': r, 'thermal_capacity': c})
    return out


def wall_spec(rng, kind, ro=None):
    """a layered wall for which the documented approximation with fixed roots is admissible (see ref_rf); internal
    walls have to be so from both sides"""
    for _ in range(60):
        lay = rand_layers(rng)
        if kind == 'ground':
            s = {'method': 'layers_ground', 'boundary_type': 'ground', 'layers': lay}
        else:
            s = {'method': 'layers', 'boundary_type': kind, 'layers': lay,
                 'outside_heat_transfer_resistance': ro if ro is not None else _r(rng.choice([0.04, 0.09, 0.11, 0.15]))}
        if not ref_rf.well_behaved(s):
            continue
        if kind == 'internal' and not ref_rf.well_behaved(dict(s, layers=lay[::-1])):
            continue
        return s
    raise RuntimeError('no admissible wall found')


def _ints(v):
    """the same description with whole numbers written as such"""
    if isinstance(v, dict):
        return {k: _ints(x) for k, x in v.items()}
    if isinstance(v, list):
        return [_ints(x) for x in v]
    return int(v) if isinstance(v, float) and v == int(v) else v


def random_house(rng, n_rooms=None, days=1, run_days=0, intervent=False, opt=None):
    """opt: dict of switches
        radiative: probability that a room has radiative heating / cooling
        no_ac: no conditioning demand at all
        demand: 'mixed' | 'always' | 'none' | 'fractional'
        pairs: number of internal wall pairs per room couple (default random)
        shuffle: boundaries not grouped by room
        ground: probability of a ground floor
        rf: give response factors instead of layers for some boundaries
        dehum: proper cooling spec; 'none' → room without convective cooling
        season: 'winter' | 'summer' | 'mild' | None
    """
    opt = dict(opt or {})
    n = n_rooms or int(rng.choice([1, 2, 3, 4], p=[0.2, 0.35, 0.3, 0.15]))
    p_rad = opt.get('radiative', 0.35)
    steps = days * 96
    spaces = []
    for i in range(n):
        v = _r(rng.uniform(8.0, 110.0) if rng.random() < 0.9 else rng.choice([rng.uniform(1.5, 8.0), rng.uniform(110.0, 900.0)]))
        rad_h = bool(rng.random() < p_rad)
        rad_c = bool(rng.random() < p_rad * 0.7)
        conv_c = bool(rng.random() < opt.get('conv_cooling', 0.85))
        if opt.get('demand') == 'always' and not rad_c:
            conv_c = True
        q_max = _r(rng.uniform(2200.0, 8000.0) if rng.random() < 0.9 else rng.choice([rng.uniform(750.0, 2200.0), rng.uniform(8000.0, 20000.0)]))
        v_max = _r(rng.uniform(8.0, 25.0) if rng.random() < 0.9 else rng.choice([rng.uniform(3.0, 8.0), rng.uniform(25.0, 60.0)]))
        conv_spec = {'installed': conv_c}
        if conv_c:
            conv_spec.update(q_min=_r(rng.uniform(300.0, 700.0)), q_max=q_max,
                             v_min=v_max * _r(rng.uniform(0.4, 0.7)), v_max=v_max)
            if rng.random() < 0.1:
                # one fan speed, or down to nothing
                conv_spec.update([{'v_min': v_max}, {'q_min': 0.0}][int(rng.integers(0, 2))])
        heat_rad = {'installed': rad_h}
        if rad_h:
            heat_rad['max_capacity'] = _r(rng.choice([rng.uniform(100, 800), rng.uniform(800, 6000)])) \
                if rng.random() < 0.95 else 0.0
        cool_rad = {'installed': rad_c}
        if rad_c:
            cool_rad['max_capacity'] = _r(rng.choice([rng.uniform(50, 500), rng.uniform(500, 4000)])) \
                if rng.random() < 0.93 else rng.choice([0.0, rng.uniform(0.0, 20.0)])
        far = rng.random() < 0.1
        c_frt = 12600.0 * v * _r(rng.uniform(0.2, 3.0) if not far else 10.0 ** rng.uniform(-2.0, 1.3))
        c_lh = 16.8 * v * _r(rng.uniform(0.2, 3.0) if not far else 10.0 ** rng.uniform(-2.0, 1.3))
        furn = {'heat_capacity': c_frt, 'heat_cond': 0.00022 * c_frt * _r(rng.uniform(0.3, 3.0)),
                'moisture_capacity': c_lh, 'moisture_cond': 0.0018 * c_lh * _r(rng.uniform(0.3, 3.0))}
        if rng.random() < 0.12:
            # furniture that stores nothing, or keeps what it has
            furn[str(rng.choice(list(furn)))] = 0.0
        beta = 0.0
        if rad_h or rad_c:
            beta = _r(rng.choice([0.0, rng.uniform(0.0, 0.9)]))
        elif rng.random() < 0.3:
            beta = _r(rng.uniform(0.0, 1.0))
        spaces.append({
            'id': i, 'name': f'room{i}', 'volume': v, 'beta': beta,
            'ventilation': {
                'mechanical': _r(rng.choice([0.0, rng.uniform(0.0, 0.03), v * 0.5 / 3600.0])),
                'next_spaces': [0.0] * n,
                'natural': v * _r(rng.choice([0.0, 5.0, rng.uniform(0.0, 20.0), rng.uniform(0.0, 20.0), rng.uniform(20.0, 60.0)])) / 3600.0,
            },
            'furniture': furn,
            'equipment': {
                'heating': {'radiative': heat_rad, 'convective': {'installed': bool(rng.random() < 0.9)}},
                'cooling': {'radiative': cool_rad, 'convective': conv_spec},
            },
        })
    if intervent and n > 1:
        for i in range(n):
            for k in range(n):
                if k != i and rng.random() < 0.5:
                    spaces[i]['ventilation']['next_spaces'][k] = _r(rng.uniform(0.002, 0.03))
    if rng.random() < 0.12:
        # one room with a great deal of outdoor air
        spaces[int(rng.integers(0, n))]['ventilation']['mechanical'] = _r(rng.uniform(0.03, 0.6))

    bs = []

    def add(**kw):
        kw.setdefault('sub_name', '')
        kw.setdefault('is_ground', 'false')
        kw.setdefault('k_outside', 1.0)
        kw.setdefault('k_inside', None)
        kw.setdefault('flr', 0.0)
        kw.setdefault('is_floor', False)
        kw['key'] = len(bs)
        kw.setdefault('name', f'b{len(bs)}')
        kw['h_c'] = kw.get('h_c') or _r(rng.choice([0.7, 2.5, 5.0, rng.uniform(0.5, 6.0)]))
        bs.append(kw)
        return kw['key']

    uniform_hc = _r(rng.choice([2.5, rng.uniform(0.7, 5.0)])) if opt.get('uniform_hc') else None
    for i in range(n):
        for _ in range(int(rng.integers(1, 4)) if rng.random() < 0.95 else int(rng.integers(4, 13))):
            spec = wall_spec(rng, 'external_general_part')
            if rng.random() < 0.2:
                spec = {'method': 'u_value', 'boundary_type': 'external_opaque_part',
                        'u_value': _r(rng.uniform(0.5, 4.0) if rng.random() < 0.7 else rng.uniform(4.0, 8.5)),
                        'inside_heat_transfer_resistance': _r(rng.choice([0.09, 0.11]))}
            a = rng.uniform(2.0, 25.0) if rng.random() < 0.93 else rng.choice([rng.uniform(0.02, 0.5), rng.uniform(30.0, 200.0)])
            k = add(room=i, kind='wall', area=_r(a), spec=spec, h_c=uniform_hc)
            if rng.random() < 0.12:
                # the very same wall once more
                add(room=i, kind='wall', area=bs[k]['area'], spec=spec, h_c=bs[k]['h_c'], name=bs[k]['name'])
        for _ in range(int(rng.integers(0, 3)) if rng.random() < 0.95 else int(rng.integers(3, 11))):
            spec = {'method': 'u_value', 'boundary_type': 'external_transparent_part',
                    'u_value': _r(rng.uniform(1.0, 6.0) if rng.random() < 0.7 else
                                  rng.choice([rng.uniform(0.3, 1.0), rng.uniform(6.0, 8.5)])),
                    'inside_heat_transfer_resistance': _r(rng.choice([0.11, 0.1]))}
            k = add(room=i, kind='window', area=_r(rng.uniform(0.5, 8.0) if rng.random() < 0.9 else rng.choice([rng.uniform(0.02, 0.5), rng.uniform(8.0, 40.0)])),
                    h_c=uniform_hc, spec=spec)
            if rng.random() < 0.12:
                add(room=i, kind='window', area=bs[k]['area'], h_c=bs[k]['h_c'], spec=spec, name=bs[k]['name'])
        if rng.random() < 0.6:
            # partition to a space that is not simulated: its temperature lies between outdoor and this room's
            coef = _r(rng.choice([0.05, 0.15, 0.7, rng.uniform(0.0, 1.0), rng.uniform(0.0, 1.0), 0.0, 1.0 - 10.0 ** rng.uniform(-4, -1),
                                  10.0 ** rng.uniform(-4, -1)]))
            k = add(room=i, kind='partition', area=_r(rng.uniform(2.0, 20.0)), h_c=uniform_hc,
                    spec=wall_spec(rng, 'internal'), k_outside=coef)
            bs[k]['k_inside'] = {'id': k, 'coef': 1.0 - coef}
        if rng.random() < opt.get('ground', 0.3):
            add(room=i, kind='ground', area=_r(rng.uniform(4.0, 30.0) if rng.random() < 0.9 else rng.choice([rng.uniform(0.2, 4.0),
                rng.uniform(30.0, 150.0)])), is_ground='true', is_floor=True,
                h_c=uniform_hc,
                spec=wall_spec(rng, 'ground'))
    # internal walls and floors between rooms
    pairs = opt.get('pairs')
    for i in range(n):
        for k in range(i + 1, n):
            m = pairs if pairs is not None else int(rng.integers(0, 3)) if rng.random() < 0.96 else int(rng.integers(3, 9))
            for _ in range(m):
                spec = wall_spec(rng, 'internal')
                area = _r(rng.uniform(3.0, 20.0) if rng.random() < 0.9 else rng.choice([rng.uniform(0.1, 3.0), rng.uniform(20.0, 80.0)]))
                a = add(room=i, kind='inner', area=area, h_c=uniform_hc,
                        spec=spec, k_outside=0.0)
                b = add(room=k, kind='inner', area=area, is_floor=True, h_c=uniform_hc,
                        spec=dict(spec, layers=spec['layers'][::-1]), k_outside=0.0)
                bs[a]['k_inside'] = {'id': b, 'coef': 1.0}
                bs[b]['k_inside'] = {'id': a, 'coef': 1.0}
    if rng.random() < opt.get('within', 0.12):
        # a wall standing within one room
        i = int(rng.integers(0, n))
        spec = wall_spec(rng, 'internal')
        area = _r(rng.uniform(2.0, 10.0))
        a = add(room=i, kind='inner', area=area, h_c=uniform_hc, spec=spec, k_outside=0.0)
        b = add(room=i, kind='inner', area=area, h_c=uniform_hc, spec=dict(spec, layers=spec['layers'][::-1]),
                k_outside=0.0)
        bs[a]['k_inside'] = {'id': b, 'coef': 1.0}
        bs[b]['k_inside'] = {'id': a, 'coef': 1.0}
    # every room has at least one floor-like surface
    for i in range(n):
        mine = [b for b in bs if b['room'] == i]
        if not any(b['is_floor'] for b in mine):
            k = add(room=i, kind='floor', area=_r(rng.uniform(4.0, 30.0)), is_floor=True, h_c=uniform_hc,
                    spec=wall_spec(rng, 'external_general_part'))
            if rng.random() < 0.5:
                bs[k]['k_outside'] = 0.7
                bs[k]['k_inside'] = {'id': k, 'coef': 1.0 - 0.7}
    # solar absorption, radiant floor share, form factors towards the occupants
    for i in range(n):
        mine = [b for b in bs if b['room'] == i]
        # no surface may see more than about half of the others (form factors of a closed room)
        tot = sum(b['area'] for b in mine)
        for b in mine:
            b['is_solar_absorbed'] = str(bool(b['kind'] != 'window' and (b['is_floor'] or rng.random() < 0.5)))
        if rng.random() < 0.15:
            for b in mine:
                b['is_solar_absorbed'] = 'True'
        fl = sum(b['area'] for b in mine if b['is_floor'])
        nf = sum(b['area'] for b in mine if not b['is_floor'])
        for b in mine:
            if b['is_floor']:
                b['f_mrt_hum'] = b['area'] / fl * (0.45 if nf > 0 else 1.0)
            else:
                b['f_mrt_hum'] = b['area'] / nf * 0.55
        if rng.random() < 0.25:
            w = rng.uniform(0.1, 1.0, len(mine))
            for b, x in zip(mine, w / w.sum()):
                b['f_mrt_hum'] = _r(x)
        rad = spaces[i]['equipment']['heating']['radiative']['installed'] \
            or spaces[i]['equipment']['cooling']['radiative']['installed']
        if rad:
            for b in mine:
                if b['is_floor']:
                    b['flr'] = b['area'] / fl
            if rng.random() < 0.3:
                # panels at any surfaces: walls, part of the floor
                on = [b for b in mine if rng.random() < 0.5] or mine[:1]
                w = rng.uniform(0.1, 1.0, len(on))
                for b in mine:
                    b['flr'] = 0.0
                for b, x in zip(on, w / w.sum()):
                    b['flr'] = _r(x)
        del tot
    # limit the dominating surface of each room so that the room can be closed geometrically
    for i in range(n):
        mine = [b for b in bs if b['room'] == i]
        mx = max(b['area'] for b in mine)
        tot = sum(b['area'] for b in mine)
        if mx > 0.45 * tot:
            need = (mx - 0.45 * tot) / 0.45 / 2.0 + 0.1
            for q in range(2):
                nb = {'room': i, 'kind': 'wall', 'area': need * (1.0 + 0.1 * q), 'sub_name': '', 'is_ground': 'false',
                      'k_outside': 1.0, 'k_inside': None, 'flr': 0.0, 'is_floor': False, 'key': len(bs),
                      'name': f'b{len(bs)}', 'h_c': uniform_hc or 2.5,
                      'spec': wall_spec(rng, 'external_general_part'),
                      'is_solar_absorbed': 'False', 'f_mrt_hum': 0.0}
                bs.append(nb)

    if rng.random() < opt.get('rf', 0.3):
        for b in bs:
            if b['spec']['method'] == 'layers' and rng.random() < 0.4:
                t0, a0, t1, a1, r = ref_rf.of_spec(b['spec'], 3600.0 / opt.get('steps_hourly', 4))
                z = [0.0] * (12 - len(r))
                b['spec'] = {'method': 'response_factor', 'boundary_type': b['spec']['boundary_type'],
                             'phi_a0': float(a0), 'phi_t0': float(t0), 'phi_a1': [float(v) for v in a1] + z,
                             'phi_t1': [float(v) for v in t1] + z, 'r': [float(v) for v in r] + z}

    if rng.random() < 0.2:
        # names need not differ
        same = rng.random() < 0.5
        for b in bs:
            b['name'] = 'b' if same else b['kind']
        for q in spaces:
            q['name'] = 'room'
    order = list(range(len(bs)))
    if opt.get('shuffle', rng.random() < 0.5):
        order = [int(x) for x in rng.permutation(len(bs))]
    pos = {bs[o]['key']: p for p, o in enumerate(order)}
    boundaries = []
    for p, o in enumerate(order):
        b = bs[o]
        ki = None
        if b['k_inside'] is not None:
            ki = {'id': pos[b['k_inside']['id']], 'coef': b['k_inside']['coef']}
        boundaries.append({
            'id': p, 'name': b['name'], 'sub_name': b['sub_name'], 'is_ground': b['is_ground'],
            'connected_space_id': b['room'], 'area': b['area'], 'h_c': b['h_c'], 'h_i': b['h_c'] + 5.0,
            'flr': b['flr'], 'is_solar_absorbed': b['is_solar_absorbed'], 'f_mrt_hum': b['f_mrt_hum'],
            'k_outside': b['k_outside'], 'k_inside': ki, 'spec': b['spec'], 'kind': b['kind'],
        })

    whole = rng.random() < opt.get('whole', 0.15)
    if whole:
        # a house described in whole numbers
        for q in spaces:
            q['volume'] = max(round(q['volume']), 2)
            f = q['furniture']
            f.update({k: round(v) if v > 1.0 else v for k, v in f.items()})
            for e in (q['equipment']['heating']['radiative'], q['equipment']['cooling']['radiative'],
                      q['equipment']['cooling']['convective']):
                e.update({k: max(round(v), 1) for k, v in e.items() if k != 'installed' and v > 0.0})
        old = [b['area'] for b in boundaries]
        for b in boundaries:
            b['area'] = round(b['area']) if b['area'] > 2.0 else b['area']
        for i in range(n):
            a = [b['area'] for b in boundaries if b['connected_space_id'] == i]
            if max(a) > 0.47 * sum(a):
                for b, v in zip(boundaries, old):
                    b['area'] = v
                break
        for b in boundaries:
            if uniform_hc is None:
                b['h_c'] = max(round(b['h_c']), 1)
            for y in b['spec'].get('layers', []):
                y['thermal_capacity'] = round(y['thermal_capacity']) if y['thermal_capacity'] > 1.0 else y['thermal_capacity']

    for q in spaces:
        # the air moved by the coil stays positive down to no load, and the coil above absolute zero
        e = q['equipment']['cooling']['convective']
        if e.get('v_max', 0.0) > 0.0:
            if e['v_min'] >= e['v_max']:
                # one fan speed: the load is not limited, so the fan has to be large enough for any of it
                e['v_min'] = e['v_max'] = max(e['v_max'], int(40 + 0.8 * q['volume']))
                e['q_max'] = min(e['q_max'], 1500 * e['v_max'])
            else:
                e['q_max'] = min(e['q_max'], 1500 * e['v_max'], e['q_min'] + 2200 * (e['v_max'] - e['v_min']))
            if e['q_min'] > 0.85 * e['v_min'] / e['v_max'] * e['q_max']:
                e['q_min'] = int(0.85 * e['v_min'] / e['v_max'] * e['q_max'])

    house = {
        'spaces': spaces, 'boundaries': boundaries,
        'building': {
            'infiltration_method': 'balance_residential',
            'story': int(rng.choice([1, 2])),
            'c_value': _r(rng.choice([0.2, 2.0, 5.0, 12.0, 0.0 if rng.random() < 0.3 else rng.uniform(0.1, 15.0)])),
            'inside_pressure': str(rng.choice(['negative', 'positive', 'balanced'])),
        },
    }
    if opt.get('steps_hourly', 4) != 4:
        house['steps_hourly'] = opt['steps_hourly']
    if whole:
        house = _ints(house)
        boundaries = house['boundaries']
    drive = random_drive(rng, house, steps, opt)
    if opt.get('dark'):
        # the last room has no surface that absorbs the sun, and no sun enters it (a closet)
        for b in boundaries:
            if b['connected_space_id'] == n - 1:
                b['is_solar_absorbed'] = 'False'
        drive['q_trs_sol'][:, n - 1] = 0.0
    return house, drive


def random_drive(rng, house, steps, opt=None):
    """weather and schedules for the given number of steps"""
    opt = opt or {}
    n = len(house['spaces'])
    nb = len(house['boundaries'])
    t = np.arange(steps)
    season = opt.get('season') or str(rng.choice(['winter', 'summer', 'mild', 'swing']))
    cold = rng.uniform(-15, 8) if rng.random() < 0.85 else rng.uniform(-35, -15)
    base = {'winter': cold, 'summer': rng.uniform(26, 36), 'mild': rng.uniform(12, 26),
            'swing': rng.uniform(5, 25)}[season]
    amp = rng.uniform(1, 6) if season != 'swing' else rng.uniform(8, 18)
    th_o = base + amp * np.sin(2 * np.pi * (t / 96.0 - 0.35)) + rng.normal(0, 0.3, steps)
    if rng.random() < 0.15:
        # fronts: sudden jumps from one step to the next
        for _ in range(1 + steps // 48):
            k = int(rng.integers(0, steps))
            th_o[k:k + int(rng.integers(1, 40))] += rng.uniform(-15.0, 15.0)
    rh = np.clip(rng.uniform(0.3, 0.95) + 0.1 * np.sin(2 * np.pi * t / 96.0), 0.1, 0.98)
    if rng.random() < 0.1:
        rh = rh * 0.0 + rng.choice([0.01, 1.0])    # desert, fog
    # saturation humidity by a Magnus-type formula: only has to be plausible
    pv = 611.2 * np.exp(17.62 * th_o / (243.12 + th_o)) * rh
    x_o = 0.622 * pv / (101325.0 - pv)
    day = np.clip(np.sin(2 * np.pi * (t / 96.0 - 0.25)), 0, None)

    def steppy(lo, hi, p_change=0.06, p_zero=0.4, size=n):
        a = np.zeros((steps, size))
        for j in range(size):
            cur = 0.0 if rng.random() < p_zero else rng.uniform(lo, hi)
            for k in range(steps):
                if rng.random() < p_change:
                    cur = 0.0 if rng.random() < p_zero else rng.uniform(lo, hi)
                a[k, j] = cur
        return a

    local = steppy(0.0, 300.0 / 3600.0, 0.08, 0.75)
    heat = steppy(0.0, 600.0, 0.1, 0.3)
    moist = steppy(0.0, 1.5e-4, 0.08, 0.6)
    occ = steppy(0.0, 4.0, 0.05, 0.4)
    if opt.get('shock'):
        # sudden heat (thousands of watts) and sudden floods of outdoor air
        for _ in range(max(2, steps // 24)):
            k, i = int(rng.integers(0, steps)), int(rng.integers(0, n))
            m = int(rng.integers(1, 8))
            if rng.random() < 0.5:
                # (a closet cannot take 20 kW: cooling it afterwards asks for air below absolute zero)
                heat[k:k + m, i] += min(rng.uniform(2000.0, 25000.0), 2000.0 + 200.0 * house['spaces'][i]['volume'])
            else:
                local[k:k + m, i] += rng.uniform(0.2, 3.0)
    if rng.random() < opt.get('sinks', 0.15):
        # devices that take heat or moisture from the air
        for i in range(n):
            k = int(rng.integers(0, steps))
            m = int(rng.integers(4, 40))
            if rng.random() < 0.6:
                heat[k:k + m, i] -= rng.uniform(50.0, 800.0)
            if rng.random() < 0.6:
                moist[k:k + m, i] = -rng.uniform(0.0, 2e-7) * house['spaces'][i]['volume'] * 1000.0 * x_o.min()
    mode = opt.get('demand') or str(rng.choice(['mixed', 'mixed', 'always', 'fractional']))
    if mode == 'always':
        dem = np.ones((steps, n))
    elif mode == 'none':
        dem = np.zeros((steps, n))
    elif mode == 'fractional':
        dem = steppy(0.05, 1.0, 0.1, 0.3)
    else:
        dem = (steppy(0.0, 1.0, 0.04, 0.3) > 0).astype(float)
    sol = np.zeros((steps, n))
    for i in range(n):
        sol[:, i] = day * rng.choice([0.0, rng.uniform(0, 3000.0)]) * rng.uniform(0.3, 1.0, steps)
    tos = np.zeros((steps, nb))
    for j, b in enumerate(house['boundaries']):
        if b['is_ground'] == 'true':
            tos[:, j] = th_o.mean()
        elif b['k_outside'] == 0.0:
            tos[:, j] = 0.0
        elif b.get('kind') in ('wall', 'window', 'floor'):
            tos[:, j] = th_o + day * (rng.uniform(0, 25) if rng.random() < 0.85 else rng.uniform(30, 75)) \
                - (rng.uniform(0, 2) if rng.random() < 0.9 else rng.uniform(2, 12))
        else:
            tos[:, j] = th_o
    if rng.random() < opt.get('plenty', 0.2):
        # one room with far more of something than a usual one: a winter garden, a meeting, a workshop, a bath, a fan
        i = int(rng.integers(0, n))
        f = float(np.exp(rng.uniform(np.log(2.0), np.log(12.0))))
        k = int(rng.integers(0, 5))
        if k == 0:
            # no more than a glazed room lets in: a few square metres of walls cannot take 30 kW
            size = sum(b['area'] for b in house['boundaries'] if b['connected_space_id'] == i)
            sol[:, i] = day * min(rng.uniform(2000.0, 4000.0) * min(f, 8.0), 200.0 * size)
        else:
            x = [occ, heat, moist, local][k - 1]
            more = x[:, i] * f
            x[:, i] = more if k != 2 else np.minimum(more, np.maximum(x[:, i], 2000.0 + 200.0 * house['spaces'][i]['volume']))
    return {'theta_o': th_o, 'x_o': x_o, 'local_vent': local, 'heat_generation': heat, 'moisture_generation': moist,
            'occupants': occ, 'ac_demand': dem, 'q_trs_sol': sol, 'theta_o_sol': tos}


def tile_drive(drive, reps):
    return {k: np.concatenate([v] * reps, axis=0) for k, v in drive.items()}


CSV = ['local_vent', 'heat_generation', 'moisture_generation', 'occupants', 'ac_demand', 'q_trs_sol', 'theta_o_sol']


def write(dirname, house, drive):
    os.makedirs(dirname, exist_ok=True)
    with open(os.path.join(dirname, 'mid_data_house.json'), 'w') as f:
        json.dump({k: v for k, v in house.items() if k != 'steps_hourly'}, f)
    steps = len(drive['theta_o'])
    idx = pd.date_range(start='1/1/1989', periods=steps, freq='15min')
    pd.DataFrame({
        'temperature': drive['theta_o'], 'absolute humidity': drive['x_o'],
        'normal direct solar radiation': np.zeros(steps), 'horizontal sky solar radiation': np.zeros(steps),
        'outward radiation': np.zeros(steps), 'sun altitude': np.zeros(steps), 'sun azimuth': np.zeros(steps),
    }, index=idx).to_csv(os.path.join(dirname, 'weather.csv'))
    for name in CSV:
        with open(os.path.join(dirname, f'mid_data_{name}.csv'), 'w') as f:
            for row in np.asarray(drive[name], dtype=float):
                f.write(','.join(repr(float(x)) for x in row) + '\n')


MODES = {1: 'COOLING', 2: 'HEATING', 3: 'STOP_OPEN', 4: 'STOP_CLOSE'}


def mode_name(m):
    if hasattr(m, 'name'):
        return m.name
    try:
        return MODES[int(m)]
    except (ValueError, KeyError, TypeError):
        return str(m)


class Trace:
    """What the simulation reported, as arrays [room or boundary, step]."""

    def __init__(self, house, dd, ds):
        self.dd, self.ds = dd, ds
        ni, nj = len(house['spaces']), len(house['boundaries'])
        self.ni, self.nj, self.T = ni, nj, len(dd)
        self.theta_o = dd['out_temp'].values.astype(float)
        self.x_o = dd['out_abs_humid'].values.astype(float)

        def room(c):
            return np.array([dd[f'rm{i}_{c}'].values.astype(float) for i in range(ni)])

        self.th_r, self.rh, self.x_r, self.mrt, self.ot = (room(c) for c in ('t_r', 'rh_r', 'x_r', 'mrt', 'ot'))
        self.occupancy, self.hc_hum, self.hr_hum = (room(c) for c in ('occupancy', 'hc_hum', 'hr_hum'))
        self.q_sol_t, self.q_gen, self.x_gen = (room(c) for c in ('q_sol_t', 'q_s_except_hum', 'q_l_except_hum'))
        self.q_hum, self.x_hum = room('q_hum_s'), room('q_hum_l')
        self.l_cs, self.l_rs, self.l_l = room('l_s_c'), room('l_s_r'), room('l_l_c')
        self.th_frt, self.q_frt, self.q_sol_frt = room('t_fun'), room('q_s_fun'), room('q_s_sol_fun')
        self.x_frt, self.ql_frt = room('x_fun'), room('q_l_fun')
        self.v_leak, self.v_ntrl = room('v_reak'), room('v_ntrl')
        self.mode = np.array([[mode_name(m) for m in dd[f'rm{i}_ac_operate'].values] for i in range(ni)])
        self.remarks = [list(dd[f'rm{i}_remarks'].values) for i in range(ni)]
        # boundary columns are numbered within their room, in the order of the input
        self.col = {}
        for i in range(ni):
            mine = [j for j, b in enumerate(house['boundaries']) if b['connected_space_id'] == i]
            for k, j in enumerate(mine):
                self.col[j] = f'rm{i}_b{k}_'

        def bdry(c):
            return np.array([dd[self.col[j] + c].values.astype(float) for j in range(nj)])

        self.t_s, self.t_e, self.t_b = bdry('t_s'), bdry('t_e'), bdry('t_b')
        self.h_r, self.qr, self.h_c, self.qc = bdry('hir_s'), bdry('qir_s'), bdry('hic_s'), bdry('qic_s')
        self.q_sol_s, self.q_all = bdry('qisol_s'), bdry('qiall_s')


def simulate(ctx, house, drive, days, run_up=0, run_up_build=0, dirname=None, raw=False, **kw):
    from heat_load_calc.core import core
    d = dirname or tempfile.mkdtemp(prefix='sim_')
    try:
        write(d, house, drive)
        ds, dd = ctx.sut('simulation', core.calc, d, n_d_main=days, n_d_run_up=run_up,
                         n_d_run_up_build=run_up_build, **kw)
        ctx.count('simulated steps', len(dd))
        if raw:
            return ds, dd
        return Trace(house, dd, ds)
    finally:
        if dirname is None:
            shutil.rmtree(d, ignore_errors=True)
