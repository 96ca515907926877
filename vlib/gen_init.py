"""Random inputs of the initializer (house description + weather.csv) and execution of the initializer on them."""
import copy
import json
import math
import os
import shutil
import tempfile

import numpy as np
import pandas as pd

from vlib import gen_core, harness

N = 8760 * 4
DIRS = ['s', 'sw', 'w', 'nw', 'n', 'ne', 'e', 'se', 'top', 'bottom']
AZ = {'s': 0.0, 'sw': 45.0, 'w': 90.0, 'nw': 135.0, 'n': 180.0, 'ne': -135.0, 'e': -90.0, 'se': -45.0,
      'top': 0.0, 'bottom': 0.0}
TILT = dict({k: 90.0 for k in AZ}, top=0.0, bottom=180.0)
NAMES = ['main_occupant_room', 'other_occupant_room', 'non_occupant_room']


def sun(phi, lam, n=N):
    """altitude and azimuth by simple astronomy (declination and equation of time after Spencer)"""
    k = np.arange(n)
    day = k // 96
    t = (k % 96) / 4.0
    g = 2 * math.pi * day / 365.0
    dec = 0.006918 - 0.399912 * np.cos(g) + 0.070257 * np.sin(g) - 0.006758 * np.cos(2 * g) + 0.000907 * np.sin(2 * g) \
        - 0.002697 * np.cos(3 * g) + 0.00148 * np.sin(3 * g)
    eot = 229.18 * (0.000075 + 0.001868 * np.cos(g) - 0.032077 * np.sin(g) - 0.014615 * np.cos(2 * g)
                    - 0.040849 * np.sin(2 * g))
    om = np.radians(15.0 * (t - 12.0 + eot / 60.0)) + lam - math.radians(135.0)
    h = np.arcsin(np.clip(np.sin(phi) * np.sin(dec) + np.cos(phi) * np.cos(dec) * np.cos(om), -1, 1))
    a = np.arctan2(np.cos(dec) * np.sin(om), np.sin(phi) * np.cos(dec) * np.cos(om) - np.cos(phi) * np.sin(dec))
    return h, a


def rand_weather(rng):
    """a year of weather in the columns of weather.csv"""
    k = np.arange(N)
    h, a = sun(math.radians(rng.uniform(24.0, 46.0)), math.radians(rng.uniform(123.0, 146.0)))
    if rng.random() < 0.6:
        # exact and extreme positions: horizon, straight at a wall, zenith, north, below
        idx = rng.choice(N, 400, replace=False)
        h, a = h.copy(), a.copy()
        h[idx] = rng.choice([0.0, math.pi / 2, math.pi / 4, 1e-9, -1e-9, 0.3, -0.5], 400)
        a[idx] = np.radians(rng.choice([0.0, 45.0, 90.0, 135.0, 180.0, -135.0, -90.0, -45.0, -180.0, 30.0], 400))
    th = rng.uniform(0, 20) + rng.uniform(2, 14) * np.sin(2 * np.pi * (k / N - 0.3)) \
        + 5 * np.sin(2 * np.pi * (k / 96 - 0.35)) + rng.normal(0, 0.5, N)
    if rng.random() < 0.5:
        # fronts: sudden jumps from one record to the next
        for n in rng.choice(N, 12, replace=False):
            m = int(rng.integers(1, 200))
            th[n:n + m] += rng.uniform(-25.0, 25.0)
    x = np.clip(0.001 + 0.0004 * (th + 5) + rng.normal(0, 2e-4, N), 5e-4, 0.025)
    cloud = np.repeat(rng.random(365), 96)
    dn = np.where(h > 0, 900 * np.sin(np.clip(h, 0, None)) ** 0.3 * (1 - cloud), 0.0)
    sky = np.where(h > 0, 100 + 300 * cloud * np.sin(np.clip(h, 0, None)), 0.0)
    # measured records also have radiation shortly before sunrise and after sunset (hourly means)
    low = (h <= 0) & (h > -0.1)
    dn = np.where(low, rng.uniform(0, 30, N), dn)
    sky = np.where(low, rng.uniform(0, 20, N), sky)
    # net long wave loss; under a warm, low overcast the sky can return more than it takes
    rn = rng.uniform(20, 130, N) - np.repeat(rng.random(365) < 0.1, 96) * rng.uniform(20, 160, N)
    return {'temperature': th, 'absolute humidity': x, 'normal direct solar radiation': dn,
            'horizontal sky solar radiation': sky, 'outward radiation': rn, 'sun altitude': h, 'sun azimuth': a}


def write_weather(d, w):
    # round trip through text is exact for repr; pandas writes shortest repr
    pd.DataFrame(w, index=pd.date_range(start='1/1/1989', periods=N, freq='15min')).to_csv(
        os.path.join(d, 'weather.csv'))


def _num(rng, x):
    """sometimes users write whole numbers"""
    return int(round(x)) if rng.random() < 0.25 and round(x) >= 1 else float(x)


def equipment(rng, kind):
    t = str(rng.choice(['convective', 'radiative', 'not_installed'], p=[0.5, 0.35, 0.15]))
    e = {'equipment_type': t}
    if t == 'convective':
        v = float(rng.uniform(8, 25))
        e['convective'] = {'q_min': _num(rng, rng.uniform(300, 700)), 'q_max': _num(rng, rng.uniform(2000, 8000)),
                           'v_min': v * 0.5, 'v_max': v}
    elif t == 'radiative':
        e['radiative'] = {'max_capacity': _num(rng, rng.uniform(20, 150)), 'area': _num(rng, rng.uniform(3, 30))}
    return e


def shading(rng, boundary_type=None):
    if rng.random() < 0.45:
        return {'existence': False}
    return {'existence': True, 'input_method': 'simple', 'depth': _num(rng, rng.choice([0.1, 0.3, 0.6, 1.0, 2.5])
                                                                        * rng.uniform(0.7, 1.3)),
            'd_h': _num(rng, rng.uniform(0.3, 2.5)), 'd_e': float(rng.choice([0.0, rng.uniform(0.0, 1.0)]))}


def far(rng, rooms, bs, simulatable):
    """now and then a figure far from the usual: a hall, a winter garden, a fan, a deep balcony"""
    def some(lo, hi):
        return _num(rng, math.exp(rng.uniform(math.log(lo), math.log(hi))))

    while rng.random() < 0.35:
        r = rooms[int(rng.integers(0, len(rooms)))]
        b = bs[int(rng.integers(0, len(bs)))]
        k = int(rng.integers(0, 9))
        if k == 0:
            r['volume'] = float(r['volume'] * rng.uniform(1.3, 4.0))
        elif k == 1:
            r['vent'] = some(150, 2000)
        elif k == 2:
            r['natural_vent_time'] = some(20, 100)
        elif k == 3:
            for v in r['next_vent']:
                v['volume'] = some(80, 600)
        elif k == 4:
            for e in (r['heating_equipment'], r['cooling_equipment']):
                if 'convective' in e:
                    e['convective']['q_max'] = some(8000, 20000)
                elif 'radiative' in e:
                    e['radiative'][str(rng.choice(['max_capacity', 'area']))] = some(0.5, 200)
        elif k == 5 and 'eta_value' in b:
            b['eta_value'] = float(rng.choice([0.0, 1.0, rng.uniform(0.0, 0.1), rng.uniform(0.9, 1.0)]))
        elif k == 6 and b['solar_shading_part'].get('existence'):
            q = str(rng.choice(['depth', 'd_h', 'd_e']))
            b['solar_shading_part'] = dict(b['solar_shading_part'], **{q: some(1.0, 12.0)})
        elif k == 7 and 'rear' not in b and not simulatable:
            b['area'] = some(25, 250)
        elif k == 8 and 'rear' not in b:
            b['area'] = float(rng.uniform(0.03, 1.5)) if simulatable or rng.random() < 0.5 else some(1e-4, 0.3)


def random_input(rng, n_rooms=None, simulatable=False, inner=True, air=None):
    n = n_rooms or int(rng.choice([1, 2, 3, 4], p=[0.3, 0.3, 0.3, 0.1]))
    # kinds of rooms; the use of a room follows its name, and there is no use called underfloor
    names = NAMES[:1] + [str(v) for v in rng.permutation(NAMES[1:] + ['underfloor'] * (n > 3 or rng.random() < 0.1))][:n - 1]
    names = [str(v) for v in rng.permutation(names)]
    total = float(rng.choice([rng.uniform(15, 29), 30.0, rng.uniform(30, 119), 60.0, 90.0, 120.0,
                              rng.uniform(120, 250), rng.uniform(250, 700), rng.choice([30.0, 60.0, 90.0, 120.0]) + rng.choice([-1.0, 1.0]) * 10.0 ** rng.uniform(-2, 0)],
                             p=[0.125] * 7 + [0.055, 0.07]))
    share = rng.uniform(0.3, 1.0, n)
    share = share / share.sum()
    intvol = rng.random() < 0.25
    rooms = []
    for i in range(n):
        a = total * float(share[i])
        if i == n - 1:
            a = total - sum(r['floor_area'] for r in rooms)
        v = a * float(rng.uniform(2.1, 3.0))
        nv = []
        if n > 1:
            for _ in range(int(rng.integers(0, 4)) if rng.random() < 0.95 else int(rng.integers(4, 11))):
                nv.append({'upstream_room_id': int(rng.choice([k for k in range(n) if k != i])),
                           'volume': _num(rng, rng.uniform(5, 80))})
        if air is False or (simulatable and not air):
            nv = []
        rooms.append({'id': i, 'room_type': names[i],
                      'name': names[i] if names[i] in NAMES else str(rng.choice(NAMES)), 'floor_area': a,
                      'volume': int(round(v)) if intvol else v, 'vent': _num(rng, rng.choice([0.0, rng.uniform(1, 150)])),
                      'next_vent': nv, 'natural_vent_time': _num(rng, rng.choice([0.0, 5.0, rng.uniform(0, 20)])),
                      'heating_equipment': equipment(rng, 'h'), 'cooling_equipment': equipment(rng, 'c')})
    bs = []

    def film():
        return float(rng.choice([0.09, 0.11, 0.15, 0.13]) if simulatable or rng.random() < 0.93 else rng.uniform(0.04, 0.15))

    def add(room, kind, **kw):
        b = {'name': f'{kind}_{len(bs)}', 'connected_room_id': room, 'boundary_type': kind,
             'area': _num(rng, rng.uniform(1.5, 25.0)), 'is_solar_absorbed_inside': bool(rng.random() < 0.4),
             'is_floor': False, 'inside_heat_transfer_resistance': film(),
             'h_c': float(rng.choice([0.7, 2.5, 5.0, rng.uniform(0.5, 6.0)])), 'solar_shading_part': shading(rng),
             'key': len(bs)}
        if kind.startswith('external'):
            struck = bool(rng.random() < 0.75)
            b['is_sun_striked_outside'] = struck
            b['temp_dif_coef'] = 1.0 if struck or rng.random() < 0.4 else float(rng.choice([
                0.7, 0.15, 0.05, 0.0, rng.uniform(0, 1), 1.0 - 10.0 ** rng.uniform(-4, -1), 10.0 ** rng.uniform(-4, -1)]))
            if struck and rng.random() < 0.15:
                b['temp_dif_coef'] = float(rng.choice([0.7, rng.uniform(0, 1), 1.0 - 10.0 ** rng.uniform(-4, -1)]))
            if struck:
                b['direction'] = str(rng.choice(DIRS[:8] if kind == 'external_transparent_part' and rng.random() < 0.8
                                                else DIRS))
                b['outside_emissivity'] = float(rng.choice([0.9, rng.uniform(0.1, 1.0)]) if rng.random() < 0.9
                                                else rng.choice([0.0, 1.0, rng.uniform(0.0, 0.1)]))
                b['outside_heat_transfer_resistance'] = float(rng.choice([0.04, rng.uniform(0.03, 0.2)]) if rng.random() < 0.93
                                                              else rng.choice([rng.uniform(0.01, 0.03), rng.uniform(0.2, 0.5)]))
                if kind != 'external_transparent_part':
                    b['outside_solar_absorption'] = float(rng.choice([0.8, rng.uniform(0.1, 1.0)]) if rng.random() < 0.9
                                                          else rng.choice([0.0, 1.0, rng.uniform(0.0, 0.1)]))
        b.update(kw)
        bs.append(b)
        return b

    for i in range(n):
        for _ in range(int(rng.integers(1, 4)) if rng.random() < 0.95 else int(rng.integers(4, 14))):
            s = gen_core.wall_spec(rng, 'external_general_part')
            b = add(i, 'external_general_part', layers=s['layers'])
            b.setdefault('outside_heat_transfer_resistance', s['outside_heat_transfer_resistance'])
        for _ in range(int(rng.integers(0, 4)) if rng.random() < 0.95 else int(rng.integers(4, 14))):
            r = film()
            b = add(i, 'external_transparent_part', inside_heat_transfer_resistance=r,
                    u_value=float(rng.uniform(1.0, 6.0) if rng.random() < 0.7 else
                                  rng.choice([rng.uniform(0.3, 1.0), rng.uniform(6.0, min(0.95 / r, 10.5))])),
                    eta_value=float(rng.uniform(0.1, 0.9) if rng.random() < 0.85 else rng.choice([10.0 ** rng.uniform(-3, -1), rng.uniform(0.9, 1.0)])),
                    incident_angle_characteristics=str(rng.choice(['single', 'multiple'])))
        if rng.random() < 0.4:
            add(i, 'external_opaque_part', u_value=float(rng.uniform(0.7, 5.0)))
        if rng.random() < 0.35:
            s = gen_core.wall_spec(rng, 'ground')
            add(i, 'ground', layers=s['layers'], is_floor=True)
    for i in range(n):
        for k in range(i + 1, n):
            for _ in range((int(rng.integers(0, 3)) if rng.random() < 0.96 else int(rng.integers(3, 9))) if inner else 0):
                s = gen_core.wall_spec(rng, 'internal')
                area = float(rng.uniform(3, 20))
                floor = bool(rng.random() < 0.5)
                p = add(i, 'internal', layers=s['layers'], area=area, is_floor=floor, next_room_type=names[k],
                        outside_heat_transfer_resistance=0.11)
                q = add(k, 'internal', layers=s['layers'][::-1], area=area, is_floor=False, next_room_type=names[i],
                        outside_heat_transfer_resistance=p['inside_heat_transfer_resistance'])
                q['inside_heat_transfer_resistance'] = 0.11
                p['rear'], q['rear'] = q['key'], p['key']
    for i in range(n):
        mine = [b for b in bs if b['connected_room_id'] == i]
        if not any(b['is_floor'] for b in mine) and (simulatable or rng.random() < 0.8):
            s = gen_core.wall_spec(rng, 'external_general_part')
            add(i, 'external_general_part', layers=s['layers'], is_floor=True, is_sun_striked_outside=False,
                temp_dif_coef=0.7, outside_heat_transfer_resistance=0.15)
        if rng.random() < 0.3:
            cand = [b for b in mine if b['boundary_type'] == 'external_general_part']
            if cand:
                cand[0]['is_floor'] = True
                if 'direction' in cand[0]:
                    cand[0]['direction'] = 'bottom'
        mine = [b for b in bs if b['connected_room_id'] == i]
        if all(b['is_floor'] for b in mine) and (simulatable or rng.random() < 0.7):
            mine[0]['is_floor'] = False
        if not simulatable and rng.random() < 0.03:
            for b in mine:
                b['is_floor'] = True
        if simulatable:
            if not any(b['is_solar_absorbed_inside'] for b in mine):
                next(b for b in mine if b['is_floor'])['is_solar_absorbed_inside'] = True
            for _ in range(3):
                mine = [b for b in bs if b['connected_room_id'] == i]
                tot, mx = sum(b['area'] for b in mine), max(b['area'] for b in mine)
                if mx > 0.45 * tot:
                    s = gen_core.wall_spec(rng, 'external_general_part')
                    add(i, 'external_general_part', layers=s['layers'], area=(mx - 0.45 * tot) + 0.5,
                        is_sun_striked_outside=False, temp_dif_coef=1.0, outside_heat_transfer_resistance=0.11)
    if rng.random() < 0.35:
        # the same window, wall or door several times in a room
        for b in [bs[int(v)] for v in rng.integers(0, len(bs), 3)]:
            if b['boundary_type'].startswith('external') and not (simulatable and b['is_floor']):
                for _ in range(int(rng.integers(1, 3))):
                    bs.append(dict(b, key=len(bs)))
    if rng.random() < 0.3:
        # names need not differ
        for b in bs:
            b['name'] = b['boundary_type']
    if n > 1 and rng.random() < 0.15:
        # rooms used alike
        rooms[int(rng.integers(1, n))]['name'] = rooms[0]['name']
    far(rng, rooms, bs, simulatable)
    order = [int(v) for v in (rng.permutation(len(bs)) if rng.random() < 0.6 else range(len(bs)))]
    pos = {o: p for p, o in enumerate(order)}
    out = []
    for p, o in enumerate(order):
        b = dict(bs[o], id=p)
        del b['key']
        if 'rear' in b:
            b['rear_surface_boundary_id'] = pos[b.pop('rear')]
        out.append(b)
    d = {'common': {'region': int(rng.integers(1, 9))},
         'building': {'story': int(rng.choice([1, 2])), 'c_value': _num(rng, rng.uniform(0.2, 9.0) if rng.random() < 0.85 else
                                                                       rng.choice([0.0, rng.uniform(9.0, 25.0)])),
                      'inside_pressure': str(rng.choice(['negative', 'positive', 'balanced']))},
         'rooms': rooms, 'boundaries': out}
    return json.loads(json.dumps(d))


MID = ['local_vent', 'heat_generation', 'moisture_generation', 'occupants', 'ac_demand', 'q_trs_sol', 'theta_o_sol']


class Mid:
    """what the initializer wrote"""

    def __init__(self, d):
        with open(os.path.join(d, 'mid_data_house.json')) as f:
            self.house = json.load(f)
        for k in MID:
            a = pd.read_csv(os.path.join(d, f'mid_data_{k}.csv'), header=None).values
            setattr(self, k, a)


def initialize(ctx, d, weather, keep=None):
    """run the initializer; returns what it wrote"""
    from heat_load_calc.initializer import initializer
    root = tempfile.mkdtemp(prefix='init_')
    try:
        i, o = os.path.join(root, 'in'), os.path.join(root, 'out')
        os.mkdir(i)
        os.mkdir(o)
        write_weather(i, weather)
        arg = copy.deepcopy(d)
        ctx.sut('initializer', initializer.make_house, arg, i, o)
        ctx.count('houses initialized')
        m = Mid(o)
        m.arg_after = arg
        m.files = sorted(os.listdir(o))
        return m
    finally:
        shutil.rmtree(root, ignore_errors=True)


# ---- reference formulas -------------------------------------------------------------------------

def cos_incidence(w, direction):
    """cosine of the angle between sun and outward normal, not negative"""
    h, a = w['sun altitude'], w['sun azimuth']
    al, be = math.radians(AZ[direction]), math.radians(TILT[direction])
    s = np.array([np.cos(h) * np.cos(a), np.cos(h) * np.sin(a), np.sin(h)])
    nrm = np.array([math.sin(be) * math.cos(al), math.sin(be) * math.sin(al), math.cos(be)])
    return np.clip(nrm @ s, 0.0, 1.0)


def f_sky(direction):
    return (1.0 + math.cos(math.radians(TILT[direction]))) / 2.0


def irradiance(w, direction):
    """direct, sky and reflected irradiance of a surface"""
    fs = f_sky(direction)
    d = w['normal direct solar radiation'] * cos_incidence(w, direction)
    sky = w['horizontal sky solar radiation'] * fs
    hor = w['normal direct solar radiation'] * np.clip(np.sin(w['sun altitude']), 0, None) \
        + w['horizontal sky solar radiation']
    return d, sky, 0.1 * (1.0 - fs) * hor


def sol_air(w, b):
    t = b['boundary_type']
    th = w['temperature']
    if t == 'internal':
        return np.zeros(N)
    if t == 'ground':
        return np.full(N, th.mean())
    if not b['is_sun_striked_outside']:
        return th
    r = b['outside_heat_transfer_resistance']
    loss = b['outside_emissivity'] * f_sky(b['direction']) * w['outward radiation']
    gain = 0.0
    if t != 'external_transparent_part':
        gain = b['outside_solar_absorption'] * sum(irradiance(w, b['direction']))
    return th + (gain - loss) * r


def tau(cos, kind):
    t = 2.552 * cos + 1.364 * cos ** 2 - 11.388 * cos ** 3 + 13.617 * cos ** 4 - 5.146 * cos ** 5
    if kind == 'single':
        return t
    r = 1.0 - 5.189 * cos + 12.392 * cos ** 2 - 16.593 * cos ** 3 + 11.851 * cos ** 4 - 3.461 * cos ** 5
    den = np.maximum(1.0 - r ** 2, 1e-300)
    return np.where(cos > 1e-12, t ** 2 / den, 0.0)


def shade_direct(w, b):
    s = b['solar_shading_part']
    h, a = w['sun altitude'], w['sun azimuth']
    up = h > 0
    c = np.cos(a - math.radians(AZ[b['direction']]))
    with np.errstate(all='ignore'):
        length = s['depth'] * np.tan(np.where(up, h, 0.0)) / c - s['d_e']
    return np.where(up, np.clip(length / s['d_h'], 0.0, 1.0), 0.0)


def shade_sky(b):
    s = b['solar_shading_part']
    z, y, e = s['depth'], s['d_h'], s['d_e']
    return ((e + y + math.hypot(e, z)) - (e + math.hypot(e + y, z))) / (2.0 * y)


def transmitted(w, b, direct_unshaded=1.0):
    """solar heat through a window, W"""
    if b['boundary_type'] != 'external_transparent_part' or not b['is_sun_striked_outside']:
        return np.zeros(N)
    d, sky, ref = irradiance(w, b['direction'])
    c = cos_incidence(w, b['direction'])
    k = b['incident_angle_characteristics']
    cd = {'single': 0.900, 'multiple': 0.832}[k]
    if b['solar_shading_part']['existence']:
        fd, fs = shade_direct(w, b), shade_sky(b)
    else:
        fd, fs = 1.0 - direct_unshaded, 0.0
    return b['area'] * b['eta_value'] * ((1 - fd) * tau(c, k) * d + (1 - fs) * cd * sky + cd * ref)


def residents(a):
    return 1.0 if a < 30 else (a / 30.0 if a < 120 else 4.0)


# ---- what a description means to the simulation --------------------------------------------------

def expected_house(d):
    """the house the simulation has to see, worked out from the description alone"""
    n = len(d['rooms'])
    ss = []
    for i, r in enumerate(d['rooms']):
        v = r['volume']
        nxt = [0.0] * n
        for x in r['next_vent']:
            nxt[x['upstream_room_id']] += x['volume'] / 3600.0
        eq = {}
        for kind in ('heating', 'cooling'):
            e = r[kind + '_equipment']
            t = e['equipment_type']
            q = {'convective': {'installed': t == 'convective'}, 'radiative': {'installed': t == 'radiative'}}
            if t == 'convective':
                q['convective'].update(e['convective'])
            if t == 'radiative':
                q['radiative']['max_capacity'] = e['radiative']['max_capacity'] * e['radiative']['area']
            eq[kind] = q
        ss.append({'id': i, 'name': r['name'], 'volume': v, 'beta': 0.0,
                   'ventilation': {'mechanical': r['vent'] / 3600.0, 'natural': v * r['natural_vent_time'] / 3600.0,
                                   'next_spaces': nxt},
                   'furniture': {'heat_capacity': 12600.0 * v, 'heat_cond': 12600.0 * v * 0.00022,
                                 'moisture_capacity': 16.8 * v, 'moisture_cond': 16.8 * v * 0.0018},
                   'equipment': eq})
    bs = []
    for b in d['boundaries']:
        t = b['boundary_type']
        mine = [x for x in d['boundaries'] if x['connected_room_id'] == b['connected_room_id']]
        same = [x for x in mine if x['is_floor'] == b['is_floor']]
        share = b['area'] / sum(x['area'] for x in same)
        r = d['rooms'][b['connected_room_id']]
        rad = 'radiative' in (r['heating_equipment']['equipment_type'], r['cooling_equipment']['equipment_type'])
        td = b['temp_dif_coef'] if t.startswith('external') else 1.0 if t == 'ground' else 0.0
        k_in = None
        if t == 'internal':
            k_in = {'id': b['rear_surface_boundary_id'], 'coef': 1.0}
        elif t.startswith('external') and td < 1.0:
            k_in = {'id': b['id'], 'coef': 1.0 - td}
        s = {'boundary_type': t}
        if t in ('external_general_part', 'internal'):
            s.update(method='layers', layers=b['layers'],
                     outside_heat_transfer_resistance=b['outside_heat_transfer_resistance'])
        elif t == 'ground':
            s.update(method='layers_ground', layers=b['layers'])
        else:
            s.update(method='u_value', u_value=b['u_value'],
                     inside_heat_transfer_resistance=b['inside_heat_transfer_resistance'])
        bs.append({'id': b['id'], 'name': b['name'], 'connected_space_id': b['connected_room_id'], 'area': b['area'],
                   'h_c': b['h_c'], 'k_outside': td, 'k_inside': k_in,
                   'is_ground': 'true' if t == 'ground' else 'false',
                   'is_solar_absorbed': str(b['is_solar_absorbed_inside']),
                   'f_mrt_hum': share * (1.0 if len(same) == len(mine) else 0.45 if b['is_floor'] else 0.55),
                   'flr': share if rad and b['is_floor'] else 0.0, 'spec': s})
    return {'building': d['building'], 'spaces': ss, 'boundaries': bs}


TYPES = {'v': 'local_vent_amount', 'app': 'heat_generation_appliances', 'ckg': 'heat_generation_cooking',
         'xckg': 'vapor_generation_cooking', 'lgt': 'heat_generation_lighting', 'n': 'number_of_people',
         'ac': 'is_temp_limit_set'}


def schedules():
    with open(os.path.join(harness.REPO, 'heat_load_calc', 'initializer', 'schedules.json'), encoding='utf-8') as f:
        return json.load(f)


def series(s, room, kind, n):
    """year of one quantity for n residents, linear between whole numbers of residents"""
    lo = min(int(n), 3)
    day = {}
    for t in ('平日', '休日外', '休日在'):
        a = np.array(s['daily_schedule'][str(lo)][room][t][kind], float)
        b = np.array(s['daily_schedule'][str(lo + 1)][room][t][kind], float)
        day[t] = a + (b - a) * (n - lo)
    return np.concatenate([day[t] for t in s['calendar']])


def expected_use(d):
    """year of use of every room: columns are rooms; gains and moisture as they should be and with the known defect
    (cooking heat and cooking moisture taken from each other's schedule)"""
    s = schedules()
    n = residents(sum(r['floor_area'] for r in d['rooms']))
    q = [{k: series(s, r['name'], t, n) for k, t in TYPES.items()} for r in d['rooms']]
    out = {'local_vent': [x['v'] / 3600.0 for x in q], 'occupants': [x['n'] for x in q], 'ac_demand': [x['ac'] for x in q],
           'heat_generation': [x['app'] + x['ckg'] + x['lgt'] * r['floor_area'] for x, r in zip(q, d['rooms'])],
           'heat_generation known': [x['app'] + x['xckg'] + x['lgt'] * r['floor_area'] for x, r in zip(q, d['rooms'])],
           'moisture_generation': [x['xckg'] / 1000.0 / 3600.0 for x in q],
           'moisture_generation known': [x['ckg'] / 1000.0 / 3600.0 for x in q]}
    return {k: np.array(v).T for k, v in out.items()}
