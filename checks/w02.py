import math

import numpy as np

ID = 'W02'
RULE = ('each case is one place (random latitude and longitude, or one of the eight regions through the weather table) '
        'with all three time steps: the sun computed by the real code at every step of the year is compared with an '
        'independent implementation of the documented formulas and with independent astronomy. Non-trivial: every '
        'place; distinct by place.')
ASSUMPTIONS = ['documented algorithm of the year 1989 (constants as documented); astronomy after Spencer within 0.8 '
               'degrees']
REQUIRE = {'eval:position by the documented formulas': 2000000, 'eval:position by astronomy': 500000, 'regions': 8}
LOC = {1: (43.82, 143.91), 2: (43.21, 141.79), 3: (39.70, 141.17), 4: (36.66, 138.20), 5: (36.55, 139.87),
       6: (34.66, 133.92), 7: (31.94, 131.42), 8: (26.21, 127.685)}


def cases(tier, rng):
    cs = [{'region': r} for r in LOC]
    for k in range(200 if tier == "quick" else 3000):
        phi = float(rng.uniform(20.0, 50.0)) if k % 3 else float(rng.uniform(-65.0, 65.0))
        cs.append({'region': None, 'phi': phi, 'lam': float(rng.uniform(110.0, 160.0))})
    return cs


def reference(phi, lam, m):
    k = np.arange(8760 * m)
    d = k // (24 * m) + 1
    t = (k % (24 * m)) / m
    n = 1989 - 1968
    d0 = 3.71 + 0.2596 * n - int((n + 3.0) / 4.0)
    M = 2 * math.pi * (d - d0) / 365.2596
    eps = np.radians(12.3901 + 0.0172 * (n + M / (2 * math.pi)))
    v = M + np.radians(1.914 * np.sin(M) + 0.02 * np.sin(2 * M))
    u = 2 * (v + eps)
    et = (M - v) - np.arctan(0.043 * np.sin(u) / (1 - 0.043 * np.cos(u)))
    dec = np.arcsin(np.cos(v + eps) * math.sin(math.radians(-23.4393)))
    om = np.radians(15.0 * (t - 12.0)) + lam - math.radians(135.0) + et
    # unit vector: south, west, up
    up = np.sin(phi) * np.sin(dec) + np.cos(phi) * np.cos(dec) * np.cos(om)
    west = np.cos(dec) * np.sin(om)
    south = np.sin(phi) * np.cos(dec) * np.cos(om) - np.cos(phi) * np.sin(dec)
    return np.array([south, west, up])


def spencer(phi, lam, m):
    k = np.arange(8760 * m)
    frac = k / (24.0 * m)
    g = 2 * math.pi * frac / 365.0
    dec = 0.006918 - 0.399912 * np.cos(g) + 0.070257 * np.sin(g) - 0.006758 * np.cos(2 * g) + 0.000907 * np.sin(2 * g) \
        - 0.002697 * np.cos(3 * g) + 0.00148 * np.sin(3 * g)
    eot = 229.18 * (0.000075 + 0.001868 * np.cos(g) - 0.032077 * np.sin(g) - 0.014615 * np.cos(2 * g)
                    - 0.040849 * np.sin(2 * g))
    t = (k % (24 * m)) / m
    om = np.radians(15.0 * (t - 12.0 + eot / 60.0)) + lam - math.radians(135.0)
    return np.array([np.sin(phi) * np.cos(dec) * np.cos(om) - np.cos(phi) * np.sin(dec), np.cos(dec) * np.sin(om),
                     np.sin(phi) * np.sin(dec) + np.cos(phi) * np.cos(dec) * np.cos(om)])


def vec(h, a):
    return np.array([np.cos(h) * np.cos(a), np.cos(h) * np.sin(a), np.sin(h)])


def judge(ctx, h, a, phi, lam, m, where):
    h, a = np.asarray(h, float), np.asarray(a, float)
    if not ctx.check('one position per step', h.shape == (8760 * m,) and a.shape == h.shape, lambda: str(h.shape)):
        return None
    ctx.check('altitude and azimuth in range', bool((np.abs(h) <= math.pi / 2).all()
                                                    and (np.abs(a) <= math.pi + 1e-12).all()), where)
    s = vec(h, a)
    ctx.close('position by the documented formulas', s, reference(phi, lam, m), 0.0, 1e-7, where)
    cosd = np.clip((s * spencer(phi, lam, m)).sum(axis=0), -1, 1)
    ctx.close('position by astronomy', np.degrees(np.arccos(cosd)), 0.0, 0.0, 0.8, where)
    return s


def run(case, ctx):
    if case['region']:
        from heat_load_calc.weather import region_location, weather
        phi, lam = (math.radians(v) for v in LOC[case['region']])
        p, l = ctx.sut('location', region_location.get_phi_loc_and_lambda_loc, region=case['region'])
        ctx.close('place of the region', [p, l], [phi, lam], 0, 1e-9, str(case))
        for iv, m in (('1h', 1), ('30m', 2), ('15m', 4)):
            t = ctx.sut('make_weather', weather.make_weather, region=case['region'], interval=iv)
            judge(ctx, t['sun altitude'].values, t['sun azimuth'].values, phi, lam, m, f'region {case["region"]} {iv}')
        ctx.count('regions')
        ctx.nontrivial(('region', case['region']))
        ctx.set_sample({'region': case['region'], 'highest sun deg': float(np.degrees(t['sun altitude'].max()))})
        return
    from heat_load_calc.weather import solar_position
    phi, lam = math.radians(case['phi']), math.radians(case['lam'])
    out = {}
    for iv, m in (('1h', 1), ('30m', 2), ('15m', 4)):
        h, a = ctx.sut('solar position', solar_position.calc_solar_position, phi_loc=phi, lambda_loc=lam, interval=iv)
        out[m] = judge(ctx, h, a, phi, lam, m, f'latitude {case["phi"]:.3f} longitude {case["lam"]:.3f} {iv}')
    if all(v is not None for v in out.values()):
        ctx.close('full hours agree between time steps', out[4][:, ::4], out[1], 0, 1e-9, 'quarters')
        ctx.close('full hours agree between time steps', out[2][:, ::2], out[1], 0, 1e-9, 'halves')
    ctx.nontrivial((case['phi'], case['lam']))
    ctx.set_sample(case)
