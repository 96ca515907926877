import math

import numpy as np

ID = 'E01'
RULE = ('each case draws temperatures (of air between -40 and 90 degree C, densely about freezing, also whole numbers) and '
        'humidities; the vapour pressure is compared with its formula, with tabulated values, among the three functions '
        'offering it and with the laws of humid air. Non-trivial: every temperature; distinct by temperature.')
ASSUMPTIONS = ['formulas of the standard (Sonntag) and a pressure of the air of 101325 Pa']
REQUIRE = {'eval:pressure over water': 500, 'eval:pressure over ice': 500, 'eval:steam table': 8, 'whole numbers': 100,
           'eval:humidity there and back': 500}
# saturated vapour pressure in hPa: well known values, water above and ice below freezing
TABLE = {-40: .1285, -30: .3801, -20: 1.0324, -10: 2.599, 0: 6.112, 10: 12.272, 20: 23.373, 30: 42.43, 40: 73.78, 60: 199.3,
         80: 473.9}


def ref(t):
    k = t + 273.15
    a = (-6096.9385, 21.2409642, -2.711193e-2, 1.673952e-5, 2.433502) if t >= 0 else (
        -6024.5282, 29.32707, 1.0613863e-2, -1.3198825e-5, -0.49382577)
    return math.exp(a[0] / k + a[1] + a[2] * k + a[3] * k * k + a[4] * math.log(k))


def cases(tier, rng):
    return [{'seed': int(rng.integers(0, 2 ** 62))} for _ in range(300 if tier == 'quick' else 20000)]


def run(case, ctx):
    from heat_load_calc.external import psychrometrics as p
    rng = np.random.default_rng(case['seed'])
    t = np.concatenate([rng.uniform(-40, 90, 60), rng.normal(0, 0.3, 15), rng.integers(-30, 60, 10).astype(float), [0.0, -0.0]])
    rng.shuffle(t)
    exp = np.array([ref(float(v)) for v in t])
    before = t.copy()
    many = ctx.sut('pressure', p.get_p_vs_is2, t)
    ctx.check('input is not changed', np.array_equal(t, before), 'changed')
    ctx.close('pressure over water', many[t >= 0], exp[t >= 0], 1e-10, 0)
    ctx.close('pressure over ice', many[t < 0], exp[t < 0], 1e-10, 0)
    ctx.close('all ways to ask agree', ctx.sut('pressure', p.get_p_vs_is, t), exp, 1e-10, 0)
    ctx.close('all ways to ask agree', [ctx.sut('pressure', p.get_p_vs, float(v)) for v in t], exp, 1e-10, 0)
    sq = t[:84].reshape(12, 7)
    ctx.close('tables of temperatures', ctx.sut('pressure', p.get_p_vs_is2, sq), exp[:84].reshape(12, 7), 1e-10, 0)
    for v in t[:10]:
        ctx.close('one or many', p.get_p_vs_is2(np.array([v]))[0], ref(float(v)), 1e-10, 0)
    whole = rng.integers(-30, 60, 12)
    ctx.count('whole numbers', len(whole))
    w = [ref(float(v)) for v in whole]
    ctx.close('whole numbers', ctx.sut('pressure', p.get_p_vs_is2, whole), w, 1e-10, 0, str(whole))
    ctx.close('whole numbers', ctx.sut('pressure', p.get_p_vs_is, whole), w, 1e-10, 0, str(whole))
    ctx.close('whole numbers', [p.get_p_vs(int(v)) for v in whole], w, 1e-10, 0, str(whole))
    for v in t:
        ctx.nontrivial(float(v))
    for k, v in TABLE.items():
        ctx.close('steam table', p.get_p_vs(float(k)) / 100.0, v, 2e-3, 0, f'{k} degree C')
    s = np.sort(t)
    ctx.check('warmer air holds more', np.all(np.diff(p.get_p_vs_is2(s))[np.diff(s) > 1e-9] > 0), lambda: str(s))
    d = 1e-3
    slope = (p.get_p_vs_is2(s + d) - p.get_p_vs_is2(s - d)) / (2 * d)
    far = np.abs(s) > 0.01
    latent = np.where(s >= 0, 2501e3 - 2370.0 * s, 2834e3)
    ctx.close('law of Clausius and Clapeyron', slope[far] / p.get_p_vs_is2(s)[far],
              (latent / (461.5 * (s + 273.15) ** 2))[far], 0.02, 0)
    ctx.close('pressure of the air', p.get_f(), 101325.0, 0, 0)
    pv = rng.uniform(0.0, 20000.0, 30)
    for v in pv:
        x = ctx.sut('humidity', p.get_x, float(v))
        ctx.close('humidity of a pressure', x, 0.622 * v / (101325.0 - v), 1e-12, 0)
        ctx.close('humidity there and back', p.get_p_v_r_is_n(np.array([x]))[0], v, 5e-5, 1e-9)
    x = rng.uniform(0.0, 0.05, 30)
    ctx.close('pressure of a humidity', ctx.sut('pressure', p.get_p_v_r_is_n, x), 101325.0 * x / (x + 0.62198), 1e-12, 0)
    ctx.close('relative humidity', ctx.sut('relative humidity', p.get_h, pv, p.get_p_vs_is2(t[:30])), pv / exp[:30] * 100.0,
              1e-10, 0)
    ctx.set_sample({'temperatures': [float(v) for v in t[:4]], 'pressures': [float(v) for v in many[:4]]})
