import math

import numpy as np

ID = 'E04'
RULE = ('each case draws a house of one to eight rooms with temperatures, humidity, demand, mode before and radiative equipment; '
        'mode, clothing, air speed, heat transfer of the occupant and target temperature given by the real code (with heat transfer '
        'found by iteration and with fixed values) are compared with an independent solution of the balance of a person, and the '
        'room asked for is put back into the equation of the vote. Non-trivial: every room; distinct by its state.')
ASSUMPTIONS = ['equations of ISO 7730 at 1 met; clothing 1.1, 0.7 and 0.3 clo; modes change at votes of 0.7 and 0 (documented)']
REQUIRE = {'rooms': 1000, 'eval:target gives the vote asked for': 300, 'forced convection': 200, 'free convection': 200,
           'eval:operation mode': 1000, 'radiative equipment works': 60, 'no demand': 100, 'by iteration': 500, 'with fixed values': 500, 'houses far from comfort': 50}
for _a, _b in ('CC', 'CH', 'CS', 'HH', 'HC', 'HS', 'OC', 'OH', 'OO', 'OS', 'SC', 'SH', 'SO', 'SS'):
    REQUIRE[f'change {_a}{_b}'] = 8
NAME = {'C': 'COOLING', 'H': 'HEATING', 'O': 'STOP_OPEN', 'S': 'STOP_CLOSE'}
M = 58.15
SKIN = 35.7 - 0.028 * M


def cases(tier, rng):
    return [{'seed': int(rng.integers(0, 2 ** 62))} for _ in range(4000 if tier == 'quick' else 40000)]


def body(clo):
    i = clo * 0.155
    return i, 1.0 + 1.29 * i if i <= 0.078 else 1.05 + 0.645 * i


def transfer(ta, tr, clo, v):
    """heat transfer coefficients at the temperature of the clothing that balances"""
    i, f = body(clo)
    hc = lambda t: max(12.1 * math.sqrt(v), 2.38 * abs(t - ta) ** 0.25)
    # the surface gives off to the room what it gets from the body
    g = lambda t: (SKIN - t) / i - f * (3.96e-8 * ((t + 273.0) ** 4 - (tr + 273.0) ** 4) + hc(t) * (t - ta))
    lo, hi = -60.0, 100.0
    for _ in range(120):
        mid = (lo + hi) / 2
        lo, hi = (mid, hi) if g(mid) > 0 else (lo, mid)
    t = (lo + hi) / 2
    a, b = t + 273.0, tr + 273.0
    return hc(t), 3.96e-8 * (a + b) * (a * a + b * b), 12.1 * math.sqrt(v) > 2.38 * abs(t - ta) ** 0.25


def vote(ta, ot, h, clo, pa):
    i, f = body(clo)
    return (0.303 * math.exp(-0.036 * M) + 0.028) * (
        M - 3.05e-3 * (5733.0 - 6.99 * M - pa) - 1.7e-5 * M * (5867.0 - pa) - 0.0014 * M * (34.0 - ta)
        - (SKIN - ot) / (i + 1.0 / (f * h)))


def after(prev, demand, heavy, middle, light):
    if demand <= 0.0:
        return 'S'
    if prev == 'H':
        return 'H' if heavy <= 0.7 else 'C' if light >= 0.7 else 'S'
    if prev == 'C':
        return 'C' if light >= -0.7 else 'H' if heavy <= -0.7 else 'S'
    if light >= 0.7:
        return 'C'
    if heavy <= -0.7:
        return 'H'
    if prev == 'O':
        return 'S' if middle <= 0.0 else 'O'
    return 'O' if middle >= 0.0 else 'S'


def run(case, ctx):
    from heat_load_calc.core import ot_target, ot_target_pmv
    from heat_load_calc.core.operation_mode import OperationMode
    rng = np.random.default_rng(case['seed'])
    n = int(rng.integers(1, 9))
    lo, hi = [(10.0, 40.0), (15.0, 30.0), (0.0, 45.0), (22.0, 30.0), (8.0, 22.0)][int(rng.integers(0, 5))]
    ta, tr = rng.uniform(lo, hi, n), rng.uniform(lo, hi, n)
    if rng.random() < 0.3:
        tr = ta + rng.uniform(-2.0, 2.0, n)
    x = rng.uniform(0.001, 0.022, n)
    far = int(rng.integers(0, 40))
    if far == 0:
        ta, tr = rng.uniform(-20.0, 12.0, n), rng.uniform(-25.0, 12.0, n)
    elif far == 1:
        ta, tr = rng.uniform(30.0, 55.0, n), rng.uniform(30.0, 75.0, n)
    elif far == 2:
        tr = ta + rng.uniform(-30.0, 30.0, n)
    elif far == 3:
        x = rng.uniform(0.022, 0.06, n)
    elif far == 4:
        x = np.zeros(n)
    ctx.count('houses far from comfort', far < 5)
    prev = rng.choice(list('CHOS'), n)
    demand = np.where(rng.random(n) < 0.15, 0.0, np.where(rng.random(n) < 0.5, 1.0, rng.uniform(0.0, 1.0, n)))
    rad_h, rad_c = rng.random(n) < 0.5, rng.random(n) < 0.4
    col = lambda v: np.array(v).reshape(-1, 1)
    modes = col([getattr(OperationMode, NAME[p]) for p in prev])
    pa = 101325.0 * x / (x + 0.62198)
    fixed = ctx.sut('making', ot_target.make_get_ot_target_and_h_hum_function, is_radiative_heating_is=rad_h.copy(),
                    is_radiative_cooling_is=rad_c.copy())
    for how in ('by iteration', 'with fixed values'):
        if how == 'by iteration':
            out = ctx.sut(how, ot_target_pmv.get_ot_target_and_h_hum_with_pmv, x_r_is_n=col(x), operation_mode_is_n_mns=modes.copy(),
                          is_radiative_heating_is=col(rad_h), is_radiative_cooling_is=col(rad_c), theta_r_is_n=col(ta),
                          theta_mrt_is_n=col(tr), ac_demand_is_n=col(demand))
            hc, hr, mode, target, remarks = out
            low = up = target
        else:
            hc, hr, mode, low, up, remarks = ctx.sut(how, fixed, col(ta), col(tr), col(x), modes.copy(), col(demand))
        hc, hr, mode, low, up = (np.asarray(v).reshape(-1) for v in (hc, hr, mode, low, up))
        aim, speed, clothes = ([float(q[k]) for q in np.asarray(remarks).reshape(-1)] for k in ('pmv_target', 'v_hum m/s', 'clo'))
        for i in range(n):
            w = f'{how}: air {ta[i]:.3f} walls {tr[i]:.3f} x {x[i]:.5f} before {prev[i]} demand {demand[i]:.2f} ' \
                f'radiative {rad_h[i]} {rad_c[i]}'
            ctx.count('rooms')
            ctx.count(how)
            ctx.nontrivial((how, ta[i], tr[i], prev[i]))
            v0 = {'H': 0.0 if rad_h[i] else 0.2, 'C': 0.0 if rad_c[i] else 0.2, 'O': 0.1, 'S': 0.0}
            const = (4.0, 4 * 3.96e-8 * 293.15 ** 3, True)
            get = (lambda clo, v: transfer(ta[i], tr[i], clo, v)) if how == 'by iteration' else (lambda clo, v: const)

            def index(clo):
                c, r, _ = get(clo, v0[prev[i]])
                return vote(ta[i], (c * ta[i] + r * tr[i]) / (c + r), c + r, clo, pa[i])
            h, m, l = index(1.1), index(0.7), index(0.3)
            exp = after(prev[i], demand[i], h, m, l)
            near = min(abs(abs(h) - 0.7), abs(abs(l) - 0.7), abs(m)) < 1e-5
            ctx.count('eval:operation mode')
            ctx.count('no demand', demand[i] <= 0.0)
            got = {getattr(OperationMode, v): k for k, v in NAME.items()}.get(OperationMode(int(mode[i])), '?')
            if got != exp:
                if not near:
                    ctx.violation('operation mode', f'{w}: {got} instead of {exp}, votes {h:.4f} {m:.4f} {l:.4f}')
                continue
            ctx.count(f'change {prev[i]}{exp}')
            clo = {'H': 1.1, 'C': 0.3}.get(exp, 0.7)
            ctx.count('radiative equipment works', exp == 'H' and rad_h[i] or exp == 'C' and rad_c[i])
            a, b, forced = get(clo, v0[exp])
            if how == 'by iteration':
                ctx.count('forced convection' if forced else 'free convection')
            ctx.close('heat transfer by air', hc[i], a, 1e-5, 1e-5, w)
            ctx.close('heat transfer by radiation', hr[i], b, 1e-6, 0, w)
            ctx.close('vote, air speed and clothing', (aim[i], speed[i], clothes[i]),
                      ({'H': -0.5, 'C': 0.5}.get(exp, 0.0), v0[exp], clo), 1e-12, 1e-12, w)
            if exp in 'HC':
                t = low[i] if exp == 'H' else up[i]
                # a room of this temperature all round, with the heat transfer that was reported
                ctx.close('target gives the vote asked for', vote(t, t, hc[i] + hr[i], clo, pa[i]), -0.5 if exp == 'H' else 0.5,
                          0, 1e-9, w)
    ctx.set_sample({'rooms': n, 'air': ta.tolist(), 'before': prev.tolist(), 'modes': [int(v) for v in mode]})
