import numpy as np

ID = 'G02'
RULE = ('each case draws glazings (one to four panes, laminated or not, faces with or without coating, mixed gas fillings, '
        'slopes), temperatures outside and inside, absorbed sun, season and method; resistances, surface temperatures, heat '
        'passed on to the room and the U value are compared with own formulas of the two standards and with the heat balance '
        'of every face. Non-trivial: every glazing; distinct by its parts and conditions.')
ASSUMPTIONS = ['JIS R3107 and JIS A2102 / A2103; properties of gases linear between and beyond the tabulated temperatures']
REQUIRE = {'method:fixed': 100, 'method:JIS_R3107': 100, 'method:JIS_A2103': 100, 'panes:1': 60, 'panes:2': 60, 'panes:3': 60,
           'eval:heat balance of every face': 1000, 'with sun': 100, 'convection in the gap': 60, 'still gas in the gap': 60,
           'unlike outer and inner face': 60, 'refused:coating out of the table': 10, 'refused:gases that are not everything': 10,
           'refused:gaps do not fit the panes': 10}
GAS = {'air': ((1.326, 1.277, 1.232, 1.189), (1.661, 1.711, 1.761, 1.811), (2.336, 2.416, 2.496, 2.576), 1008.0),
       'argon': ((1.829, 1.762, 1.699, 1.640), (2.038, 2.101, 2.164, 2.228), (1.584, 1.634, 1.684, 1.734), 519.0),
       'sf6': ((6.844, 6.602, 6.360, 6.118), (1.383, 1.421, 1.459, 1.497), (1.119, 1.197, 1.275, 1.354), 614.0),
       'krypton': ((3.832, 3.690, 3.560, 3.430), (2.260, 2.330, 2.400, 2.470), (0.842, 0.870, 0.900, 0.926), 245.0)}
SLOPE = {'VERTICAL': (0.035, 0.38), 'HORIZONTAL': (0.16, 0.28), 'SLOPE': (0.10, 0.31)}
COAT = ((0.03, 1.22), (0.05, 1.18), (0.1, 1.14), (0.2, 1.1), (0.3, 1.06), (0.4, 1.03), (0.5, 1.0), (0.6, .98), (0.7, .96),
        (0.8, .95), (0.89, .94))
SIG = 5.67e-8


def cases(tier, rng):
    return [{'seed': int(rng.integers(0, 2 ** 62))} for _ in range(250 if tier == 'quick' else 3000)]


def table(v, t):
    k = 0 if t < 0 else 1 if t < 10 else 2
    return v[k] + (v[k + 1] - v[k]) * (t - (-10.0 + 10.0 * k)) / 10.0


def gas(mix, t):
    r = [0.0] * 4
    for name, share in mix.items():
        rho, mu, lam, c = GAS[name]
        for i, v in enumerate((table(rho, t), table(mu, t) * 1e-5, table(lam, t) * 1e-2, c)):
            r[i] += share / 100.0 * v
    return r


def emissivity(e):
    return 0.837 if e is None else e * float(np.interp(e, [a for a, _ in COAT], [b for _, b in COAT]))


def gap(g, t1, t2, e1, e2, ctx=None):
    tm, dt = (t1 + t2) / 2 + 273.15, abs(t1 - t2)
    return gap_at(g, tm, dt, e1, e2, ctx)


def gap_at(g, tm, dt, e1, e2, ctx=None):
    rho, mu, lam, c = gas(g['mix'], tm - 273.15)
    a, n = SLOPE[g['slope']]
    nu = a * (9.81 * g['s'] ** 3 * dt * rho ** 2 / tm / mu ** 2 * mu * c / lam) ** n
    if ctx is not None:
        ctx.count('convection in the gap' if nu > 1 else 'still gas in the gap')
    return max(1.0, nu) * lam / g['s'] + 4 * SIG * tm ** 3 / (1 / e1 + 1 / e2 - 1)


def conductances(w, th, te, ti, method, season, ctx=None):
    n = len(w['panes'])
    e_out, e_in = emissivity(w['panes'][0]['front']), emissivity(w['panes'][-1]['back'])
    g = np.zeros(2 * n + 1)
    if method == 'JIS_A2103':
        def rad(e, a, b):
            a, b = a + 273.15, b + 273.15
            return e * SIG * (a * a + b * b) * (a + b)
        g[0] = rad(e_out, th[0], te) + {'summer': 8.0, 'winter': 20.0}[season]
        g[2 * n] = rad(e_in, th[-1], ti) + {'summer': 2.5, 'winter': 3.6}[season]
    else:
        g[0], g[2 * n] = 4.9 * e_out + 16.3, 5.4 * e_in + 4.1
    for k, p in enumerate(w['panes']):
        g[2 * k + 1] = 1.0 / sum(d / l for d, l in p['sheets'])
    for k in range(n - 1):
        e1, e2 = emissivity(w['panes'][k]['back']), emissivity(w['panes'][k + 1]['front'])
        g[2 * k + 2] = gap_at(w['gaps'][k], 283.0, 15.0, e1, e2, ctx) if method == 'fixed' else gap(
            w['gaps'][k], th[2 * k + 1], th[2 * k + 2], e1, e2, ctx)
    return g


def draw(rng, n):
    def face():
        return None if rng.random() < 0.5 else float(rng.uniform(0.03, 0.889)) if rng.random() < 0.8 else \
            float(rng.choice([a for a, _ in COAT[:-1]]))
    panes = [{'sheets': [(float(rng.uniform(0.002, 0.015)), float(rng.choice([1.0, 0.2, rng.uniform(0.2, 1.5)])))
                         for _ in range(int(rng.integers(1, 4)) if rng.random() < 0.93 else int(rng.integers(4, 9)))], 'front': face(), 'back': face()} for _ in range(n)]
    gaps = []
    for _ in range(n - 1):
        kind = rng.integers(3)
        names = list(GAS)
        if kind == 0:
            mix = {str(rng.choice(names)): 100.0}
        elif kind == 1:
            a = float(rng.integers(1, 100))
            p = rng.permutation(names)[:2]
            mix = {str(p[0]): a, str(p[1]): 100.0 - a}
        else:
            q = rng.multinomial(100, [0.25] * 4)
            mix = {m: float(v) for m, v in zip(names, q)}
        gaps.append({'mix': mix, 'slope': str(rng.choice(list(SLOPE))), 's': float(rng.uniform(0.004, 0.03))})
    return {'panes': panes, 'gaps': gaps}


def build(gtb, w):
    def face(e):
        return gtb.NonLowESurface() if e is None else gtb.LowESurface(e)
    gls = [gtb.GlassLayer(gus=[gtb.GlassUnit(d=d) if l == 1.0 else gtb.GlassUnit(d=d, lmd=l) for d, l in p['sheets']],
                          sff=face(p['front']), sfb=face(p['back'])) for p in w['panes']]
    als = [gtb.AirLayer(gtb.MixedAirProperty(*[g['mix'].get(k, 0.0) for k in ('air', 'argon', 'sf6', 'krypton')]),
                        gtb.GlassDirection[g['slope']], g['s']) for g in w['gaps']]
    return gtb.Glass(gls=gls, als=als)


def run(case, ctx):
    from notebook.initializer.shgc_window import glass_thermal_balance as gtb
    rng = np.random.default_rng(case['seed'])
    for n in (1, 2, 3, 2, 3, 4):
        w = draw(rng, n)
        ctx.count(f'panes:{n}')
        if w['panes'][0]['front'] != w['panes'][-1]['back']:
            ctx.count('unlike outer and inner face')
        glass = ctx.sut('glazing', build, gtb, w)
        for p, layer in zip(w['panes'], glass._gls if hasattr(glass, '_gls') else []):
            ctx.close('emissivity of a face', [layer.sff.eps, layer.sfb.eps], [emissivity(p['front']), emissivity(p['back'])],
                      1e-9, 0, str(p))
        u = ctx.sut('U value', glass.get_heat_transmittance)
        g = conductances(w, None, None, None, 'fixed', None, ctx)
        ctx.close('U value', u, 1.0 / np.sum(1.0 / g), 1e-9, 0, str(w))
        ctx.close('U value', ctx.sut('U value', lambda: glass.u), u, 1e-12, 0)
        ctx.close('resistances', ctx.sut('resistances', lambda: glass.r), 1.0 / g, 1e-9, 0, str(w))
        for method in ('fixed', 'JIS_R3107', 'JIS_A2103'):
            te, ti = float(rng.uniform(-20, 38)), float(rng.uniform(15, 28))
            season = str(rng.choice(['summer', 'winter']))
            sun = rng.random() < 0.7
            ia = rng.uniform(0, 250, n) * (rng.random(n) < 0.8) if sun else None
            ctx.count('method:' + method)
            ctx.nontrivial((str(w), method, te, ti, season, str(ia)))
            before = None if ia is None else ia.copy()
            kw = {} if method == 'fixed' else {'surface_method': method, 'season': season, 'decision_air_layer_temp': 'calc'}
            th, reg, q = ctx.sut('temperatures', glass.get_temp_and_r, theta_e=te, theta_i=ti, ia=ia, **kw)
            where = f'{w} {method} {season} {te} {ti} {ia}'
            if not ctx.check('a temperature for each face', len(th) == 2 * n and len(reg) == 2 * n + 1, where):
                continue
            if ia is not None:
                ctx.count('with sun')
                ctx.check('input is not changed', np.array_equal(ia, before), where)
            a = np.zeros(n) if ia is None else ia
            g = conductances(w, th, te, ti, method, season, ctx)
            ctx.close('resistances at these temperatures', reg, 1.0 / g, 1e-6, 0, where)
            t = np.concatenate([[te], th, [ti]])
            flow = g * np.diff(t)                       # towards the outside
            ctx.close('heat balance of every face', flow[:-1] - flow[1:], np.repeat(a, 2) / 2.0, 0, 1e-3, where)
            # the sun's heat reaching the room: with and without sun at the same conductances
            m = np.diag(g[:-1] + g[1:]) - np.diag(g[1:-1], 1) - np.diag(g[1:-1], -1)
            rise = np.linalg.solve(m, np.repeat(a, 2) / 2.0)
            ctx.close('heat of the sun to the room', q, g[-1] * rise[-1], 1e-4, 1e-6, where)
            ctx.check('no more than the sun gives', -1e-9 <= q <= a.sum() + 1e-9, where)
            lo, hi = min(te, ti), max(te, ti)
            if ia is None:
                ctx.check('between outside and inside', np.all((th >= lo - 1e-3) & (th <= hi + 1e-3)), where)
            ctx.set_sample({'panes': n, 'method': method, 'temperatures': [float(v) for v in th], 'U': float(u)})
    for e in (0.0, 0.0299, 0.89, 0.95):
        ctx.raises('coating out of the table', (ValueError,), lambda: gtb.LowESurface(e).eps)
    for v in ((50, 40, 0, 0), (100, 1, 0, 0), (0, 0, 0, 0), (33, 33, 33, 0), (0, 99.75, 0, 0), (60, 0, 40.125, 0), (1, 0, 0, 0), (0.5, 0.25, 0, 0.25)):
        ctx.raises('gases that are not everything', (ValueError,), gtb.MixedAirProperty, *[float(x) for x in v])
    one = gtb.GlassLayer(gus=[gtb.GlassUnit(d=0.003)])
    air = gtb.AirLayer(gtb.MixedAirProperty(100.0, 0.0, 0.0, 0.0), gtb.GlassDirection.VERTICAL, 0.012)
    for k, m in ((1, 1), (2, 0), (3, 1)):
        ctx.raises('gaps do not fit the panes', (ValueError,), gtb.Glass, [one] * k, [air] * m)
    for name, kind in (('air', gtb.AirType.AIR), ('argon', gtb.AirType.ARGON), ('sf6', gtb.AirType.SF6),
                       ('krypton', gtb.AirType.KRYPTON)):
        for t in rng.uniform(-25, 45, 6):
            e = gas({name: 100.0}, float(t))
            ctx.close('properties of a gas', [ctx.sut('gas', f, float(t), kind) for f in (gtb.get_rho, gtb.get_mu, gtb.get_lambda)]
                      + [gtb.get_c_air(kind)], e, 1e-9, 0, f'{name} {t}')
