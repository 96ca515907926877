import math

import numpy as np

ID = 'E02'
RULE = ('each case draws conditions of a room and a person over the range of ISO 7730; predicted mean vote and share of '
        'dissatisfied are compared with an independent solution by bisection, with the table of the standard and with '
        'relations that have to hold. Non-trivial: every condition; distinct by vote.')
ASSUMPTIONS = ['equations of ISO 7730, saturated vapour pressure by Sonntag']
REQUIRE = {'eval:predicted mean vote': 1000, 'free convection': 100, 'forced convection': 100, 'sweating': 100,
           'light clothing': 100, 'eval:table of ISO 7730': 10}
# ISO 7730 table D.1: t_a, t_r, v, rh, met, clo, PMV, PPD
TABLE = [(22.0, 22.0, .10, 60, 1.2, .5, -.75, 17), (27.0, 27.0, .10, 60, 1.2, .5, .77, 17), (27.0, 27.0, .30, 60, 1.2, .5, .44, 9),
         (23.5, 25.5, .10, 60, 1.2, .5, -.01, 5), (23.5, 25.5, .30, 60, 1.2, .5, -.55, 11), (19.0, 19.0, .10, 40, 1.2, 1.0, -.60, 13),
         (23.5, 23.5, .30, 40, 1.2, 1.0, .12, 5), (23.0, 21.0, .10, 40, 1.2, 1.0, .05, 5),
         (23.0, 21.0, .30, 40, 1.2, 1.0, -.16, 6), (22.0, 22.0, .10, 60, 1.6, .5, .05, 5), (27.0, 27.0, .10, 60, 1.6, .5, 1.17, 34),
         (27.0, 27.0, .30, 60, 1.6, .5, .95, 24)]


def cases(tier, rng):
    return [{'seed': int(rng.integers(0, 2 ** 62))} for _ in range(300 if tier == 'quick' else 20000)]


def ref(met, eff, ta, tr, clo, v, rh):
    k = ta + 273.15
    pa = rh / 100.0 * math.exp(-6096.9385 / k + 21.2409642 - 2.711193e-2 * k + 1.673952e-5 * k * k + 2.433502 * math.log(k))
    m, w, icl = met * 58.15, eff * 58.15, clo * 0.155
    fcl = 1.0 + 1.29 * icl if icl <= 0.078 else 1.05 + 0.645 * icl
    skin = 35.7 - 0.028 * (m - w)

    def loss(t):
        hc = max(2.38 * abs(t - ta) ** 0.25, 12.1 * math.sqrt(v))
        return 3.96e-8 * fcl * ((t + 273.0) ** 4 - (tr + 273.0) ** 4) + fcl * hc * (t - ta), hc
    lo, hi = -100.0, 150.0
    for _ in range(200):
        mid = (lo + hi) / 2
        if mid - (skin - icl * loss(mid)[0]) > 0:
            hi = mid
        else:
            lo = mid
    t = (lo + hi) / 2
    q, hc = loss(t)
    pmv = (0.303 * math.exp(-0.036 * m) + 0.028) * (
        (m - w) - 3.05e-3 * (5733.0 - 6.99 * (m - w) - pa) - max(0.42 * (m - w - 58.15), 0.0)
        - 1.7e-5 * m * (5867.0 - pa) - 0.0014 * m * (34.0 - ta) - q)
    return pmv, 100.0 - 95.0 * math.exp(-0.03353 * pmv ** 4 - 0.2179 * pmv ** 2), t, hc


def run(case, ctx):
    from heat_load_calc.external import iso7730
    rng = np.random.default_rng(case['seed'])

    def sut(met, eff, ta, tr, clo, v, rh):
        return ctx.sut('vote', iso7730.get_pmv_ppd, met_value=met, p_eff=eff, t_a=ta, t_r_bar=tr, clo_value=clo, v_ar=v, rh=rh)
    for _ in range(60):
        c = dict(met=float(rng.uniform(0.8, 4.0)), eff=float(rng.choice([0.0, rng.uniform(0.0, 0.3)])),
                 ta=float(rng.uniform(10.0, 32.0)), tr=float(rng.uniform(10.0, 40.0)),
                 clo=float(rng.choice([0.0, rng.uniform(0.0, 0.5), rng.uniform(0.5, 2.0)])),
                 v=float(rng.choice([0.0, rng.uniform(0.0, 0.1), rng.uniform(0.1, 1.0)])), rh=float(rng.uniform(0.0, 100.0)))
        pmv, ppd, tcl, hc = ref(**c)
        got = sut(**c)
        ctx.nontrivial(pmv)
        ctx.count('forced convection' if hc == 12.1 * math.sqrt(c['v']) else 'free convection')
        ctx.count('sweating', c['met'] - c['eff'] > 1.0)
        ctx.count('light clothing', c['clo'] * .155 <= .078)
        ctx.close('predicted mean vote', got[0], pmv, 1e-6, 1e-6, str(c))
        ctx.close('share of dissatisfied', got[1], ppd, 1e-5, 1e-5, str(c))
        ctx.check('between five and all dissatisfied', 5.0 - 1e-9 <= got[1] <= 100.0, lambda: f'{c} {got}')
        more = sut(**dict(c, ta=c['ta'] + 0.5, tr=c['tr'] + 0.5))
        ctx.check('warmer is felt warmer', more[0] > got[0] - 1e-9, lambda: f'{c} {got} {more}')
        damp = sut(**dict(c, rh=min(100.0, c['rh'] + 10.0)))
        ctx.check('damper is felt warmer', damp[0] >= got[0] - 1e-9, lambda: f'{c} {got} {damp}')
    for ta, tr, v, rh, met, clo, pmv, ppd in TABLE:
        got = sut(met, 0.0, ta, tr, clo, v, float(rh))
        ctx.close('table of ISO 7730', got[0], pmv, 0, 0.02, f'{ta} {tr} {v} {rh} {met} {clo}')
        ctx.close('table of ISO 7730', got[1], ppd, 0, 1.2, f'{ta} {tr} {v} {rh} {met} {clo}')
    for x in rng.uniform(-3, 3, 20):
        ctx.close('warm or cold alike', iso7730.get_ppd(float(x)), iso7730.get_ppd(-float(x)), 1e-12, 0)
    ctx.close('neutral pleases most', iso7730.get_ppd(0.0), 5.0, 1e-12, 0)
    ctx.set_sample({'condition': c, 'vote': pmv, 'dissatisfied': ppd})
