import numpy as np

from vlib import core_cases, gen_core

ID = 'C07'
RULE = core_cases.RULE + ('Here the house floats freely without occupants and without infiltration; four runs with '
                          'different weather, sun and gains whose inputs add up linearly are compared.')
ASSUMPTIONS = ['infiltration (square root of the temperature difference), occupants and air conditioning are left out '
               'because they are not linear']
REQUIRE = {'eval:superposition of temperatures': 20000, 'eval:superposition of humidity': 2000}
VARY = ('theta_o', 'x_o', 'heat_generation', 'moisture_generation', 'q_trs_sol', 'theta_o_sol')


def cases(tier, rng):
    q = tier == 'quick'
    cs = core_cases.std_cases(rng, 32 if q else 160, days=1, opt=lambda k: {'demand': 'none', 'shock': k % 4 == 3},
                              intervent=False, run_up=lambda k: k % 2)
    cs += core_cases.std_cases(rng, 6 if q else 24, days=4 if q else 10, opt={'demand': 'none'})
    cs += core_cases.std_cases(rng, 6 if q else 24, days=1, rooms=lambda k: 5 + k, opt={'demand': 'none'})
    return cs


def run(case, ctx):
    rng = np.random.default_rng(case['seed'])
    house, base = gen_core.random_house(rng, n_rooms=case['rooms'], days=case['days'], opt=case['opt'])
    house['building'].update(c_value=0.2, inside_pressure=str(rng.choice(['negative', 'positive'])))
    steps = len(base['theta_o'])
    base['occupants'] *= 0.0

    def other():
        d = gen_core.random_drive(rng, house, steps, case['opt'])
        return {k: (d[k] if k in VARY else base[k]) for k in base}

    a, b = other(), other()
    al, be = float(rng.uniform(0.2, 0.8)), float(rng.uniform(0.2, 0.8))
    mix = {k: (base[k] + al * (a[k] - base[k]) + be * (b[k] - base[k])) if k in VARY else base[k] for k in base}
    up = case['run_up']
    t = [gen_core.simulate(ctx, house, d, case['days'], up, up) for d in (base, a, b, mix)]
    if any(np.abs(x.v_leak).max() > 0 for x in t) or any((x.mode != 'STOP_CLOSE').any() for x in t):
        ctx.violation('free floating house', 'infiltration or conditioning in a tight house without demand')
        return

    def sup(name, get, tol):
        v = [get(x) for x in t]
        e = v[0] + al * (v[1] - v[0]) + be * (v[2] - v[0])
        ctx.close(name, v[3], e, 1e-7, tol, 'mixed run against the combination of three runs')

    for g in ('th_r', 't_s', 't_e', 'th_frt', 'mrt', 'ot'):
        sup('superposition of temperatures', lambda x: getattr(x, g), 1e-6)
    sup('superposition of heat flows', lambda x: x.q_all, 1e-5)
    for g in ('x_r', 'x_frt'):
        sup('superposition of humidity', lambda x: getattr(x, g), 1e-10)
    ctx.close('no load without demand', t[3].l_cs, 0.0, 0.0, 1e-6, 'convective')
    ctx.close('no load without demand', t[3].l_rs, 0.0, 0.0, 1e-6, 'radiative')
    ctx.set_sample({'rooms': len(house['spaces']), 'boundaries': len(house['boundaries']), 'weights': [al, be],
                    'spread of room temperature K': round(float(np.abs(t[1].th_r - t[2].th_r).max()), 3)})
    ctx.nontrivial(core_cases.signature(house, t[3]))
