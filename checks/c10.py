import numpy as np

from vlib import core_cases, core_oracle, gen_core

ID = 'C10'
RULE = core_cases.RULE + 'Non-trivial: equipment of at least one room was judged at every step; distinct by the reported state.'
ASSUMPTIONS = ['constants of air and water as documented']
REQUIRE = {'eval:control': 6000, 'room-steps held at the target': 500, 'room-steps floating inside the limit': 100, 'room-steps at part demand': 300, 'room-steps with radiative equipment at its capacity': 50, 'room-steps with radiative equipment alone': 50,
           'capacity between the loads with and without a limited neighbour': 3}


def cases(tier, rng):
    q = tier == 'quick'
    cs = core_cases.std_cases(rng, 180 if q else 900, days=1, run_up=lambda k: 1 if k % 5 == 4 else 0)
    cs += core_cases.std_cases(rng, 96 if q else 300, days=1, rooms=1, opt=lambda k: {'radiative': 1.0 if k % 2 else 0.3, 'demand': ['always', 'fractional', 'mixed'][k % 3], 'season': ['winter', 'summer', 'swing', 'mild'][k % 4]})
    cs += core_cases.std_cases(rng, 96 if q else 300, days=1, opt=lambda k: {'radiative': 0.8, 'demand': ['always', 'fractional'][k % 2], 'season': ['winter', 'summer', 'swing'][k % 3]})
    cs += core_cases.std_cases(rng, 120 if q else 360, days=1, rooms=2, kind='second', opt=lambda k: {
        'radiative': 1.0, 'demand': 'always', 'season': ['winter', 'summer'][k % 2], 'pairs': 2})
    cs += core_cases.std_cases(rng, 40 if q else 160, days=1, rooms=lambda k: 2 + k % 3, intervent=True)
    if not q:
        cs += core_cases.std_cases(rng, 24, days=10)
    cs += core_cases.grown_cases(rng, tier)
    return cs


def second(case, ctx):
    """the capacity of one room lies between its load before and after the output of its neighbour is limited"""
    house, drive = core_cases.build(case)
    side = {'winter': 'heating', 'summer': 'cooling'}[case['opt']['season']]
    cap = [s['equipment'][side]['radiative'] for s in house['spaces']]
    if not all(c['installed'] for c in cap):
        return
    sg = 1.0 if side == 'heating' else -1.0

    def go(a, b):
        cap[0]['max_capacity'], cap[1]['max_capacity'] = a, b
        return gen_core.simulate(ctx, house, drive, 1)

    free = sg * go(1e9, 1e9).l_rs[:, 0]
    if not min(free) > 10.0:
        return
    a = 0.3 * float(free[0])
    b = 0.5 * float(free[1] + sg * go(a, 1e9).l_rs[1, 0])
    if not b > free[1] * (1 + 1e-6):
        b = float(free[1]) * 1.001
    else:
        ctx.count('capacity between the loads with and without a limited neighbour')
    tr = go(a, b)
    S = core_oracle.Sys(house, drive, tr.T)
    core_oracle.control(ctx, S, tr, 0, house)
    ctx.nontrivial(('second', core_cases.signature(house, tr)))


def run(case, ctx):
    if case.get('kind') == 'second':
        return second(case, ctx)
    house, drive, S, tr, skip = core_cases.observe(ctx, case)
    core_oracle.control(ctx, S, tr, skip, house)
    ctx.nontrivial(core_cases.signature(house, tr))
