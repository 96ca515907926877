import numpy as np

from vlib import core_cases, core_oracle

ID = 'C03'
RULE = core_cases.RULE + 'Non-trivial: every wall of the house was replayed; distinct by the reported state.'
ASSUMPTIONS = ['constants of air and water as documented', 'walls start from the documented initial state (no stored heat; ground in equilibrium with the deep ground)']
REQUIRE = {'eval:wall response': 30000, 'walls backed by ground': 10, 'walls backed by other room': 40, 'walls backed by partly own room': 20, 'walls backed by outside': 60, 'surface-steps with radiant heating': 200, 'eval:rear temperature': 30000, 'walls with a run-up of the ground alone': 8,
           'houses of three or more slabs': 2}


def cases(tier, rng):
    q = tier == 'quick'
    cs = core_cases.std_cases(rng, 144 if q else 720, days=1, opt=lambda k: {'ground': 0.5})
    cs += core_cases.std_cases(rng, 48 if q else 240, days=1, rooms=1, opt=lambda k: {'radiative': 1.0, 'demand': 'always', 'season': ['winter', 'summer'][k % 2]})
    cs += core_cases.std_cases(rng, 32 if q else 120, days=1, rooms=2, opt=lambda k: {'pairs': 2, 'radiative': 0.6})
    if not q:
        cs += core_cases.std_cases(rng, 16, days=6)
    cs += core_cases.grown_cases(rng, tier)
    gs = core_cases.std_cases(rng, 16 if q else 80, days=1, rooms=lambda k: 1 + k % 5, opt=lambda k: {'ground': 1.0})
    for c in gs:
        c['kind'] = 'ground'
    cs += gs
    return cs


def run(case, ctx):
    if case.get('kind') == 'ground':
        house, drive = core_cases.build(case)
        tr = core_oracle.ground_run(ctx, house, drive, np.random.default_rng(case['seed'] ^ 0x6061), case['days'], case['opt'])
        ctx.nontrivial(core_cases.signature(house, tr))
        return
    house, drive, S, tr, skip = core_cases.observe(ctx, case)
    core_oracle.surface_heat(ctx, S, tr)
    core_oracle.walls(ctx, house, S, tr, skip)
    ctx.nontrivial(core_cases.signature(house, tr))
