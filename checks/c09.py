from vlib import core_cases, core_oracle

ID = 'C09'
RULE = core_cases.RULE + 'Non-trivial: the mode of every room was replayed at each step; distinct by the reported state.'
ASSUMPTIONS = ['constants of air and water as documented']
REQUIRE = {'eval:operation mode': 6000}
for _a, _b in ('CC', 'CS', 'HH', 'HS', 'OC', 'OO', 'OS', 'SC', 'SH', 'SO', 'SS'):
    _n = {'C': 'COOLING', 'H': 'HEATING', 'O': 'STOP_OPEN', 'S': 'STOP_CLOSE'}
    REQUIRE[f'transition {_n[_a]}->{_n[_b]}'] = 1


def cases(tier, rng):
    q = tier == 'quick'
    cs = core_cases.std_cases(rng, 120 if q else 900, days=1, run_up=lambda k: 1 if k % 5 == 4 else 0)
    cs += core_cases.std_cases(rng, 72 if q else 450, days=2, opt=lambda k: {'season': ['swing', 'mild', 'swing', 'summer', 'winter'][k % 5], 'radiative': 0.2 if k % 2 else 0.7})
    cs += core_cases.std_cases(rng, 120 if q else 450, days=1, opt=lambda k: {'shock': True, 'demand': ['always', 'fractional', 'mixed'][k % 3], 'season': ['winter', 'summer', 'swing', 'mild'][k % 4], 'radiative': 0.3})
    if not q:
        cs += core_cases.std_cases(rng, 24, days=10, opt={'season': 'swing'})
    cs += core_cases.grown_cases(rng, tier)
    return cs


def run(case, ctx):
    house, drive, S, tr, skip = core_cases.observe(ctx, case)
    core_oracle.modes(ctx, S, tr, skip)
    ctx.nontrivial(core_cases.signature(house, tr))
