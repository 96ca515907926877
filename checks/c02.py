from vlib import core_cases, core_oracle

ID = 'C02'
RULE = core_cases.RULE + 'Non-trivial: the moisture balance was evaluated; distinct by the reported state.'
ASSUMPTIONS = ['constants of air and water as documented']
REQUIRE = {'eval:room moisture balance': 5000, 'room-steps with air from another room': 500, 'room-steps dehumidified': 100}


def cases(tier, rng):
    q = tier == 'quick'
    cs = core_cases.std_cases(rng, 160 if q else 900, days=1, run_up=lambda k: 1 if k % 5 == 4 else 0)
    cs += core_cases.std_cases(rng, 48 if q else 180, days=1, rooms=lambda k: 2 + k % 3, intervent=True)
    cs += core_cases.std_cases(rng, 64 if q else 300, days=1, opt={'season': 'summer', 'demand': 'always', 'radiative': 0.1})
    if not q:
        cs += core_cases.std_cases(rng, 16, days=10)
    cs += core_cases.grown_cases(rng, tier)
    return cs


def run(case, ctx):
    house, drive, S, tr, skip = core_cases.observe(ctx, case)
    core_oracle.moisture_balance(ctx, S, tr, skip)
    ctx.nontrivial(core_cases.signature(house, tr))
