from vlib import core_cases, core_oracle

ID = 'C14'
RULE = core_cases.RULE + 'Non-trivial: occupants were present; distinct by the reported state.'
ASSUMPTIONS = ['constants of air and water as documented']
REQUIRE = {'occupied room-steps': 2000, 'occupied room-steps at the cold limit': 50, 'occupied room-steps above the cold limit': 1000}


def cases(tier, rng):
    q = tier == 'quick'
    cs = core_cases.std_cases(rng, 240 if q else 900, days=1, run_up=lambda k: 1 if k % 5 == 4 else 0)
    if not q:
        cs += core_cases.std_cases(rng, 24, days=10)
    cs += core_cases.grown_cases(rng, tier)
    return cs


def run(case, ctx):
    house, drive, S, tr, skip = core_cases.observe(ctx, case)
    core_oracle.occupants(ctx, S, tr, skip)
    core_oracle.room_heat_balance(ctx, S, tr, skip)
    ctx.nontrivial(core_cases.signature(house, tr))
