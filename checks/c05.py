from vlib import core_cases, core_oracle

ID = 'C05'
RULE = core_cases.RULE + 'Non-trivial: the sun shone into at least one room; distinct by the reported state.'
ASSUMPTIONS = ['constants of air and water as documented']
REQUIRE = {'room-steps with sun': 1500, 'surfaces not absorbing': 30, 'rooms without absorbing surfaces': 2}


def cases(tier, rng):
    q = tier == 'quick'
    cs = core_cases.std_cases(rng, 200 if q else 720, days=1, run_up=lambda k: 1 if k % 5 == 4 else 0,
                                opt=lambda k: {'dark': True} if k % 8 == 3 else {})
    if not q:
        cs += core_cases.std_cases(rng, 16, days=8)
    cs += core_cases.grown_cases(rng, tier)
    return cs


def run(case, ctx):
    house, drive, S, tr, skip = core_cases.observe(ctx, case)
    core_oracle.solar(ctx, S, tr)
    core_oracle.surface_heat(ctx, S, tr)
    core_oracle.room_heat_balance(ctx, S, tr, skip)
    ctx.nontrivial(core_cases.signature(house, tr))
