from vlib import core_cases, core_oracle

ID = 'C01'
RULE = core_cases.RULE + 'Non-trivial: the room heat balance was evaluated with ventilation, gains or conditioning ' \
    'present; distinct by the reported temperatures and loads.'
ASSUMPTIONS = ['air 1005 J/kgK, 1.2 kg/m3', 'implicit steps: outdoor conditions of the step, room '
               'state at its end, as documented']
REQUIRE = {'eval:room heat balance': 5000, 'room-steps with air from another room': 500,
           'room-steps conditioned': 300}


def cases(tier, rng):
    q = tier == 'quick'
    cs = core_cases.std_cases(rng, 160 if q else 900, days=1, run_up=lambda k: 1 if k % 5 == 4 else 0)
    cs += core_cases.std_cases(rng, 48 if q else 180, days=1, rooms=lambda k: 2 + k % 3, intervent=True)
    cs += core_cases.std_cases(rng, 32 if q else 180, days=1, opt=lambda k: {'radiative': 1.0, 'demand': 'always',
                                                                          'season': ['winter', 'summer'][k % 2]})
    if not q:
        cs += core_cases.std_cases(rng, 16, days=10)
    cs += core_cases.grown_cases(rng, tier)
    year = core_cases.std_cases(rng, 1 if q else 4, days=365, rooms=1)
    return year + cs


def run(case, ctx):
    house, drive, S, tr, skip = core_cases.observe(ctx, case)
    core_oracle.room_heat_balance(ctx, S, tr, skip)
    ctx.nontrivial(core_cases.signature(house, tr))
