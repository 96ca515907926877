from vlib import core_cases, core_oracle

ID = 'C11'
RULE = core_cases.RULE + 'Non-trivial: the latent load was judged at every step; distinct by the reported state.'
ASSUMPTIONS = ['constants of air and water as documented']
REQUIRE = {'eval:latent load': 5000, 'room-steps with a wet coil': 300, 'room-steps with a dry coil': 50, 'coil within its range': 300}


def cases(tier, rng):
    q = tier == 'quick'
    cs = core_cases.std_cases(rng, 120 if q else 720, days=1, opt=lambda k: {'season': 'summer', 'demand': ['always', 'mixed', 'fractional'][k % 3], 'radiative': 0.2, 'conv_cooling': 0.8})
    cs += core_cases.std_cases(rng, 80 if q else 360, days=1)
    cs += core_cases.std_cases(rng, 40 if q else 160, days=1, rooms=lambda k: 2 + k % 3, intervent=True,
                               opt={'season': 'summer', 'conv_cooling': 0.8})
    if not q:
        cs += core_cases.std_cases(rng, 24, days=10, opt={'season': 'summer'})
    cs += core_cases.grown_cases(rng, tier)
    # a coil adding moisture (known finding)
    cs.append({'seed': 1837590414421396266, 'days': 1, 'rooms': 4, 'opt': {'season': 'summer', 'conv_cooling': 0.8},
               'intervent': True, 'run_up': 0})
    return cs


def run(case, ctx):
    house, drive, S, tr, skip = core_cases.observe(ctx, case)
    core_oracle.dehumidification(ctx, S, tr, skip)
    ctx.nontrivial(core_cases.signature(house, tr))
