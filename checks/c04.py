from vlib import core_cases, core_oracle

ID = 'C04'
RULE = core_cases.RULE + 'Non-trivial: radiative exchange among the surfaces of each room was evaluated; distinct by the reported state.'
ASSUMPTIONS = ['constants of air and water as documented', 'no surface is larger than about half of the room (otherwise no form factors exist)']
REQUIRE = {'eval:radiative exchange of a surface': 30000, 'eval:radiative heat transfer coefficient': 10000, 'eval:operative temperature': 5000}


def cases(tier, rng):
    q = tier == 'quick'
    cs = core_cases.std_cases(rng, 160 if q else 720, days=1, run_up=lambda k: 1 if k % 5 == 4 else 0)
    if not q:
        cs += core_cases.std_cases(rng, 16, days=8)
    cs += core_cases.grown_cases(rng, tier)
    return cs


def run(case, ctx):
    house, drive, S, tr, skip = core_cases.observe(ctx, case)
    core_oracle.radiation(ctx, S, tr)
    ctx.nontrivial(core_cases.signature(house, tr))
