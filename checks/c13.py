from vlib import core_cases, core_oracle

ID = 'C13'
RULE = core_cases.RULE + 'Non-trivial: air flows of every room were replayed at each step; distinct by the reported state.'
ASSUMPTIONS = ['constants of air and water as documented']
REQUIRE = {'eval:infiltration': 6000, 'room-steps with open windows': 100, 'steps with infiltration': 500, 'steps without infiltration': 300}


def cases(tier, rng):
    q = tier == 'quick'
    cs = core_cases.std_cases(rng, 176 if q else 900, days=1, run_up=lambda k: 1 if k % 5 == 4 else 0)
    cs += core_cases.std_cases(rng, 64 if q else 300, days=1, opt={'season': 'mild', 'radiative': 0.2})
    if not q:
        cs += core_cases.std_cases(rng, 24, days=10)
    cs += core_cases.grown_cases(rng, tier)
    return cs


def run(case, ctx):
    house, drive, S, tr, skip = core_cases.observe(ctx, case)
    core_oracle.airflow(ctx, house, S, tr, skip)
    ctx.nontrivial(core_cases.signature(house, tr))
