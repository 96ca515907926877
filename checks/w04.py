import numpy as np

from vlib import gen_init

ID = 'W04'
RULE = ('each case is a random house with all kinds of boundaries in all directions and a random year of weather '
        '(partly with the sun exactly at the horizon, in front of a wall or overhead); the equivalent temperatures '
        'written by the real initializer are compared at every quarter of an hour with an independent computation. '
        'Non-trivial: a sunlit boundary; distinct by kind, direction and surface properties.')
ASSUMPTIONS = ['isotropic sky, albedo 0.1, as documented']
REQUIRE = {'sunlit walls': 20, 'sunlit windows': 10, 'boundaries not sunlit': 10, 'ground': 2, 'inner walls': 5,
           'directions': 7}


def cases(tier, rng):
    return [{'seed': int(rng.integers(0, 2 ** 62))} for _ in range(72 if tier == 'quick' else 400)]


def run(case, ctx):
    rng = np.random.default_rng(case['seed'])
    d = gen_init.random_input(rng)
    w = gen_init.rand_weather(rng)
    m = gen_init.initialize(ctx, d, w)
    if not ctx.check('one column per boundary', m.theta_o_sol.shape == (gen_init.N, len(d['boundaries'])),
                     lambda: str(m.theta_o_sol.shape)):
        return
    seen = set()
    for j, b in enumerate(d['boundaries']):
        t = b['boundary_type']
        struck = bool(b.get('is_sun_striked_outside')) and t.startswith('external')
        kind = {'internal': 'inner walls', 'ground': 'ground'}.get(t) or (
            ('sunlit windows' if t == 'external_transparent_part' else 'sunlit walls') if struck
            else 'boundaries not sunlit')
        ctx.count(kind)
        if struck:
            seen.add(b['direction'])
            ctx.nontrivial((t, b['direction'], b['outside_emissivity'], b['outside_heat_transfer_resistance']))
        ctx.close('equivalent temperature: ' + kind, m.theta_o_sol[:, j], gen_init.sol_air(w, b), 1e-9, 1e-7,
                  f'boundary {j} ({t}, {b.get("direction")})')
    ctx.count('directions', len(seen))
    ctx.set_sample({'boundaries': len(d['boundaries']), 'directions': sorted(seen)})
