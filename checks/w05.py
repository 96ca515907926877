import numpy as np

from vlib import gen_init

ID = 'W05'
RULE = ('each case is a random house with windows in all directions, with and without overhang, single and multiple '
        'glazing, and a random year of weather; the solar heat of every room written by the real initializer is '
        'compared at every quarter of an hour with an independent computation. Non-trivial: a sunlit window; distinct '
        'by direction, glazing, size and shading.')
ASSUMPTIONS = ['documented incidence angle polynomials and diffuse transmittances']
REQUIRE = {'sunlit windows with overhang': 8, 'sunlit windows without overhang': 8, 'rooms without sunlit window': 2,
           'sunlit single': 4, 'sunlit multiple': 4}


def cases(tier, rng):
    return [{'seed': int(rng.integers(0, 2 ** 62)), 'shaded': k % 3 == 0} for k in
            range(72 if tier == "quick" else 480)]


def run(case, ctx):
    rng = np.random.default_rng(case['seed'])
    d = gen_init.random_input(rng)
    w = gen_init.rand_weather(rng)
    if case['shaded']:
        for b in d['boundaries']:
            if b['boundary_type'] == 'external_transparent_part':
                b['solar_shading_part'] = {'existence': True, 'input_method': 'simple', 'depth': float(
                    rng.choice([0.001, 0.5, 1.0])), 'd_h': 1.2, 'd_e': 0.3}
    m = gen_init.initialize(ctx, d, w)
    n = len(d['rooms'])
    if not ctx.check('one column per room', m.q_trs_sol.shape == (gen_init.N, n), lambda: str(m.q_trs_sol.shape)):
        return
    for i in range(n):
        win = [b for b in d['boundaries'] if b['connected_room_id'] == i
               and b['boundary_type'] == 'external_transparent_part' and b['is_sun_striked_outside']]
        if not win:
            ctx.count('rooms without sunlit window')
        for b in win:
            s = b['solar_shading_part']['existence']
            ctx.count('sunlit windows with overhang' if s else 'sunlit windows without overhang')
            ctx.count('sunlit ' + b['incident_angle_characteristics'])
            ctx.nontrivial((b['direction'], b['incident_angle_characteristics'], b['area'], s))
        obs = m.q_trs_sol[:, i]
        right = sum((gen_init.transmitted(w, b, 1.0) for b in win), np.zeros(gen_init.N))
        if any(not b['solar_shading_part']['existence'] for b in win):
            known = sum((gen_init.transmitted(w, b, 0.0) for b in win), np.zeros(gen_init.N))
            tol = 1e-6 + 1e-9 * np.abs(right)
            if np.all(np.abs(obs - known) <= tol) and not np.all(np.abs(obs - right) <= tol):
                ctx.known_finding('unshaded-window-direct-sun',
                                  f'a room gets at most {obs.max():.0f} W instead of {right.max():.0f} W')
                ctx.count('eval:solar heat through windows', obs.size)
                continue
        ctx.close('solar heat through windows', obs, right, 1e-9, 1e-6, f'room {i} with {len(win)} sunlit windows')
    ctx.set_sample({'rooms': n, 'peak W': [round(float(v), 1) for v in m.q_trs_sol.max(axis=0)]})
