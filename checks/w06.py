import numpy as np

from vlib import gen_init

ID = 'W06'
RULE = ('each case is a house whose rooms have one window of the same kind below overhangs of random geometry; the '
        'sunlit share of the direct sun and the sky share implied by the solar heat written by the real initializer '
        'are compared with the geometry of an endless overhang. Non-trivial: the sun was partly shaded; distinct by '
        'geometry and direction.')
ASSUMPTIONS = ['overhang without ends, as documented', 'walls facing horizontally (the geometry of an overhang over a '
               'roof or below a floor is not defined)']
REQUIRE = {'steps with partial shade': 5000, 'steps fully shaded': 500, 'steps in full sun': 2000}


def cases(tier, rng):
    return [{'seed': int(rng.integers(0, 2 ** 62))} for _ in range(60 if tier == "quick" else 400)]


def run(case, ctx):
    rng = np.random.default_rng(case['seed'])
    w = gen_init.rand_weather(rng)
    for _ in range(50):
        d = gen_init.random_input(rng, n_rooms=3)
        if any(b['boundary_type'] == 'external_transparent_part' for b in d['boundaries']):
            break
    base = next(b for b in d['boundaries'] if b['boundary_type'] == 'external_transparent_part')
    base.update(is_sun_striked_outside=True, temp_dif_coef=1.0, direction=str(rng.choice(gen_init.DIRS[:8])),
                outside_emissivity=0.9, outside_heat_transfer_resistance=0.04)
    d['boundaries'] = [b for b in d['boundaries'] if b['boundary_type'] not in ('external_transparent_part',
                                                                                'internal')]
    h = float(rng.uniform(0.3, 2.2))
    e = float(rng.choice([0.0, rng.uniform(0.0, 0.8)]))
    z = np.sort(rng.uniform(0.05, 2.5, 3))
    win = []
    for i in range(3):
        b = dict(base, connected_room_id=i, name=f'window {i}', solar_shading_part={
            'existence': True, 'input_method': 'simple', 'depth': float(z[i]), 'd_h': h, 'd_e': e})
        win.append(b)
        d['boundaries'].append(b)
    for k, b in enumerate(d['boundaries']):
        b['id'] = k
    m = gen_init.initialize(ctx, d, w)
    c = gen_init.cos_incidence(w, base['direction'])
    di, sky, ref = gen_init.irradiance(w, base['direction'])
    up = (w['sun altitude'] > 0) & (c > 1e-3) & (w['normal direct solar radiation'] > 1.0)
    ae = base['area'] * base['eta_value']
    q = m.q_trs_sol.T
    ctx.close('more overhang never lets in more sun', np.clip(np.diff(q, axis=0), 0, None), 0.0, 0.0, 1e-6,
              f'depths {z}')
    for i, b in enumerate(win):
        f = gen_init.shade_direct(w, b)
        ctx.count('steps with partial shade', int((up & (f > 1e-3) & (f < 1 - 1e-3)).sum()))
        ctx.count('steps fully shaded', int((up & (f >= 1)).sum()))
        ctx.count('steps in full sun', int((up & (f <= 0)).sum()))
        if (up & (f > 1e-3) & (f < 1 - 1e-3)).any():
            ctx.nontrivial((base['direction'], round(h, 6), round(e, 6), round(float(z[i]), 6)))
        exp = gen_init.transmitted(w, b)
        ctx.close('sun below the overhang', q[i], exp, 1e-9, 1e-6, f'depth {z[i]:.3f} height {h:.3f} offset {e:.3f}')
        # shares implied by the written heat; by ray geometry rather than by the formula
        full = ae * gen_init.tau(c, base['incident_angle_characteristics']) * di
        diff = q[i] - full * (1 - f)
        cd = {'single': 0.900, 'multiple': 0.832}[base['incident_angle_characteristics']]
        k = np.flatnonzero(up & (sky > 5.0))
        if k.size:
            fs = 1.0 - (diff[k] / (ae * cd) - ref[k]) / sky[k]
            ctx.check('share of the sky is one geometry', bool(np.ptp(fs) < 1e-5), lambda: str((fs.min(), fs.max())))
            ctx.check('share of the sky between none and all', bool((fs > -1e-6).all() and (fs < 1 + 1e-6).all()),
                      lambda: str((fs.min(), fs.max())))
        # rays from points of the window to the sun: shaded if they hit the overhang
        k = k[::max(1, k.size // 200)]
        y = (np.arange(400) + 0.5) / 400 * h + e
        a = w['sun azimuth'][k] - np.radians(gen_init.AZ[base['direction']])
        prof = np.tan(w['sun altitude'][k]) / np.cos(a)
        hit = (prof[:, None] > 0) & (y[None, :] / np.maximum(prof[:, None], 1e-12) < z[i])
        got = (q[i][k] - ae * cd * ((1 - gen_init.shade_sky(b)) * sky[k] + ref[k])) / np.maximum(full[k], 1e-9)
        ok = full[k] > 20.0
        ctx.close('sunlit share by rays', got[ok], 1.0 - hit.mean(axis=1)[ok], 0.0, 0.01, 'rays')
    ctx.set_sample({'direction': base['direction'], 'height': h, 'offset': e, 'depths': [float(v) for v in z]})
