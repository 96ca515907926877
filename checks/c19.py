import copy
import json

import numpy as np

from vlib import gen_core, ref_rf

ID = 'C19'
RULE = ('each case is a batch of random constructions (1-8 layers of random resistance and capacity, massless layers, '
        'with soil or outdoor film, glazing, given factors); the response factors asked from the real code are compared '
        'with an independent fit of the exact transfer functions and with their sums, splits and repetitions. '
        'Non-trivial: a construction with storage; distinct by its factors.')
ASSUMPTIONS = ['documented method: fixed roots, least squares on the Laplace axis, 15 minute triangular pulses']
REQUIRE = {'eval:response factors': 3000, 'eval:steady state of the wall': 400, 'eval:split layers': 1000,
           'ground constructions': 30, 'glazing': 10, 'refused:unknown kind of boundary': 3}


def cases(tier, rng):
    return [{'seed': int(rng.integers(0, 2 ** 62)), 'n': 12 if tier == 'quick' else 60} for _ in
            range(72 if tier == 'quick' else 400)]


def ask(ctx, spec):
    from heat_load_calc.initializer import response_factor
    before = copy.deepcopy(spec)
    f = ctx.sut('response factors', response_factor.ResponseFactorFactory.create, spec=spec)
    rf = ctx.sut('response factors', f.get_response_factors)
    out = [float(rf.rft0), float(rf.rfa0)] + [np.array(v, dtype=float, copy=True).flatten()
                                              for v in (rf.rft1, rf.rfa1, rf.row)]
    ctx.check('construction is not changed', spec == before, lambda: f'{before} became {spec}')
    rf2 = ctx.sut('response factors', f.get_response_factors)
    ctx.close('asked twice', [float(rf2.rft0), float(rf2.rfa0)], out[:2], 1e-14, 0, 'first terms')
    for a, b in zip((rf2.rft1, rf2.rfa1, rf2.row), out[2:]):
        ctx.close('asked twice', np.asarray(a, float).flatten(), b, 1e-14, 0, 'term by term')
    ctx.check('twelve terms', all(len(v) == 12 for v in out[2:]), lambda: str([len(v) for v in out[2:]]))
    return out


def layers(rng):
    if rng.random() < 0.5:
        return [{'name': l['name'], 'thermal_resistance': l['thermal_resistance'],
                 'thermal_capacity': l['thermal_capacity']} for l in gen_core.rand_layers(rng)]
    n = int(rng.integers(1, 9))
    if rng.random() < 0.4:
        # from foils and metal sheets to thick insulation and massive concrete or earth; as deep as can be computed with
        # hyperbolic functions of doubles
        while True:
            lay = [{'name': f'l{k}', 'thermal_resistance': float(10 ** rng.uniform(-4.0, 0.9)),
                    'thermal_capacity': 0.0 if rng.random() < 0.2 else float(10 ** rng.uniform(-2.0, 3.2))}
                   for k in range(n)]
            if sum((l['thermal_resistance'] * l['thermal_capacity'] * 30.006) ** 0.5 for l in lay) < 300.0:
                return lay
    return [{'name': f'l{k}', 'thermal_resistance': float(rng.choice([rng.uniform(0.005, 0.3), rng.uniform(0.3, 4.0)])),
             'thermal_capacity': float(rng.choice([0.0, rng.uniform(1.0, 30.0), rng.uniform(30.0, 400.0)],
                                                  p=[0.25, 0.45, 0.3]))} for k in range(n)]


def judge(ctx, spec, o):
    lay = spec['layers']
    e = ref_rf.of_spec(spec)
    R = ref_rf.resistance(spec)
    w = f'{spec["boundary_type"]} with {len(lay)} layers'
    ctx.close('response factors', o[0], e[0], 1e-6, 1e-6, w + ': first transmission term')
    ctx.close('response factors', o[1], e[1], 1e-6, 1e-6 * R, w + ': first absorption term')
    n = len(e[2])
    for name, a, b in (('transmission', o[2], e[2]), ('absorption', o[3], e[3])):
        ctx.close('response factors', a[:n], b, 1e-5, 1e-6 * max(1.0, R), f'{w}: {name} terms')
        ctx.check('unused terms are zero', not a[n:].any(), str(a))
    ctx.close('response factors', o[4][:n], e[4], 1e-12, 0, w + ': common ratios')
    r = o[4][:n]
    ctx.check('ratios decay', bool(((r >= 0) & (r < 1)).all()), str(r))
    ctx.close('steady state of the wall', o[0] + np.sum(o[2][:n] / (1 - r)), 1.0, 0, 1e-6, w + ': transmission')
    ctx.close('steady state of the wall', o[1] + np.sum(o[3][:n] / (1 - r)), R, 1e-6, 1e-6, w + ': resistance')
    if any(l['thermal_capacity'] > 0 for l in lay):
        ctx.nontrivial([round(float(v), 9) for v in o[2][:n]])
    return R, w


def neighbour(rng, spec):
    """a construction that differs in one figure only, or in the order of its layers"""
    s = copy.deepcopy(spec)
    lay = s['layers']
    j = int(rng.integers(0, len(lay)))
    x = float(np.exp(rng.choice([-1.0, 1.0]) * 10.0 ** rng.uniform(-3.5, -1.0)))
    k = int(rng.integers(0, 5))
    if k == 0 and lay[j]['thermal_capacity'] > 0:
        lay[j] = dict(lay[j], thermal_capacity=lay[j]['thermal_capacity'] * x)
    elif k == 1 and 'outside_heat_transfer_resistance' in s:
        s['outside_heat_transfer_resistance'] *= x
    elif k == 2 and len(lay) > 1:
        lay.reverse()
    elif k == 3 and s['boundary_type'] != 'ground':
        s['boundary_type'] = 'internal' if s['boundary_type'] != 'internal' else 'external_general_part'
        s['outside_heat_transfer_resistance'] *= x
    else:
        lay[j] = dict(lay[j], thermal_resistance=lay[j]['thermal_resistance'] * x)
    return s


def run(case, ctx):
    from heat_load_calc.initializer import response_factor
    rng = np.random.default_rng(case['seed'])
    for k in range(case['n']):
        u = rng.random()
        if u < 0.08:
            spec = {'method': 'u_value', 'boundary_type': str(rng.choice(['external_transparent_part',
                                                                          'external_opaque_part'])),
                    'u_value': float(rng.uniform(0.3, 7.0)), 'inside_heat_transfer_resistance':
                        float(rng.uniform(0.05, 0.13))}
            o = ask(ctx, spec)
            ctx.count('glazing')
            ctx.close('glazing carries its transmittance', 1.0 / (o[1] + spec['inside_heat_transfer_resistance']),
                      spec['u_value'], 1e-9, 0, 'U')
            ctx.check('glazing stores nothing', o[0] == 1.0 and not o[2].any() and not o[3].any(), str(o))
            continue
        if u < 0.13:
            z = [0.0] * 6
            spec = {'method': 'response_factor', 'boundary_type': 'external_general_part',
                    'phi_t0': float(rng.uniform(0, 1)), 'phi_a0': float(rng.uniform(0.01, 1)),
                    'phi_t1': list(rng.uniform(0, 0.1, 6)) + z, 'phi_a1': list(rng.uniform(0, 0.1, 6)) + z,
                    'r': list(rng.uniform(0, 0.99, 6)) + z}
            spec = json.loads(json.dumps(spec))
            o = ask(ctx, spec)
            for a, b in zip(o, (spec['phi_t0'], spec['phi_a0'], spec['phi_t1'], spec['phi_a1'], spec['r'])):
                ctx.close('given factors are taken as given', a, b, 0, 0, 'terms')
            continue
        if u < 0.15:
            ctx.raises('unknown kind of boundary', (KeyError,), response_factor.ResponseFactorFactory.create,
                       spec={'method': 'layers', 'boundary_type': 'roof of another planet', 'layers': layers(rng)})
            continue
        ground = u > 0.75
        lay = layers(rng)
        spec = {'method': 'layers', 'boundary_type': str(rng.choice(['external_general_part', 'internal'])),
                'layers': lay, 'outside_heat_transfer_resistance': float(rng.uniform(0.02, 0.2))}
        if ground:
            spec = {'method': 'layers', 'boundary_type': 'ground', 'layers': lay}
            ctx.count('ground constructions')
        o = ask(ctx, copy.deepcopy(spec))
        R, w = judge(ctx, spec, o)
        # a layer split into slices is the same wall
        j = int(rng.integers(0, len(lay)))
        m = int(rng.integers(2, 5))
        part = dict(lay[j], thermal_resistance=lay[j]['thermal_resistance'] / m,
                    thermal_capacity=lay[j]['thermal_capacity'] / m)
        s2 = dict(copy.deepcopy(spec), layers=lay[:j] + [dict(part) for _ in range(m)] + lay[j + 1:])
        p = ask(ctx, s2)
        for i in range(5):
            ctx.close('split layers', p[i], o[i], 1e-5, 1e-6 * max(1.0, R), f'{w}: layer {j} in {m} slices, item {i}')
        if rng.random() < 0.5:
            near = neighbour(rng, spec)
            ctx.count('neighbours of a construction')
            judge(ctx, near, ask(ctx, near))
    ctx.set_sample({'constructions': case['n']})
