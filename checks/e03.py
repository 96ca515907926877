import numpy as np

ID = 'E03'
RULE = ('each case draws floor areas of rooms (small to large) and UA values; rated and largest capacity and air volume of the '
        'room air conditioner and the air tightness of the house are compared with their formulas and with relations that '
        'have to hold. Non-trivial: every floor area; distinct by floor area.')
ASSUMPTIONS = ['regression formulas of the standard for room air conditioners']
REQUIRE = {'at the largest rated capacity': 100, 'below the largest rated capacity': 100, 'eval:air tightness': 100}


def cases(tier, rng):
    return [{'seed': int(rng.integers(0, 2 ** 62))} for _ in range(400 if tier == 'quick' else 20000)]


def run(case, ctx):
    from heat_load_calc.external import rac
    from heat_load_calc.initializer import estimate_c_value as ec
    rng = np.random.default_rng(case['seed'])
    a = np.sort(np.concatenate([rng.uniform(3.0, 30.0, 20), rng.uniform(25.0, 120.0, 20)]))
    before = a.copy()
    h, c = ctx.sut('rated capacity', rac.get_q_rtd, a)
    for v in a:
        ctx.nontrivial(float(v))
    ctx.check('input is not changed', np.array_equal(a, before), 'changed')
    e = np.array([min(190.5 * x + 45.6, 5600.0) for x in a])
    ctx.count('at the largest rated capacity', int((e == 5600).sum()))
    ctx.count('below the largest rated capacity', int((e < 5600).sum()))
    ctx.close('rated cooling capacity', c, e, 1e-12, 0)
    ctx.close('rated heating capacity', h, 1.209 * e - 85.1, 1e-12, 0)
    hm, cm = ctx.sut('largest capacity', rac.get_q_max, h, c)
    ce = np.array([max(.8462 * x + 1205.9, x) for x in e])
    ctx.close('largest cooling capacity', cm, ce, 1e-12, 0)
    ctx.close('largest heating capacity', hm, [max(1.7597 * x - 413.7, y) for x, y in zip(ce, 1.209 * e - 85.1)], 1e-12, 0)
    big = rng.uniform(5000.0, 20000.0, 20)
    hm2, cm2 = ctx.sut('largest capacity', rac.get_q_max, big * 2.5, big)
    ce2 = np.array([max(.8462 * x + 1205.9, x) for x in big])
    ctx.close('largest cooling capacity', cm2, ce2, 1e-12, 0)
    ctx.close('largest heating capacity', hm2, [max(1.7597 * x - 413.7, 2.5 * y) for x, y in zip(ce2, big)], 1e-12, 0)
    ctx.check('never below the rated capacity', np.all(cm >= c) and np.all(hm >= h) and np.all(hm2 >= big * 2.5), '')
    ctx.check('larger rooms get no smaller unit', np.all(np.diff(c) >= 0) and np.all(np.diff(h) >= 0), '')
    vm = ctx.sut('air volume', rac.get_v_max, c)
    ctx.close('largest air volume', vm, 11.076 * (e / 1000.0) ** 0.3432, 1e-12, 0)
    ctx.close('least air volume', ctx.sut('air volume', rac.get_v_min, vm), 0.55 * 11.076 * (e / 1000.0) ** 0.3432, 1e-12, 0)
    ctx.close('least capacity', [rac.get_q_min_h(), rac.get_q_min_c()], [500.0, 500.0], 0, 0)
    for k in range(5):
        ctx.close('one room or many', [float(v) for v in rac.get_q_rtd(float(a[k]))], [h[k], c[k]], 1e-12, 0)
    for u in rng.uniform(0.1, 5.0, 10):
        for s in ec.Structure:
            ctx.close('air tightness', ctx.sut('air tightness', ec.estimate_c_value, float(u), s),
                      u * {'rc': 4.16, 'src': 4.16, 'wooden': 8.28, 'steel': 8.28}[s.value], 1e-12, 0, s.value)
    ctx.check('structures by their word', {s.value for s in ec.Structure} == {'rc', 'src', 'wooden', 'steel'}, '')
    ctx.raises('structure unknown', (ValueError,), ec.Structure, 'brick')
    ctx.set_sample({'floor area': float(a[0]), 'rated cooling': float(c[0]), 'largest heating': float(hm[0])})
