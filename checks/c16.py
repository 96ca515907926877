import numpy as np

from vlib import core_cases, core_oracle, gen_core

ID = 'C16'
RULE = core_cases.RULE + ('Here related runs are compared: with another future, with a longer period, with a run-up '
                          'against one long run without, and with a run-up of the ground alone against its own '
                          'recursion. Non-trivial: the related runs were compared step by step.')
ASSUMPTIONS = ['the mean outdoor temperature of the weather file is the deep ground temperature, so related runs keep '
               'this mean']
REQUIRE = {'eval:the past does not depend on the future': 20000, 'eval:a longer run begins like a shorter one': 20000,
           'eval:a run-up is a run without a log': 40000, 'walls with a run-up of the ground alone': 8,
           'refused:inconsistent periods': 5, 'run-ups of half a year': 1,
           'longer run-ups': 1}
GET = ('th_r', 'x_r', 'mrt', 'ot', 't_s', 't_e', 'q_all', 'l_cs', 'l_rs', 'l_l', 'th_frt', 'x_frt', 'v_leak', 'v_ntrl',
       'q_hum', 'x_hum')


def cases(tier, rng):
    q = tier == 'quick'
    cs = []
    for kind, n in (('future', 16), ('longer', 8), ('runup', 16), ('partial', 8), ('ground', 12), ('refuse', 5)):
        opt = {'ground': 1.0} if kind == 'ground' else ({'ground': 0.0} if kind == 'partial' else {})
        cs += core_cases.std_cases(rng, n if q or kind == 'refuse' else 8 * n, days=2 if kind == 'longer' else 1,
                                   kind=kind, opt=opt, intervent=lambda k: k % 5 == 4)
    for kind in ('future', 'runup'):
        cs += core_cases.std_cases(rng, 2 if q else 8, days=1, kind=kind, rooms=lambda k: 6 + 5 * (k % 2), opt={})
    year = core_cases.std_cases(rng, 2 if q else 8, days=365, kind='year', rooms=lambda k: 1 + k // 2 % 2,
                                opt={'ground': 0.0}, intervent=lambda k: k % 4 == 3)
    for k, c in enumerate(year):
        c['long'] = k % 2
    return year + cs


def compare(ctx, name, a, b, sa, sb, tol=1e-8):
    if not ctx.check(name, bool((a.mode[:, sa] == b.mode[:, sb]).all()), 'modes differ'):
        return
    for g in GET:
        x, y = getattr(a, g)[:, sa], getattr(b, g)[:, sb]
        ctx.close(name, x, y, tol, tol, g)


def run(case, ctx):
    house, drive = core_cases.build(case)
    kind, days = case['kind'], case['days']
    if case.get('long'):
        # furniture that remembers for more than a year, so that the length of the run-up shows
        house['spaces'][0]['furniture'].update(heat_capacity=2e8, heat_cond=5.0)
    rng = np.random.default_rng([case['seed'], 7])
    T = days * 96
    ctx.set_sample({'kind': kind, 'rooms': len(house['spaces']), 'boundaries': len(house['boundaries'])})
    if kind == 'refuse':
        a = int(rng.integers(0, 4))
        b = a + 1 + int(rng.integers(0, 4))
        ctx.raises('inconsistent periods', (ValueError,), lambda: gen_core.simulate(_Direct(), house, drive, 1, a, b,
                                                                                   raw=True))
        return
    if kind == 'future':
        t0 = gen_core.simulate(ctx, house, drive, days)
        k = int(rng.integers(8, T - 8))
        d2 = {n: np.array(v, copy=True) for n, v in drive.items()}
        perm = k + rng.permutation(T - k)
        alt = gen_core.random_drive(rng, house, T, case['opt'])
        for n in d2:
            if n == 'theta_o':
                d2[n][k:] = d2[n][perm]       # keeps the mean, which is the deep ground temperature
            elif n != 'theta_o_sol':
                d2[n][k:] = alt[n][k:]
            else:
                d2[n][k:] = d2[n][perm]
        t1 = gen_core.simulate(ctx, house, d2, days)
        compare(ctx, 'the past does not depend on the future', t0, t1, slice(0, k), slice(0, k))
        if np.abs(t0.th_r[:, k:] - t1.th_r[:, k:]).max() > 1e-6:
            ctx.nontrivial(core_cases.signature(house, t0))
        return
    if kind == 'longer':
        t0 = gen_core.simulate(ctx, house, drive, 1)
        t1 = gen_core.simulate(ctx, house, drive, 2)
        ctx.check('a longer run begins like a shorter one', t0.T == 96 and t1.T == 192, 'number of steps')
        compare(ctx, 'a longer run begins like a shorter one', t0, t1, slice(0, 96), slice(0, 96))
    elif kind == 'runup':
        # the run-up takes the tail of the inputs; the same steps in front of a run without run-up give the same
        t0 = gen_core.simulate(ctx, house, drive, days, days, days)
        t1 = gen_core.simulate(ctx, house, gen_core.tile_drive(drive, 2), 2 * days)
        compare(ctx, 'a run-up is a run without a log', t0, t1, slice(0, T), slice(T, 2 * T))
    elif kind == 'partial':
        d = gen_core.tile_drive(drive, 1)
        d3 = {n: np.concatenate([v, gen_core.random_drive(rng, house, 192, case['opt'])[n]]) for n, v in d.items()}
        t0 = gen_core.simulate(ctx, house, d3, 1, 2, 1)
        d4 = {n: np.concatenate([v[-96:], v[:96]]) for n, v in d3.items()}
        t1 = gen_core.simulate(ctx, house, d4, 2)
        compare(ctx, 'a run-up is a run without a log', t0, t1, slice(0, 96), slice(96, 192))
    elif kind == 'year':
        # the usual run-up of half a year before the first of January is the second half of the same year; it may
        # as well last most of a year
        n = 183 if case['long'] == 0 else int(rng.integers(200, 363))
        t0 = gen_core.simulate(ctx, house, drive, 2, 365, n)
        t1 = gen_core.simulate(ctx, house, {k: np.concatenate([v[-n * 96:], v[:-n * 96]]) for k, v in
                                            drive.items()}, n + 2)
        compare(ctx, 'a run-up is a run without a log', t0, t1, slice(0, 192), slice(n * 96, (n + 2) * 96))
        ctx.count('run-ups of half a year' if n == 183 else 'longer run-ups')
    elif kind == 'ground':
        t0 = core_oracle.ground_run(ctx, house, drive, rng, days, case['opt'])
        t1 = t0
    ctx.nontrivial((kind, core_cases.signature(house, t1)))


class _Direct:
    """lets exceptions of the code under test through"""

    def sut(self, name, fn, *a, **k):
        return fn(*a, **k)

    def count(self, *a):
        pass
