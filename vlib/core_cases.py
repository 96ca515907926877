"""Workloads shared by the checks of the simulation."""
import numpy as np

from vlib import core_oracle as oracle
from vlib import gen_core

RULE = ('each case is one random house (1-4 rooms; outside walls, windows, partitions to spaces that are not '
        'simulated, walls shared by two rooms, ground floors; boundaries in shuffled or grouped order; air '
        'conditioning by air and by radiation) driven by random weather, gains, occupants, ventilation, sun and '
        'conditioning demand and simulated by the real program; the reported log is checked offline at every step. ')


def std_cases(rng, n, days=1, **kw):
    out = []
    for k in range(n):
        c = {'seed': int(rng.integers(0, 2 ** 62)), 'days': days(k) if callable(days) else days, 'rooms': None, 'opt': {}, 'intervent': False,
             'run_up': 0}
        for key, val in kw.items():
            c[key] = val(k) if callable(val) else val
        out.append(c)
    return out


def grown_cases(rng, tier, **kw):
    """longer periods and larger houses"""
    q = tier == 'quick'
    cs = std_cases(rng, 8 if q else 32, days=lambda k: 4 + k % 4 if q else 6 + k % 8, **kw)
    cs += std_cases(rng, 8 if q else 32, days=1, rooms=lambda k: 5 + k % 4, **kw)
    cs += std_cases(rng, 2 if q else 12, days=1, rooms=lambda k: 10 + (k * 3) % 5, **kw)
    # a month and more of hourly steps
    for k, c in enumerate(std_cases(rng, 1 if q else 4, days=120 if q else lambda k: 160 + 400 * (k % 4),
                                    rooms=lambda k: 1 + k % 2, **kw)):
        c.update(opt=dict(c['opt'], steps_hourly=1))
        cs.append(c)
    # other calculation intervals than a quarter of an hour
    for k, c in enumerate(std_cases(rng, 18 if q else 72, **kw)):
        n = [1, 2, 3, 6, 12, 2][k % 6]
        c.update(days=1 if n < 3 else 3, opt=dict(c['opt'], steps_hourly=n))
        cs.append(c)
    return cs


def build(case):
    rng = np.random.default_rng(case['seed'])
    return gen_core.random_house(rng, n_rooms=case.get('rooms'), days=case['days'],
                                 intervent=case.get('intervent', False), opt=case.get('opt') or {})


def observe(ctx, case):
    """simulate a case, return house, system constants, trace, number of leading steps without known state"""
    house, drive = build(case)
    up = int(case.get('run_up', 0))
    nsh = house.get('steps_hourly', 4)
    if nsh == 4:
        tr = gen_core.simulate(ctx, house, drive, case['days'], run_up=up, run_up_build=up)
    else:
        ctx.count(f'houses in steps of {60 // nsh} minutes')
        tr = gen_core.simulate(ctx, house, drive, case['days'] * 4 // nsh, run_up=up, run_up_build=up,
                               n_step_hourly=nsh)
    S = oracle.Sys(house, drive, tr.T)
    ctx.count('houses')
    ctx.count(f'houses with {S.ni} rooms')
    ctx.set_sample({'rooms': S.ni, 'boundaries': S.nj, 'kinds': sorted({b['kind'] for b in house['boundaries']}),
                    'steps': tr.T, 'modes seen': sorted(set(tr.mode.flatten().tolist())),
                    'outdoor': [round(float(S.theta_o.min()), 2), round(float(S.theta_o.max()), 2)],
                    'case': {k: v for k, v in case.items()}})
    return house, drive, S, tr, (1 if up else 0)


def signature(house, tr):
    return (tr.ni, tr.nj, round(float(np.nansum(tr.th_r)), 6), round(float(np.nansum(tr.l_cs)), 3))
