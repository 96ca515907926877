import csv
import os
import shutil
import tempfile

import numpy as np
import pandas as pd

from vlib import harness

ID = 'W01'
RULE = ('each case is one climate region with all three time steps: the table made by the real code (and the file it '
        'writes) is compared at every step with the hourly record of the region read independently. Non-trivial: '
        'region and time step; all 24 combinations are covered. Further cases ask for regions and steps that do not '
        'exist.')
ASSUMPTIONS = ['the record gives the hours 1 to 24 of each day, so that the last hour of the year precedes the first '
               'one (documented)']
REQUIRE = {'eval:linear between the hours': 1500000, 'tables': 20, 'refused:region or step that does not exist': 6}
COL = ['temperature', 'normal direct solar radiation', 'horizontal sky solar radiation', 'outward radiation',
       'absolute humidity']


def cases(tier, rng):
    return [{'region': r, 'seed': int(rng.integers(0, 2 ** 62))} for r in range(1, 9)] + [{'region': 0, 'seed': 0}]


def record(region):
    d = os.path.join(harness.REPO, 'heat_load_calc', 'weather', 'expanded_amedas')
    name, = [f for f in sorted(os.listdir(d)) if f.startswith(f'{region:02d}_')]
    rows = []
    with open(os.path.join(d, name), encoding='utf-8') as f:
        for k, r in enumerate(csv.reader(f)):
            if k >= 2 and r:
                rows.append([float(v) for v in r[2:7]])
    return np.array(rows)


def run(case, ctx):
    from heat_load_calc.weather import weather
    if case['region'] == 0:
        for region, iv in ((0, '15m'), (9, '15m'), (-1, '1h'), (3, '10m'), (3, ''), (3, '2h'), ('tokyo', '1h')):
            ctx.raises('region or step that does not exist', (KeyError, ValueError, TypeError), weather.make_weather,
                       region=region, interval=iv)
        return
    r = case['region']
    rec = record(r)
    ctx.check('record has 8760 hours', rec.shape == (8760, 5), str(rec.shape))
    root = tempfile.mkdtemp(prefix='w01_')
    cwd = os.getcwd()
    try:
        os.chdir(root)
        os.mkdir('out')
        tabs = {}
        for iv, m in (('1h', 1), ('30m', 2), ('15m', 4)):
            t = ctx.sut('make_weather', weather.make_weather, region=r, interval=iv)
            ctx.count('tables')
            ctx.nontrivial((r, iv))
            tabs[iv] = t
            ctx.check('nothing written unasked', os.listdir('.') == ['out'] and not os.listdir('out'), 'files')
            if not ctx.check('length of the year', len(t) == 8760 * m, lambda: str(len(t))):
                continue
            idx = pd.date_range('1989-01-01', periods=8760 * m, freq=f'{60 // m}min')
            ctx.check('time stamps', bool((t.index == idx).all()), lambda: str(t.index[:3]))
            k = np.arange(8760 * m)
            hour, part = k // m, (k % m) / m
            a = rec[(hour - 1) % 8760]
            b = rec[hour]
            e = a * (1 - part)[:, None] + b * part[:, None]
            for c, name in enumerate(COL):
                tol = {'temperature': 5.001e-4, 'absolute humidity': 5.001e-7}.get(name, 1e-9)
                scale = 1e-3 if name == 'absolute humidity' else 1.0
                ctx.close('linear between the hours', t[name].values, e[:, c] * scale, 0.0, tol + 1e-12,
                          f'region {r} {iv} {name}')
            ctx.check('columns', list(t.columns) == ['temperature', 'absolute humidity', 'normal direct solar radiation',
                                                     'horizontal sky solar radiation', 'outward radiation',
                                                     'sun altitude', 'sun azimuth'], lambda: str(list(t.columns)))
            ctx.check('no gaps', not bool(t.isna().values.any()), lambda: str(t.isna().sum().to_dict()))
        for iv, m in (('30m', 2), ('15m', 4)):
            ctx.close('full hours agree between time steps', tabs[iv].values[::m], tabs['1h'].values, 0, 1e-12, iv)
        # default step, written file
        t = ctx.sut('make_weather', weather.make_weather, r, os.path.join(root, 'out'), True)
        ctx.check('files written', os.listdir('.') == ['out'] and os.listdir('out') == ['weather.csv'],
                  lambda: str((os.listdir('.'), os.listdir('out'))))
        ctx.check('quarters of an hour unless said otherwise', t.equals(tabs['15m']), 'default interval')
        f = pd.read_csv(os.path.join(root, 'out', 'weather.csv'), index_col=0, parse_dates=True)
        ctx.check('file columns', list(f.columns) == list(t.columns), lambda: str(list(f.columns)))
        ctx.close('file holds the table', f.values, t.values, 1e-12, 1e-12, 'weather.csv')
        ctx.check('file time stamps', bool((f.index == t.index).all()), 'index')
        ctx.set_sample({'region': r, 'rows': {iv: len(v) for iv, v in tabs.items()},
                        'mean temperature': float(tabs['1h']['temperature'].mean())})
    finally:
        os.chdir(cwd)
        shutil.rmtree(root, ignore_errors=True)
