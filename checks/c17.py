import io
import json
import os
import shutil
import tempfile

import numpy as np
import pandas as pd

from vlib import core_cases, core_oracle, gen_core, harness

ID = 'C17'
RULE = core_cases.RULE + ('Here the detailed log, the hourly digest and both result files are compared with the inputs '
                          'and with each other. Non-trivial: every column of the log was judged.')
ASSUMPTIONS = ['columns are named as in the result files of this version', 'digest values are rounded to 2 decimals '
               '(temperatures, outdoor humidity), 4 decimals (humidity) and whole numbers (loads)']
REQUIRE = {'eval:inputs are echoed': 15000, 'eval:digest': 5000, 'eval:file equals result': 20000,
           'eval:relative humidity': 5000, 'houses in other steps': 6}
ROOM = ('ac_operate occupancy hc_hum hr_hum t_r rh_r x_r mrt ot q_sol_t q_s_except_hum q_l_except_hum q_hum_s q_hum_l '
        'l_s_c l_s_r l_l_c t_fun q_s_fun q_s_sol_fun x_fun q_l_fun v_reak v_ntrl remarks').split()
BDRY = 't_s t_e t_b hir_s qir_s hic_s qic_s qisol_s qiall_s'.split()


def cases(tier, rng):
    q = tier == 'quick'
    cs = core_cases.std_cases(rng, 120 if q else 600, days=lambda k: 1 + k % 2, run_up=lambda k: 1 if k % 5 == 4 else 0)
    cs += core_cases.grown_cases(rng, tier)
    year = core_cases.std_cases(rng, 1 if q else 4, days=365, rooms=1)
    return year + cs


def run(case, ctx):
    from heat_load_calc.core import core
    house, drive = core_cases.build(case)
    up = case['run_up']
    nsh = house.get('steps_hourly', 4)
    days = case['days'] * 4 // nsh
    kw = {} if nsh == 4 else {'n_step_hourly': nsh}
    if nsh != 4:
        ctx.count('houses in other steps')
    d = tempfile.mkdtemp(prefix='c17_')
    try:
        gen_core.write(os.path.join(d, 'in'), house, drive)
        os.mkdir(os.path.join(d, 'out'))
        ds, dd = ctx.sut('simulation', core.calc, os.path.join(d, 'in'), os.path.join(d, 'out'), True, True,
                         n_d_main=days, n_d_run_up=up, n_d_run_up_build=up, **kw)
        det = pd.read_csv(os.path.join(d, 'out', 'result_detail.csv'), encoding='cp932', index_col=0,
                          float_precision='round_trip')
        dig = pd.read_csv(os.path.join(d, 'out', 'result_digest.csv'), encoding='cp932', index_col=0,
                          float_precision='round_trip')
    finally:
        shutil.rmtree(d, ignore_errors=True)
    T = days * 24 * nsh
    ni = len(house['spaces'])
    cols = ['out_temp', 'out_abs_humid']
    for i in range(ni):
        nb = sum(b['connected_space_id'] == i for b in house['boundaries'])
        cols += [f'rm{i}_{c}' for c in ROOM] + [f'rm{i}_b{k}_{c}' for k in range(nb) for c in BDRY]
    ctx.check('log is complete', sorted(dd.columns) == sorted(cols),
              lambda: f'missing {sorted(set(cols) - set(dd.columns))[:5]}, extra {sorted(set(dd.columns) - set(cols))[:5]}')
    idx = pd.date_range('1989-01-01', periods=T, freq=f'{60 // nsh}min')
    ctx.check('log covers the period', len(dd) == T and (dd.index == idx).all(), f'{len(dd)} rows of {T}')
    idh = pd.date_range('1989-01-01', periods=days * 24, freq='H')
    ctx.check('digest covers the period', len(ds) == days * 24 and (ds.index == idh).all(), f'{len(ds)} rows')
    num = [c for c in dd.columns if not c.endswith('_remarks')]
    vals = dd[num].astype(float)
    ctx.check('log has no gaps', bool(np.isfinite(vals.values).all()),
              lambda: f'not finite: {[c for c in num if not np.isfinite(vals[c]).all()][:5]}')
    tr = gen_core.Trace(house, dd, ds)
    S = core_oracle.Sys(house, drive, T)
    ctx.count('log columns', len(cols))
    # what goes in comes out
    for name, a, b in (('outdoor temperature', tr.theta_o, S.theta_o), ('outdoor humidity', tr.x_o, S.x_o),
                       ('demand', tr.occupancy, S.dem), ('gains', tr.q_gen, S.q_gen), ('moisture', tr.x_gen, S.x_gen),
                       ('sun', tr.q_sol_t, S.q_trs)):
        ctx.close('inputs are echoed', a, b, 1e-12, 1e-15, name)
    # derived columns
    ctx.close('relative humidity', tr.rh, core_oracle.pv_from_x(tr.x_r) / core_oracle.p_vs(tr.th_r) * 100.0, 1e-9, 1e-9,
              'rh [room, step]')
    ctx.close('furniture heat flow', tr.q_frt, S.Gf[:, None] * (tr.th_r - tr.th_frt), 1e-8, 1e-8, 'q_s_fun')
    ctx.close('furniture moisture flow', tr.ql_frt, S.Gx[:, None] * (tr.x_r - tr.x_frt), 1e-8, 1e-15, 'q_l_fun')
    core_oracle.surface_heat(ctx, S, tr)
    for i in range(ni):
        for n in (0, T // 2, T - 1):
            ctx.check('remarks are readable', set(json.loads(tr.remarks[i][n])) ==
                      {'pmv_target', 'v_hum m/s', 'clo'}, tr.remarks[i][n])
    # digest
    dcols = ['out_temp', 'out_abs_humid'] + [f'rm{i}_{c}' for i in range(ni) for c in
                                             'ac_operate t_r x_r ot l_s_c l_s_r l_l_c'.split()]
    ctx.check('digest is complete', sorted(ds.columns) == sorted(dcols), lambda: str(sorted(ds.columns)))
    for c in dcols:
        x = dd[c]
        if c.endswith('ac_operate'):
            e = [gen_core.mode_name(v) for v in x.values[::nsh]]
            ctx.check('digest', [gen_core.mode_name(v) for v in ds[c].values] == e, c)
            continue
        h = x.values.astype(float).reshape(-1, nsh)
        e, p = (h.sum(axis=1), 0) if '_l_' in c else (h.mean(axis=1), 4 if c.endswith('_x_r') else 2)
        ctx.close('digest', ds[c].values.astype(float), e, 1e-12, 0.5001 * 10.0 ** -p, c)
        g = ds[c].values.astype(float) * 10.0 ** p
        ctx.close('digest is rounded', g, np.round(g), 1e-9, 1e-6, c)
    # files
    for name, f, r in (('detail', det, dd), ('digest', dig, ds)):
        if not ctx.check('file equals result', list(f.columns) == list(r.columns) and len(f) == len(r),
                         f'{name} file: shape'):
            continue
        ctx.check('file equals result', [str(t) for t in pd.to_datetime(f.index)] == [str(t) for t in r.index],
                  f'{name} file: index')
        for c in r.columns:
            if c.endswith('_remarks'):
                ctx.check('file equals result', list(f[c]) == list(r[c]), f'{name} file: {c}')
            elif c.endswith('ac_operate'):
                ctx.check('file equals result', [_m(v) for v in f[c]] == [_m(v) for v in r[c]], f'{name} file: {c}')
            else:
                ctx.close('file equals result', f[c].values, r[c].values, 1e-12, 1e-15, f'{name} file: {c}')
    ctx.nontrivial(core_cases.signature(house, tr))
    ctx.set_sample({'rooms': ni, 'columns': len(cols), 'steps': T, 'hours': len(ds)})


def _m(v):
    """a mode as number or name"""
    s = str(v).split('.')[-1]
    return gen_core.MODES.get(int(s), s) if s.isdigit() else (gen_core.mode_name(v) if not isinstance(v, str) else s)
