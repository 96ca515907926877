import contextlib
import copy
import hashlib
import io
import os
import shutil
import subprocess
import sys
import tempfile
import threading
from concurrent.futures import ThreadPoolExecutor

import numpy as np
import pandas as pd

from vlib import core_cases, gen_core, harness

ID = 'C15'
RULE = core_cases.RULE + ('Here each input is simulated again after other houses, also after houses with the same names and other values, in another directory, with result '
                          'files on request and in a fresh process with another hash seed. Non-trivial: the repeated '
                          'runs were compared value by value.')
ASSUMPTIONS = ['files are looked for in the input directory, the output directory and the working directory',
               "in threads, numpy's linear algebra is called in turns (the LAPACK within numpy may not be safe for threads)"]
REQUIRE = {'eval:repeated run': 40000, 'eval:fresh process': 40000, 'relatives with other results': 5, 'eval:in threads': 10000, 'eval:files written': 40,
           'folders with files of earlier runs': 40, 'eval:a result file is the same whatever was there before': 60}

CHILD = '''
import sys, warnings, hashlib, io, contextlib
warnings.simplefilter('ignore')
sys.path.insert(0, sys.argv[2])
from heat_load_calc.core import core
with contextlib.redirect_stdout(io.StringIO()):
    ds, dd = core.calc(sys.argv[1], n_d_main=int(sys.argv[4]), n_d_run_up=0, n_d_run_up_build=0)
for c in dd.columns:
    if dd[c].dtype == object:
        dd[c] = [str(v) for v in dd[c].values]
dd.to_pickle(sys.argv[3])
'''


def relative(house, drive, rng, kind):
    """a house with the same names, numbers and places but other values: what was kept for one must not be used
    for the other"""
    h, d = copy.deepcopy(house), {k: v.copy() for k, v in drive.items()}
    p = float(rng.choice([0.3, 1.0]))
    # by much or by next to nothing
    much = 1.0 if rng.random() < 0.6 else float(10.0 ** rng.uniform(-3.0, -0.5))

    def f(lo=0.9, hi=1.1):
        return 1.0 + much * float(rng.uniform(lo, hi) - 1.0) if rng.random() < p else 1.0

    if kind in ('constructions', 'all'):
        for b in h['boundaries']:
            sp = b['spec']
            for la in sp.get('layers', []):
                la['thermal_resistance'] *= f(1.05, 2.0)
                la['thermal_capacity'] *= f(0.5, 1.5)
            if 'u_value' in sp:
                sp['u_value'] *= f(0.6, 0.98)
            if 'outside_heat_transfer_resistance' in sp:
                sp['outside_heat_transfer_resistance'] *= f(0.8, 1.5)
    if kind in ('surfaces', 'all'):
        for b in h['boundaries']:
            b['area'] *= f(0.98, 1.02)
            b['h_c'] *= f(0.8, 0.99)
    if kind in ('rooms', 'all'):
        h['building']['c_value'] = h['building']['c_value'] * f(0.5, 2.0)
        for s in h['spaces']:
            s['volume'] *= f()
            for k in s['furniture']:
                s['furniture'][k] *= f(0.7, 1.4)
            s['ventilation']['mechanical'] *= f(0.5, 1.5)
            s['ventilation']['natural'] *= f(0.5, 1.5)
    if kind in ('weather and use', 'all'):
        for k, v in d.items():
            if v.dtype.kind == 'f' and rng.random() < p:
                d[k] = v * (rng.uniform(0.5, 1.0) if k != 'theta_o' else 0.9)
    return h, d


KINDS = ('constructions', 'surfaces', 'rooms', 'weather and use', 'all')


def cases(tier, rng):
    q = tier == 'quick'
    cs = core_cases.std_cases(rng, 16 if q else 100, days=1, intervent=lambda k: k % 4 == 3)
    cs += core_cases.std_cases(rng, 3 if q else 12, days=1, rooms=lambda k: 6 + 3 * k)
    for k, c in enumerate(cs):
        c['threads'] = k % 4 == 0
        c['kind'] = KINDS[k % len(KINDS)]
    return cs


class OneAtATime:
    """numpy's linear algebra, one call at a time

    A numpy built without a BLAS library (lapack_lite, as the one of this sandbox) keeps static work variables in its
    LAPACK: calls from two threads at once give wrong numbers in that library, whatever the code under test does.
    """

    def __init__(self, module):
        self._module = module
        self._lock = threading.RLock()

    def __getattr__(self, name):
        f = getattr(self._module, name)
        if not callable(f):
            return f

        def call(*args, **kwargs):
            with self._lock:
                return f(*args, **kwargs)
        return call


@contextlib.contextmanager
def linear_algebra_in_turns():
    from numpy.linalg import linalg
    kept = linalg._umath_linalg
    linalg._umath_linalg = OneAtATime(kept)
    try:
        yield
    finally:
        linalg._umath_linalg = kept


def listing(*dirs):
    out = {}
    for d in dirs:
        for b, _, fs in os.walk(d):
            for f in fs:
                p = os.path.join(b, f)
                with open(p, 'rb') as h:
                    out[p] = hashlib.sha256(h.read()).hexdigest()
    return out


def same(ctx, name, a, b, where):
    if not ctx.check(name, list(a.columns) == list(b.columns) and len(a) == len(b), f'{where}: shape of the result'):
        return
    for c in a.columns:
        x, y = a[c].values, b[c].values
        if a[c].dtype == object or b[c].dtype == object:
            ctx.check(name, [str(v) for v in x] == [str(v) for v in y], f'{where}: column {c}')
        else:
            ctx.count('eval:' + name, len(x))
            if not np.array_equal(x, y, equal_nan=True):
                ctx.violation(name, f'{where}: column {c} differs')
                return


def run(case, ctx):
    from heat_load_calc.core import core
    house, drive = core_cases.build(case)
    other = dict(case, seed=case['seed'] ^ 0x5555)
    h2, d2 = core_cases.build(other)
    root = tempfile.mkdtemp(prefix='c15_')
    cwd = os.getcwd()
    try:
        a, b, out, work, res = (os.path.join(root, x) for x in ('a', 'b', 'out', 'work', 'res'))
        for d in (out, work, res):
            os.mkdir(d)
        gen_core.write(a, house, drive)
        gen_core.write(b, h2, d2)
        os.chdir(work)
        before = listing(root)
        days = case['days']
        kw = dict(n_d_main=days, n_d_run_up=0, n_d_run_up_build=0)
        # first relatives of the house that differ in few values
        rel = os.path.join(root, 'rel')
        rng = np.random.default_rng(case['seed'] ^ 0x77)
        h3, d3 = relative(house, drive, rng, case['kind'])
        gen_core.write(rel, h3, d3)
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                _, r0 = core.calc(rel, **kw)
        except Exception as e:
            r0 = None
            ctx.count('relatives refused')
        shutil.rmtree(rel)
        _, r1 = ctx.sut('simulation', core.calc, a, **kw)
        if r0 is not None:
            num = [c for c in r1.columns if r1[c].dtype.kind == 'f']
            ctx.count('relatives with other results', int(any(not np.array_equal(r0[c].values, r1[c].values)
                                                               for c in num)))
        # the same house in a fresh process
        env = dict(os.environ, PYTHONHASHSEED=str(case['seed'] % 1000))
        pk = os.path.join(root, 'fresh.pkl')
        p = subprocess.run([sys.executable, '-B', '-c', CHILD, a, harness.REPO, pk, str(days)], env=env,
                           capture_output=True, text=True, cwd=work)
        if p.returncode:
            ctx.violation('fresh process', p.stderr[-500:])
            return
        same(ctx, 'fresh process', r1, pd.read_pickle(pk), f'after a house with other {case["kind"]}')
        os.remove(pk)
        _, rb = ctx.sut('simulation', core.calc, b, **kw)
        s2, r2 = ctx.sut('simulation', core.calc, a, **kw)
        same(ctx, 'repeated run', r1, r2, 'after another house')
        ctx.sut('simulation', core.calc, a, out, False, False, **kw)
        after = listing(root)
        ctx.check('inputs untouched and nothing written unasked', before == after,
                  lambda: f'changed or new: {sorted(k for k in after if before.get(k) != after[k])}, '
                          f'gone: {sorted(set(before) - set(after))}')
        for simple, detail in ((True, False), (False, True), (True, True)):
            s3, r3 = ctx.sut('simulation', core.calc, a, out, simple, detail, **kw)
            same(ctx, 'repeated run', r1, r3, 'with result files')
            same(ctx, 'repeated run', s2, s3, 'digest with result files')
            exp = set()
            if simple:
                exp.add(os.path.join(out, 'result_digest.csv'))
            if detail:
                exp.add(os.path.join(out, 'result_detail.csv'))
            now = listing(root)
            ctx.check('files written', {k for k in now if k not in before} == exp and
                      all(now.get(k) == v for k, v in before.items()),
                      lambda: f'asked for digest {simple} detail {detail}, got {sorted(set(now) - set(before))}')
            for p in exp:
                os.remove(p)
        # the folder holds files of earlier runs: what is asked for is replaced, the rest stays
        text = {}
        for left in (('result_digest.csv',), ('result_detail.csv',), ('result_digest.csv', 'result_detail.csv'), ()):
            for simple, detail in ((False, False), (True, False), (False, True), (True, True)):
                if left and rng.random() < 0.5 or not left and not (simple and detail):
                    continue
                old = {os.path.join(out, f): f'earlier {f}\n' for f in left + ('notes.txt', 'result.json')}
                for f, v in old.items():
                    with open(f, 'w') as h:
                        h.write(v)
                # also to a folder named relatively, and by a path with a slash at its end
                name = [out, os.path.relpath(out), out + '/'][int(rng.integers(0, 3))]
                ctx.sut('simulation', core.calc, a, name, simple, detail, **kw)
                ctx.count('folders with files of earlier runs', len(left))
                want = {os.path.join(out, f'result_{k}.csv') for k, on in (('digest', simple), ('detail', detail)) if on}
                now = {f: open(f, 'rb').read() for f in (os.path.join(out, g) for g in sorted(os.listdir(out)))}
                ctx.check('files of earlier runs', set(now) == want | set(old) and
                          all(now[f] == v.encode() for f, v in old.items() if f not in want),
                          lambda: f'asked for digest {simple} detail {detail} beside {left}: {sorted(now)}, changed '
                                  f'{sorted(f for f, v in old.items() if f not in want and now.get(f) != v.encode())}')
                for f in want & set(now):
                    ctx.check('a result file is the same whatever was there before', text.setdefault(f, now[f]) == now[f],
                              lambda: f'{f} beside {left}')
                for f in now:
                    os.remove(f)
        # relative directory, result of the same input
        os.chdir(root)
        _, r4 = ctx.sut('simulation', core.calc, 'a', **kw)
        same(ctx, 'repeated run', r1, r4, 'named relatively')
        if case['threads']:
            # two houses interleaved at a fine grain in two threads of one process
            iv = sys.getswitchinterval()
            sys.setswitchinterval(1e-5)
            try:
                def both():
                    with ThreadPoolExecutor(2) as ex:
                        fs = [ex.submit(core.calc, d, **kw) for d in (a, b, a)]
                        return [f.result()[1] for f in fs]
                with linear_algebra_in_turns():
                    rt = ctx.sut('simulation in threads', both)
            finally:
                sys.setswitchinterval(iv)
            same(ctx, 'in threads', r1, rt[0], 'beside another house')
            same(ctx, 'in threads', rb, rt[1], 'the other house')
            same(ctx, 'in threads', r1, rt[2], 'beside itself')
        ctx.nontrivial((case['seed'], len(r1.columns)))
        ctx.set_sample({'columns': len(r1.columns), 'steps': len(r1), 'files before': len(before)})
    finally:
        os.chdir(cwd)
        shutil.rmtree(root, ignore_errors=True)
