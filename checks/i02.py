import copy
import hashlib
import json
import os
import shutil
import subprocess
import sys
import tempfile

import numpy as np

from vlib import gen_init, harness

ID = 'I02'
RULE = ('each case initializes a random house repeatedly: after a house with the same names and other values, after another house, from another working directory, in a fresh process; '
        'the written files are compared byte by byte, the directories before and after. Non-trivial: all files of the '
        'repeated runs were compared; distinct by house.')
ASSUMPTIONS = ['files are looked for in the input directory, the output directory and the working directory']
REQUIRE = {'eval:same files again': 40, 'eval:inputs untouched': 8, 'eval:one value per step': 40, 'relatives with other files': 6}
FILES = ['mid_data_house.json'] + [f'mid_data_{k}.csv' for k in gen_init.MID]


CHILD = '''
import json, sys, warnings
warnings.simplefilter('ignore')
sys.path.insert(0, sys.argv[1])
from heat_load_calc.initializer import initializer
with open(sys.argv[2]) as f:
    d = json.load(f)
initializer.make_house(d, sys.argv[3], sys.argv[4])
'''


def relative(d, w, rng, kind):
    """a house with the same names, numbers, places and words but other values, under the same or other weather"""
    d, w = copy.deepcopy(d), dict(w)
    p = float(rng.choice([0.3, 1.0]))

    def f(lo=0.9, hi=1.1):
        return float(rng.uniform(lo, hi)) if rng.random() < p else 1.0

    if kind in ('rooms', 'all'):
        d['building']['c_value'] *= f()
        for r in d['rooms']:
            r['floor_area'] *= f(0.95, 1.05)
            for k in ('volume', 'vent', 'natural_vent_time'):
                r[k] *= f()
    if kind in ('boundaries', 'all'):
        for b in d['boundaries']:
            for k in ('area', 'h_c', 'inside_heat_transfer_resistance', 'outside_heat_transfer_resistance',
                      'eta_value', 'u_value', 'outside_emissivity', 'outside_solar_absorption'):
                if k in b:
                    b[k] *= f(0.8, 0.99)
            for k in ('depth', 'd_h', 'd_e'):
                if k in b['solar_shading_part']:
                    b['solar_shading_part'][k] *= f(0.5, 1.5)
            for la in b.get('layers', []):
                la['thermal_resistance'] *= f(1.0, 1.5)
                la['thermal_capacity'] *= f(0.5, 1.5)
    if kind in ('directions', 'all'):
        for b in d['boundaries']:
            if b.get('is_sun_striked_outside') and rng.random() < p:
                b['direction'] = str(rng.choice(gen_init.DIRS))
            if 'incident_angle_characteristics' in b and rng.random() < p:
                b['incident_angle_characteristics'] = str(rng.choice(['single', 'multiple']))
    if kind in ('weather', 'all'):
        for k in w:
            if rng.random() < p:
                w[k] = w[k] * rng.uniform(0.8, 0.95)
    return d, w


KINDS = ('rooms', 'boundaries', 'directions', 'weather', 'all')


def cases(tier, rng):
    return [{'seed': int(rng.integers(0, 2 ** 62)), 'kind': KINDS[k % len(KINDS)]}
            for k in range(20 if tier == 'quick' else 100)]


def snap(d):
    out = {}
    for b, _, fs in os.walk(d):
        for f in fs:
            with open(os.path.join(b, f), 'rb') as h:
                out[os.path.relpath(os.path.join(b, f), d)] = hashlib.sha256(h.read()).hexdigest()
    return out


def run(case, ctx):
    from heat_load_calc.initializer import initializer
    rng = np.random.default_rng(case['seed'])
    d, w = gen_init.random_input(rng), gen_init.rand_weather(rng)
    d2, w2 = gen_init.random_input(rng), gen_init.rand_weather(rng)
    root = tempfile.mkdtemp(prefix='i02_')
    cwd = os.getcwd()
    try:
        for k in ('a', 'b', 'r', 'o0', 'o1', 'o2', 'o3', 'o4', 'o5', 'work'):
            os.mkdir(os.path.join(root, k))
        p = lambda k: os.path.join(root, k)
        gen_init.write_weather(p('a'), w)
        gen_init.write_weather(p('b'), w2)
        os.chdir(p('work'))
        # first a relative of the house that differs in few values
        d3, w3 = relative(d, w, rng, case['kind'])
        gen_init.write_weather(p('r'), w3)
        ctx.sut('initializer', initializer.make_house, d3, p('r'), p('o0'))
        with open(p('work') + '/d.json', 'w') as h:
            json.dump(d, h)
        before = snap(root)
        arg = copy.deepcopy(d)
        ctx.sut('initializer', initializer.make_house, arg, p('a'), p('o1'))
        ctx.check('input is not changed', arg == d, 'the description of the house was changed')
        after = snap(root)
        ctx.check('exactly the files of the house', {k for k in after if k not in before} == {
            os.path.join('o1', f) for f in FILES}, lambda: str(sorted(set(after) - set(before))))
        ctx.check('inputs untouched', all(after.get(k) == v for k, v in before.items()), 'weather changed')
        ctx.sut('initializer', initializer.make_house, copy.deepcopy(d2), p('b'), p('o2'))
        ctx.sut('initializer', initializer.make_house, arg, p('a'), p('o3'))
        os.chdir(root)
        ctx.sut('initializer', initializer.make_house, copy.deepcopy(d), 'a', 'o4')
        # over the files of another house
        ctx.sut('initializer', initializer.make_house, copy.deepcopy(d), p('a'), p('o2'))
        # in a fresh process
        q = subprocess.run([sys.executable, '-B', '-c', CHILD, harness.REPO, p('work') + '/d.json', p('a'), p('o5')],
                           capture_output=True, text=True, cwd=p('work'),
                           env=dict(os.environ, PYTHONHASHSEED=str(case['seed'] % 1000)))
        if q.returncode:
            ctx.violation('fresh process', q.stderr[-500:])
            return
        s = snap(root)
        ctx.count('relatives with other files', int(any(s.get(os.path.join('o0', f)) != s[os.path.join('o1', f)]
                                                        for f in FILES)))
        for f in FILES:
            for o in ('o3', 'o4', 'o2', 'o5'):
                ctx.check('same files again', s.get(os.path.join(o, f)) == s[os.path.join('o1', f)],
                          f'{f} differs in the repetition {o} (other {case["kind"]} before)')
        ctx.check('inputs untouched', all(s.get(k) == v for k, v in before.items()), 'weather changed')
        m = gen_init.Mid(p('o1'))
        n, nb = len(d['rooms']), len(d['boundaries'])
        for k in gen_init.MID:
            a = getattr(m, k)
            ctx.check('one value per step', a.shape == (gen_init.N, nb if k == 'theta_o_sol' else n),
                      lambda: f'{k}: {a.shape} for {n} rooms, {nb} boundaries')
            ctx.check('no gaps', bool(np.isfinite(a).all()), k)
            if k != 'theta_o_sol':
                ctx.check('nothing negative', bool((a >= -1e-9).all()), lambda: f'{k}: {a.min()}')
        ctx.nontrivial((n, nb, case['seed']))
        ctx.set_sample({'rooms': n, 'boundaries': nb, 'files': FILES})
    finally:
        os.chdir(cwd)
        shutil.rmtree(root, ignore_errors=True)
