"""Common machinery of the checks: case execution in worker processes, verdicts, evidence.

A check module (checks/<id>.py) provides
    ID, RULE, ASSUMPTIONS
    cases(tier, rng) -> list of case dictionaries (JSON, each replayable on its own)
    run(case, ctx)   -> observes one execution of the real code through ctx
    REQUIRE          -> {counter name: least total} what must have been observed (else inconclusive)
"""
import contextlib
import importlib
import io
import json
import os
import sys
import tempfile
import time
import traceback
import warnings
import zlib
from collections import Counter
from concurrent.futures import ProcessPoolExecutor, as_completed

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')


class SutError(Exception):
    """The code under test raised on an input it has to accept."""


class Ctx:

    def __init__(self):
        self.violations = []
        self.known = {}
        self.counts = Counter()
        self.sigs = []
        self.sample = None

    # -- bookkeeping -------------------------------------------------
    def count(self, name, n=1):
        self.counts[name] += int(n)

    def nontrivial(self, sig):
        """the case (or a part of it) exercised the property; sig identifies it for distinctness"""
        self.sigs.append(zlib.crc32(repr(sig).encode()))

    def set_sample(self, obj):
        if self.sample is None:
            self.sample = obj

    # -- verdicts ----------------------------------------------------
    def violation(self, name, detail):
        if len(self.violations) < 20:
            self.violations.append({'rule': name, 'detail': str(detail)[:2000]})
        self.counts['violations:' + name] += 1

    def known_finding(self, key, detail):
        self.known.setdefault(key, [0, str(detail)[:500]])
        self.known[key][0] += 1

    def check(self, name, cond, detail=''):
        self.counts['eval:' + name] += 1
        if not cond:
            self.violation(name, detail() if callable(detail) else detail)
            return False
        return True

    def close(self, name, a, b, rtol=1e-6, atol=1e-9, where=''):
        """all elements of a and b agree; NaN never agrees with anything"""
        import numpy as np
        a = np.asarray(a, dtype=float)
        b = np.asarray(b, dtype=float)
        try:
            a, b = np.broadcast_arrays(a, b)
        except ValueError:
            self.violation(name, f'{where}: shapes differ {a.shape} {b.shape}')
            return False
        self.counts['eval:' + name] += int(a.size)
        if a.size == 0:
            return True
        with np.errstate(all='ignore'):
            ok = np.abs(a - b) <= atol + rtol * np.maximum(np.abs(a), np.abs(b))
        ok = np.where(np.isinf(a) & np.isinf(b) & (a == b), True, ok)
        if ok.all():
            return True
        idx = tuple(int(i) for i in np.argwhere(~ok)[0])
        self.violation(name, f'{where}: {int((~ok).sum())} of {ok.size} differ, first at {idx}: '
                             f'observed {a[idx]!r}, expected {b[idx]!r}')
        return False

    def sut(self, name, fn, *args, **kw):
        """call the code under test; an exception is a violation"""
        try:
            with quiet():
                return fn(*args, **kw)
        except Exception as e:
            tb = traceback.format_exc().strip().splitlines()
            raise SutError(f'{name}: {type(e).__name__}: {e} | ' + ' | '.join(tb[-4:]))

    def raises(self, name, excs, fn, *args, **kw):
        """the code under test must refuse"""
        self.counts['eval:' + name] += 1
        try:
            with quiet():
                r = fn(*args, **kw)
        except excs:
            self.counts['refused:' + name] += 1
            return True
        except Exception as e:
            self.violation(name, f'refused with {type(e).__name__}: {e} instead of {excs}')
            return False
        self.violation(name, f'accepted, returned {str(r)[:300]}')
        return False


@contextlib.contextmanager
def quiet():
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            yield


def case_rng(case):
    import numpy as np
    return np.random.default_rng(case['seed'])


def load_known():
    with open(os.path.join(VERIF, 'known_findings.json')) as f:
        return json.load(f)


def _worker(mod_name, case):
    import numpy as np
    np.seterr(all='ignore')
    warnings.simplefilter('ignore')
    mod = importlib.import_module(mod_name)
    ctx = Ctx()
    t = time.time()
    try:
        mod.run(case, ctx)
    except SutError as e:
        ctx.violation('no_exception_on_valid_input', str(e))
    except Exception:
        ctx.violation('no_exception_on_valid_input',
                      'observation could not be evaluated: ' + traceback.format_exc()[-1500:])
    return {'case': case, 'violations': ctx.violations, 'known': ctx.known, 'counts': dict(ctx.counts),
            'sigs': ctx.sigs, 'sample': ctx.sample, 'secs': time.time() - t}


def main(check_id, argv):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1'))
    tier = os.environ.get('VERIF_TIER', 'quick')
    replay = None
    if '--tier' in argv:
        tier = argv[argv.index('--tier') + 1]
    if '--replay' in argv:
        replay = argv[argv.index('--replay') + 1]
    if tier not in ('quick', 'thorough'):
        tier = 'quick'

    import numpy as np
    mod_name = 'checks.' + check_id.lower()
    mod = importlib.import_module(mod_name)
    listed = {f['key']: f for f in load_known()['findings'] if f['property'] == check_id}

    rng = np.random.default_rng([seed, zlib.crc32(check_id.encode())])
    if replay:
        with open(replay) as f:
            cases = [json.load(f)['case']]
    else:
        cases = json.loads(json.dumps(mod.cases(tier, rng)))
    deadline = t0 + (420 if tier == 'quick' else 1500)
    results = []
    skipped = 0
    with tempfile.TemporaryDirectory(prefix='verif_') as tmp:
        os.environ['VERIF_SCRATCH'] = tmp
        tempfile.tempdir = tmp
        if replay or os.environ.get('VERIF_SERIAL'):
            for c in cases:
                results.append(_worker(mod_name, c))
        else:
            ex = ProcessPoolExecutor(max_workers=min(8, max(1, len(cases))))
            try:
                futs = [ex.submit(_worker, mod_name, c) for c in cases]
                try:
                    for f in as_completed(futs, timeout=max(1.0, deadline - time.time())):
                        results.append(f.result())
                except TimeoutError:
                    skipped = sum(1 for f in futs if not f.done())
            finally:
                workers = list((getattr(ex, '_processes', None) or {}).values())
                ex.shutdown(wait=False, cancel_futures=True)
                for p in workers:
                    p.kill()
        tempfile.tempdir = None

    counts = Counter()
    sigs = set()
    known = {}
    bad = []
    for r in results:
        counts.update(r['counts'])
        sigs.update(r['sigs'])
        for k, (n, d) in r['known'].items():
            if k in listed:
                e = known.setdefault(k, [0, d])
                e[0] += n
            else:
                r['violations'].append({'rule': 'unlisted finding ' + k, 'detail': d})
        if r['violations']:
            bad.append(r)
    bad.sort(key=lambda r: json.dumps(r['case'], sort_keys=True))

    missing = {}
    if not replay:
        for k, m in getattr(mod, 'REQUIRE', {}).items():
            if counts.get(k, 0) < m:
                missing[k] = (counts.get(k, 0), m)

    samples = [r['sample'] for r in results if r['sample'] is not None][:3]
    if not samples:
        samples = [r['case'] for r in results[:2]]
    ev = {
        'property': check_id,
        'tier': tier,
        'seed': seed,
        'level': 'exploration',
        'coverage': {
            'evaluations': len(results),
            'distinct_nontrivial': len(sigs),
            'rule': mod.RULE,
            'samples': samples,
            'observed': {k: v for k, v in sorted(counts.items())},
            'known_findings_seen': {k: v[0] for k, v in known.items()},
            'cases_not_finished_in_time': skipped,
        },
        'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])),
        'wall_s': round(time.time() - t0, 2),
        'violations': len(bad),
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    if not replay:
        with open(os.path.join(VERIF, 'evidence', check_id + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, ensure_ascii=False, default=str)

    for k, (n, d) in sorted(known.items()):
        print(f'KNOWN-FINDING: property={check_id} {k}: {listed[k]["what"]} (seen {n} times; e.g. {d})')
    rules = Counter(v['rule'] for r in bad for v in r['violations'])
    print(f'{check_id} {tier} seed={seed}: {len(results)} cases, {len(sigs)} distinct nontrivial, '
          f'{sum(v for k, v in counts.items() if k.startswith("eval:"))} comparisons, '
          f'{len(bad)} violating cases, {time.time() - t0:.1f} s')
    if bad:
        path = os.path.join(VERIF, 'evidence', f'replay_{check_id}.json')
        if replay:
            path = replay
        else:
            with open(path, 'w') as f:
                json.dump({'property': check_id, 'case': bad[0]['case'], 'violations': bad[0]['violations']},
                          f, indent=1, ensure_ascii=False, default=str)
        for rule, n in rules.most_common(8):
            ex_ = next(v for r in bad for v in r['violations'] if v['rule'] == rule)
            print(f'  {rule} ({n} cases): {ex_["detail"][:600]}')
        print(f'VIOLATION property={check_id} replay={path}')
        return 1
    if skipped > 0.5 * len(cases):
        print(f'INCONCLUSIVE: {skipped} of {len(cases)} cases not finished in time')
        return 2
    if missing:
        print(f'INCONCLUSIVE: not observed often enough: {missing}')
        return 2
    return 0
