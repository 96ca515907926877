import numpy as np

ID = 'G01'
RULE = ('each case draws a glazing of one to five panes with any shares passed and thrown back on either side; what passes, is '
        'thrown back and is absorbed, from the front and from behind, of the whole and of every run of neighbouring panes, is '
        'compared with the solution of the equations of all beams between the panes and with following the sun bounce by '
        'bounce. Non-trivial: every glazing; distinct by its panes.')
ASSUMPTIONS = ['what strikes a pane is passed, thrown back or absorbed; no two faces throw back everything']
REQUIRE = {'panes:1': 20, 'panes:2': 20, 'panes:3': 20, 'panes:4': 20, 'panes:5': 20, 'eval:absorbed by each pane': 300,
           'eval:nothing is lost': 100, 'unlike faces': 100, 'refused:panes that are not there': 100}


def cases(tier, rng):
    return [{'seed': int(rng.integers(0, 2 ** 62))} for _ in range(120 if tier == 'quick' else 4000)]


def beams(panes, front, back):
    """panes [(tau_f, tau_b, rho_f, rho_b)]; sun striking the front and the back of the stack.
    returns passed to the far side of each, thrown back, absorbed by each pane"""
    n = len(panes)
    a = np.eye(2 * n)                                   # unknown: beam on the front of pane k (2k), on its back (2k + 1)
    b = np.zeros(2 * n)
    for k, (tf, tb, rf, rb) in enumerate(panes):
        if k == 0:
            b[0] = front
        else:
            a[2 * k, 2 * (k - 1)] -= panes[k - 1][0]
            a[2 * k, 2 * (k - 1) + 1] -= panes[k - 1][3]
        if k == n - 1:
            b[2 * k + 1] = back
        else:
            a[2 * k + 1, 2 * (k + 1) + 1] -= panes[k + 1][1]
            a[2 * k + 1, 2 * (k + 1)] -= panes[k + 1][2]
    s = np.linalg.solve(a, b)
    f, r = s[0::2], s[1::2]
    out_front = panes[0][2] * f[0] + panes[0][1] * r[0]
    out_back = panes[-1][0] * f[-1] + panes[-1][3] * r[-1]
    taken = [f[k] * (1 - p[0] - p[2]) + r[k] * (1 - p[1] - p[3]) for k, p in enumerate(panes)]
    return out_front, out_back, np.array(taken)


def bounces(panes, steps):
    n = len(panes)
    f, r = np.zeros(n), np.zeros(n)
    f[0] = 1.0
    out_front = out_back = 0.0
    taken = np.zeros(n)
    for _ in range(steps):
        nf, nr = np.zeros(n), np.zeros(n)
        for k, (tf, tb, rf, rb) in enumerate(panes):
            taken[k] += f[k] * (1 - tf - rf) + r[k] * (1 - tb - rb)
            forth, away = f[k] * tf + r[k] * rb, f[k] * rf + r[k] * tb
            if k == n - 1:
                out_back += forth
            else:
                nf[k + 1] += forth
            if k == 0:
                out_front += away
            else:
                nr[k - 1] += away
        f, r = nf, nr
    return out_front, out_back, taken


def pane(rng, kind):
    if kind == 'clear':
        t, r = rng.uniform(0.75, 0.9), rng.uniform(0.05, 0.1)
        return t, t, r, r
    if kind == 'coated':
        t = rng.uniform(0.3, 0.7)
        return t, t, rng.uniform(0.05, 1 - t), rng.uniform(0.05, 1 - t)
    if kind == 'mirror':
        return 0.0, 0.0, rng.uniform(0.3, 0.9), rng.uniform(0.3, 0.9)
    if kind == 'black':
        return 0.0, rng.uniform(0.0, 0.5), 0.0, 0.0
    if kind == 'nothing':
        return 1.0, 1.0, 0.0, 0.0
    a, b = rng.dirichlet([1, 1, 1]), rng.dirichlet([1, 1, 1])
    return a[0], b[0], a[1], b[1]


def run(case, ctx):
    from notebook.initializer.shgc_window import multiple_reflection as mr
    rng = np.random.default_rng(case['seed'])
    for n in [1, 2, 3, 4, 5] + ([int(rng.integers(6, 16))] if rng.random() < 0.25 else []):
        for mode in range(3):
            kinds = ['clear'] * n if mode == 0 else ['any'] * n if mode == 1 else [
                str(rng.choice(['clear', 'coated', 'mirror', 'black', 'nothing', 'any'])) for _ in range(n)]
            ps = [tuple(float(v) for v in pane(rng, k)) for k in kinds]
            ctx.count(f'panes:{n}')
            ctx.nontrivial(ps)
            if any(p[0] != p[1] or p[2] != p[3] for p in ps):
                ctx.count('unlike faces')
            one = [ctx.sut('pane', mr.SolarSpecSingleLayer, tau_f=p[0], tau_b=p[1], rho_f=p[2], rho_b=p[3]) for p in ps]
            for o, p in zip(one, ps):
                ctx.close('absorbed by a pane alone', [o.a_f, o.a_b], [1 - p[0] - p[2], 1 - p[1] - p[3]], 0, 1e-12)
            g = ctx.sut('glazing', mr.Glass, ss=one)
            rf, tf, taken = beams(ps, 1.0, 0.0)
            tb, rb, _ = beams(ps, 0.0, 1.0)
            total = ctx.sut('whole glazing', g.get_total_solar_spec)
            ab = ctx.sut('absorbed', g.get_abs_multi_layer)
            where = str(ps)
            ctx.close('passed from the front', total.tau_f, tf, 1e-9, 1e-12, where)
            ctx.close('passed from behind', total.tau_b, tb, 1e-9, 1e-12, where)
            ctx.close('thrown back in front', total.rho_f, rf, 1e-9, 1e-12, where)
            ctx.close('thrown back behind', total.rho_b, rb, 1e-9, 1e-12, where)
            if ctx.check('one share for each pane', len(ab) == n, lambda: f'{len(ab)} shares of {n} panes'):
                ctx.close('absorbed by each pane', ab, taken, 1e-9, 1e-12, where)
                ctx.close('nothing is lost', total.tau_f + total.rho_f + sum(ab), 1.0, 0, 1e-9, where)
                ctx.check('nothing below zero', min(list(ab) + [total.tau_f, total.rho_f, total.tau_b, total.rho_b]) >= -1e-12,
                          where)
                f2, b2, t2 = bounces(ps, 4000 if mode else 300)
                if abs(f2 + b2 + sum(t2) - 1.0) < 1e-7:
                    ctx.close('bounce by bounce', [f2, b2] + list(t2), [total.rho_f, total.tau_f] + list(ab), 0, 1e-6, where)
            for i in range(n):
                for j in range(i, n):
                    part = ctx.sut('neighbouring panes', g.get_solar_spec_multi_layer, one, i, j)
                    a, b, _ = beams(ps[i:j + 1], 1.0, 0.0)
                    c, d, _ = beams(ps[i:j + 1], 0.0, 1.0)
                    ctx.close('neighbouring panes', [part.tau_f, part.tau_b, part.rho_f, part.rho_b], [b, c, a, d], 1e-9, 1e-12,
                              f'{i} to {j} of {where}')
            for i, j in ((-1, 0), (0, -1), (1, 0), (0, n), (n, n)):
                ctx.raises('panes that are not there', (ValueError,), g.get_solar_spec_multi_layer, one, i, j)
            again = ctx.sut('absorbed', g.get_abs_multi_layer)
            ctx.check('asking again', again == ab, where)
            ctx.set_sample({'panes': ps, 'passed': total.tau_f, 'absorbed': [float(v) for v in ab]})
