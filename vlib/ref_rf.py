"""Response factors of layered walls from the exact transfer function (independent of the code under test).

The documented method approximates the wall by a sum of exponentials with fixed roots, fitted by least squares to the
exact transfer functions at given points of the (real) Laplace axis; the coefficients follow for a piecewise linear
excitation in steps of 900 s."""
import math

import numpy as np

ROOTS_WALL = np.array([2.0e-06, 7.9e-06, 3.1205e-05, 1.2325e-04, 4.8687e-04, 1.9231e-03, 7.5964e-03, 3.0006e-02])
ROOTS_GROUND = np.array([1.05970E-09, 4.23890E-09, 1.69560E-08, 6.78060E-08, 2.71280E-07, 1.08500E-06, 4.34170E-06,
                         1.73610E-05, 6.94444E-05, 2.77778E-04])


def laplace_points(roots):
    pts = []
    for k, a in enumerate(roots):
        b = roots[k - 1] if k else roots[0] / (roots[1] / roots[0])
        # geometric mean with the previous root; the first one extrapolates the ratio of the first two
        pts.append(roots[0] / math.sqrt(roots[1] / roots[0]) if k == 0 else a / math.sqrt(a / b))
        pts.append(a)
    return np.array(pts)


def exact_transfer(cs, rs, s):
    """(absorption, transmission) transfer functions at Laplace variable s; cs J/m2K, rs m2K/W from inside out"""
    # admittance-type recursion from the outside: temperature node held, work with ABCD matrices in scaled form
    a, b, c, d = 1.0, 0.0, 0.0, 1.0
    for C, R in zip(cs, rs):
        if abs(C) < 1e-3:
            m = (1.0, R, 0.0, 1.0)
        else:
            z = math.sqrt(R * C * s)
            m = (math.cosh(z), R / z * math.sinh(z), z / R * math.sinh(z), math.cosh(z))
        a, b, c, d = a * m[0] + b * m[2], a * m[1] + b * m[3], c * m[0] + d * m[2], c * m[1] + d * m[3]
    return b / d, 1.0 / d


def coefficients(cs, rs, ground=False):
    roots = ROOTS_GROUND if ground else ROOTS_WALL
    pts = laplace_points(roots)
    g = np.array([exact_transfer(cs, rs, s) for s in pts])
    a0, t0 = float(np.sum(rs)), 1.0
    F = pts[:, None] / (pts[:, None] + roots[None, :])
    A = np.linalg.lstsq(F, g[:, 0] - a0, rcond=None)[0]
    T = np.linalg.lstsq(F, g[:, 1] - t0, rcond=None)[0]
    return roots, a0, A, T


def response_factors(cs, rs, ground=False, dt=900.0):
    roots, a0, A, T = coefficients(cs, rs, ground)
    t = roots * dt
    e = np.exp(-t)
    w0 = (1.0 - e) / t
    rfa0 = a0 + np.sum(w0 * A)
    rft0 = 1.0 + np.sum(w0 * T)
    w1 = (1.0 - e) ** 2 / t
    return rft0, rfa0, -T * w1, -A * w1, e


def of_spec(spec, dt=900.0):
    """(rft0, rfa0, rft1, rfa1, row) of a boundary specification"""
    if spec['method'] == 'response_factor':
        return (spec['phi_t0'], spec['phi_a0'], np.array(spec['phi_t1'], float), np.array(spec['phi_a1'], float),
                np.array(spec['r'], float))
    bt = spec['boundary_type']
    if bt in ('external_transparent_part', 'external_opaque_part'):
        return 1.0, 1.0 / spec['u_value'] - spec['inside_heat_transfer_resistance'], np.zeros(1), np.zeros(1), np.zeros(1)
    cs = [l['thermal_capacity'] * 1000.0 for l in spec['layers']]
    rs = [l['thermal_resistance'] for l in spec['layers']]
    if bt == 'ground':
        return response_factors(cs + [9900.0 * 1000.0], rs + [3.0], True, dt)
    return response_factors(cs + [0.0], rs + [spec['outside_heat_transfer_resistance']], False, dt)


def resistance(spec):
    if spec['method'] == 'response_factor':
        r = np.array(spec['r'], float)
        return spec['phi_a0'] + float(np.sum(np.array(spec['phi_a1'], float) / (1.0 - r)))
    bt = spec['boundary_type']
    if bt in ('external_transparent_part', 'external_opaque_part'):
        return 1.0 / spec['u_value'] - spec['inside_heat_transfer_resistance']
    r = sum(l['thermal_resistance'] for l in spec['layers'])
    return r + (3.0 if bt == 'ground' else spec['outside_heat_transfer_resistance'])


def well_behaved(spec):
    """the approximation with fixed roots stays physically admissible: a passive wall for any indoor film"""
    t0, a0, t1, a1, r = of_spec(spec)
    if not (a0 > 1e-3 and t0 > -0.02):
        return False
    for h in (0.5, 2.0, 5.0, 10.0, 20.0, 60.0):
        M = np.diag(r) - np.outer(a1, np.ones(len(r))) * h / (1.0 + a0 * h)
        if np.max(np.abs(np.linalg.eigvals(M))) >= 1.0 - 1e-9:
            return False
    # passive: the real part of the surface impedance stays positive at every frequency
    w = np.exp(1j * np.linspace(0.0, math.pi, 60))
    z = np.array([a0 + np.sum(a1 / (x - r)) for x in w])
    return bool(z.real.min() > 1e-4)


def other_step(a0, a1, t0, t1, r, dt):
    """response factors of the same wall for steps of dt seconds instead of a quarter of an hour"""
    a1, t1, r = np.array(a1), np.array(t1), np.array(r)
    m = r > 0.0
    al = -np.log(r[m]) / 900.0

    def w0(d):
        return -np.expm1(-al * d) / (al * d)

    def w1(d):
        return np.expm1(-al * d) ** 2 / (al * d)
    A, T = -a1[m] / w1(900.0), -t1[m] / w1(900.0)
    a0 = a0 + np.sum(A * (w0(dt) - w0(900.0)))
    t0 = t0 + np.sum(T * (w0(dt) - w0(900.0)))
    a1[m], t1[m], r[m] = -A * w1(dt), -T * w1(dt), np.exp(-al * dt)
    return a0, a1, t0, t1, r
