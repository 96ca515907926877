import math
from decimal import ROUND_HALF_UP, Decimal
from fractions import Fraction

import numpy as np

from vlib import gen_env

ID = 'V06'
RULE = ('direction factors, temperature difference coefficients and surface resistances are taken for all combinations of '
        'region, season, direction and neighbour and compared with tables of the standard and with relations among them; '
        'overhangs and numbers to round are random. Non-trivial: every value; distinct by value.')
ASSUMPTIONS = ['the tables of the energy saving standard as transcribed here']
REQUIRE = {'eval:direction factor': 100, 'eval:temperature difference coefficient': 48, 'eval:sun through overhangs': 500,
           'eval:rounded to the nearest': 2000, 'ties': 100, 'refused:no heating season': 6, 'refused:no such combination': 10,
           'eval:surface resistances': 20}
SRF = {'roof': (.09, .04, .09), 'ceiling': (.09, None, .09), 'wall': (.11, .04, .11), 'floor': (.15, .04, .15)}
ONLY = {'boundary_wall': .11, 'upward_boundary_floor': .09, 'downward_boundary_floor': .15}


def cases(tier, rng):
    return [{'part': 'tables'}] + [{'part': p, 'seed': int(rng.integers(0, 2 ** 62))}
                                   for _ in range(100 if tier == "quick" else 2000) for p in ('overhangs', 'rounding')]


def run(case, ctx):
    {'tables': tables, 'overhangs': overhangs, 'rounding': rounding}[case['part']](case, ctx)


def tables(case, ctx):
    from heat_load_calc.convert import a_06_common_items as a06
    from heat_load_calc.external.factor_h import NextSpace
    from heat_load_calc.external.factor_nu import Direction
    from heat_load_calc.convert import factor_f
    for region in range(1, 9):
        for s in gen_env.NEXT:
            v = ctx.sut('coefficient', NextSpace(s).get_h, region)
            ctx.close('temperature difference coefficient', v, gen_env.h(s, region), 0, 0, f'{s} region {region}')
            ctx.nontrivial((s, region))
            ctx.check('sun from outdoors only', NextSpace(s).get_is_sun_striked_outside() is (s == 'outdoor'), s)
        for d in gen_env.OUT:
            for season in ('heating', 'cooling'):
                if region == 8 and season == 'heating':
                    ctx.raises('no heating season', (ValueError,), Direction(d).get_nu, region, season)
                    continue
                v = ctx.sut('factor', Direction(d).get_nu, region=region, season=season)
                ctx.close('direction factor', v, gen_env.nu(d, region, season), 0, 0, f'{d} {season} region {region}')
                ctx.nontrivial((d, region, season))
        if region == 8:
            for shade in (factor_f.SunshadeTransientNotInput(), factor_f.SunshadeTransientExistSimple(0.5, 1.0, 0.2)):
                ctx.raises('no heating season', (Exception,), shade.get_f, 8, 'heating', Direction.S)
    for d in Direction:
        ctx.check('directions in the plane', d.is_horizontal() is (d.value not in ('top', 'bottom', 'upward', 'downward')),
                  d.value)
    for t, (i, o, n) in SRF.items():
        for s in gen_env.NEXT:
            e = (i, o) if s == 'outdoor' else (i, n)
            if e[1] is None:
                ctx.raises('no such combination', (ValueError,), a06.get_r_surf, t, s)
            else:
                ctx.close('surface resistances', ctx.sut('resistance', a06.get_r_surf, general_part_type=t, next_space=s), e, 0,
                          0, f'{t} {s}')
    for t, r in ONLY.items():
        for s in gen_env.NEXT:
            if s == 'air_conditioned':
                ctx.close('surface resistances', ctx.sut('resistance', a06.get_r_surf, t, s), (r, r), 0, 0, f'{t} {s}')
            else:
                ctx.raises('no such combination', (ValueError,), a06.get_r_surf, t, s)
    ctx.raises('no such combination', (ValueError,), a06.get_r_surf, 'cellar', 'outdoor')
    for s in (factor_f.SunshadeOpaqueNotDefined(),):
        ctx.raises('no such combination', (Exception,), s.get_f_sh, 1, 'cooling', Direction.S)
    ctx.raises('no such combination', (Exception,), factor_f.SunshadeTransientNotDefined().get_f, 1, 'cooling', Direction.S)
    ctx.close('sun on walls without shade given', factor_f.SunshadeOpaqueNotInput().get_f_sh(1, 'cooling', Direction.S), 1.0, 0, 0)
    for word in ('shade', '', None):
        ctx.raises('no such combination', (Exception,), factor_f.SunshadeTransient.make_sunshade_transient,
                   {'is_defined': True, 'input': word})
        ctx.raises('no such combination', (Exception,), factor_f.SunshadeOpaque.make_sunshade_opaque,
                   {'is_defined': True, 'input': word})


def overhangs(case, ctx):
    from heat_load_calc.convert import factor_f
    from heat_load_calc.external.factor_nu import Direction
    rng = np.random.default_rng(case['seed'])
    for _ in range(10):
        dim = dict(depth=float(rng.uniform(0.05, 3.0)), d_h=float(rng.uniform(0.2, 2.5)),
                   d_e=float(rng.choice([0.0, rng.uniform(0.0, 1.5)])))
        shade = {'is_defined': True, 'input': 'simple', **dim}
        s = ctx.sut('overhang', factor_f.SunshadeTransient.make_sunshade_transient, shade)
        deeper = factor_f.SunshadeTransientExistSimple(**dict(dim, depth=dim['depth'] * 1.3))
        for region in range(1, 9):
            for d in gen_env.OUT:
                for season in ('heating', 'cooling'):
                    if region == 8 and season == 'heating':
                        continue
                    v = ctx.sut('overhang', s.get_f, region=region, season=season, direction=Direction(d))
                    ctx.close('sun through overhangs', v, gen_env.f_window(shade, d, region, season), 1e-12, 0,
                              f'{dim} {d} {season} region {region}')
                    ctx.nontrivial((v, d, region, season))
                    ctx.check('a deeper overhang lets no more in', deeper.get_f(region, season, Direction(d)) <= v + 1e-12,
                              lambda: f'{dim} {d}')
        for d in ('upward', 'horizontal', 'downward'):
            ctx.raises('no such combination', (ValueError,), s.get_f, 6, 'cooling', Direction(d))


def rounding(case, ctx):
    from heat_load_calc.convert.general_functions import round_num
    rng = np.random.default_rng(case['seed'])
    last = {}
    for _ in range(300):
        digit = int(rng.integers(0, 5))
        kind = rng.random()
        if kind < 0.3:      # a tie that is a number of the computer
            x = float(rng.integers(-20000, 20000)) + 0.5
            digit = 0
            ctx.count('ties')
        elif kind < 0.5:
            x = float(rng.integers(-4000, 4000)) / 4.0 + (0.125 if rng.random() < 0.5 else 0.0)
            digit = int(rng.integers(0, 3))
        else:
            x = float(rng.normal(0, 10.0 ** rng.integers(-2, 4)))
        v = ctx.sut('rounding', round_num, x, digit)
        ctx.nontrivial((x, digit))
        exact = Decimal(x).quantize(Decimal(1).scaleb(-digit), rounding=ROUND_HALF_UP)
        step = 10.0 ** -digit
        near = abs(abs(Fraction(x) * 10 ** digit) % 1 - Fraction(1, 2))
        if near == 0 and float(Fraction(x) * 10 ** digit) * 1.0 == x * 10 ** digit or near > Fraction(1, 10 ** 8):
            ctx.close('rounded to the nearest', v, float(exact), 1e-14, 0, f'{x!r} to {digit}')
        ctx.check('no more than half a step off', abs(v - x) <= step * (0.5 + 1e-7), lambda: f'{x!r} {digit} {v}')
        ctx.close('alike for both signs', round_num(-x, digit), -v, 1e-15, 0, f'{x!r} {digit}')
        ctx.close('rounding again changes nothing', round_num(v, digit), v, 1e-15, 0, f'{x!r} {digit}')
        if digit in last and (last[digit][0] <= x) != (last[digit][1] <= v) and last[digit][1] != v:
            ctx.violation('rounding keeps the order', f'{last[digit]} {x!r} {v}')
        ctx.count('eval:rounding keeps the order')
        last[digit] = (x, v)
    assert math.isfinite(v)
