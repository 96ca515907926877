import copy

import numpy as np

ID = 'V09'
RULE = ('each case draws a house of two to four rooms with doors, earth floors, perimeters and inner walls and adds them to the '
        'rooms with the real code; what every room receives is compared with the parts that belong to it, the documented '
        'tables of neighbours, regions and directions and the formulas for solar gain of windows. Non-trivial: every house with '
        'parts; distinct by their figures.')
ASSUMPTIONS = ['coefficients of neighbours by region, directions, surface resistances and glass tables as documented']
REQUIRE = {'doors': 300, 'doors with overhang': 60, 'perimeters': 300, 'earth floors': 300, 'inner walls': 300, 'windows': 1000,
           'double windows': 300, 'parts behind which is no outdoor air': 200, 'eval:every part is in its room once': 300}
ROOMS = ('main_occupant_room', 'other_occupant_room', 'non_occupant_room', 'underfloor')
ANGLE = {'N': 180, 'NE': -135, 'E': -90, 'SE': -45, 'S': 0, 'SW': 45, 'W': 90, 'NW': 135, 'Top': None, 'Bottom': None}
SLOPE = dict({k: 90 for k in ANGLE}, Top=0, Bottom=180)
FACING = dict({k: 'Vertical' for k in ANGLE}, Top='Downward', Bottom='Upward', ClosedSpace='Vertical', ResidenceSpace='Vertical',
              OpenBackFloor='Upward', ClosedBackFloor='Upward')
BEHIND = ('ClosedSpace', 'OpenBackFloor', 'ResidenceSpace', 'ClosedBackFloor')
GLASS = {'3WgG': (.54, .34, .12), '3WsG': (.33, .22, .08), '3LgG': (.59, .37, .14), '3LsG': (.37, .25, .10),
         '2LgG': (.64, .38, .15), '2LsG': (.40, .26, .11)}
GLASS.update({k: (.79, .38, .17) for k in ('2FAheatreflect1', '2FAheatreflect2', '2FAheatreflect3', '2FAheatabsorb2', '2FAmulti',
                                           '2FAsingle')})
GLASS.update({k: (.88, .38, .19) for k in ('Theatreflect1', 'Theatreflect2', 'Theatreflect3', 'Theatabsorb2', 'Tsingle')})
SHADE = ('None', 'Shoji', 'ExtarnalBlind')
FRAME = {'WoodOrResin': 0.72, 'Steel': 0.8}
INNER = {'InnerCeiling': 'Downward', 'InnerWall': 'Vertical', 'InnerFloor': 'Upward', 'GroundFloor': 'Upward'}
RESISTANCE = {('wall', 'outdoor'): (.11, .04), ('wall', 'open_space'): (.11, .11), ('floor', 'open_underfloor'): (.15, .15),
              ('floor', 'outdoor'): (.15, .04), ('roof', 'outdoor'): (.09, .04), ('ceiling', 'closed_space'): (.09, .09),
              ('boundary_wall', 'air_conditioned'): (.11, .11), ('upward_boundary_floor', 'air_conditioned'): (.09, .09),
              ('downward_boundary_floor', 'air_conditioned'): (.15, .15)}


def cases(tier, rng):
    return [{'seed': int(rng.integers(0, 2 ** 62))} for k in range(1200 if tier == 'quick' else 40000)]


def coefficient(region, behind):
    if behind in ('ResidenceSpace', 'ClosedBackFloor'):
        return 0.05 if region <= 3 else 0.15
    return 0.7


def run(case, ctx):
    from heat_load_calc.convert import convert_lv4_to_h_hlc as x
    rng = np.random.default_rng(case['seed'])
    pick = lambda seq: seq[int(rng.integers(0, len(seq)))]
    region = int(rng.integers(1, 9))
    kinds = ROOMS[:int(rng.integers(2, 5))]
    rooms = [{'room_type': k, 'Surface': [{'name': 'already there', 'area': 3.0}], 'EarthfloorPerimeter': [],
              'mark': f'{k} {case["seed"]}'} for k in kinds]
    before = copy.deepcopy(rooms)
    p = lambda a, b: float(rng.uniform(a, b))
    doors = []
    for k in range(int(rng.integers(1, 6) if rng.random() < 0.94 else rng.integers(6, 15))):
        d = {'space': pick(kinds), 'direction': pick(list(ANGLE)), 'nextspace': 'Outdoor' if rng.random() < 0.6 else pick(BEHIND),
             'U': p(0.5, 7.0), 'area': p(0.5, 4.0), 'IsSunshadeInput': bool(rng.random() < 0.5)}
        if d['IsSunshadeInput']:
            d.update(Y1=p(0.0, 1.0), Y2=p(1.0, 2.5), Z=p(0.1, 2.0))
        doors.append(d)
    eps = [{'space': pick(kinds), 'psi': p(0.1, 2.0), 'length': p(0.5, 12.0), 'direction': pick(list(ANGLE)),
            'nextspace': 'Outdoor' if rng.random() < 0.6 else pick(BEHIND)} for _ in range(int(rng.integers(1, 6) if rng.random() < 0.94 else rng.integers(6, 15)))]
    ecs = [{'space': pick(kinds), 'area': p(0.5, 60.0)} for _ in range(int(rng.integers(1, 5) if rng.random() < 0.94 else rng.integers(5, 15)))]
    iws = []
    for _ in range(int(rng.integers(1, 6) if rng.random() < 0.94 else rng.integers(6, 15))):
        gp, ns = pick(list(RESISTANCE))
        iws.append({'space': pick(kinds[:3]), 'nextspace': pick(kinds), 'type': pick(list(INNER)), 'area': p(0.5, 40.0),
                    'general_part': gp, 'next_space': ns,
                    'Layers': [x.make_layer('a', p(0.01, 0.2), p(0.1, 2.0), pick([None, p(10.0, 2000.0)]))]})
    parts0 = copy.deepcopy((doors, eps, ecs, iws))
    ctx.nontrivial([round(v['area'], 9) for v in doors + ecs + iws])
    ctx.count('doors', len(doors))
    ctx.count('doors with overhang', sum(d['IsSunshadeInput'] for d in doors))
    ctx.count('perimeters', len(eps))
    ctx.count('earth floors', len(ecs))
    ctx.count('inner walls', len(iws))
    ctx.count('parts behind which is no outdoor air', sum(d['nextspace'] != 'Outdoor' for d in doors + eps))
    r = ctx.sut('doors', x.integrate_doors_to_rooms, region, doors, rooms)
    r = ctx.sut('perimeters', x.integrate_earthfloorperimeters_to_rooms, region, eps, r)
    r = ctx.sut('earth floors', x.integrate_earthfloors_to_rooms, region, ecs, r)
    r = ctx.sut('inner walls', x.integrate_innerwalls_to_rooms, region, iws, r)
    ctx.check('parts are left as they are', (doors, eps, ecs, iws) == parts0, 'the parts were changed')
    ctx.check('the same rooms', [q['mark'] for q in r] == [q['mark'] for q in before], 'rooms differ')
    for q, b in zip(r, before):
        ctx.check('what was there stays', q['Surface'][:1] == b['Surface'], q['mark'])
    every = []
    for q in r:
        kind = q['room_type']
        for s in q['Surface'][1:]:
            every.append(s['name'])
        got = {'Door': [], 'Earthfloor': [], 'inner': []}
        for s in q['Surface'][1:]:
            got['Door' if s['name'].startswith('Door') else 'Earthfloor' if s['name'].startswith('Earthfloor') else
                'inner'].append(s)
        for name, mine in (('Door', [d for d in doors if d['space'] == kind]), ('Earthfloor', [d for d in ecs if d['space'] == kind]),
                           ('inner', [d for d in iws if d['space'] == kind])):
            if not ctx.check('every part is in its room once', [s['area'] for s in got[name]] == [d['area'] for d in mine],
                             lambda: f'{kind} {name}: {[s["area"] for s in got[name]]} {[d["area"] for d in mine]}'):
                return
            for s, d in zip(got[name], mine):
                {'Door': door, 'Earthfloor': earth, 'inner': inner}[name](ctx, s, d, region)
        mine = [e for e in eps if e['space'] == kind]
        if not ctx.check('every part is in its room once', [s['LinearHeatTransLength'] for s in q['EarthfloorPerimeter']] == [
                e['length'] for e in mine], lambda: f'{kind} perimeters'):
            return
        for s, e in zip(q['EarthfloorPerimeter'], mine):
            every.append(s['name'])
            ctx.close('heat loss of a perimeter', s['LinearHeatTrans'], e['psi'], 1e-12, 0, str(e))
            limit(ctx, s['boundary'], e, region, False)
    ctx.check('names are distinct', len(set(every)) == len(every), lambda: str(sorted(every)))
    # equipment
    am, ao = (float(pick([0.0, 30.0])) for _ in range(2))
    rr = ctx.sut('equipment', x.integrate_equipments_to_rooms, am, ao, {'of': 'main'}, {'of': 'other'},
                 [{'room_type': k} for k in kinds])
    for q in rr:
        want = {'main_occupant_room': {'of': 'main'} if am > 0 else None,
                'other_occupant_room': {'of': 'other'} if ao > 0 else None}.get(q['room_type'])
        ctx.check('equipment of a room with a floor', q.get('equipment') == want, lambda: f'{am} {ao} {q}')
    # windows
    for _ in range(6):
        window(ctx, x, rng, pick, p)
    for d, want in (('top', 'top'), ('bottom', False), ('upward', False), ('horizontal', False), ('downward', False)) + tuple(
            (v.lower(), True) for v in ANGLE if v not in ('Top', 'Bottom')):
        ctx.check('sunlit directions', x.get_direction(d) == want, lambda: f'{d} {x.get_direction(d)}')
    th, co, c = p(0.01, 0.3), p(0.02, 2.0), p(1.0, 2000.0)
    lay = ctx.sut('layer', x.make_layer, 'n', th, co, c)
    ctx.check('layer', (lay['name'], lay['thick'], lay['cond'], lay['specH']) == ('n', th, co, c) and
              x.make_layer('n', th, co, None)['specH'] == 0, lambda: str(lay))
    ctx.set_sample({'region': region, 'rooms': kinds, 'doors': len(doors), 'inner walls': len(iws)})


def limit(ctx, b, d, region, full):
    """what lies behind a part"""
    if d['nextspace'] == 'Outdoor':
        ctx.check('outdoor air behind it', b['Type'] == 'Outdoor' and b['name'] == d['direction'] and 'TempDifferFactor' not in b,
                  lambda: f'{d} {b}')
        if full:
            ctx.check('direction and slope', (b['DirectionAngle'], b['InclinationAngle']) == (
                ANGLE[d['direction']], SLOPE[d['direction']]), lambda: f'{d} {b}')
            ctx.close('reflection of the ground', b['GroundReflectRate'], 0.1, 1e-12, 0, str(d))
    else:
        ctx.check('another space behind it', b['Type'] == 'DeltaTCoeff', lambda: f'{d} {b}')
        ctx.close('coefficient of the neighbour', b['TempDifferFactor'], coefficient(region, d['nextspace']), 1e-12, 0,
                  f'region {region} {d["nextspace"]}')


def door(ctx, s, d, region):
    limit(ctx, s['boundary'], d, region, True)
    w = s['Window']
    ctx.check('outer part', s['skin'] is True and s['unsteady'] is False, lambda: str(s))
    ctx.check('direction of a door', s['direction'] == FACING[d['direction']] and s['floor'] == (d['direction'] == 'Bottom'),
              lambda: str(s))
    ctx.close('a door', (w['Uw'], w['Eta'], w['SolarTrans'], w['SolarAbsorp'], w['OutEmissiv'], w['OutHeatTrans'], w['InHeatTrans']),
              (d['U'], 0.034 * d['U'], 0.034 * d['U'], 0.0, 0.9, 25.0, 1 / 0.11), 1e-12, 0, str(d))
    o = s['sunbreak']
    if d['IsSunshadeInput']:
        ctx.close('overhang of a door', (o['D'], o['hi'], o['WH'], o['WR']), (d['Z'], d['Y1'], d['Y2'], 0.0), 1e-12, 0, str(d))
        ctx.check('overhang of endless width', o['WI1'] == o['WI2'] >= 100, lambda: str(o))
    else:
        ctx.check('no overhang', not o, lambda: str(o))


def earth(ctx, s, d, region):
    ctx.check('earth floor', s['skin'] and s['floor'] and s['unsteady'] and s['IsSoil'] and s['direction'] == 'Upward' and
              s['boundary'] == 'AnnualAverage', lambda: str(s))
    ctx.close('inside of an earth floor', s['Wall']['InHeatTrans'], 1 / 0.15, 1e-12, 0, '')
    ctx.close('layers of an earth floor', [(v['thick'], v['cond'], v['specH']) for v in s['Wall']['Layers']],
              [(0.15, 1.6, 2000.0), (3.0, 1.0, 3300.0)], 1e-12, 0, '')


def inner(ctx, s, d, region):
    ctx.check('inner part', s['skin'] is False and s['unsteady'] is True and s['IsSoil'] is False and
              s['direction'] == INNER[d['type']] and s['floor'] == (d['type'] in ('GroundFloor', 'InnerFloor')), lambda: str(s))
    ctx.check('room behind an inner part', s['boundary']['Type'] == 'NextRoom' and s['boundary']['room_type'] == d['nextspace'],
              lambda: f'{d} {s["boundary"]}')
    r_i, r_o = RESISTANCE[d['general_part'], d['next_space']]
    ctx.close('surfaces of an inner part', (s['Wall']['InHeatTrans'], s['Wall']['OutHeatTrans']), (1 / r_i, 1 / r_o), 1e-12, 0,
              str(d))
    ctx.check('layers of an inner part', s['Wall']['Layers'] == d['Layers'], lambda: str(s))


def window(ctx, x, rng, pick, p):
    ctx.count('windows')
    eta = lambda fr, gl, sh: FRAME[fr] * GLASS[gl][SHADE.index(sh)]
    spec = lambda e: {'TypeFrame' + e: pick(list(FRAME)), 'TypeGlass' + e: pick(list(GLASS)), 'TypeShade' + e: pick(SHADE)}
    double = rng.random() < 0.5
    values = rng.random() < 0.5
    d = {'EtaInputMethod': 'InputValue' if values else 'InputSpecification', 'TypeWindow': 'Double' if double else 'Single'}
    if double:
        ctx.count('double windows')
        d.update(spec('Inside'), **spec('Outside'))
        both = d['TypeFrameInside'] == d['TypeFrameOutside'] == 'WoodOrResin'
        if values:
            d.update(EtaInside=p(0.05, 0.9), EtaOutside=p(0.05, 0.9))
            a, b = d['EtaInside'], d['EtaOutside']
        else:
            a, b = (eta(d['TypeFrame' + e], d['TypeGlass' + e], d['TypeShade' + e]) for e in ('Inside', 'Outside'))
        want = a * b * 1.06 / (0.72 if both else 0.8)
    else:
        d.update(spec(''), Eta=p(0.05, 0.9))
        want = d['Eta'] if values else eta(d['TypeFrame'], d['TypeGlass'], d['TypeShade'])
    ctx.close('solar gain of a window', ctx.sut('window', x.get_eta, d), want, 1e-12, 0, str(d))
    if rng.random() < 0.1:
        ctx.raises('window described in no known way', (ValueError,), x.get_eta, dict(d, EtaInputMethod='else'))
