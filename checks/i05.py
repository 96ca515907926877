import copy
import os
import shutil
import tempfile

import numpy as np

from vlib import gen_init

ID = 'I05'
RULE = ('each case takes a random house the initializer accepts, and variants with one thing wrong (numbers of rooms, '
        'kinds of rooms, unknown words); the real initializer has to accept the first and to refuse every variant with '
        'an error, leaving no description of a house behind. Non-trivial: a variant was refused; distinct by variant '
        'and house.')
ASSUMPTIONS = ['a refusal is any of ValueError or KeyError']
REQUIRE = {'accepted': 8, 'refused:wrong room numbers': 16, 'refused:wrong kinds of rooms': 12,
           'refused:unknown words': 30}


def cases(tier, rng):
    return [{'seed': int(rng.integers(0, 2 ** 62))} for _ in range(48 if tier == "quick" else 300)]


KNOWN = {
    'direction': ['s', 'sw', 'w', 'nw', 'n', 'ne', 'e', 'se', 'top', 'bottom'],
    'room type': ['main_occupant_room', 'other_occupant_room', 'non_occupant_room', 'underfloor'],
    'kind of boundary': ['internal', 'external_general_part', 'external_transparent_part', 'external_opaque_part', 'ground'],
    'equipment': ['not_installed', 'convective', 'radiative'],
    'pressure': ['negative', 'positive', 'balanced'],
    'glazing': ['single', 'multiple'],
    'input of overhang': ['simple', 'detail'],
}


def mangled(rng, kind):
    """a word nobody defined, close to one that is"""
    known = KNOWN[kind]
    while True:
        w = str(rng.choice(known))
        k = int(rng.integers(0, len(w) + 1))
        c = str(rng.choice(list('abdeinostw_- ')))
        w = [w[:k] + c + w[k:], c + w, w + c, w[:k] + w[k + 1:], w.upper(), w.capitalize(), w + ' ', w + w,
             w[:max(k, 1)], w[::-1], str(rng.choice([x for v in KNOWN.values() for x in v]))][int(rng.integers(0, 11))]
        if w not in known:
            return w


def variants(d, rng):
    """(rule, what, broken description)"""
    n = len(d['rooms'])

    def v(rule, what, f):
        x = copy.deepcopy(d)
        f(x)
        return rule, what, x

    def setroom(i, k, val):
        return lambda x: x['rooms'][i].__setitem__(k, val)

    yield v('wrong room numbers', 'rooms numbered from 1', lambda x: [r.__setitem__('id', r['id'] + 1)
                                                                        for r in x['rooms']])
    yield v('wrong room numbers', 'gap at the end', setroom(n - 1, 'id', n))
    if n > 1:
        yield v('wrong room numbers', 'number used twice', setroom(n - 1, 'id', n - 2))
        yield v('wrong room numbers', 'order reversed', lambda x: x['rooms'].reverse())
        other = str(rng.choice(['other_occupant_room', 'non_occupant_room', 'underfloor']))
        yield v('wrong kinds of rooms', 'two main rooms', lambda x: [r.__setitem__('room_type', 'main_occupant_room')
                                                                      for r in x['rooms'][:2]])
        if n > 2:
            yield v('wrong kinds of rooms', 'two rooms of kind ' + other, lambda x: [
                r.__setitem__('room_type', t) for r, t in zip(x['rooms'], ('main_occupant_room', other, other))])
    if n < 4:
        yield v('wrong kinds of rooms', 'no main room', lambda x: [
            r.__setitem__('room_type', t) for r, t in zip(x['rooms'], ('other_occupant_room', 'non_occupant_room',
                                                                       'underfloor'))])
    i = int(rng.integers(0, n))
    yield v('unknown words', 'room type', setroom(i, 'room_type', 'bedroom'))
    yield v('unknown words', 'name of room without schedule', setroom(i, 'name', 'bedroom'))
    yield v('unknown words', 'heating', lambda x: x['rooms'][i]['heating_equipment'].__setitem__('equipment_type', 'gas'))
    yield v('unknown words', 'cooling', lambda x: x['rooms'][i]['cooling_equipment'].__setitem__('equipment_type', ''))
    yield v('unknown words', 'pressure', lambda x: x['building'].__setitem__('inside_pressure', 'high'))
    yield v('unknown words', 'storeys', lambda x: x['building'].__setitem__('story', 3))
    yield v('unknown words', 'room type, close', setroom(i, 'room_type', mangled(rng, 'room type')))
    for key in ('heating_equipment', 'cooling_equipment'):
        w = mangled(rng, 'equipment')
        yield v('unknown words', f'{key} {w!r}', lambda x: x['rooms'][i][key].__setitem__('equipment_type', w))
    yield v('unknown words', 'pressure, close', lambda x: x['building'].__setitem__('inside_pressure', mangled(rng, 'pressure')))
    j = int(rng.integers(0, len(d['boundaries'])))
    w = mangled(rng, 'kind of boundary')
    yield v('unknown words', f'kind of boundary {w!r}', lambda x: x['boundaries'][j].__setitem__('boundary_type', w))
    yield v('unknown words', 'kind of boundary', lambda x: x['boundaries'][j].__setitem__('boundary_type', 'roof'))
    for k, b in enumerate(d['boundaries']):
        if b.get('direction') and b.get('is_sun_striked_outside'):
            for w in ['south'] + [mangled(rng, 'direction') for _ in range(4)]:
                yield v('unknown words', f'direction {w!r}', lambda x: x['boundaries'][k].__setitem__('direction', w))
            break
    for k, b in enumerate(d['boundaries']):
        if b['boundary_type'] == 'external_transparent_part' and b['is_sun_striked_outside']:
            yield v('unknown words', 'glazing', lambda x: x['boundaries'][k].__setitem__(
                'incident_angle_characteristics', 'triple'))
            w = mangled(rng, 'glazing')
            yield v('unknown words', f'glazing {w!r}', lambda x: x['boundaries'][k].__setitem__(
                'incident_angle_characteristics', w))
            w = mangled(rng, 'input of overhang')
            yield v('unknown words', f'input of overhang {w!r}', lambda x: x['boundaries'][k].__setitem__(
                'solar_shading_part', {'existence': True, 'input_method': w, 'depth': 1.0, 'd_h': 1.0, 'd_e': 0.1,
                                       'x1': 0.1, 'x2': 1.0, 'x3': 0.1, 'y1': 0.1, 'y2': 1.0, 'y3': 0.1, 'z_x_pls': 0.5,
                                       'z_x_mns': 0.5, 'z_y_pls': 0.5, 'z_y_mns': 0.5}))
            yield v('unknown words', 'input of overhang', lambda x: x['boundaries'][k].__setitem__(
                'solar_shading_part', {'existence': True, 'input_method': 'drawing', 'depth': 1.0, 'd_h': 1.0,
                                       'd_e': 0.1}))
            break


def run(case, ctx):
    from heat_load_calc.initializer import initializer
    rng = np.random.default_rng(case['seed'])
    d = gen_init.random_input(rng)
    w = gen_init.rand_weather(rng)
    root = tempfile.mkdtemp(prefix='i05_')
    try:
        i, o = os.path.join(root, 'in'), os.path.join(root, 'out')
        os.mkdir(i)
        os.mkdir(o)
        gen_init.write_weather(i, w)
        for rule, what, x in variants(d, rng):
            if ctx.raises(rule, (ValueError, KeyError), initializer.make_house, x, i, o):
                ctx.nontrivial((case['seed'], what))
            elif ctx.violations:
                ctx.violations[-1]['detail'] = what + ': ' + ctx.violations[-1]['detail']
            ctx.check('nothing left behind', not os.listdir(o), lambda: f'{what}: {os.listdir(o)}')
            for f in os.listdir(o):
                os.remove(os.path.join(o, f))
        ctx.sut('initializer', initializer.make_house, d, i, o)
        ctx.check('accepted', len(os.listdir(o)) == 8, lambda: str(os.listdir(o)))
        ctx.count('accepted')
        ctx.set_sample({'rooms': len(d['rooms']), 'variants': [t[1] for t in variants(d, rng)]})
    finally:
        shutil.rmtree(root, ignore_errors=True)
