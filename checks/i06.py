import os
import shutil
import tempfile

import numpy as np

from vlib import core_oracle, gen_core, gen_init

ID = 'I06'
RULE = ('each case is a random house description taken through the whole program: the real initializer writes its '
        'files into a directory, the real simulation reads them for the first two days of the year. The log has to be '
        'that of the described house, worked out from the description alone and not from the files in between: inputs '
        'as described, all balances closed, equipment, windows and coil as described. Non-trivial: all balances were judged; distinct by the reported state.')
ASSUMPTIONS = ['defects recorded for other properties (air between rooms, walls between rooms, coil out of range, cooking, '
               'unshaded windows) are accepted here in exactly their recorded form']
REQUIRE = {'eval:room heat balance': 5000, 'eval:weather reaches the log': 5000, 'eval:use reaches the log': 20000,
           'eval:wall response': 10000, 'room-steps conditioned': 100, 'eval:control': 2000, 'eval:latent load': 2000, 'eval:operation mode': 2000,
           'walls backed by other room': 5, 'rooms with air from others': 3, 'rooms with radiative cooling only': 1}


def cases(tier, rng):
    return [{'seed': int(rng.integers(0, 2 ** 62)), 'days': 2 if k % 6 else 6, 'joined': k % 2 == 1}
            for k in range(72 if tier == 'quick' else 400)]


class Elsewhere:
    """a defect that is recorded for another property is judged there"""

    def __init__(self, ctx):
        self.ctx = ctx

    def __getattr__(self, k):
        return getattr(self.ctx, k)

    def known_finding(self, key, detail):
        self.ctx.count('recorded for another property: ' + key)


def run(case, ctx):
    from heat_load_calc.core import core
    from heat_load_calc.initializer import initializer
    rng = np.random.default_rng(case['seed'])
    joined = bool(case.get('joined'))
    d = gen_init.random_input(rng, simulatable=True, inner=joined, air=joined)
    w = gen_init.rand_weather(rng)
    shift = 96 * int(rng.integers(0, 365))
    w = {k: np.roll(v, shift) for k, v in w.items()}
    root = tempfile.mkdtemp(prefix='i06_')
    try:
        gen_init.write_weather(root, w)
        ctx.sut('initializer', initializer.make_house, d, root, root)
        ds, dd = ctx.sut('simulation', core.calc, root, n_d_main=case['days'], n_d_run_up=0, n_d_run_up_build=0)
    finally:
        shutil.rmtree(root, ignore_errors=True)
    # what the description says, not what the intermediate files say
    house = gen_init.expected_house(d)
    T = 96 * case['days']
    tr = gen_core.Trace(house, dd, ds)
    ctx.check('one row per step', tr.T == T, lambda: f'{tr.T} rows')
    for r in d['rooms']:
        rc, rh = (r[k]['equipment_type'] == 'radiative' for k in ('cooling_equipment', 'heating_equipment'))
        ctx.count('rooms with air from others', bool(r['next_vent']))
        if rc and not rh:
            ctx.count('rooms with radiative cooling only')
    use = {k: v[:T] for k, v in gen_init.expected_use(d).items()}
    sun = {u: np.array([sum((gen_init.transmitted(w, b, u) for b in d['boundaries'] if b['connected_room_id'] == i),
                            np.zeros(gen_init.N))[:T] for i in range(tr.ni)]).T for u in (1.0, 0.0)}

    def seen(name, right, known, at, obs):
        """the quantity as described, or with the defect recorded for its own property (I01, W05), whichever the log
        shows"""
        for i in range(tr.ni):
            if not np.all(np.abs(obs[i] - right[:, i]) <= at + 1e-9 * np.abs(right[:, i])) and \
                    np.all(np.abs(obs[i] - known[:, i]) <= at + 1e-9 * np.abs(known[:, i])):
                ctx.count(name + ' as recorded for its own property')
                right[:, i] = known[:, i]
        return right

    drive = {'theta_o': w['temperature'], 'x_o': w['absolute humidity'][:T], 'local_vent': use['local_vent'],
             'heat_generation': seen('gains', use['heat_generation'], use['heat_generation known'], 1e-6, tr.q_gen),
             'moisture_generation': seen('moisture', use['moisture_generation'], use['moisture_generation known'], 1e-12,
                                         tr.x_gen),
             'occupants': use['occupants'], 'ac_demand': use['ac_demand'],
             'q_trs_sol': seen('sun', sun[1.0], sun[0.0], 1e-6, tr.q_sol_t),
             'theta_o_sol': np.array([gen_init.sol_air(w, b)[:T] for b in d['boundaries']]).T}
    S = core_oracle.Sys(house, drive, T)
    ctx.close('weather reaches the log', tr.theta_o, w['temperature'][:T], 1e-12, 1e-9, 'temperature')
    ctx.close('weather reaches the log', tr.x_o, w['absolute humidity'][:T], 1e-12, 1e-12, 'humidity')
    for name, a, b in (('demand', tr.occupancy, S.dem), ('gains', tr.q_gen, S.q_gen), ('moisture', tr.x_gen, S.x_gen),
                       ('sun', tr.q_sol_t, S.q_trs)):
        ctx.close('use reaches the log', a, b, 1e-9, 1e-6 if name in ('gains', 'sun') else 1e-12, name)
    # any demand above zero conditions a room: a rounding error in the total floor area (30.000000000000004 m2 instead of
    # 30) may leave a demand of 2e-16 of the next occupant, which is not what is judged here
    same = np.abs(tr.occupancy - S.dem) < 1e-12
    S.dem = np.where(same, tr.occupancy, S.dem)
    if not ctx.check('simulated values are finite', bool(np.isfinite(tr.th_r).all() and np.isfinite(tr.l_cs).all()
                                                         and np.isfinite(tr.l_rs).all()), 'not finite'):
        return
    ctx = Elsewhere(ctx)
    core_oracle.room_heat_balance(ctx, S, tr, 0)
    core_oracle.moisture_balance(ctx, S, tr, 0)
    core_oracle.surface_heat(ctx, S, tr)
    core_oracle.walls(ctx, house, S, tr, 0)
    core_oracle.solar(ctx, S, tr)
    core_oracle.radiation(ctx, S, tr)
    core_oracle.occupants(ctx, S, tr, 0)
    core_oracle.airflow(ctx, house, S, tr, 0)
    core_oracle.modes(ctx, S, tr, 0)
    core_oracle.control(ctx, S, tr, 0, house)
    core_oracle.dehumidification(ctx, S, tr, 0)
    ctx.nontrivial((tr.ni, tr.nj, round(float(tr.th_r.sum()), 6)))
    ctx.set_sample({'rooms': tr.ni, 'boundaries': tr.nj, 'modes': sorted(set(tr.mode.flatten().tolist()))})
