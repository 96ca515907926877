"""Hand-written parts of DESIGN.md; tools/build_docs.py puts them together with what the checks themselves state."""

HEAD = '''# How the properties of heat_load_calc are decided

heat_load_calc computes the heat load of houses: `weather` turns climate records into a table of the year,
`initializer` turns the description of a house into intermediate files (`mid_data_*`), `core` simulates rooms, walls and
equipment step by step and writes result files, `convert` turns indices of the energy saving standard into envelopes,
`external` holds relations shared by them. The guarantees are those of physics (balances), of the documents (formulas,
tables) and of programs (nothing invented, nothing depends on order, repetition or the future). The tests pin few values
of few inputs; none evaluates a balance.

## Technique

Every property is decided by **runtime monitoring**: the real code of /repo's working tree is executed under generated,
hostile and degenerate inputs; an oracle observes the execution. Three kinds of oracles are used:

* *offline checkers over the recorded log*: the detailed result of the simulation (about 25 columns for every room and
  10 for every boundary at every step) is the event log; checkers written independently of the engine
  (`vlib/core_oracle.py`) close each balance, replay each state machine and recursion from the log and the inputs alone;
* *reference models*: an independent implementation of the documented formulas judges every returned value
  (`vlib/ref_rf.py`, `vlib/gen_init.py`, `vlib/gen_env.py`, the modules in `checks/`);
* *metamorphic and history monitors*: related executions are compared (superposition, renumbering, twins, longer runs,
  other futures, repetition, other directories, fresh processes with other hash seeds, split layers, file system
  snapshots), and faults are injected into inputs that have to be refused.

Sanitizers and race detectors: the code is pure, single-threaded Python on numpy and pandas, it has no compiled part and
starts no threads; there is nothing for them to observe. Hence no `not_applicable` entry either: no property here needs
them. No hooks are needed in /repo; the detailed log and public functions are the observation points.

Level: `exploration` throughout. Quick checks take a quarter of a minute to a minute each, thorough ones minutes.

## Machinery

* `run_check.py ID [--tier quick|thorough] [--replay file]`: imports the code of /repo (or `VERIF_REPO`), makes cases from
  `VERIF_SEED`, runs them on 8 processes (threads of numerical libraries limited to one), writes `evidence/ID.json`, prints
  `VIOLATION property=ID replay=evidence/replay_ID.json` and exits 1 when an oracle objects, 2 when what had to be
  observed (`REQUIRE` of the check: counters of evaluated oracles and regimes) was not observed, so that a run which saw
  nothing cannot pass. A crash of the code under test on an input it has to accept is a violation; a crash of the check is not.
* `vlib/gen_core.py`: random houses for the simulation (rooms, boundaries of all seven kinds, constructions, equipment of
  all kinds, shared walls, rooms listed in any order; a share of them with up to 14 rooms, very large or small rooms and
  walls, furniture that stores nothing, response factors given directly, one fan speed) and drives (weather with fronts
  of 15 K from one step to the next, gains, sun, occupancy, demand; a share of rooms with ten times the usual of one of
  them, devices that take heat or moisture away; a day to months; steps of 5 to 60 minutes), `vlib/gen_init.py` random house descriptions and years of weather for the initializer, `vlib/gen_env.py` random
  envelopes for the converter.
* All generators draw a share of every figure far from the usual (counts of parts, layers, windows and bridges; sizes from
  a square centimetre to a hall; coefficients of 0, 1 and close to them; whole numbers throughout; limits met exactly),
  bounded where the unchanged program leaves physics (air of a coil below absolute zero).
* Comparisons are relative (1e-6 to 1e-12 by the length of the computation) so that rearranged arithmetic stays quiet.
  The oracles look at results, never at source text or private functions.
'''

# how the deciding oracle works, and what it reaches that tests cannot
TEXT = {
    'C01': 'For every room and step the terms of the balance (surfaces, furniture, outdoor air, air from rooms, gains, occupants, conditioning, storage) are formed from the log and the house and must cancel.',
    'C02': 'The vapour balance of room and furniture is formed from the log at each step, coil included.',
    'C03': 'Each wall is replayed from the logged heat flow with response factors of an independent fit (`ref_rf`), ground and partition walls included, houses with many slabs, runs that begin with the ground alone; the steady resistance of every described construction is compared with its layers; logged flows must be the sum of their parts. Walls whose fixed-root approximation is not passive are left out by the generator (`well_behaved`).',
    'C04': 'Radiative coefficients are recomputed by an independent fixed point of the form factors; exchanged heat must cancel in every room and never reach another room.',
    'C05': 'Absorbed sun is summed over surfaces and furniture of every room from the log.',
    'C06': 'Constant drives are run until the log no longer moves; uniform houses have to carry no heat, others must meet the steady state solved as a linear system.',
    'C07': 'Four runs whose inputs add up are compared state by state, also with shocks far outside weather (heat, cold and sun of a hundred times the usual) where a clipped or saturated term would show.',
    'C08': 'Permuted houses and twins are simulated and compared through the permutation; a house is also simulated in the company of another that shares nothing with it, whatever that one does.',
    'C09': 'The mode machine of every room is replayed from temperature, comfort and demand; all eleven transitions must be seen.',
    'C10': 'What a room needs is judged from the operative temperature it would have without any equipment, solved from the logged coefficients of the whole house; loads are judged by case: held at target, inside the limits, at part demand, at capacity; capacity is drawn between the loads with and without a limited neighbour.',
    'C11': 'The coil (air volume, bypass, surface temperature) is recomputed from the sensible load; condensation must match and never be negative.',
    'C13': 'Infiltration and window opening are replayed from the temperatures of the log.',
    'C14': 'Heat and moisture of occupants are recomputed from their number and the room.',
    'C15': 'The same input is run repeatedly, after others, elsewhere, in fresh processes and in threads; results and files must be equal bit by bit, directories otherwise untouched. Relatives of the input (the same but for one figure, at times in the last digits only) run before it, and result files of earlier runs lie about, so that caches and reuse show. In threads the linear algebra of numpy is called in turns: the numpy here is built without BLAS, its lapack_lite keeps static work variables and gives wrong inverses when two threads call it at once (shown with np.linalg.inv alone, without the code under test). Before that guard the thread scenario raised a false alarm about once in forty runs.',
    'C16': 'Runs with another future, longer runs and run-ups are compared with each other step by step.',
    'C17': 'Every column of log, digest and files is compared with the inputs or with the other files.',
    'C19': 'Sums, splits, repetition and an independent least squares fit judge the response factors of thousands of constructions; neighbours of a construction (one small figure or the order changed) are asked for next to it.',
    'W01': 'The table is compared with the climate record read independently, all regions and steps.',
    'W02': 'Independent implementation of the documented formulas and independent astronomy (Spencer) at every step of the year.',
    'W04': 'Sol-air temperatures of every boundary recomputed at every step of the year.',
    'W05': 'Transmitted sun of every room recomputed at every step of the year.',
    'W06': 'Sunlit share found by geometry of the endless overhang and by following rays.',
    'I01': 'Schedules read and interpolated independently at every quarter of an hour of the year.',
    'I02': 'Bytes of files compared between repetitions; snapshots of directories; shapes, finiteness, sign.',
    'I03': 'Boundaries handed over compared field by field; form factors solved independently.',
    'I04': 'Rooms, furniture, ventilation and equipment compared field by field.',
    'I05': 'Single faults injected into valid descriptions; acceptance of the valid one is checked too. Words are also mangled forms of the known ones (a letter more or less, capitals, words of another list).',
    'I06': 'The whole program end to end: the checkers of the core (balances, walls, radiation, sun, airflow, operation, loads, coil) judge the log with a house and use worked out from the description alone, not from the files in between, so that both halves changing together are still seen.',
    'V01': 'UA and eta A recomputed from the returned dictionaries with own tables; distribution rule judged by share of the standard value.',
    'V02': 'Parts matched with their origin; sums over rooms compared with the whole.',
    'V03': 'Areas recomputed from floor areas and envelope.',
    'V04': 'Round trip of dictionaries, U values from layers, own tables of standard constructions, injected faults.',
    'V05': 'Independent geometry of the model houses.',
    'V06': 'Complete enumeration of the tables against a transcription, refusals, exact decimal rounding.',
    'V07': 'Figures recomputed from the dictionaries of every step; the first conversion is repeated after another house was converted and all returned data overwritten, so that shared mutable state or caches show; every step has to leave its own input as it was.',
    'V08': 'Own rules and balances of volume and air.',
    'V09': 'Parts of every room matched one to one with the input; tables of neighbours, regions, directions and glass transcribed; formulas for solar gain recomputed.',
    'E01': 'Formula, steam table, Clausius-Clapeyron, consistency among the three functions.',
    'E02': 'Independent bisection of the clothing temperature, table of ISO 7730, monotonicity.',
    'E03': 'Formulas and order relations.',
    'E04': 'Clothing temperature by bisection, votes and modes replayed, the target put back into the equation of the vote; also far from comfort (frost, radiant heat, steam, dry air).',
    'G01': 'Own solution of the linear equations of all beams between the panes, and a ray followed bounce by bounce until it is spent.',
    'G02': 'Own formulas of JIS R3107, A2102 and A2103; the net heat of every face has to vanish at the returned temperatures.',
}

TAIL = '''
## Known findings and repairs

Genuine defects found are either repaired (commits `fix:` in /repo) or listed in `known_findings.json` with the call
site; each finding is matched by the oracle only where its own mechanism explains the observation, any other violation
of the same property is still reported (for example the balance of C01 must close with the wrong sign of interroom air
exactly; any other residual is a violation). Recorded, not repaired, because the pinned annual example of the tests
depends on them or the repair is a redesign:

%(findings)s

Repaired:

%(fixed)s

## Seen, judged outside the properties

* Years other than 8760 h are not consistently supported, and the initializer writes inputs for quarters of an hour
  whatever `n_step_hourly` is. Other calculation intervals (1, 2, 3, 6, 12 steps an hour) are run with inputs written
  for them (`vlib/core_cases.py: grown_cases`).
* Detailed shades (`SolarShadingDetail`, complex shades of `factor_f`) are not implemented upstream and raise.
* Rooms named `underfloor` have no schedule (KeyError); ids of boundaries are not validated.
* Words of the converter for the initializer partly differ from what the initializer reads (`input_method` detailed /
  default, glass type, eta_value); the last conversion step (`convert_lv4_to_h_hlc`) and `building_part_summarize` are
  unfinished upstream; no property claims them.
* The digest rounds outdoor absolute humidity to two decimals. `get_x` uses 0.622, `get_p_v_r_is_n` 0.62198.
* Equipment `not_installed` is ignored by the engine. Row 7 of the table of ISO 7730 is left out of E02.
* `check_ua` leaves heat bridges out (V02 compares with both sums).
* Fixed-root approximations of some extreme walls are not passive; the generator leaves these out.
* Furniture without capacity and without exchange (both 0) leaves 0/0 in its temperature; the generator sets only one
  of the two to 0.

What the workloads do not reach (measured by line coverage of the package under all quick checks): error branches of
`model_house` and `factor_f` for words no caller passes, `building_part_summarize` and `estimate_c_value` (used
nowhere), `make_house_for_test`, the unfinished last step of the converter (`make_rooms`, `convert_lv4_to_initializer`),
`SolarShadingDetail`, the plotting parts of the notebooks. About 2000 single-token mutants of the converter, core, initializer,
weather and external were run against the checks; the surviving ones were looked at one by one and are equivalent, in unused
code, or the reason for a new oracle.
'''

PLANTED = '''
## Planted bugs and what catches them

Every bug is kept in `seeded/<id>/` with a demonstration; all pass the stable tests of the repository. `tools/planted.py`
runs the check of its property (or others) against each in a copy of the repository with seed 1 and the quick tier and
writes this table. The name only says where the idea came from, the property is the one in the table.

| bug | property | needs | caught by |
|---|---|---|---|
'''
