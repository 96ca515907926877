"""The properties and how each is decided; tools/build_docs.py writes properties.jsonl and MANIFEST.json from this."""

SIM = ('all houses the simulation accepts (rooms, boundaries of every kind, equipment, order of listing, calculation interval) and all '
       'weather, gain, occupancy, ventilation, sun and conditioning histories')
WHY_SIM = ('the tests pin two result columns of one house in one climate under one schedule; no test evaluates a '
           'balance, and no finite set of examples covers all houses and histories')
MON = 'runtime monitoring: offline checker over the recorded log of real simulations of random houses'
NOTE = ('exploration: every step of several dozen (quick) to several hundred (thorough) random simulated houses is '
        'judged by an oracle written independently of the engine; nothing is claimed about houses not drawn')


def P(id, title, statement, over, text, why, files, mech, observe, technique=MON, note=NOTE, state=None):
    d = {'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text},
         'why_tests_cant': why,
         'anchors': {'files': files, 'mechanism': [{'name': a, 'where': b} for a, b in mech],
                     'observe_at': observe, 'hook_needed': None}}
    if state:
        d['anchors']['state'] = [{'name': a, 'meaning': b, 'where': c} for a, b, c in state]
    return d, technique, note


C = 'heat_load_calc/core/'
I = 'heat_load_calc/initializer/'
V = 'heat_load_calc/convert/'
W = 'heat_load_calc/weather/'
X = 'heat_load_calc/external/'
OBS = ['columns of the detailed result returned by the simulation and written as result_detail.csv']

ALL = []


def add(*a, **k):
    ALL.append(P(*a, **k))


add('C01', 'Heat balance of every room closes at every step',
    'At every time step and in every room, the heat brought by surfaces, furniture, ventilation (outdoor air and air '
    'from other rooms), internal gains, occupants and air conditioning equals the heat stored in the room air. '
    'The furniture closes its own balance with the room air and the sun it absorbs.',
    ['inputs', 'histories'], SIM, WHY_SIM, [C + 'sequence.py', C + 'pre_calc_parameters.py'],
    [('room balance coefficients', C + 'sequence.py: run_tick'),
     ('constant part of the balance', C + 'pre_calc_parameters.py: make_pre_calc_parameters')], OBS)
add('C02', 'Moisture balance of every room closes at every step',
    'At every time step and in every room, the water vapour brought by ventilation, occupants, sources and furniture, '
    'less what the cooling coil removes, equals the change of the vapour in the room air. '
    'The furniture closes its own moisture balance with the room air.',
    ['inputs', 'histories'], SIM, WHY_SIM, [C + 'sequence.py', C + 'heat_exchanger.py'],
    [('humidity equation', C + 'sequence.py: run_tick'), ('coil term', C + 'heat_exchanger.py: get_dehumid_coeff')],
    OBS)
add('C03', 'Walls respond to their heat flow and the temperature behind them',
    'The surface temperature of every wall, window and floor equals the dynamic response given by its construction to '
    'the whole history of the heat flowing into it and of the temperature behind it. The temperature behind it is the '
    'stated mix of outdoor, ground and neighbouring side, and the surface heat flow is the sum of its convective, '
    'radiative, solar and radiant heating parts.',
    ['inputs', 'histories'], SIM, WHY_SIM, [C + 'sequence.py', C + 'pre_calc_parameters.py',
                                             I + 'response_factor.py'],
    [('response recursion', C + 'sequence.py: run_tick'),
     ('surface temperature system', C + 'pre_calc_parameters.py: make_pre_calc_parameters')], OBS)
add('C04', 'Radiation is exchanged within a room only and is conserved',
    'The long wave radiation given off by the surfaces of a room is taken up by surfaces of the same room, step by '
    'step, with the coefficients that follow from the closed geometry of that room alone. '
    'The mean radiant and operative temperature of the occupants follow from the surfaces of their own room.',
    ['inputs', 'histories'], SIM, WHY_SIM, [C + 'shape_factor.py', C + 'sequence.py', C + 'log.py'],
    [('form factors', C + 'shape_factor.py: get_h_r_js'), ('mean radiant temperature', C + 'sequence.py: run_tick')],
    OBS)
add('C05', 'All sun entering a room is absorbed in that room',
    'At every time step the solar heat transmitted into a room is absorbed completely in this room: half by the '
    'furniture, the rest evenly over the area of the surfaces declared as absorbing and by no other surface.',
    ['inputs', 'histories'], SIM, WHY_SIM, [C + 'pre_calc_parameters.py', C + 'sequence.py', C + 'log.py'],
    [('absorbed shares', C + 'pre_calc_parameters.py: make_pre_calc_parameters'),
     ('furniture share', C + 'sequence.py: run_tick')], OBS)
add('C06', 'A house under constant conditions comes to the right rest',
    'Under constant weather and use a house settles: with one temperature and humidity all around and nothing released '
    'indoors it takes exactly that temperature and humidity. Otherwise every wall at rest carries the heat flow of its '
    'thermal transmittance and the heat released indoors leaves completely through walls and ventilation.',
    ['inputs', 'configurations'], 'all houses and all constant boundary conditions', 'no test runs a house to rest; '
    'the pinned example never is', [C + 'sequence.py', C + 'pre_calc_parameters.py', I + 'response_factor.py'],
    [('balance equations', C + 'sequence.py: run_tick'), ('response factors', I + 'response_factor.py')], OBS,
    'runtime monitoring: rest state of simulations under constant drive against closed-form balances')
add('C07', 'A freely floating house superposes weather, sun and gains',
    'Without conditioning, occupants and infiltration the house is linear: the response to a combination of two '
    'histories of weather, sun and gains is the same combination of the separate responses.',
    ['inputs', 'histories'], SIM, WHY_SIM, [C + 'sequence.py', C + 'next_condition.py'],
    [('linear system of a step', C + 'sequence.py: run_tick')], OBS,
    'runtime monitoring: metamorphic comparison of four recorded runs')
add('C08', 'Numbering and company do not matter',
    'Renumbering the rooms or listing the boundaries in another order changes nothing but the labels of the results. '
    'Simulating two houses that share nothing together gives each of them the results it has alone.',
    ['inputs', 'configurations'], SIM + '; all permutations', WHY_SIM,
    [C + 'pre_calc_parameters.py', C + 'sequence.py', C + 'shape_factor.py', C + 'log.py'],
    [('assembly of matrices from lists', C + 'pre_calc_parameters.py: make_pre_calc_parameters')], OBS,
    'runtime monitoring: metamorphic comparison of recorded runs under permutation and duplication')
add('C09', 'The operation of each room follows the comfort index and its own history',
    'Each room heats, cools, opens its windows or rests exactly as the comfort index of its occupants at the start of '
    'the step, its previous operation and its demand say, with the documented thresholds and hysteresis. '
    'Without demand nothing runs, and clothing and air speed follow the operation.',
    ['inputs', 'histories'], SIM, 'the tests never look at the mode; hysteresis depends on the history',
    [C + 'ot_target_pmv.py', C + 'ot_target.py'],
    [('mode transition', C + 'ot_target_pmv.py: get_operation_mode_i_n'),
     ('comfort index', C + 'ot_target_pmv.py: get_pmv_is_n')], OBS, MON + ' against a reference state machine')
add('C10', 'Equipment works only as needed, meets the target and respects its limits',
    'Loads occur only in rooms that are heating or cooling with demand, with the right sign. At full demand the room '
    'is held exactly at the comfort target or is already inside it, at part demand it never goes beyond; radiative '
    'equipment never exceeds its capacity, and the air conditioner helps only once that is reached.',
    ['inputs', 'histories'], SIM, WHY_SIM, [C + 'next_condition.py', C + 'ot_target_pmv.py'],
    [('choice of unknowns and capacity', C + 'next_condition.py: calc_next_temp_and_load'),
     ('target temperature', C + 'ot_target_pmv.py: get_theta_ot_target')], OBS)
add('C11', 'Dehumidification follows from the cooling coil',
    'Moisture is removed only while the air of a room is cooled and only if the coil is colder than the dew point of '
    'the room; the latent load is then the coil air volume times the difference between room and saturated coil '
    'humidity, with the air volume between its rated limits. Moisture is never added.',
    ['inputs', 'histories'], SIM, WHY_SIM, [C + 'heat_exchanger.py', C + 'sequence.py'],
    [('coil model', C + 'heat_exchanger.py: get_dehumid_coeff')], OBS)
add('C13', 'Infiltration and natural ventilation follow the house and the mode',
    'Infiltration of every room is the share of its volume in the documented function of airtightness, storeys, '
    'pressure balance and temperature difference, and is never negative. '
    'Windows are open exactly while the room is in the open mode, with the flow given for that room.',
    ['inputs', 'histories'], SIM, WHY_SIM, [C + 'infiltration.py', C + 'sequence.py'],
    [('infiltration function', C + 'infiltration.py: make_get_infiltration_function'),
     ('window opening', C + 'sequence.py: run_tick')], OBS)
add('C14', 'Occupants give off a fixed total split by the room temperature',
    'Every occupant gives off the same total heat at every step, split into sensible heat and moisture by the room '
    'temperature, times the number of occupants of that room at that time, and all of it enters the room balance.',
    ['inputs', 'histories'], SIM, WHY_SIM, [C + 'occupants.py', C + 'sequence.py'],
    [('heat per person', C + 'occupants.py: get_q_hum_psn_is_n')], OBS)
add('C15', 'Results depend on the inputs alone and files appear only on request',
    'Simulating the same input again, after other inputs, from another directory or in a fresh process gives the same '
    'result to the last digit, with or without result files. Input files are never changed, and exactly the requested '
    'result files are written, in the output directory.',
    ['inputs', 'histories'], SIM + '; all sequences of runs in one process', 'each test runs the engine once',
    [C + 'core.py', C + 'log.py', C + 'pre_calc_parameters.py'],
    [('no state between runs', C + 'core.py: calc'), ('writing of files', C + 'log.py: record')],
    ['returned tables', 'files of the directories'],
    'runtime monitoring: bitwise comparison of repeated runs, file system snapshots')
add('C16', 'The past does not depend on the future; run-up and period only shift',
    'No result depends on weather or use after its step; a longer run begins like a shorter one; a run-up is exactly '
    'the same run over the end of the inputs without a log; a run-up of the ground alone leaves the soil in the state '
    'its own response gives. A run-up of the house longer than the whole run-up is refused.',
    ['inputs', 'histories', 'schedules'], SIM + '; all divisions into run-up and main period',
    'the tests use one fixed division', [C + 'core.py', C + 'sequence.py', C + 'sequence_ground.py', C + 'period.py'],
    [('three phases of a run', C + 'core.py: calc'), ('soil alone', C + 'sequence_ground.py: run_tick')], OBS,
    'runtime monitoring: metamorphic comparison of recorded runs; reference recursion for the soil')
add('C17', 'The log is complete and its parts agree with each other',
    'The detailed result has every quantity of every room and boundary at every step of the period (four an hour, or n_step_hourly), free of gaps, with '
    'the inputs as given and derived quantities consistent. The digest holds the hourly means (loads: sums) of the '
    'same quantities, and the result files hold the returned tables.',
    ['inputs', 'histories'], SIM, 'two columns of one run are pinned', [C + 'log.py'],
    [('tables and files', C + 'log.py: record'), ('derived quantities', C + 'log.py: Logger.post_logging')],
    ['returned tables', 'result_detail.csv', 'result_digest.csv'])
add('C19', 'Response factors represent the construction',
    'The response factors of every construction fit its exact transfer functions by the documented method, sum up to '
    'its resistance and to complete transmission, and do not depend on how a homogeneous layer is sliced. Asking for '
    'them changes nothing and can be repeated.',
    ['inputs'], 'all constructions of layers, soil, glazing and given factors',
    'the tests pin a handful of constructions', [I + 'response_factor.py'],
    [('fit of the transfer functions', I + 'response_factor.py: get_step_reps_of_wall'),
     ('factors from the fit', I + 'response_factor.py: get_RFTRI')], ['public factory of response factors'],
    'runtime monitoring: reference model of the fit, metamorphic slicing of layers',
    'exploration: hundreds (quick) to thousands (thorough) of random constructions against an independent computation')

INIT = 'all descriptions of houses the initializer accepts and all years of weather'
WHY_INIT = ('the tests run the initializer for one example and pin two columns of the simulation that follows; files '
            'written for other houses and climates are never looked at')
MID = ['mid_data_house.json and mid_data_*.csv in the output directory']
MONI = 'runtime monitoring: offline checker of the files written by the real initializer against an independent model'
NOTEI = ('exploration: dozens (quick) to hundreds (thorough) of random houses, every quarter of an hour of the year is '
         'judged; nothing is claimed about houses not drawn')

add('W01', 'The weather table is the hourly record of the region, without gaps',
    'For each of the eight regions and each time step (1h, 30m, 15m) the weather table covers the whole year without '
    'gaps, reproduces the hourly record at full hours and is linear in between, joining the end of the year to its '
    'start. The same table is written to weather.csv, only on request; other regions and steps are refused.',
    ['configurations'], 'all regions and time steps, every step of the year',
    'the tests look at a few single hours', [W + 'weather.py', W + 'weather_data.py'],
    [('interpolation', W + 'weather_data.py'), ('table and file', W + 'weather.py: make_weather')],
    ['returned table', 'weather.csv'],
    'runtime monitoring: exhaustive comparison of every table with the record read independently',
    'exhaustive over the 24 tables that exist')
add('W02', 'The sun stands where the documented formulas put it',
    'At every step of the year and at every place, altitude and azimuth of the sun follow the documented formulas of '
    'the standard year, agree with astronomy, and stay within their ranges; the weather table uses the place of its '
    'region.',
    ['inputs'], 'all places and time steps', 'the tests look at a few single hours of one place',
    [W + 'solar_position.py', W + 'region_location.py'],
    [('position', W + 'solar_position.py: calc_solar_position')], ['returned altitude and azimuth', 'weather table'],
    'runtime monitoring: reference model and independent astronomy at every step',
    'exploration: dozens (quick) to hundreds (thorough) of places, all eight regions, all steps of the year')
add('W04', 'Outdoor equivalent temperatures follow weather, orientation and surface',
    'The equivalent outdoor temperature handed over for every boundary is, at every step, the outdoor temperature plus '
    'the effect of direct, sky and ground reflected sun and night radiation for its orientation and surface; '
    'boundaries out of the sun see the outdoor temperature, ground the yearly mean, inner walls nothing.',
    ['inputs'], INIT, WHY_INIT, [I + 'outside_eqv_temp.py', I + 'inclined_surface_solar_radiation.py'],
    [('equivalent temperature', I + 'outside_eqv_temp.py'),
     ('sun on inclined surfaces', I + 'inclined_surface_solar_radiation.py')], MID, MONI, NOTEI)
add('W05', 'Solar heat entering each room is that of its windows',
    'The solar heat handed over for every room is, at every step, the sum over its sunlit windows of the direct, sky '
    'and reflected sun passing the glazing at its angle and the overhang, in proportion to area and solar heat gain '
    'value. Rooms without sunlit windows get none.',
    ['inputs'], INIT, WHY_INIT,
    [I + 'transmission_solar_radiation.py', I + 'inclined_surface_solar_radiation.py', I + 'solar_shading.py'],
    [('sum over windows', I + 'transmission_solar_radiation.py'), ('glazing', I + 'oblique_incidence_charac.py')], MID, MONI, NOTEI)
add('W06', 'Overhangs shade windows as their geometry says',
    'The sunlit share of a window below an overhang and the share of the sky it sees are those of the geometry of the '
    'overhang at every step: between none and all, never more with a deeper overhang, and equal to the share found by '
    'following rays.',
    ['inputs'], 'all overhangs, directions and sun positions', WHY_INIT, [I + 'solar_shading.py'],
    [('shaded share', I + 'solar_shading.py')], MID, MONI, NOTEI)
add('I01', 'Use of every room follows its schedule, size and residents',
    'Ventilation, heat and moisture gains, occupants and demand handed over for every room are those of the schedule '
    'of that room by name, day type and hour, linear between whole numbers of residents, with lighting in proportion '
    'to the floor area. The number of residents follows the total floor area between one and four.',
    ['inputs', 'schedules'], INIT, WHY_INIT, [I + 'schedule_loader.py', I + 'residents_number.py',
                                              I + 'initializer.py'],
    [('schedules', I + 'schedule_loader.py'), ('residents', I + 'residents_number.py')], MID, MONI, NOTEI)
add('I02', 'Initializing gives complete, reproducible files and touches nothing else',
    'Initializing writes exactly the description of the house and one value per step of the year for every room or '
    'boundary, finite and (apart from temperatures) not negative, into the output directory and changes neither the '
    'input nor the weather. '
    'Repeating it, after other houses or from elsewhere, gives the same files byte by byte.',
    ['inputs', 'histories'], INIT + '; all sequences of runs in one process', WHY_INIT, [I + 'initializer.py'],
    [('writing of files', I + 'initializer.py: make_house')], MID,
    'runtime monitoring: bitwise comparison of repeated runs, file system snapshots', NOTEI)
add('I03', 'Boundaries reach the simulation as described',
    'Every boundary is handed over in its order with its area, room, construction, coefficients, sun absorption and '
    'what lies behind it. The shares of the view of the occupants sum to one in each room, 0.45 for the floor, and '
    'radiant heating or cooling goes to the floors of the room in proportion to their area, in total exactly one.',
    ['inputs'], INIT, WHY_INIT, [I + 'boundary_simple.py', I + 'occupants_form_factor.py', I + 'initializer.py'],
    [('boundaries', I + 'boundary_simple.py'), ('form factors', I + 'occupants_form_factor.py')], MID, MONI, NOTEI)
add('I04', 'Rooms, furniture, ventilation and equipment reach the simulation as described',
    'Every room is handed over with its volume, the furniture that follows from it, mechanical ventilation as the sum '
    'of the outdoor paths, air from other rooms by sender, natural ventilation, and its equipment with the stated '
    'limits. The building is handed over as described.',
    ['inputs'], INIT, WHY_INIT, [I + 'initializer.py', I + 'furniture.py'],
    [('rooms', I + 'initializer.py: make_house'), ('furniture', I + 'furniture.py')], MID, MONI, NOTEI)
add('I05', 'Descriptions that make no sense are refused',
    'Wrong room numbers, an impossible set of kinds of rooms and unknown words for rooms, equipment, boundaries, '
    'directions, glazing, overhangs or the building are refused with an error, and no description of a house is left '
    'behind.',
    ['inputs'], 'all single mistakes of these kinds in all houses', 'the tests never give the initializer a wrong '
    'house', [I + 'initializer.py', I + 'boundary_type.py'],
    [('checks of the rooms', I + 'initializer.py: make_house')], ['error', 'files of the output directory'],
    'runtime monitoring: fault injection into valid descriptions', NOTEI)
add('I06', 'From description to result nothing is lost or invented',
    'A house taken from its description through the initializer and the simulation gives results in which weather and '
    'use are those described and all balances close with the quantities of the description, at every step, in every '
    'room and surface.',
    ['inputs', 'histories'], INIT, WHY_INIT, [I + 'initializer.py', C + 'core.py', C + 'pre_calc_parameters.py'],
    [('hand over by files', I + 'initializer.py: make_house'), ('reading', C + 'pre_calc_parameters.py')], OBS,
    'runtime monitoring: offline checker over the log of end to end runs', NOTEI)

CONV = ('runtime monitoring: reference computation from the returned dictionaries for random houses')
NOTEV = ('exploration: hundreds (quick) to tens of thousands (thorough) of random houses judged by an oracle written '
         'independently of the converter')
WHY_V = 'the tests convert a handful of fixed houses'
HOUSES = 'all envelopes, regions, kinds of houses and floor areas'
add('V01', 'Index input becomes an envelope with these indices',
    'The envelope made from UA, eta A and the envelope area has that area, UA and eta A wherever parts allow, with one '
    'share of the standard U values for all parts below their largest U value, one solar gain value for all windows '
    'between 0 and 0.88, and no part above its largest U value. The program finds the same UA and eta A in it.',
    ['inputs'], HOUSES, WHY_V, [V + 'convert_indices_to_lv2_info.py', V + 'get_u_psi_eta_from_u_a_and_eta_a.py',
                                V + 'check_ua_a_eta_a.py', V + 'model_house.py'],
    [('distribution of heat loss', V + 'get_u_psi_eta_from_u_a_and_eta_a.py: calc_parts_spec'),
     ('check', V + 'check_ua_a_eta_a.py: check_u_a_and_eta_a')], ['dictionary returned by convert_spec'], CONV, NOTEV)
add('V02', 'Dividing an envelope among rooms keeps its area, heat loss and solar gain',
    'Every part of an envelope without rooms is divided among the rooms of the house in proportion to their floor areas, '
    'earth floors go below the floor; areas, lengths, constructions, shades and neighbours stay, the sums over rooms are '
    'those of the whole, and rooms without floor area get nothing.',
    ['inputs'], HOUSES, WHY_V, [V + 'convert_lv2_to_lv3.py'], [('division', V + 'convert_lv2_to_lv3.py: convert_spec')],
    ['dictionary returned by convert_spec'], CONV, NOTEV)
add('V03', 'Inner floors and walls complete every room',
    'The inner floors and walls added to an envelope divided among rooms have the areas that follow from floor areas, '
    'outer floors and walls, one for each pair of rooms at most, none negative or zero, of the standard construction; the '
    'envelope itself stays. A house without main room is refused.',
    ['inputs'], HOUSES, WHY_V, [V + 'convert_lv3_to_lv4.py'], [('inner floors and walls', V + 'convert_lv3_to_lv4.py: convert_spec')],
    ['dictionary returned by convert_spec'], CONV, NOTEV)
add('V04', 'Parts of a house keep their meaning on the way to the initializer',
    'Every part read from a description is written again as it was read, has the heat loss and solar gain of its U value, '
    'neighbour, direction and shade, and is described to the initializer with its room, area, resistances, layers whose U '
    'value is that of the part (standard layers: at most their own without insulation) plus what heat bridges add, and '
    'its shade. Unknown words and wrong ratios are refused.',
    ['inputs'], HOUSES, WHY_V, [V + 'ees_house.py', V + 'factor_f.py'],
    [('parts', V + 'ees_house.py'), ('description for the initializer', V + 'ees_house.py: make_initializer_dict')],
    ['dictionaries returned by get_as_dict and make_initializer_dict', 'get_q, get_m'],
    'runtime monitoring: round trips and reference computation for random parts, fault injection', NOTEV)
add('V05', 'Model houses are consistent solids',
    'The model house of a floor area, insulation type and envelope area has that envelope area where a rectangle allows; '
    'wall, window and door fill each side, openings have the asked share, floor, earth floor, base and roof follow from '
    'the plan, no area is negative, and the listed parts carry exactly these areas and lengths to their neighbours.',
    ['inputs'], 'all kinds of houses, floor areas, shares of openings and envelope areas', WHY_V, [V + 'model_house.py'],
    [('geometry', V + 'model_house.py: calc_area'), ('parts', V + 'model_house.py: get_model_house_no_spec')],
    ['returned areas and parts'], CONV, NOTEV)
add('V06', 'Coefficients of the standard are taken from the right table',
    'Direction factors, temperature difference coefficients, surface resistances and the effect of overhangs are those of '
    'the standard for every region, season, direction and neighbour; combinations the standard does not know are refused. '
    'Rounding goes to the nearest step, half a step away from zero.',
    ['inputs'], 'all combinations of region, season, direction and neighbour, all overhangs', 'the tests sample few '
    'entries of the tables', [X + 'factor_h.py', X + 'factor_nu.py', V + 'factor_f.py', V + 'a_06_common_items.py',
                              V + 'general_functions.py'],
    [('tables', X + 'factor_nu.py'), ('overhangs', V + 'factor_f.py')], ['returned values'],
    'runtime monitoring: reference tables over all combinations, random overhangs and numbers', NOTEV)
add('E01', 'Humid air follows its laws over the whole range of temperatures',
    'Saturated vapour pressure follows the formulas over water and ice and the steam table, alike for one temperature, '
    'many, and whole numbers, and rises with temperature as physics demands; humidity, vapour pressure and relative '
    'humidity convert into each other.',
    ['inputs'], 'all temperatures and humidities of air', 'no stable test evaluates these functions',
    [X + 'psychrometrics.py'], [('vapour pressure', X + 'psychrometrics.py: get_p_vs_is2')], ['returned values'],
    'runtime monitoring: reference formula, steam table and metamorphic relations', NOTEV)
add('E02', 'Thermal comfort is that of ISO 7730',
    'Predicted mean vote and share of dissatisfied agree with an independent solution of the equations of ISO 7730 and '
    'its table for all conditions of room and person; warmer or damper is never felt cooler, and at least five percent '
    'are dissatisfied.',
    ['inputs'], 'all conditions within the range of the standard', 'no stable test evaluates this function',
    [X + 'iso7730.py'], [('predicted mean vote', X + 'iso7730.py: get_pmv_ppd')], ['returned values'],
    'runtime monitoring: independent solution by bisection and metamorphic relations', NOTEV)
add('E03', 'Size of room air conditioners and air tightness follow the standard',
    'Rated and largest capacity, largest and least air volume of a room air conditioner follow from the floor area as the '
    'standard says, never below the rated capacity and never smaller for larger rooms; the air tightness follows from UA '
    'and the kind of structure.',
    ['inputs'], 'all floor areas, UA values and structures', 'no stable test evaluates these functions',
    [X + 'rac.py', I + 'estimate_c_value.py'], [('capacity', X + 'rac.py: get_q_max')], ['returned values'],
    'runtime monitoring: reference formulas and metamorphic relations', NOTEV)
add('E04', 'Comfort control asks each room for the temperature that gives the target vote',
    'From the state of each room alone, its mode before, demand and radiative equipment, the control finds the heat transfer '
    'of the occupant (by iteration until clothing balances, or with the fixed values), the votes of warmly, normally and '
    'lightly dressed people, the mode that follows from them, air speed and clothing of that mode, and the operative '
    'temperature at which the vote is exactly -0.5 when heating and +0.5 when cooling.',
    ['inputs', 'histories'], 'all temperatures, humidities, modes, demands, equipment and numbers of rooms',
    'tests run one house with fixed values of heat transfer; the iteration is not tested at all',
    [C + 'ot_target_pmv.py', C + 'ot_target.py'], [('control', C + 'ot_target_pmv.py: get_ot_target_and_h_hum_with_pmv'),
                                                   ('heat transfer', C + 'ot_target_pmv.py: _get_h_hum')],
    ['returned coefficients, modes, targets and remarks'],
    'runtime monitoring: online checker against an independent solution by bisection and a replayed state machine', NOTEV)
G = 'notebook/initializer/shgc_window/'
add('G01', 'Sun striking a glazing is passed, thrown back or absorbed, nothing is lost',
    'For panes in any number, order and kind, what a glazing passes and throws back (from the front and from behind) and '
    'what each pane absorbs follow from all reflections between the panes, every run of neighbouring panes included; '
    'together they are exactly what strikes the glazing. Panes that are not there are refused.',
    ['inputs'], 'all panes with shares between nothing and everything, any number of panes', 'no stable test evaluates '
    'these functions', [G + 'multiple_reflection.py'], [('beams between the panes', G + 'multiple_reflection.py')],
    ['returned values'], 'runtime monitoring: reference solution by the equations of all beams and by following the sun '
    'bounce by bounce', NOTEV)
add('G02', 'Heat through a glazing balances at every face',
    'Under any temperatures, absorbed sun, season, slope, coatings, gas fillings and number of panes the resistances of '
    'surfaces, panes and gaps are those of the standards, the temperatures of all faces let heat in equal heat out at each '
    'of them, and the heat passed on to the room and the U value follow. Parts that do not fit together are refused.',
    ['inputs'], 'all glazings of the standards and all conditions', 'no stable test evaluates these functions',
    [G + 'glass_thermal_balance.py'],
    [('heat balance', G + 'glass_thermal_balance.py')], ['returned values'],
    'runtime monitoring: heat balance of every face, reference formulas of the standards, fault injection', NOTEV)
add('V07', 'A house keeps its envelope through all steps of the conversion',
    'Taken from its indices to an envelope, to parts of rooms, to inner floors and walls and to boundaries for the '
    'initializer, a house keeps area, UA and eta A, every room has its share of every kind of part, and the boundaries lose '
    'the heat of their parts. What was converted before, or what became of it, has no influence.',
    ['inputs', 'histories'], HOUSES, WHY_V,
    [V + 'convert_indices_to_lv2_info.py', V + 'convert_lv2_to_lv3.py', V + 'convert_lv3_to_lv4.py', V + 'ees_house.py'],
    [('steps', V + 'convert_lv3_to_lv4.py: convert_spec'), ('boundaries', V + 'ees_house.py: make_initializer_dict')],
    ['returned dictionaries'], 'runtime monitoring: conservation monitors along the chain, history monitors (repetition after '
    'other work and after scribbling over earlier results)', NOTEV)
add('V08', 'Rooms of a converted house share its volume and fresh air',
    'A house is given exactly the rooms that have a floor, with the volume of their floor, window ventilation as '
    'asked, and fresh air that adds up to the air change of the house; it enters through the occupied rooms by '
    'floor area and leaves through the others without loss. A house without main room is refused.',
    ['inputs'], 'all floor areas, air change rates and earth floors', 'no stable test evaluates these functions',
    [V + 'convert_lv4_to_h_hlc.py'], [('rooms', V + 'convert_lv4_to_h_hlc.py: make_initial_rooms')], ['returned rooms'],
    CONV, NOTEV)
add('V09', 'Parts of a house join the rooms they belong to',
    'Doors, earth floors, perimeters, inner walls and equipment are added to the rooms of their kind, each once, with its '
    'area, length, heat loss, layers and overhang, the direction, slope or regional coefficient of what lies behind it and '
    'the surfaces of its kind; what was there stays. The solar gain of a window is that of its frame, panes and shade.',
    ['inputs'], 'all parts, neighbours, regions and kinds of windows', 'no test evaluates these functions',
    [V + 'convert_lv4_to_h_hlc.py'], [('joining', V + 'convert_lv4_to_h_hlc.py: integrate_doors_to_rooms'),
                                      ('solar gain', V + 'convert_lv4_to_h_hlc.py: get_eta')],
    ['returned rooms and gains'], CONV, NOTEV)
