"""Source of properties.jsonl and MANIFEST.json (run tools/gen.py)."""

CORE = 'heat_load_calc/core/'
INI = 'heat_load_calc/initializer/'
CON = 'heat_load_calc/convert/'
EXT = 'heat_load_calc/external/'
WEA = 'heat_load_calc/weather/'

P = []


def prop(id, title, statement, over, text, why, files, mechanism, state=None, observe_at=None, note=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mechanism=mechanism,
                  state=state, observe_at=observe_at, note=note))


prop('C01', 'Room heat balance of a time step',
     'At every time step the air, furniture and operative temperatures of all rooms, and the temperature the occupants radiate to, are the solution of the published implicit heat balance of the room: '
     'stored heat, convection from every surface, outdoor and inter-room air flows, internal gains, furniture exchange and conditioning all enter once with the right sign and weight.',
     ['inputs', 'histories'], 'all houses (any number of rooms and boundaries), all states of the previous step, every step of run-up and main calculation',
     'The single numerical regression compares a few values of one house; it fixes neither the terms that are zero there nor other houses, and a compensating error is invisible to it.',
     [CORE + 'sequence.py', CORE + 'matrix_method.py', EXT + 'global_number.py'],
     [('time step', CORE + 'sequence.py run_tick'), ('constants', EXT + 'global_number.py')], observe_at=['returned state of a step'])

prop('C02', 'Room moisture balance of a time step',
     'At every time step room and furniture humidity are the solution of the implicit moisture balance of the rooms: stored vapour, outdoor and inter-room air flows, internal and human generation, furniture exchange and coil condensation all enter once with the right sign.',
     ['inputs', 'histories'], 'all houses, all previous states, all steps', 'Tests pin few humidity values of one house; terms that vanish there are unconstrained.',
     [CORE + 'sequence.py'], [('moisture balance', CORE + 'sequence.py run_tick')])

prop('C03', 'Wall response recursion',
     'The transient response of every wall advances by the recursive response-factor formulas: absorbed and transmitted components decay with their own ratio and are driven by the previous surface flow and the current rear temperature, the surface flow follows from the equivalent temperature, and the ground-only run-up uses the same recursion with the deep ground temperature.',
     ['inputs', 'histories'], 'all boundaries, all previous states, all steps including the ground-only run-up', 'Tests sample one trajectory; exchanging or dropping a component matters only for some constructions.',
     [CORE + 'sequence.py', CORE + 'sequence_ground.py'], [('wall recursion', CORE + 'sequence.py run_tick'), ('ground run-up', CORE + 'sequence_ground.py run_tick')])

prop('C04', 'Operation mode hysteresis and comfort targets',
     'The mode of a room in a step depends only on whether conditioning is demanded, its previous mode and the PMV reached with the clothing of each season, with the published hysteresis thresholds; '
     'the heating and cooling target temperatures are those at which the PMV of the chosen mode equals the target PMV.',
     ['inputs', 'histories'], 'all rooms, all previous modes, all PMV values and demands', 'Mode tests sample a few PMV values per mode, not the thresholds between them nor the coupling with clothing, air speed and targets.',
     [CORE + 'ot_target_pmv.py', CORE + 'ot_target.py', CORE + 'operation_mode.py'], [('mode', CORE + 'ot_target_pmv.py get_operation_mode_i_n'), ('targets', CORE + 'ot_target_pmv.py get_ot_target_and_h_hum')])

prop('C05', 'Load that holds the target temperature',
     'When a room is conditioned and the free-floating operative temperature misses the target, the load reported is exactly the one that brings the room to the target; radiant equipment delivers it first and is limited to its capacity, the remainder is delivered by convection, and an unconditioned room has no load.',
     ['inputs', 'histories'], 'all combinations of mode, demand, equipment and capacity over all rooms of a house', 'Tests cover single-room combinations; several rooms of different kinds solved together are not sampled.',
     [CORE + 'next_condition.py'], [('load', CORE + 'next_condition.py calc_next_temp_and_load')])

prop('C06', 'Order of run-up and main calculation',
     'A calculation runs the ground-only run-up, hands its ground state over, runs the whole-building run-up and then the main period, each time step exactly once in order on the state left by the previous one, from the published initial state; a run-up shorter than its whole-building part is rejected.',
     ['configurations', 'histories'], 'all step widths and period lengths', 'One regression run uses one choice of periods; off-by-one and ordering errors only shift results slightly.',
     [CORE + 'core.py', CORE + 'period.py', CORE + 'conditions.py'], [('calculation', CORE + 'core.py calc'), ('steps', CORE + 'period.py get_n_step'), ('initial state', CORE + 'conditions.py')])

prop('C07', 'Complete and faithful record of each step',
     'Every main-period step stores each computed quantity in its own series at its own position, a run-up step stores nothing, and the derived series (humidity, furniture and surface heat flows, inputs repeated in the output) are computed from the stored ones by their definitions.',
     ['inputs', 'histories'], 'all steps, rooms and boundaries', 'Few recorded series are compared with anything.',
     [CORE + 'sequence.py', CORE + 'log.py'], [('per-step record', CORE + 'sequence.py run_tick'), ('pre/post record', CORE + 'log.py Logger')])

prop('C08', 'Input files reach the right parameter',
     'Every parameter of the time loop is taken from its own field of the house description or its own schedule file, for the right room or boundary, with the documented shape and unit; ground parameters are exactly those of the ground boundaries.',
     ['inputs'], 'all house descriptions and schedule files', 'The regression inputs contain equal or zero values in many fields, so exchanged fields go unnoticed.',
     [CORE + 'pre_calc_parameters.py'], [('parameter assembly', CORE + 'pre_calc_parameters.py make_pre_calc_parameters')])

prop('C10', 'Humid air and dehumidification by cooling',
     'Moisture is removed only while a room is cooled by convection, with air flow interpolated between the minimum and maximum of the unit, bypass factor and saturated coil air at the coil temperature, and never adds moisture; humidity ratio, pressure and unit ratings follow their published formulas.',
     ['inputs'], 'all loads, room temperatures, humidities and unit ratings', 'Tests sample a few loads and temperatures, not both sides of every threshold.',
     [CORE + 'heat_exchanger.py', EXT + 'psychrometrics.py', EXT + 'rac.py', EXT + 'global_number.py'],
     [('coil', CORE + 'heat_exchanger.py get_dehumid_coeff'), ('humid air', EXT + 'psychrometrics.py'), ('ratings', EXT + 'rac.py')])

prop('C11', 'Thermal comfort and occupants',
     'Predicted mean vote, clothing surface and heat transfer around an occupant follow the published formulas with the clothing, air speed and target of the mode; the target temperature inverts the vote exactly, and the sensible heat and moisture of a person always add up to the metabolic total.',
     ['inputs'], 'all temperatures, humidities, clothing and modes', 'Tests check a few points of the formulas.',
     [CORE + 'ot_target_pmv.py', CORE + 'occupants.py'], [('PMV', CORE + 'ot_target_pmv.py'), ('occupants', CORE + 'occupants.py')])

prop('C12', 'Leakage of the house',
     'Leakage air of every room follows the published correlation of floors, airtightness, ventilation balance and the temperature difference of the volume-weighted mean room air, is never negative and is shared by volume; unknown methods, floors or balances are rejected.',
     ['inputs', 'configurations'], 'all floors, pressure balances, airtightness values and temperatures', 'Tests sample one temperature per table entry.',
     [CORE + 'infiltration.py'], [('leakage', CORE + 'infiltration.py')])

prop('C13', 'Radiation and sunlight inside a room',
     'Radiant coefficients come from form factors that sum to one in each room, the mean radiant temperature weights are area times coefficient over the room total, and sunlight entering a room is split between furniture and the absorbing surfaces so that none is lost or created.',
     ['inputs'], 'all rooms and surface areas', 'Tests check single rooms with given areas.',
     [CORE + 'shape_factor.py', CORE + 'pre_calc_parameters.py'], [('form factors', CORE + 'shape_factor.py'), ('solar split', CORE + 'pre_calc_parameters.py make_pre_calc_parameters')])

prop('C14', 'Reported tables',
     'Every column of the detailed and hourly tables carries its own quantity of its own room or surface for the main period only, hourly values are means of states and sums of loads, and files are written only when requested and only into the given directory.',
     ['inputs', 'configurations'], 'all houses, all flag combinations', 'No test reads most columns.',
     [CORE + 'log.py'], [('tables', CORE + 'log.py record')])

prop('C16', 'Linear system of surface temperatures',
     'The coefficients that turn room temperatures, disturbances and radiant heat into surface temperatures and room balances are those of the published matrix derivation, in which heat reaching the boundary behind a partition is weighted by the coefficients of that boundary.',
     ['inputs'], 'all houses and boundary arrangements', 'One regression house has equal coefficients on most partitions.',
     [CORE + 'pre_calc_parameters.py'], [('coefficients', CORE + 'pre_calc_parameters.py make_pre_calc_parameters')])

prop('W01', 'Solar position', 'For every location and step of the year the solar altitude and azimuth follow the published astronomical formulas on the step\'s own day and standard time.',
     ['inputs', 'configurations'], 'all locations, all steps of the year, all interval codes', 'Tests compare a few hours of one place.', [WEA + 'solar_position.py', WEA + 'calc_interval.py'], [('solar position', WEA + 'solar_position.py calc_solar_position')])

prop('W02', 'Hourly data to calculation steps', 'Sub-hourly weather is the linear interpolation of consecutive hourly values of the region\'s own data file, the first hour of the year following hour 24 of the last day, for every quantity alike.',
     ['configurations'], 'all regions, intervals and quantities', 'Tests check a few values of one interval.', [WEA + 'weather_data.py'], [('interpolation', WEA + 'weather_data.py load')])

prop('W03', 'Weather table', 'Every column of the weather table carries its own quantity with the documented rounding on the calendar of the chosen interval, computed for the location of the region, and the file is written only when asked for.',
     ['configurations'], 'all regions, intervals and output choices', 'Tests do not compare columns with each other.', [WEA + 'weather.py'], [('table', WEA + 'weather.py make_weather')])

prop('W04', 'Locations and interval codes', 'Each climate region has its own published latitude and longitude in radians, and each interval code its number of steps per hour.',
     ['configurations'], 'all regions and interval codes', 'Tests sample regions.', [WEA + 'region_location.py', WEA + 'calc_interval.py'], [('locations', WEA + 'region_location.py')])

prop('I01', 'Fields of every boundary',
     'Every boundary handed to the time loop takes each of its properties (area, neighbour, temperature difference factor, surface coefficients, wall response, solar and floor flags) from its own entry of the house description or from the published default for its kind, and a kind has only the properties that make sense for it.',
     ['inputs'], 'all boundary kinds and all values of their fields', 'The regression house has few kinds of boundary and equal values in many fields.',
     [INI + 'boundary_simple.py', INI + 'boundary_type.py'], [('boundary', INI + 'boundary_simple.py get_boundary_simple')])

prop('I02', 'Outside-equivalent temperature',
     'The temperature that drives a boundary from outside combines outdoor air, absorbed sun, night radiation and, for windows, nothing but air and night radiation, weighted by the temperature difference factor of the boundary; a boundary that sees neither sun nor outdoor air follows its neighbour only.',
     ['inputs', 'configurations'], 'all boundary kinds, directions and weather series', 'Tests sample no boundary kind other than those of one house.',
     [INI + 'outside_eqv_temp.py', INI + 'boundary_type.py'], [('temperature', INI + 'outside_eqv_temp.py OutsideEqvTemp.create')])

prop('I03', 'Sun through windows',
     'The heat a window lets in is its normal-incidence transmittance times the angle-dependent factor for direct sun and the hemispherical factor for sky and ground, each reduced by its own shade; boundaries that are not windows or not sunlit let nothing in.',
     ['inputs', 'configurations'], 'all boundary kinds, glazings, directions and weather series', 'Tests compare one annual result.',
     [INI + 'transmission_solar_radiation.py', INI + 'oblique_incidence_charac.py'], [('gain', INI + 'transmission_solar_radiation.py'), ('glazing', INI + 'oblique_incidence_charac.py')])

prop('I04', 'Shade of overhangs',
     'The share of a surface in the shade of its overhang follows the geometry of the sun relative to the surface, lies between none and all, and is none for a surface without a shading device; a device is built only for the kinds of boundary that can carry one and unknown devices are rejected.',
     ['inputs', 'configurations'], 'all sun positions, directions and overhang dimensions', 'Tests have no overhang.',
     [INI + 'solar_shading.py'], [('shading', INI + 'solar_shading.py SolarShading')],
     note='all paths and symbolic inputs in real arithmetic; the missing-shade value is a recorded finding (F05)')

prop('I05', 'Radiation on tilted surfaces',
     'Direct, sky and ground-reflected radiation and night radiation on a surface follow from the azimuth and tilt of its own direction, the sun position and the ground reflectance; sky and ground view factors of a surface complement each other; a sun behind the surface gives it no direct radiation and a sun below the horizon adds nothing to the radiation reflected by the ground.',
     ['inputs', 'configurations'], 'all directions, all sun positions, all weather', 'Tests sample a few hours.',
     [INI + 'inclined_surface_solar_radiation.py', INI + 'external_boundaries_direction.py'], [('radiation', INI + 'inclined_surface_solar_radiation.py')])

prop('I06', 'Schedules of occupants and appliances',
     'Heat, moisture, local ventilation, people and demand for conditioning of every room come from the schedule of its own use, the household size interpolated from the floor area, and the day type of the calendar, repeated for each time step of the year.',
     ['inputs', 'configurations'], 'all room uses, floor areas, calendars', 'The regression checks one floor area and sums.',
     [INI + 'schedule_loader.py', INI + 'residents_number.py', INI + 'schedules.json'], [('schedules', INI + 'schedule_loader.py')],
     note='all paths and symbolic inputs in real arithmetic; the exchange of cooking heat and moisture is a recorded finding (F04)')

prop('I07', 'Response factors of walls',
     'The response factors of a wall or of the ground come from its own layers and films in order, by the published fit of the step response at the fixed roots: given factors are used as they are, shorter ones are padded with zeros, and asking for them changes nothing about the wall.',
     ['inputs'], 'all layer lists, walls and grounds, every call history', 'Tests compare a few constructions; repeated use of one wall is not tested.',
     [INI + 'response_factor.py'], [('factors', INI + 'response_factor.py ResponseFactor')])

prop('I08', 'Furniture, radiant shares and air tightness',
     'Heat and moisture capacity of furniture, shares of radiant heating, cooling and people on the surfaces of a room, and the air tightness estimated from the heat loss follow the published definitions for the room they belong to; the shares of each room with a floor sum to one.',
     ['inputs', 'configurations'], 'all rooms, floors, surfaces and equipment', 'Not covered by unit tests.',
     [INI + 'furniture.py', INI + 'occupants_form_factor.py', INI + 'a12_indoor_radiative_heat_transfer.py', INI + 'a22_radiative_heating_spec.py', INI + 'estimate_c_value.py'],
     [('furniture', INI + 'furniture.py'), ('shares', INI + 'occupants_form_factor.py get_f_mrt_hum_js')])

prop('I09', 'Intermediate files of a calculation',
     'The intermediate description written for the time loop holds each property of each room and boundary of the house under its own name, rooms and boundaries keep their numbering, hourly series go to the files the time loop reads, and a house whose rooms are misnumbered or leave rooms without boundaries is refused.',
     ['inputs', 'configurations'], 'all house descriptions', 'The regression reads only temperatures and loads of one house.',
     [INI + 'initializer.py'], [('intermediate files', INI + 'initializer.py make_house')])

prop('I10', 'Air flow between rooms',
     'Air flow between rooms is given to the time loop so that what a room receives from a neighbour leaves that neighbour and enters the room: mass is conserved for every list of flows.',
     ['inputs'], 'all lists of inter-room flows', 'The regression house has one flow.',
     [INI + 'initializer.py'], [('inter-room ventilation', INI + 'initializer.py _get_v_int_vent_is')],
     note='the missing return flow is a recorded finding (F02); any other deviation is reported')

prop('I11', 'Handover from initializer to time loop',
     'Whatever the initializer writes for any kind of boundary, leakage, heating and cooling can be read back by the time loop: every field the loop needs for that kind is written, under the name and type it is read with.',
     ['inputs', 'configurations'], 'all kinds of boundary, leakage, heating and cooling', 'Only the kinds of one house pass through both in the tests.',
     [INI + 'initializer.py', INI + 'boundary_simple.py', CORE + 'pre_calc_parameters.py'], [('writer', INI + 'initializer.py make_house'), ('reader', CORE + 'pre_calc_parameters.py make_pre_calc_parameters')],
     note='a room without convective cooling is a recorded finding (F06); any other field is reported')

prop('V01', 'Splitting a house into three zones',
     'Converting a house description of level 2 into level 3 shares every part, window, door and heat bridge among main occupant room, other occupant room, non-occupant room and underfloor by the published area ratios; the areas shared out add up to the original and every other property is kept.',
     ['inputs'], 'all envelopes and floor areas', 'Tests convert a handful of parts.', [CON + 'convert_lv2_to_lv3.py', CON + 'ees_house.py'], [('conversion', CON + 'convert_lv2_to_lv3.py convert_spec')])

prop('V02', 'Inner floors and walls',
     'Converting level 3 into level 4 leaves the envelope as it is and adds inner floors and walls for exactly the floor and wall area which the envelope does not already cover, never negative, between the right pair of rooms.',
     ['inputs'], 'all envelopes and floor areas, all next spaces and part types', 'Tests sample a few areas.', [CON + 'convert_lv3_to_lv4.py', CON + 'ees_house.py'], [('conversion', CON + 'convert_lv3_to_lv4.py convert_spec')])

prop('V03', 'Reading the parts of a house',
     'Every part, window, door, earth floor, heat bridge, inner floor and inner wall of a house description is built from its own fields with its own structure, layers and sunshade, and writing it back gives the description it came from; unknown kinds are rejected.',
     ['inputs', 'configurations'], 'all lists of parts of every kind', 'Tests build a few parts.', [CON + 'ees_house.py', CON + 'factor_f.py'], [('parts', CON + 'ees_house.py'), ('sunshades', CON + 'factor_f.py')])

prop('V04', 'Heat loss and solar gain of an envelope',
     'UA and the eta-A values of an envelope are the sums over all its parts of area (or length) times U (or psi) times the temperature difference coefficient of what lies behind, and times the orientation coefficient and shade of the season for solar gain, divided by the envelope area; parts that do not face the outside gain no sun.',
     ['inputs', 'configurations'], 'all parts, regions, seasons, directions and next spaces', 'Tests check a few parts; most regions, directions and seasons are never combined.',
     [CON + 'ees_house.py', CON + 'check_ua_a_eta_a.py', CON + 'factor_f.py', EXT + 'factor_nu.py', EXT + 'factor_h.py'], [('envelope', CON + 'check_ua_a_eta_a.py'), ('coefficients', EXT + 'factor_nu.py')])

prop('V05', 'U values from the indices of a house',
     'From UA and eta-A of a house the U and psi values of its parts are found by scaling the standard values of its construction so that the heat loss adds up to the one asked for, limited by the largest value of each part, and the window gain so that the solar gain adds up; the values found are given to the parts they belong to.',
     ['inputs', 'configurations'], 'all regions, constructions and indices', 'Tests convert a few houses.',
     [CON + 'get_u_psi_eta_from_u_a_and_eta_a.py', CON + 'convert_indices_to_lv2_info.py'], [('sharing', CON + 'get_u_psi_eta_from_u_a_and_eta_a.py')],
     note='region 8 is a recorded finding (F07)')

prop('V06', 'Model house from areas',
     'The model house derived from total envelope area and floor area has, for every house and floor type, the areas and lengths of the published model, scaled so that its parts add up to the envelope area that was asked for.',
     ['inputs', 'configurations'], 'all house and floor types, all areas and counts', 'Tests check totals of a few houses.', [CON + 'model_house.py', CON + 'convert_indices_to_lv2_info.py'], [('areas', CON + 'model_house.py')])

prop('V07', 'Layers of a wall from its description',
     'The layers handed on for a wall keep order, resistance and capacity of its description; a part described by its U value gets layers whose resistance together with the surface resistances gives back that U value, also as an area-weighted mix of structures.',
     ['inputs', 'configurations'], 'all structures, layer lists and U values', 'Tests have no layers.', [CON + 'convert_lv4_to_h_hlc.py', CON + 'ees_house.py'], [('layers', CON + 'ees_house.py')])

prop('V08', 'Surface resistances and floors',
     'Room-side and outer surface resistances of a part come from the published table for its type and what lies behind it, and exactly the parts underfoot count as floors that take in sun.',
     ['configurations'], 'all part types and next spaces', 'Tests sample entries.', [CON + 'a_06_common_items.py', CON + 'ees_house.py'], [('table', CON + 'a_06_common_items.py')])

prop('V09', 'Boundaries handed on by the conversion',
     'Each part, window and door of a house becomes one boundary of its own room with its own area, kind, direction, neighbour, surface properties and sunshade; a part that belongs to no room yet is not turned into a boundary.',
     ['inputs', 'configurations'], 'all kinds of part, direction and next space', 'No test reads the boundaries.', [CON + 'ees_house.py', CON + 'factor_f.py'], [('boundaries', CON + 'ees_house.py make_initializer_dict')])

prop('V10', 'Rooms handed on by the conversion',
     'A house has the rooms its floor areas call for, with volume, ventilation and neighbours computed from the floor area of each, and an underfloor space exactly as large as the parts above it.',
     ['inputs'], 'all floor areas and parts', 'No test reads the rooms.', [CON + 'convert_lv4_to_h_hlc.py'], [('rooms', CON + 'convert_lv4_to_h_hlc.py')])

prop('V11', 'Handover in the older form',
     'In the older form of the handover every orientation and neighbouring space maps to its azimuth, tilt, direction of heat flow and temperature-difference factor of the region; every glazing, single or double, named or given by value, to the solar factor published for it with its frame; and each door, inner surface, earth floor, floor edge and piece of equipment goes to the room it belongs to, once, numbered in order, with its own area and properties, while codes that are not defined are rejected.',
     ['inputs', 'configurations'], 'all orientations, regions, glazings, frames, shades and rooms; any parts', 'No test reaches these functions.',
     [CON + 'convert_lv4_to_h_hlc.py'], [('tables', CON + 'convert_lv4_to_h_hlc.py get_*'), ('distribution to rooms', CON + 'convert_lv4_to_h_hlc.py integrate_*')])

prop('E01', 'Comfort by ISO 7730',
     'PMV and PPD of the stand-alone comfort code follow ISO 7730 from activity, clothing, air and radiant temperature, air speed and humidity, with the clothing temperature iterated as published and each heat loss of the body counted once; saturation pressure has its branches over water and ice.',
     ['inputs'], 'all inputs of the comfort code', 'Nothing tests this module.', [EXT + 'iso7730.py'], [('PMV', EXT + 'iso7730.py')])

PKG = ['heat_load_calc/']

prop('C09', 'No hidden state',
     'The result of a calculation depends on its inputs only: no function changes an object it was given or a module-level object that outlives it, parameters stay constant over the time steps, no default argument or cache carries values from one call to the next, and nothing comes from the clock, chance, the environment or the order of a set.',
     ['histories', 'inputs'], 'every function of the package, every sequence of calls', 'A test runs each function once from a fresh state; a second house, a second call or another process is not tried.',
     PKG, [('effects', 'every function of heat_load_calc')], note='every function of the package; what is changed is followed through the call graph; receivers whose class the source does not tell are judged where the method is defined')

prop('X01', 'Effects on the outside world',
     'A calculation writes files only into the directory its caller named, reads only that directory and the data bundled with the package, and has no other effect on the process or the machine; importing a module of the package only defines things.',
     ['inputs', 'configurations', 'programs'], 'every function and module of the package', 'Tests use one directory and look only at the files they expect.',
     PKG, [('file effects', 'every call in heat_load_calc')], note='every call site of the package is classified by what it resolves to')

prop('X02', 'No undefined name, attribute or argument',
     'Every name, attribute and imported member that any function of the package uses exists, every call passes arguments that the called function takes and all it needs, and no local is read where no path gave it a value, so a calculation never stops for an input because of a part the tests do not reach.',
     ['inputs', 'configurations'], 'every function of the package, also the ones tests do not reach', 'Python finds these errors only on executed paths, and many kinds of house are never executed.',
     PKG, [('names, attributes and calls', 'every function of heat_load_calc')], note='every function of the package; two recorded findings (F08, F09)')

prop('X03', 'Nothing unknown is passed over',
     'A function that answers answers on every path or rejects the input: no unknown code, kind or value silently yields nothing, no error is caught and passed over, and an error that is made is raised.',
     ['inputs', 'configurations'], 'every function of the package', 'Tests feed valid codes.',
     PKG, [('answers', 'every function of heat_load_calc')], note='syntactic path analysis of every function of the package')

prop('X04', 'Bundled weather and schedule data',
     'The bundled data are whole: every region has 8760 consecutive hours of weather with values that can occur and no sun at night, and every household size, room, kind of day and quantity has 96 quarter hours, with no more people at home than live there, moisture and heat of cooking at the same times and demand that is on or off, for a calendar of 365 days.',
     ['configurations'], 'all regions, household sizes, rooms, kinds of day, quantities and times', 'Tests read a few hours of one region and sums of one schedule.',
     [WEA + 'expanded_amedas/', INI + 'schedules.json'], [('weather', WEA + 'expanded_amedas/'), ('schedules', INI + 'schedules.json')], note='every row and value of the data files')



def na(id, title, statement, over, text, why, files, mechanism, reason):
    NOT_APPLICABLE.append({'p': dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mechanism=mechanism), 'reason': reason})


NOT_APPLICABLE = []

na('N01', 'Numerical energy balance over a year', 'Over any period the heat delivered to a house equals the heat lost through its envelope and air flows plus what it stores, up to a small tolerance in floating point.',
   ['inputs', 'histories'], 'all houses and weather', 'Tests compare a few values.', [CORE + 'sequence.py'], [('time step', CORE + 'sequence.py run_tick')],
   'a bound on accumulated rounding and on the conditioning of the linear systems of a given house quantifies over run-time values; the exact balance equations are decided under C01, C02, C03 and C16 instead')
na('N02', 'Response factors reproduce the steady state', 'The response factors computed for any wall sum up to its steady heat transmission within a stated tolerance, and their step response fits the exact one.',
   ['inputs'], 'all walls', 'Tests check a handful of walls.', [INI + 'response_factor.py'], [('fit', INI + 'response_factor.py')],
   'the quality of a least-squares fit with fixed roots depends on the numbers of the wall; no static argument in reach bounds it. The formulas are decided under I07')
na('N03', 'Convergence of the iterations', 'The clothing temperature of the comfort code and the sharing of heat loss among parts converge for every admissible input and do not depend on the starting value.',
   ['inputs'], 'all admissible inputs', 'Tests converge for a few inputs.', [EXT + 'iso7730.py', CON + 'get_u_psi_eta_from_u_a_and_eta_a.py'], [('iterations', EXT + 'iso7730.py get_t_cl')],
   'convergence of a Newton iteration in floating point is a run-time property; the equation solved is decided under E01 and the sharing loop under V05')
na('N04', 'Independence of the step width', 'Halving the time step changes annual loads only within the discretisation error of the method.',
   ['configurations'], 'all step widths', 'One step width is tested.', [CORE + 'core.py'], [('calculation', CORE + 'core.py calc')],
   'a discretisation error bound is a numerical statement about trajectories; the use of the step width in each formula is decided under C01, C02, C06')
na('N05', 'Plausible temperatures and loads', 'Room temperatures stay within physical limits and loads are finite for every admissible house and weather.',
   ['inputs', 'histories'], 'all houses and weather', 'Tests run two houses.', [CORE + 'sequence.py'], [('time step', CORE + 'sequence.py run_tick')],
   'finite ranges over 35040 coupled steps depend on run-time values that no sound static bound in reach keeps tight')
