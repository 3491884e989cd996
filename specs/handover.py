"""What one part writes into the intermediate files is what the next part reads from them."""
import json
import numpy as np

from heat_load_calc.core import infiltration
from heat_load_calc.core import pre_calc_parameters
from heat_load_calc.initializer import initializer
from heat_load_calc.initializer import response_factor
from heat_load_calc.initializer.boundary_type import BoundaryType

KINDS = ['not_installed', 'convective', 'radiative']


def source(d):
    with open(d + '/mid_data_house.json') as f:
        return json.load(f)


def room(r, heating, cooling):
    return {'id': 0, 'name': r['name'], 'room_type': 'main_occupant_room', 'volume': r['volume'], 'vent': r['vent'], 'next_vent': [],
            'natural_vent_time': r['natural'], 'heating_equipment': equipment(r['heating'], heating), 'cooling_equipment': equipment(r['cooling'], cooling)}


def equipment(r, kind):
    e = {'equipment_type': kind}
    if kind == 'convective':
        e['convective'] = {'q_min': r['q_min'], 'q_max': r['q_max'], 'v_min': r['v_min'], 'v_max': r['v_max']}
    if kind == 'radiative':
        e['radiative'] = {'max_capacity': r['max_capacity'], 'area': r['area']}
    return e


CUT = ['heat_load_calc.core.shape_factor:get_h_r_js', 'heat_load_calc.core.shape_factor:get_f_mrt_is_js',
       'heat_load_calc.core.ot_target:make_get_ot_target_and_h_hum_function', 'heat_load_calc.core.infiltration:make_get_infiltration_function',
       'heat_load_calc.initializer.response_factor:ResponseFactorFactory.create']


@ob('I11', 'every kind of heating and cooling a room may have can be read back by the core', r='any', d='str', heating=KINDS, cooling=KINDS, _cut=CUT)
class rooms:
    def impl(r, d, heating, cooling):
        p = pre_calc_parameters.make_pre_calc_parameters(delta_t=900.0, data_directory=d)[0]
        w = {'boundaries': r['boundaries'], 'spaces': initializer._make_spaces_dict(rooms=[room(r, heating, cooling)])[0]}  # stands for every room of the file
        x = source(d)
        return {
            'id': readable(p.id_space_is, x, w), 'name': readable(p.name_space_is, x, w), 'volume': readable(p.v_room_is, x, w), 'beta': readable(p.beta_is, x, w),
            'heat_capacity': readable(p.c_sh_frt_is, x, w), 'heat_cond': readable(p.g_sh_frt_is, x, w),
            'moisture_capacity': readable(p.c_lh_frt_is, x, w), 'moisture_cond': readable(p.g_lh_frt_is, x, w),
            'mechanical': readable(p.v_mec_vent_is_ns, x, w), 'natural': readable(p.v_ntrl_vent_is, x, w), 'next_spaces': readable(p.v_int_vent_is_is, x, w),
            'radiative heating': readable(p.is_radiative_heating_is, x, w), 'heating capacity': readable(p.lr_h_max_cap_is, x, w),
            'radiative cooling': readable(p.is_radiative_cooling_is, x, w), 'cooling capacity': readable(p.lr_cs_max_cap_is, x, w),
            'cooling equipment': readable(p.rac_spec, x, w),
        }

    def spec(r, d, heating, cooling):
        return {
            'id': True, 'name': True, 'volume': True, 'beta': True, 'heat_capacity': True, 'heat_cond': True, 'moisture_capacity': True, 'moisture_cond': True,
            'mechanical': True, 'natural': True, 'next_spaces': True, 'radiative heating': True, 'heating capacity': True, 'radiative cooling': True,
            'cooling capacity': True, 'cooling equipment': cooling == 'convective' if known('F06') else True,
        }


@ob('I11', 'every kind of boundary can be read back by the core', s='obj:heat_load_calc.initializer.boundary_simple:BoundarySimple', e='any', d='str',
    t=['external_general_part', 'external_transparent_part', 'external_opaque_part', 'internal', 'ground'], absorbs=[True, False], _cut=CUT + [
        'heat_load_calc.initializer.occupants_form_factor:get_f_mrt_hum_is', 'heat_load_calc.initializer.a12_indoor_radiative_heat_transfer:get_flr_i_js'])
class boundaries:
    def impl(s, e, d, t, absorbs):
        s.boundary_type = BoundaryType(t)
        s.is_solar_absorbed_inside = absorbs
        entry = {'layers': e['layers'], 'u_value': e['u_value'], 'inside_heat_transfer_resistance': e['r_i'], 'outside_heat_transfer_resistance': e['r_o']}
        p, g = pre_calc_parameters.make_pre_calc_parameters(delta_t=900.0, data_directory=d)
        w = {'spaces': e['spaces'], 'boundaries': initializer._make_boundaries(bss2=[s], rooms=[{'heating_equipment': {'equipment_type': 'convective'}}], boundaries=[entry])[0]}  # stands for every boundary of the file
        x = source(d)
        return {
            'name': readable(p.name_bdry_js, x, w), 'sub_name': readable(p.sub_name_bdry_js, x, w), 'area': readable(p.a_srf_js, x, w),
            'ground': readable(p.is_ground_js, x, w), 'room': readable(p.p_is_js, x, w), 'h_c': readable(p.h_c_js, x, w), 'flr': readable(p.flr_js_is, x, w),
            'f_mrt_hum': readable(p.f_mrt_hum_is_js, x, w), 'rear': readable(p.k_ei_js_js, x, w), 'outside': readable(p.theta_dstrb_js_ns, x, w),
            'response': readable(p.phi_a0_js, x, w), 'sun': readable(p.q_sol_js_ns, x, w),
        }

    def spec(s, e, d, t, absorbs):
        return {'name': True, 'sub_name': True, 'area': True, 'ground': True, 'room': True, 'h_c': True, 'flr': True, 'f_mrt_hum': True, 'rear': True,
                'outside': True, 'response': True, 'sun': True}


@ob('I11', 'the wall of every kind of boundary has the parameters its response factors are computed from', e='any',
    s='obj:heat_load_calc.initializer.boundary_simple:BoundarySimple', t=['external_general_part', 'external_transparent_part', 'external_opaque_part', 'internal', 'ground'])
class walls:
    def impl(s, e, t):
        s.boundary_type = BoundaryType(t)
        entry = {'layers': e['layers'], 'u_value': e['u_value'], 'inside_heat_transfer_resistance': e['r_i'], 'outside_heat_transfer_resistance': e['r_o']}
        return present(response_factor.ResponseFactorFactory.create(spec=initializer._get_boundary_spec(entry, s)))

    def spec(s, e, t):
        return True


@ob('I11', 'the leakage of every kind of building can be computed from what is written about it', b='any', dt='arr',
    story=[1, 2], pressure=['positive', 'negative', 'balanced'])
class building:
    def impl(b, dt, story, pressure):
        d = initializer._make_building_dict(d={'story': story, 'c_value': b['c_value'], 'inside_pressure': pressure})
        f = infiltration.make_get_infiltration_function(rd={'building': d, 'spaces': [{'volume': b['volume']}]})
        return present(f(dt, 1.0))

    def spec(b, dt, story, pressure):
        return True
