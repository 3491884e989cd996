"""Codes, kinds and methods no one knows are refused where they are read, and known ones are not."""
import math
import numpy as np
from heat_load_calc.core import infiltration
from heat_load_calc.core import ot_target_pmv
from heat_load_calc.core import pre_calc_parameters
from heat_load_calc.external import factor_nu
from heat_load_calc.external import iso7730
from heat_load_calc.external.factor_h import NextSpace
from heat_load_calc.external.factor_nu import Direction
from heat_load_calc.initializer import boundary_simple
from heat_load_calc.initializer import estimate_c_value
from heat_load_calc.initializer import external_boundaries_direction
from heat_load_calc.initializer import initializer
from heat_load_calc.initializer import oblique_incidence_charac
from heat_load_calc.initializer import outside_eqv_temp
from heat_load_calc.initializer import response_factor
from heat_load_calc.initializer import schedule_loader
from heat_load_calc.initializer import solar_shading
from heat_load_calc.initializer import transmission_solar_radiation
from heat_load_calc.weather import calc_interval
from heat_load_calc.weather import region_location
from heat_load_calc.weather import solar_position
from heat_load_calc.weather import weather_data
from heat_load_calc.convert import a_06_common_items
from heat_load_calc.convert import convert_indices_to_lv2_info as indices
from heat_load_calc.convert import factor_f
from heat_load_calc.convert import get_u_psi_eta_from_u_a_and_eta_a as get_u
from heat_load_calc.convert import model_house
from heat_load_calc.convert.ees_house import DoorSpec
from heat_load_calc.convert.ees_house import EarthfloorPerimeterSpec
from heat_load_calc.convert.ees_house import GeneralPart
from heat_load_calc.convert.ees_house import GeneralPartPart
from heat_load_calc.convert.ees_house import GeneralPartSpec
from heat_load_calc.convert.ees_house import GeneralPartType
from heat_load_calc.convert.ees_house import Heatbridge
from heat_load_calc.convert.ees_house import InnerFloor
from heat_load_calc.convert.ees_house import InnerWall
from heat_load_calc.convert.ees_house import Layer
from heat_load_calc.convert.ees_house import SpaceType
from heat_load_calc.convert.ees_house import Window
from heat_load_calc.convert.ees_house import WindowSpec

KINDS = ['external_general_part', 'external_transparent_part', 'external_opaque_part', 'internal', 'ground']
OUTSIDE = ['external_general_part', 'external_transparent_part', 'external_opaque_part']
WIND = ['n', 'ne', 'e', 'se', 's', 'sw', 'w', 'nw', 'top', 'bottom']
DIRECTIONS = WIND + ['upward', 'horizontal', 'downward']
PART_TYPES = ['roof', 'ceiling', 'wall', 'floor', 'boundary_wall', 'upward_boundary_floor', 'downward_boundary_floor']
NEXT = ['outdoor', 'open_space', 'closed_space', 'air_conditioned', 'open_underfloor', 'closed_underfloor']
SPACES = ['main_occupant_room', 'other_occupant_room', 'non_occupant_room', 'underfloor', 'undefined']
INSTALLED = ['not_installed', 'convective', 'radiative']
U_KEYS = ['roof', 'ceiling', 'wall', 'floor', 'boundary_ceiling', 'boundary_wall', 'boundary_floor', 'window', 'door', 'earthfloor_perimeter']


def one_of(x, known):
    if x not in known:
        raise ValueError()
    return True


def region_code(x):
    return one_of(x, [1, 2, 3, 4, 5, 6, 7, 8])


# ---- weather

@ob(('X03', 'W02'), 'region of the weather data', region='any', _only_fails=True)
class weather_file:
    def impl(region):
        return weather_data._get_filename(region=region)

    def spec(region):
        return region_code(region)


@ob(('X03', 'W04'), 'region of the location', region='any', _only_fails=True)
class location:
    def impl(region):
        return region_location.get_phi_loc_and_lambda_loc(region=region)

    def spec(region):
        return region_code(region)


@ob(('X03', 'W04'), 'interval of the calculation', interval='any', _only_fails=True)
class steps_per_hour:
    def impl(interval):
        return calc_interval.get_n_hour(interval)

    def spec(interval):
        return one_of(interval, ['1h', '30m', '15m'])


@ob(('X03', 'W02'), 'interval of the interpolated weather', interval=['1h', '30m', '15m', '5m', ''], data='arr', _only_fails=True)
class interpolated:
    def impl(interval, data):
        return weather_data._interpolate(weather_data=data, interval=interval)

    def spec(interval, data):
        return one_of(interval, ['1h', '30m', '15m'])


@ob('X03', 'interval of the sun position', interval=['1h', '30m', '15m', '5m', ''], phi='scalar', lam='scalar', _only_fails=True)
class sun:
    def impl(interval, phi, lam):
        return solar_position.calc_solar_position(phi_loc=phi, lambda_loc=lam, interval=interval)

    def spec(interval, phi, lam):
        return one_of(interval, ['1h', '30m', '15m'])


# ---- time loop

@ob(('X03', 'C12'), 'method, floors and pressure of the leakage', method=['balance_residential', 'other', ''], story='int', pressure='any', c='scalar', v='arr', theta_r='arr', theta_o='scalar',
    _only_fails=True)
class leakage:
    def impl(method, story, pressure, c, v, theta_r, theta_o):
        f = infiltration.make_get_infiltration_function(rd={
            'building': {'infiltration_method': method, 'story': story, 'c_value': c, 'inside_pressure': pressure}, 'spaces': [{'volume': 30.0}, {'volume': 40.0}]})
        return f(theta_r_is_n=theta_r, theta_o_n=theta_o)

    def spec(method, story, pressure, c, v, theta_r, theta_o):
        one_of(method, ['balance_residential'])
        one_of(story, [1, 2])
        return one_of(pressure, ['balanced', 'positive', 'negative'])


@ob('X03', 'method of the heat transfer around a person', mrt='arr', theta_r='arr', clo='arr', v='arr', method='any', _only_fails=True)
class around_person:
    def impl(mrt, theta_r, clo, v, method):
        return ot_target_pmv._get_h_hum(theta_mrt_is_n=mrt, theta_r_is_n=theta_r, clo_is_n=clo, v_hum_is_n=v, method=method)

    def spec(mrt, theta_r, clo, v, method):
        return one_of(method, ['convergence', 'constant'])


@ob('X03', 'state of the water below saturation', status='any', t='scalar', _only_fails=True)
class sonntag:
    def impl(status, t):
        return iso7730.saturated_vapor_pressure_SONNTAG(status=status, t=t)

    def spec(status, t):
        return one_of(status, ['water', 'ice'])


# ---- initializer

@ob('X03', 'direction of a surface', direction='any', _only_fails=True)
class direction_angles:
    def impl(direction):
        return external_boundaries_direction.get_w_alpha_j_w_beta_j(direction_j=direction)

    def spec(direction):
        return one_of(direction, WIND)


@ob('X03', 'glass of a window in direct sun', glass='any', angle='arr', _only_fails=True)
class direct_sun:
    def impl(glass, angle):
        return oblique_incidence_charac.get_tau_d_j_ns(glazing_type_j=glass, theta_aoi_j_ns=angle)

    def spec(glass, angle):
        return one_of(glass, ['single', 'multiple'])


@ob('X03', 'glass of a window under the sky', glass='any', _only_fails=True)
class diffuse_sun:
    def impl(glass):
        return oblique_incidence_charac.get_c_d_j(glazing_type_j=glass)

    def spec(glass):
        return one_of(glass, ['single', 'multiple'])


@ob('X03', 'kind of a boundary that faces the sun or its neighbour', t='any', sunny='scalar', _only_fails=True)
class eqv_temp:
    def impl(t, sunny):
        b = {'boundary_type': t, 'is_sun_striked_outside': sunny, 'direction': 's', 'outside_solar_absorption': 0.8, 'outside_emissivity': 0.9,
             'outside_heat_transfer_resistance': 0.04}
        outside_eqv_temp.OutsideEqvTemp.create(b=b)
        return True

    def spec(t, sunny):
        return one_of(t, KINDS)


@ob(('X03', 'I04'), 'kind of a boundary and of its shading device', t=KINDS + ['other', 'underfloor', ''], exists='bool', sunny='bool', method='any', _only_fails=True)
class shading_device:
    def impl(t, exists, sunny, method):
        ssp = {'existence': exists, 'input_method': method}
        for q in ['depth', 'd_h', 'd_e', 'x1', 'x2', 'x3', 'y1', 'y2', 'y3', 'z_x_pls', 'z_x_mns', 'z_y_pls', 'z_y_mns']:
            ssp[q] = 1.0
        solar_shading.SolarShading.create(b={'boundary_type': t, 'is_sun_striked_outside': sunny, 'direction': 's', 'solar_shading_part': ssp})
        return True

    def spec(t, exists, sunny, method):
        one_of(t, KINDS)
        if t in OUTSIDE and exists and sunny:
            one_of(method, ['simple', 'detail'])
        return True


@ob(('X03', 'I07'), 'kind of the wall for its response factors', t='any', method='any', _only_fails=True)
class wall_kind:
    def impl(t, method):
        response_factor.ResponseFactorFactory.create(spec={
            'method': method, 'boundary_type': t, 'layers': [], 'outside_heat_transfer_resistance': 0.1, 'u_value': 1.0, 'inside_heat_transfer_resistance': 0.1,
            'phi_t0': 0.0, 'phi_a0': 0.0, 'phi_t1': [], 'phi_a1': [], 'r': []})
        return True

    def spec(t, method):
        if method != 'response_factor':
            one_of(t, KINDS)
        return True


@ob(('X03', 'I08'), 'kind of the structure for the air tightness', struct='any', ua='scalar', _only_fails=True)
class tightness:
    def impl(struct, ua):
        return estimate_c_value.estimate_c_value(ua_value=ua, struct=estimate_c_value.Structure(struct))

    def spec(struct, ua):
        return one_of(struct, ['rc', 'src', 'wooden', 'steel'])


@ob(('X03', 'I06'), 'household size of the schedules', n_p='scalar', _only_fails=True)
class household:
    def impl(n_p):
        return schedule_loader._get_ceil_floor_np(n_p)

    def spec(n_p):
        if n_p < 1.0 or n_p > 4.0:
            raise ValueError()
        return True


@ob('X03', 'kind and neighbour of a boundary of the house', t='any', room='any', d='arr', h='arr',
    _cut=['heat_load_calc.initializer.outside_eqv_temp:OutsideEqvTemp.create', 'heat_load_calc.initializer.solar_shading:SolarShading.create',
          'heat_load_calc.initializer.transmission_solar_radiation:TransmissionSolarRadiation.create'], _only_fails=True)
class boundary_kind:
    def impl(t, room, d, h):
        b = {'id': 0, 'name': 'n', 'connected_room_id': 0, 'boundary_type': t, 'area': 1.0, 'is_sun_striked_outside': False, 'temp_dif_coef': 0.7, 'next_room_type': room,
             'rear_surface_boundary_id': 1, 'is_floor': False, 'is_solar_absorbed_inside': False, 'direction': 's', 'inside_heat_transfer_resistance': 0.11, 'h_c': 2.5}
        boundary_simple.get_boundary_simple(d, d, d, d, d, h, b)
        return True

    def spec(t, room, d, h):
        one_of(t, KINDS)
        if t == 'internal':
            one_of(room, ['main_occupant_room', 'other_occupant_room', 'non_occupant_room', 'underfloor'])
        return True


@ob(('X03', 'I09', 'I11'), 'kind of the heating and the cooling of a room', heat=INSTALLED + ['other', '', None], cool=INSTALLED + ['other', '', None], kind='any', _only_fails=True)
class equipment:
    def impl(heat, cool, kind):
        conv = {'q_min': 1.0, 'q_max': 2.0, 'v_min': 3.0, 'v_max': 4.0}
        rad = {'max_capacity': 100.0, 'area': 12.0}
        initializer._make_spaces_dict(rooms=[{
            'id': 0, 'name': '', 'room_type': 'main_occupant_room', 'volume': 1.0, 'vent': 0.0, 'next_vent': [], 'natural_vent_time': 0.0,
            'heating_equipment': {'equipment_type': heat, 'convective': conv, 'radiative': rad},
            'cooling_equipment': {'equipment_type': cool, 'convective': conv, 'radiative': rad}}])
        return True

    def spec(heat, cool, kind):
        one_of(heat, INSTALLED)
        return one_of(cool, INSTALLED)


# ---- conversion

@ob(('X03', 'V08'), 'type of a part and what lies behind it', kind='any', next_space=NEXT + ['other'], _only_fails=True)
class surfaces:
    def impl(kind, next_space):
        return a_06_common_items.get_r_surf(general_part_type=kind, next_space=next_space)

    def spec(kind, next_space):
        one_of(kind, PART_TYPES)
        if kind in ['boundary_wall', 'upward_boundary_floor', 'downward_boundary_floor']:
            one_of(next_space, ['air_conditioned'])
        if kind == 'ceiling' and next_space == 'outdoor':
            raise ValueError()
        return True


@ob('X03', 'direction and season of the orientation coefficient', direction=DIRECTIONS + ['other', ''], season='any', region='any', _only_fails=True, _may_fail=True)
class orientation:
    def impl(direction, season, region):
        return Direction(direction).get_nu(region=region, season=season)

    def spec(direction, season, region):
        one_of(direction, WIND)
        if direction not in ['top', 'bottom']:
            one_of(season, ['heating', 'cooling'])
            region_code(region)
            if season == 'heating' and region == 8:
                raise ValueError()
        return True


@ob('X03', 'what lies behind a part and the region', next_space=NEXT + ['other', ''], region='any', _only_fails=True, _may_fail=True)
class difference:
    def impl(next_space, region):
        return NextSpace(next_space).get_h(region=region)

    def spec(next_space, region):
        one_of(next_space, NEXT)
        if next_space in ['air_conditioned', 'closed_underfloor']:
            region_code(region)
        return True


@ob(('X03', 'V03'), 'sunshade of an opaque part', defined='scalar', kind='any', _only_fails=True)
class opaque_shade:
    def impl(defined, kind):
        d = {'is_defined': defined, 'input': kind}
        for q in ['x1', 'x2', 'x3', 'y1', 'y2', 'y3', 'z_x_pls', 'z_x_mns', 'z_y_pls', 'z_y_mns']:
            d[q] = 1.0
        factor_f.SunshadeOpaque.make_sunshade_opaque(d)
        return True

    def spec(defined, kind):
        if defined:
            one_of(kind, ['not_input', 'complex'])
        return True


@ob(('X03', 'V03'), 'sunshade of a window', defined='scalar', kind='any', _only_fails=True)
class window_shade:
    def impl(defined, kind):
        d = {'is_defined': defined, 'input': kind}
        for q in ['depth', 'd_h', 'd_e', 'x1', 'x2', 'x3', 'y1', 'y2', 'y3', 'z_x_pls', 'z_x_mns', 'z_y_pls', 'z_y_mns']:
            d[q] = 1.0
        factor_f.SunshadeTransient.make_sunshade_transient(d)
        return True

    def spec(defined, kind):
        if defined:
            one_of(kind, ['not_input', 'not_exist', 'simple', 'complex'])
        return True


@ob('X03', 'season of a sunshade', season='any', region='any', direction=DIRECTIONS, _only_fails=True)
class shade_season:
    def impl(season, region, direction):
        return factor_f.SunshadeTransientExistSimple(depth=1.0, d_h=1.0, d_e=1.0).get_f(region=region, season=season, direction=Direction(direction))

    def spec(season, region, direction):
        one_of(season, ['heating', 'cooling'])
        one_of(direction, WIND)
        if season == 'heating' and region == 8:
            raise ValueError()
        return True


@ob('X03', 'season of a sunshade that is not described', season='any', region='any', _only_fails=True)
class default_shade_season:
    def impl(season, region):
        return factor_f.SunshadeTransientNotInput().get_f(region=region, season=season, direction=Direction('s'))

    def spec(season, region):
        one_of(season, ['heating', 'cooling'])
        if season == 'heating' and region == 8:
            raise ValueError()
        return True


@ob('X03', 'sunshade of a window which is not defined has no effect to ask for', season='any', region='any', _only_fails=True)
class no_shade:
    def impl(season, region):
        return factor_f.SunshadeTransientNotDefined().get_f(region=region, season=season, direction=Direction('s'))

    def spec(season, region):
        raise ValueError()


@ob(('X03', 'V03', 'V07'), 'how the resistance of a layer is given', method='any', _only_fails=True)
class layer_method:
    def impl(method):
        return Layer.make_layer({'name': 'n', 'heat_resistance_input_method': method, 'thickness': 1.0, 'volumetric_specific_heat': 1.0, 'thermal_conductivity': 1.0,
                                 'thermal_resistance': 1.0}).r

    def spec(method):
        return one_of(method, ['conductivity', 'resistance'])


@ob(('X03', 'V07'), 'shares of the sections of a part add up to one', a='scalar', b='scalar', _only_fails=True)
class sections:
    def impl(a, b):
        GeneralPartPart.make_general_part_parts([{'name': 'n', 'part_area_ratio': a, 'layers': []}, {'name': 'm', 'part_area_ratio': b, 'layers': []}])
        return True

    def spec(a, b):
        if abs(a + b - 1.0) > 0.000001:
            raise ValueError()
        return True


@ob(('X03', 'V03'), 'structure of a part', structure=['wood', 'rc', 'steel', 'other', 'brick', '', None], _only_fails=True)
class structure_kind:
    def impl(structure):
        GeneralPartSpec.make_general_part_spec(
            d={'structure': structure, 'u_value_input_method': 'u_value_directly', 'u_value_other': 1.0, 'weight': 'light', 'parts': [{'name': 'n', 'part_area_ratio': 1.0, 'layers': []}], 'u_r_value_steel': 0.1, 'u_r_value': 0.1,
               'r_srf_in': 0.1, 'r_srf_ex': 0.1}, general_part_type=GeneralPartType('wall'))
        return True

    def spec(structure):
        return one_of(structure, ['wood', 'rc', 'steel', 'other'])


@ob('X03', 'season of the solar gain of a window', season='any', _only_fails=True)
class window_season:
    def impl(season):
        return WindowSpec.make_window_spec({'u_value': 1.0, 'eta_d_h_value': 0.5, 'eta_d_c_value': 0.6, 'glass_type': 'single', 'flame_type': 'metal'}).get_eta_d(season)

    def spec(season):
        return one_of(season, ['heating', 'cooling'])


@ob('X03', 'glass and frame of a window', glass='any', frame='any', _only_fails=True)
class window_material:
    def impl(glass, frame):
        WindowSpec.make_window_spec({'u_value': 1.0, 'eta_d_h_value': 0.5, 'eta_d_c_value': 0.6, 'glass_type': glass, 'flame_type': frame})
        return True

    def spec(glass, frame):
        one_of(glass, ['single', 'double', 'triple_and_more', 'unknown'])
        return one_of(frame, ['wood', 'resin', 'metal', 'wood_and_metal', 'resin_and_metal', 'unknown'])


@ob(('X03', 'V03', 'V09'), 'room a part belongs to', room=SPACES + ['other', ''], _only_fails=True)
class room_kind:
    def impl(room):
        return SpaceType(room).get_connected_id()

    def spec(room):
        return one_of(room, ['main_occupant_room', 'other_occupant_room', 'non_occupant_room', 'underfloor'])


@ob('X03', 'part and region of the standard U value', key='any', region='any', _only_fails=True)
class standard_key:
    def impl(key, region):
        return get_u.get_u_psi_std(region=region, part_type=key)

    def spec(key, region):
        one_of(key, U_KEYS)
        return region_code(region)


@ob('X03', 'part of the largest U value', key='any', _only_fails=True)
class largest_key:
    def impl(key):
        return get_u.get_u_psi_max(key)

    def spec(key):
        return one_of(key, U_KEYS)


@ob('X03', 'part whose U value is asked for', key='any', _only_fails=True)
class u_key:
    def impl(key):
        return get_u.get_u_psi(u_psi=get_u.PartType(roof=1.0, ceiling=1.0, wall=1.0, floor=1.0, boundary_wall=1.0, boundary_ceiling=1.0, boundary_floor=1.0, window=1.0, door=1.0,
                                                    earthfloor_perimeter=1.0), key=key)

    def spec(key):
        return one_of(key, U_KEYS + ['upward_boundary_floor', 'downward_boundary_floor'])


@ob(('X03', 'V06'), 'kind of house and of its floor insulation', house=['detached', 'terraced', '', None], floor=['floor', 'base', None, 'other'], bath=['floor', 'base', 'not_exist', None, 'other'],
    f='scalar', total='scalar', _only_fails=True)
class house_kind:
    def impl(house, floor, bath, f, total):
        model_house.calc_area(house_type=house, a_f_total=f, r_open=0.1, floor_ins_type=floor, bath_ins_type=bath, a_env_input=total)
        return True

    def spec(house, floor, bath, f, total):
        one_of(house, ['detached'])
        one_of(floor, ['floor', 'base'])
        one_of(bath, ['floor', 'base', 'not_exist'] if floor == 'floor' else ['floor', 'base', 'not_exist', None])
        return True


@ob('X03', 'kind of house described by its indices', house=['detached', 'attached', 'terraced', '', None], f='scalar', total='scalar', u='scalar', eta='scalar', region='int',
    _cut=['heat_load_calc.convert.get_u_psi_eta_from_u_a_and_eta_a:calc_parts_spec'], _only_fails=True)
class indices_house:
    def impl(house, f, total, u, eta, region):
        indices.convert_spec({'common': {'region': region, 'house_type': house, 'total_floor_area': f, 'main_occupant_room_floor_area': 30.0,
                                         'other_occupant_room_floor_area': 50.0},
                              'envelope': {'total_area': total, 'indices': {'u_a': u, 'eta_a_h': eta, 'eta_a_c': eta}}})
        return True

    def spec(house, f, total, u, eta, region):
        return one_of(house, ['detached', 'attached'])


@ob(('X03', 'V07'), 'weight of a part given by its U value', weight='any', kind=PART_TYPES, u='scalar', _only_fails=True)
class weight_kind:
    def impl(weight, kind, u):
        GeneralPartSpec.make_general_part_spec(d={'structure': 'other', 'u_value_other': u, 'weight': weight}, general_part_type=GeneralPartType(kind)).make_initializer_dict(
            name='n', area=1.0, u_add=0.0)
        return True

    def spec(weight, kind, u):
        return one_of(weight, ['light', 'heavy'])
