"""What the parts of an envelope become as boundaries of the calculation: layers, resistances, coefficients, rooms and their air."""
from heat_load_calc.convert import a_06_common_items
from heat_load_calc.convert import convert_lv4_to_h_hlc as lv4
from heat_load_calc.convert import factor_f
from heat_load_calc.convert.ees_house import Door
from heat_load_calc.convert.ees_house import GeneralPart
from heat_load_calc.convert.ees_house import GeneralPartSpec
from heat_load_calc.convert.ees_house import GeneralPartType
from heat_load_calc.convert.ees_house import Layer
from heat_load_calc.convert.ees_house import SpaceType
from heat_load_calc.convert.ees_house import Window

PART_TYPES = ['roof', 'ceiling', 'wall', 'floor', 'boundary_wall', 'upward_boundary_floor', 'downward_boundary_floor']
NEXT = ['outdoor', 'open_space', 'closed_space', 'air_conditioned', 'open_underfloor', 'closed_underfloor']
DIRECTIONS = ['top', 'n', 'ne', 'e', 'se', 's', 'sw', 'w', 'nw', 'bottom', 'upward', 'horizontal', 'downward']
SPACES = ['main_occupant_room', 'other_occupant_room', 'non_occupant_room', 'underfloor']
GLASSES = ['single', 'double', 'triple_and_more', 'unknown']
SHAPE = ['x1', 'x2', 'x3', 'y1', 'y2', 'y3', 'z_x_pls', 'z_x_mns', 'z_y_pls', 'z_y_mns']
REGIONS = [1, 2, 3, 4, 5, 6, 7, 8]

R_IN = {'roof': 0.09, 'ceiling': 0.09, 'wall': 0.11, 'floor': 0.15, 'boundary_wall': 0.11, 'upward_boundary_floor': 0.09, 'downward_boundary_floor': 0.15}
R_EX = {'roof': 0.04, 'ceiling': 0.09, 'wall': 0.04, 'floor': 0.15, 'boundary_wall': 0.11, 'upward_boundary_floor': 0.09, 'downward_boundary_floor': 0.15}
BOARD = ('gypsum_board', 0.0095, 0.221, 830.0)
PLY12 = ('plywood', 0.012, 0.16, 720.0)
PLY24 = ('plywood', 0.024, 0.16, 720.0)
CONCRETE = ('concrete', 0.12, 1.6, 2000.0)
BUILD = {
    'light': {
        'roof': [BOARD, None], 'ceiling': [BOARD, None], 'wall': [BOARD, None, PLY12], 'floor': [PLY24, None],
        'boundary_wall': [BOARD, None, BOARD], 'upward_boundary_floor': [BOARD, None, PLY24], 'downward_boundary_floor': [PLY24, None, BOARD]},
    'heavy': {
        'roof': [BOARD, None, CONCRETE], 'ceiling': [BOARD, None, CONCRETE], 'wall': [BOARD, None, CONCRETE], 'floor': [PLY24, None, CONCRETE],
        'boundary_wall': [BOARD, None, BOARD], 'upward_boundary_floor': [BOARD, CONCRETE, None, PLY24], 'downward_boundary_floor': [PLY24, None, CONCRETE, BOARD]},
}


def resistance(x):
    if x['heat_resistance_input_method'] == 'conductivity':
        return x['thickness'] / x['thermal_conductivity']
    if x['heat_resistance_input_method'] == 'resistance':
        return x['thermal_resistance']
    raise ValueError()


# ---- V07: the layers handed on keep the heat loss asked for

@ob(('V07', 'V08'), 'a layer keeps its capacity and carries the adjusted resistance', d='any', share='scalar', method=['conductivity', 'resistance'])
class one_layer:
    def impl(d, share, method):
        return Layer.make_layer(layer(d, method)).make_initializer_dict(r_res_sub=share)

    def spec(d, share, method):
        r = d['thickness'] / d['thermal_conductivity'] if method == 'conductivity' else d['thermal_resistance']
        return {'name': d['name'], 'thermal_resistance': r * share, 'thermal_capacity': d['thickness'] * d['volumetric_specific_heat']}


def layer(s, method):
    d = {'name': s['name'], 'heat_resistance_input_method': method, 'thickness': s['thickness'], 'volumetric_specific_heat': s['volumetric_specific_heat']}
    if method == 'conductivity':
        d['thermal_conductivity'] = s['thermal_conductivity']
    else:
        d['thermal_resistance'] = s['thermal_resistance']
    return d


@ob(('V07', 'V09'), 'layers of a part described by its layers', s='any', u_add='scalar', name='str', area='scalar', structure=['wood', 'rc', 'steel'])
class detailed:
    def impl(s, u_add, name, area, structure):
        return GeneralPartSpec.make_general_part_spec(d=described(s, structure), general_part_type=GeneralPartType('wall')).make_initializer_dict(name=name, area=area, u_add=u_add)

    def spec(s, u_add, name, area, structure):
        if abs(sum([p['part_area_ratio'] for p in s['parts']]) - 1.0) > 0.000001:
            raise ValueError()
        extra = u_add + s['u_r_value_steel'] if structure == 'steel' else u_add
        r = []
        for p in s['parts']:
            total = sum([resistance(x) for x in p['layers']])
            target = 1 / (1 / (s['r_srf_in'] + total + s['r_srf_ex']) + extra) - s['r_srf_in'] - s['r_srf_ex']
            r.append({'name': name + '_' + p['name'], 'area': area * p['part_area_ratio'],
                      'layers': [{'name': x['name'], 'thermal_resistance': resistance(x) * (target / total), 'thermal_capacity': x['thickness'] * x['volumetric_specific_heat']} for x in p['layers']],
                      'inside_heat_transfer_resistance': s['r_srf_in'], 'outside_heat_transfer_resistance': s['r_srf_ex']})
        return r


def described(s, structure):
    d = {'structure': structure, 'r_srf_in': s['r_srf_in'], 'r_srf_ex': s['r_srf_ex'], 'parts': s['parts']}
    if structure == 'steel':
        d['u_r_value_steel'] = s['u_r_value_steel']
    return d


@ob(('V07', 'V09'), 'layers of a part described by its U value', u='scalar', u_add='scalar', name='str', area='scalar', kind=PART_TYPES, weight=['light', 'heavy'])
class by_u_value:
    def impl(u, u_add, name, area, kind, weight):
        return GeneralPartSpec.make_general_part_spec(
            d={'structure': 'other', 'u_value_other': u, 'weight': weight}, general_part_type=GeneralPartType(kind)).make_initializer_dict(name=name, area=area, u_add=u_add)

    def spec(u, u_add, name, area, kind, weight):
        plan = BUILD[weight][kind]
        rest = sum([p[1] / p[2] for p in plan if p is not None])
        ins = max(1 / u - R_IN[kind] - R_EX[kind] - rest, 0.0)
        t = ins * 0.045
        total = sum([t / 0.045 if p is None else p[1] / p[2] for p in plan])
        target = 1 / (1 / (R_IN[kind] + total + R_EX[kind]) + u_add) - R_IN[kind] - R_EX[kind]
        layers = [{'name': 'default_insulation' if p is None else p[0],
                   'thermal_resistance': (t / 0.045 if p is None else p[1] / p[2]) * (target / total),
                   'thermal_capacity': t * 13.0 if p is None else p[1] * p[3]} for p in plan]
        return [{'name': name + '_sole_part', 'area': area, 'layers': layers, 'inside_heat_transfer_resistance': R_IN[kind], 'outside_heat_transfer_resistance': R_EX[kind]}]


# ---- V08: surface resistances of each part

@ob(('V08', 'V07', 'V09'), 'surface resistances of a part from its type and what lies behind', kind=PART_TYPES, next_space=NEXT, _fails=True)
class surface:
    def impl(kind, next_space):
        return a_06_common_items.get_r_surf(general_part_type=kind, next_space=next_space)

    def spec(kind, next_space):
        if kind in ['boundary_wall', 'upward_boundary_floor', 'downward_boundary_floor']:
            if next_space != 'air_conditioned':
                raise ValueError()
        if kind == 'ceiling' and next_space == 'outdoor':
            raise ValueError()
        return R_IN[kind], 0.04 if next_space == 'outdoor' else R_IN[kind]


@ob(('V08', 'V07'), 'surface resistances and U value of a part described by its U value', u='scalar', kind=PART_TYPES, weight=['light', 'heavy'])
class u_part:
    def impl(u, kind, weight):
        s = GeneralPartSpec.make_general_part_spec(d={'structure': 'other', 'u_value_other': u, 'weight': weight}, general_part_type=GeneralPartType(kind))
        return s.r_srf_in, s.r_srf_ex, s.get_u(), s.get_eta()

    def spec(u, kind, weight):
        return R_IN[kind], R_EX[kind], u, 0.034 * u


@ob(('V08', 'V09'), 'which parts are floors and take in sun from inside', kind=PART_TYPES)
class floors:
    def impl(kind):
        return GeneralPartType(kind).get_is_floor(), GeneralPartType(kind).get_is_solar_absorbed_inside()

    def spec(kind):
        f = kind in ['floor', 'downward_boundary_floor']
        return f, f


# ---- V09: boundaries of the calculation made from the parts

def diff_coefficient(region, next_space):
    if next_space in ['outdoor', 'open_space']:
        return 1.0
    if next_space in ['closed_space', 'open_underfloor']:
        return 0.7
    return 0.05 if region <= 3 else 0.15


def shade(s, kind):
    if kind == 'undefined':
        return {'is_defined': False}
    d = {'is_defined': True, 'input': kind}
    if kind == 'simple':
        for q in ['depth', 'd_h', 'd_e']:
            d[q] = s[q]
    if kind == 'complex':
        for q in SHAPE:
            d[q] = s[q]
    return d


def shade_out(s, kind):
    if kind in ['undefined', 'not_exist']:
        return {'existence': False}
    if kind == 'simple':
        return {'existence': True, 'input_method': 'simple', 'depth': s['depth'], 'd_h': s['d_h'], 'd_e': s['d_e']}
    if kind == 'complex':
        return dict({q: s[q] for q in SHAPE}, existence=True, input_method='detailed')
    return {'existence': True, 'input_method': 'default'}


@ob('V09', 'sunshade of an opaque boundary', s='any', kind=['undefined', 'not_input', 'complex'])
class opaque_shade:
    def impl(s, kind):
        return factor_f.SunshadeOpaque.make_sunshade_opaque(shade(s, kind)).make_initializer_dict()

    def spec(s, kind):
        return {'existence': False} if kind == 'not_input' else shade_out(s, kind)


@ob('V09', 'sunshade of a transparent boundary', s='any', kind=['undefined', 'not_input', 'not_exist', 'simple', 'complex'])
class window_shade:
    def impl(s, kind):
        return factor_f.SunshadeTransient.make_sunshade_transient(shade(s, kind)).make_initializer_dict()

    def spec(s, kind):
        return shade_out(s, kind)


def facing(d, next_space, direction):
    return dict(d, direction=direction) if next_space == 'outdoor' else d


@ob('V09', 'boundaries of a general part', d='any', u_add='scalar', region=[2, 7], kind=['wall', 'floor'], next_space=NEXT, direction=['top', 'sw'], space=['non_occupant_room'])
class part_boundary:
    def impl(d, u_add, region, kind, next_space, direction, space):
        return GeneralPart.make_general_part(part(d, kind, next_space, direction, space)).make_initializer_dict(u_add=u_add, region=region)

    def spec(d, u_add, region, kind, next_space, direction, space):
        r = []
        s = d['spec']
        if abs(sum([p['part_area_ratio'] for p in s['parts']]) - 1.0) > 0.000001:
            raise ValueError()
        for p in s['parts']:
            total = sum([resistance(x) for x in p['layers']])
            target = 1 / (1 / (s['r_srf_in'] + total + s['r_srf_ex']) + u_add) - s['r_srf_in'] - s['r_srf_ex']
            b = {
                'name': d['name'] + '_' + p['name'],
                'connected_room_id': SPACES.index(space),
                'boundary_type': 'external_general_part',
                'area': d['area'] * p['part_area_ratio'],
                'is_sun_striked_outside': next_space == 'outdoor',
                'temp_dif_coef': diff_coefficient(region, next_space),
                'is_solar_absorbed_inside': kind in ['floor', 'downward_boundary_floor'],
                'inside_heat_transfer_resistance': s['r_srf_in'],
                'outside_heat_transfer_resistance': s['r_srf_ex'],
                'outside_emissivity': 0.9,
                'outside_solar_absorption': 0.8,
                'layers': [{'name': x['name'], 'thermal_resistance': resistance(x) * (target / total), 'thermal_capacity': x['thickness'] * x['volumetric_specific_heat']} for x in p['layers']],
                'solar_shading_part': {'existence': False},
            }
            r.append(facing(b, next_space, direction))
        return r


@ob('V09', 'boundaries of a general part of each type in each room', d='any', u_add='scalar', region=[6], kind=PART_TYPES, next_space=['outdoor'], direction=['s'], space=SPACES)
class part_room:
    def impl(d, u_add, region, kind, next_space, direction, space):
        return GeneralPart.make_general_part(part(d, kind, next_space, direction, space)).make_initializer_dict(u_add=u_add, region=region)

    def spec(d, u_add, region, kind, next_space, direction, space):
        r = []
        s = d['spec']
        if abs(sum([p['part_area_ratio'] for p in s['parts']]) - 1.0) > 0.000001:
            raise ValueError()
        for p in s['parts']:
            total = sum([resistance(x) for x in p['layers']])
            target = 1 / (1 / (s['r_srf_in'] + total + s['r_srf_ex']) + u_add) - s['r_srf_in'] - s['r_srf_ex']
            b = {
                'name': d['name'] + '_' + p['name'],
                'connected_room_id': SPACES.index(space),
                'boundary_type': 'external_general_part',
                'area': d['area'] * p['part_area_ratio'],
                'is_sun_striked_outside': next_space == 'outdoor',
                'temp_dif_coef': diff_coefficient(region, next_space),
                'is_solar_absorbed_inside': kind in ['floor', 'downward_boundary_floor'],
                'inside_heat_transfer_resistance': s['r_srf_in'],
                'outside_heat_transfer_resistance': s['r_srf_ex'],
                'outside_emissivity': 0.9,
                'outside_solar_absorption': 0.8,
                'layers': [{'name': x['name'], 'thermal_resistance': resistance(x) * (target / total), 'thermal_capacity': x['thickness'] * x['volumetric_specific_heat']} for x in p['layers']],
                'solar_shading_part': {'existence': False},
            }
            r.append(facing(b, next_space, direction))
        return r


def part(d, kind, next_space, direction, space):
    s = d['spec']
    return {'name': d['name'], 'general_part_type': kind, 'next_space': next_space, 'direction': direction, 'area': d['area'], 'space_type': space,
            'sunshade': {'is_defined': True, 'input': 'not_input'},
            'spec': {'structure': 'rc', 'r_srf_in': s['r_srf_in'], 'r_srf_ex': s['r_srf_ex'], 'parts': s['parts']}}


@ob('V09', 'boundary of a window', d='any', region=[1, 5], next_space=NEXT, direction=['top', 'sw', 'horizontal'], space=SPACES, glass=GLASSES, kind=['undefined', 'simple'])
class window_boundary:
    def impl(d, region, next_space, direction, space, glass, kind):
        s = d['spec']
        return Window.make_window({
            'name': d['name'], 'next_space': next_space, 'direction': direction, 'area': d['area'], 'space_type': space, 'sunshade': shade(d['sunshade'], kind),
            'spec': {'u_value': s['u_value'], 'eta_d_h_value': s['eta_d_h_value'], 'eta_d_c_value': s['eta_d_c_value'], 'glass_type': glass, 'flame_type': 'resin'},
        }).make_initializer_dict(region=region)

    def spec(d, region, next_space, direction, space, glass, kind):
        s = d['spec']
        return facing({
            'name': d['name'],
            'connected_room_id': SPACES.index(space),
            'boundary_type': 'external_transparent_part',
            'area': d['area'],
            'is_sun_striked_outside': next_space == 'outdoor',
            'temp_dif_coef': diff_coefficient(region, next_space),
            'is_solar_absorbed_inside': False,
            'inside_heat_transfer_resistance': 0.13,
            'outside_heat_transfer_resistance': 0.04,
            'outside_emissivity': 0.9,
            'eta_d_h_value': s['eta_d_h_value'],
            'eta_d_c_value': s['eta_d_c_value'],
            'u_value': s['u_value'],
            'incident_angle_characteristics': glass,
            'solar_shading_part': shade_out(d['sunshade'], kind),
        }, next_space, direction)


@ob('V09', 'boundary of a door', d='any', region=[3, 4], next_space=NEXT, direction=['n', 'horizontal'], space=SPACES)
class door_boundary:
    def impl(d, region, next_space, direction, space):
        return Door.make_door({
            'name': d['name'], 'next_space': next_space, 'direction': direction, 'area': d['area'], 'space_type': space,
            'sunshade': {'is_defined': False}, 'spec': {'u_value': d['spec']['u_value']},
        }).make_initializer_dict(region=region)

    def spec(d, region, next_space, direction, space):
        return {
            'name': d['name'],
            'connected_room_id': SPACES.index(space),
            'boundary_type': 'external_opaque_part',
            'area': d['area'],
            'is_sun_striked_outside': next_space == 'outdoor',
            'temp_dif_coef': diff_coefficient(region, next_space),
            'is_solar_absorbed_inside': False,
            'direction': direction,
            'inside_heat_transfer_resistance': 0.13,
            'outside_heat_transfer_resistance': 0.04,
            'outside_emissivity': 0.9,
            'outside_solar_absorption': 0.8,
            'u_value': d['spec']['u_value'],
            'solar_shading_part': {'existence': False},
        }


@ob('V09', 'a part that belongs to no room yet is not handed on', d='any', _fails=True)
class homeless:
    def impl(d):
        return SpaceType('undefined').get_connected_id()

    def spec(d):
        raise ValueError()


# ---- V10: rooms of a house and the air they get

@ob('V10', 'rooms that exist, their volumes and their air', a_a='scalar', a_mr='scalar', a_or='scalar', a_nr='scalar', a_uf='scalar', n='scalar', v_mr='scalar', v_or='scalar', _fails=True)
class rooms:
    def impl(a_a, a_mr, a_or, a_nr, a_uf, n, v_mr, v_or):
        return lv4.make_initial_rooms(a_a=a_a, a_mr=a_mr, a_or=a_or, a_nr=a_nr, a_uf=a_uf, n=n, v_nv_mr=v_mr, v_nv_or=v_or)

    def spec(a_a, a_mr, a_or, a_nr, a_uf, n, v_mr, v_or):
        if a_mr <= 0.0:
            raise ValueError()
        v = a_a * 2.4 * n * 1.1
        mr = v * a_mr / (a_mr + a_or)
        r = v * a_or / (a_mr + a_or)
        flows = [{'upstream_room_name': 'main', 'volume': mr}]
        if a_or > 0.0:
            flows = flows + [{'upstream_room_name': 'other', 'volume': r}]
        return (room('main_occupant_room', a_mr * 2.4, mr, [], v_mr),
                room('other_occupant_room', a_or * 2.4, r, [], v_or) if a_or > 0.0 else None,
                room('non_occupant_room', a_nr * 2.4, 0.0, flows, 0.0) if a_nr > 0.0 else None,
                room('underfloor', a_uf * 0.4, 0.0, [], 0.0) if a_uf > 0.0 else None)


def room(kind, volume, vent, flows, natural):
    return {'name': kind, 'room_type': kind, 'volume': volume, 'vent': vent, 'next_vent': flows, 'c_value': 5.0, 'natural_vent_time': natural, 'boundaries': []}


@ob(('V10', 'V09'), 'area under the floor', ecs='any')
class underfloor:
    def impl(ecs):
        return lv4.get_a_uf(ecs=ecs)

    def spec(ecs):
        return sum([x['area'] for x in ecs if x['space_type'] == 'underfloor'])
