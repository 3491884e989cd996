"""The parts of an envelope as objects: what is read is what is written back, heat loss and solar gain, the layers handed on."""
from heat_load_calc.convert import a_06_common_items
from heat_load_calc.convert import check_ua_a_eta_a as cue
from heat_load_calc.convert import factor_f
from heat_load_calc.convert.ees_house import Door
from heat_load_calc.convert.ees_house import EarthfloorCenter
from heat_load_calc.convert.ees_house import EarthfloorPerimeter
from heat_load_calc.convert.ees_house import GeneralPart
from heat_load_calc.convert.ees_house import Heatbridge
from heat_load_calc.convert.ees_house import InnerFloor
from heat_load_calc.convert.ees_house import InnerWall
from heat_load_calc.convert.ees_house import Layer
from heat_load_calc.convert.ees_house import SpaceType
from heat_load_calc.convert.ees_house import Window
from heat_load_calc.external.factor_h import NextSpace
from heat_load_calc.external.factor_nu import Direction

PART_TYPES = ['roof', 'ceiling', 'wall', 'floor', 'boundary_wall', 'upward_boundary_floor', 'downward_boundary_floor']
NEXT = ['outdoor', 'open_space', 'closed_space', 'air_conditioned', 'open_underfloor', 'closed_underfloor']
WIND = ['n', 'ne', 'e', 'se', 's', 'sw', 'w', 'nw']
DIRECTIONS = ['top', 'n', 'ne', 'e', 'se', 's', 'sw', 'w', 'nw', 'bottom', 'upward', 'horizontal', 'downward']
SUNNY = ['top', 'n', 'ne', 'e', 'se', 's', 'sw', 'w', 'nw', 'bottom']
SPACES = ['main_occupant_room', 'other_occupant_room', 'non_occupant_room', 'underfloor', 'undefined']
ROOMS = ['main_occupant_room', 'other_occupant_room', 'non_occupant_room', 'underfloor']
GLASSES = ['single', 'double', 'triple_and_more', 'unknown']
FLAMES = ['wood', 'resin', 'metal', 'wood_and_metal', 'resin_and_metal', 'unknown']
METHODS = ['conductivity', 'resistance']
SHADES = ['undefined', 'not_input', 'complex']
WINDOW_SHADES = ['undefined', 'not_input', 'not_exist', 'simple', 'complex']
SHAPE = ['x1', 'x2', 'x3', 'y1', 'y2', 'y3', 'z_x_pls', 'z_x_mns', 'z_y_pls', 'z_y_mns']
REGIONS = [1, 2, 3, 4, 5, 6, 7, 8]
SEASONS = ['heating', 'cooling']


def shade(s, kind):
    if kind == 'undefined':
        return {'is_defined': False}
    d = {'is_defined': True, 'input': kind}
    if kind == 'simple':
        for q in ['depth', 'd_h', 'd_e']:
            d[q] = s[q]
    if kind == 'complex':
        for q in SHAPE:
            d[q] = s[q]
    return d


def layer(s, method):
    d = {'name': s['name'], 'heat_resistance_input_method': method, 'thickness': s['thickness'], 'volumetric_specific_heat': s['volumetric_specific_heat']}
    if method == 'conductivity':
        d['thermal_conductivity'] = s['thermal_conductivity']
    else:
        d['thermal_resistance'] = s['thermal_resistance']
    return d


# ---- V03: reading a part and writing it back gives the same part

@ob('V03', 'sunshade of an opaque part', s='any', kind=SHADES)
class opaque_shade:
    def impl(s, kind):
        return factor_f.SunshadeOpaque.make_sunshade_opaque(shade(s, kind)).get_as_dict()

    def spec(s, kind):
        return shade(s, kind)


@ob('V03', 'sunshade of a window', s='any', kind=WINDOW_SHADES)
class window_shade:
    def impl(s, kind):
        return factor_f.SunshadeTransient.make_sunshade_transient(shade(s, kind)).get_as_dict()

    def spec(s, kind):
        return shade(s, kind)


@ob(('V03', 'V07'), 'a layer of a wall', s='any', method=METHODS)
class layers:
    def impl(s, method):
        return Layer.make_layer(layer(s, method)).get_as_dict()

    def spec(s, method):
        return layer(s, method)


def opaque(s):
    if not s['is_defined']:
        return {'is_defined': False}
    if s['input'] == 'not_input':
        return {'is_defined': True, 'input': 'not_input'}
    if s['input'] == 'complex':
        return dict({q: s[q] for q in SHAPE}, is_defined=True, input='complex')
    raise ValueError()


def transparent(s):
    if not s['is_defined']:
        return {'is_defined': False}
    if s['input'] == 'not_input' or s['input'] == 'not_exist':
        return {'is_defined': True, 'input': s['input']}
    if s['input'] == 'simple':
        return {'is_defined': True, 'input': 'simple', 'depth': s['depth'], 'd_h': s['d_h'], 'd_e': s['d_e']}
    if s['input'] == 'complex':
        return dict({q: s[q] for q in SHAPE}, is_defined=True, input='complex')
    raise KeyError()


def one_layer(d):
    h = d['heat_resistance_input_method']
    r = {'name': d['name'], 'heat_resistance_input_method': h, 'thickness': d['thickness'], 'volumetric_specific_heat': d['volumetric_specific_heat']}
    if h == 'conductivity':
        return dict(r, thermal_conductivity=d['thermal_conductivity'])
    if h == 'resistance':
        return dict(r, thermal_resistance=d['thermal_resistance'])
    raise ValueError()


def one_part(d):
    return {'name': d['name'], 'part_area_ratio': d['part_area_ratio'], 'layers': [one_layer(x) for x in d['layers']]}


def upper(d):
    return {'name': d['name'], 'next_space': d['next_space'], 'direction': d['direction'], 'area': d['area'], 'space_type': d['space_type']}


@ob('V03', 'doors of any list', ds='any')
class doors:
    def impl(ds):
        return [x.get_as_dict() for x in Door.make_doors(ds)]

    def spec(ds):
        return [dict(upper(d), sunshade=opaque(d['sunshade']), spec={'u_value': d['spec']['u_value']}) for d in ds]


@ob('V03', 'windows of any list', ds='any')
class windows:
    def impl(ds):
        return [x.get_as_dict() for x in Window.make_windows(ds)]

    def spec(ds):
        return [dict(upper(d), sunshade=transparent(d['sunshade']), spec={
            'u_value': d['spec']['u_value'], 'eta_d_h_value': d['spec']['eta_d_h_value'], 'eta_d_c_value': d['spec']['eta_d_c_value'],
            'glass_type': d['spec']['glass_type'], 'flame_type': d['spec']['flame_type']}) for d in ds]


@ob('V03', 'general parts of any list, each structure', ds='any', structure=['wood', 'rc', 'steel', 'other'])
class general_parts:
    def impl(ds, structure):
        return [x.get_as_dict() for x in GeneralPart.make_general_parts([general(d, structure) for d in ds])]

    def spec(ds, structure):
        r = []
        for d in ds:
            s = d['spec']
            if structure != 'other':
                if abs(sum([p['part_area_ratio'] for p in s['parts']]) - 1.0) > 0.000001:
                    raise ValueError()
            t = {'structure': structure}
            if structure == 'steel':
                t['u_r_value_steel'] = s['u_r_value_steel']
            if structure == 'other':
                t['u_value_other'] = s['u_value_other']
                t['weight'] = s['weight']
            else:
                t['r_srf_in'] = s['r_srf_in']
                t['r_srf_ex'] = s['r_srf_ex']
                t['parts'] = [one_part(x) for x in s['parts']]
            r.append(dict(upper(d), general_part_type=d['general_part_type'], sunshade=opaque(d['sunshade']), spec=t))
        return r


def general(d, structure):
    s = d['spec']
    t = {'structure': structure}
    if structure == 'steel':
        t['u_r_value_steel'] = s['u_r_value_steel']
    if structure == 'other':
        t['u_value_other'] = s['u_value_other']
        t['weight'] = s['weight']
    else:
        t['r_srf_in'] = s['r_srf_in']
        t['r_srf_ex'] = s['r_srf_ex']
        t['parts'] = s['parts']
    return {'name': d['name'], 'general_part_type': d['general_part_type'], 'next_space': d['next_space'], 'direction': d['direction'], 'area': d['area'],
            'space_type': d['space_type'], 'sunshade': d['sunshade'], 'spec': t}


@ob('V03', 'earth floors of any list', ps='any', cs='any')
class earthfloors:
    def impl(ps, cs):
        return ([x.get_as_dict() for x in EarthfloorPerimeter.make_earthfloor_perimeters(ps)],
                [x.get_as_dict() for x in EarthfloorCenter.make_earthfloor_centers(cs)])

    def spec(ps, cs):
        return ([{'name': d['name'], 'next_space': d['next_space'], 'length': d['length'], 'space_type': d['space_type'],
                  'spec': {'psi_value': d['spec']['psi_value']}} for d in ps],
                [{'name': d['name'], 'area': d['area'], 'space_type': d['space_type'], 'spec': {'layers': d['spec']['layers']}} for d in cs])


@ob('V03', 'heat bridges of any list', ds='any')
class heatbridges:
    def impl(ds):
        return [x.get_as_dict() for x in Heatbridge.make_heatbridges(ds)]

    def spec(ds):
        return [{'name': d['name'], 'next_spaces': [x for x in d['next_spaces']], 'directions': d['directions'], 'length': d['length'],
                 'space_type': d['space_type'], 'spec': {'psi_value': d['spec']['psi_value']}} for d in ds]


@ob('V03', 'inner floors and inner walls of any list', fs='any', ws='any')
class inner:
    def impl(fs, ws):
        return [x.get_as_dict() for x in InnerFloor.make_inner_floors(fs)], [x.get_as_dict() for x in InnerWall.make_inner_walls(ws)]

    def spec(fs, ws):
        return ([{'name': d['name'], 'area': d['area'], 'upper_space_type': d['upper_space_type'], 'lower_space_type': d['lower_space_type'],
                  'spec': {'layers': [one_layer(x) for x in d['spec']['layers']]}} for d in fs],
                [{'name': d['name'], 'area': d['area'], 'space_type_1': d['space_type_1'], 'space_type_2': d['space_type_2'],
                  'spec': {'layers': [one_layer(x) for x in d['spec']['layers']]}} for d in ws])


# ---- V04: heat loss and solar gain of an envelope

H = {'outdoor': 1.0, 'open_space': 1.0, 'closed_space': 0.7, 'open_underfloor': 0.7}
NU_HEATING = {
    'top': [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0],
    'n': [0.260, 0.263, 0.284, 0.256, 0.238, 0.261, 0.227],
    'ne': [0.333, 0.341, 0.348, 0.330, 0.310, 0.325, 0.281],
    'e': [0.564, 0.554, 0.540, 0.531, 0.568, 0.579, 0.543],
    'se': [0.823, 0.766, 0.751, 0.724, 0.846, 0.833, 0.843],
    's': [0.935, 0.856, 0.851, 0.815, 0.983, 0.936, 1.023],
    'sw': [0.790, 0.753, 0.750, 0.723, 0.815, 0.763, 0.848],
    'w': [0.535, 0.544, 0.542, 0.527, 0.538, 0.523, 0.548],
    'nw': [0.325, 0.341, 0.351, 0.326, 0.297, 0.317, 0.284],
    'bottom': [0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0],
}
NU_COOLING = {
    'top': [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0],
    'n': [0.329, 0.341, 0.335, 0.322, 0.373, 0.341, 0.307, 0.325],
    'ne': [0.430, 0.412, 0.390, 0.426, 0.437, 0.431, 0.415, 0.414],
    'e': [0.545, 0.503, 0.468, 0.518, 0.500, 0.512, 0.509, 0.515],
    'se': [0.560, 0.527, 0.487, 0.508, 0.500, 0.498, 0.490, 0.528],
    's': [0.502, 0.507, 0.476, 0.437, 0.472, 0.434, 0.412, 0.480],
    'sw': [0.526, 0.548, 0.550, 0.481, 0.520, 0.491, 0.479, 0.517],
    'w': [0.508, 0.529, 0.553, 0.481, 0.518, 0.504, 0.495, 0.505],
    'nw': [0.411, 0.428, 0.447, 0.401, 0.442, 0.427, 0.406, 0.411],
    'bottom': [0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0],
}


def diff_coefficient(region, next_space):
    if next_space in H:
        return H[next_space]
    return 0.05 if region <= 3 else 0.15


def nu(region, season, direction):
    if season == 'heating':
        return NU_HEATING[direction][region - 1]
    return NU_COOLING[direction][region - 1]


def f_overhang(region, season, direction, z, h, gap):
    if direction == 'top':
        return 1.0
    if direction == 'bottom':
        return 0.0
    south = direction in ['se', 's', 'sw']
    if season == 'heating':
        if south:
            return min(0.01 * (5 + 20 * (3 * gap + h) / z), 0.72)
        return min(0.01 * (10 + 15 * (2 * gap + h) / z), 0.72)
    if region == 8 and south:
        return min(0.01 * (16 + 19 * (2 * gap + h) / z), 0.93)
    if region != 8 and direction == 's':
        return min(0.01 * (24 + 9 * (3 * gap + h) / z), 0.93)
    return min(0.01 * (16 + 24 * (2 * gap + h) / z), 0.93)


@ob(('V04', 'V05'), 'temperature difference coefficient of each neighbouring space in each region', region=REGIONS, next_space=NEXT)
class difference:
    def impl(region, next_space):
        return NextSpace(next_space).get_h(region=region)

    def spec(region, next_space):
        return diff_coefficient(region, next_space)


@ob(('V04', 'V05'), 'orientation coefficient of each direction, region and season', region=REGIONS, season=SEASONS, direction=SUNNY)
class orientation:
    def impl(region, season, direction):
        return Direction(direction).get_nu(region=region, season=season)

    def spec(region, season, direction):
        if region == 8 and season == 'heating':
            raise ValueError()
        return nu(region, season, direction)


@ob('V04', 'effect of an overhang on the solar gain of a window', region=REGIONS, season=SEASONS, direction=SUNNY, z='scalar', h='scalar', gap='scalar', _fails=True)
class overhang:
    def impl(region, season, direction, z, h, gap):
        return factor_f.SunshadeTransientExistSimple(depth=z, d_h=h, d_e=gap).get_f(region=region, season=season, direction=Direction(direction))

    def spec(region, season, direction, z, h, gap):
        if region == 8 and season == 'heating':
            raise ValueError()
        return f_overhang(region, season, direction, z, h, gap)


@ob('V04', 'effect of an overhang that is not described', region=REGIONS, season=SEASONS, direction=SUNNY, _fails=True)
class overhang_default:
    def impl(region, season, direction):
        return factor_f.SunshadeTransientNotInput().get_f(region=region, season=season, direction=Direction(direction))

    def spec(region, season, direction):
        if region == 8 and season == 'heating':
            raise ValueError()
        return 0.51 if season == 'heating' else 0.93


def u_of(d):
    s = d['spec']
    if s['structure'] == 'other':
        return s['u_value_other']
    if abs(sum([p['part_area_ratio'] for p in s['parts']]) - 1.0) > 0.000001:
        raise ValueError()
    u = sum([p['part_area_ratio'] / (s['r_srf_in'] + sum([resistance(x) for x in p['layers']]) + s['r_srf_ex']) for p in s['parts']])
    return u + s['u_r_value_steel'] if s['structure'] == 'steel' else u


def resistance(x):
    if x['heat_resistance_input_method'] == 'conductivity':
        return x['thickness'] / x['thermal_conductivity']
    if x['heat_resistance_input_method'] == 'resistance':
        return x['thermal_resistance']
    raise ValueError()


@ob('V04', 'heat loss and solar gain of general parts', ds='any', region=[3, 6], season=SEASONS, structure=['wood', 'rc', 'steel', 'other'], next_space=NEXT, direction=['s'])
class general_loss:
    def impl(ds, region, season, structure, next_space, direction):
        ps = GeneralPart.make_general_parts([placed(general(d, structure), next_space, direction, 'not_input') for d in ds])
        return sum([p.get_q(region=region) for p in ps]), sum([p.get_m(region=region, season=season) for p in ps])

    def spec(ds, region, season, structure, next_space, direction):
        u = [u_of(general(d, structure)) for d in ds]
        h = diff_coefficient(region, next_space)
        sun = nu(region, season, direction) if next_space == 'outdoor' else 0.0
        return sum([d['area'] * x * h for d, x in zip(ds, u)]), sum([d['area'] * 0.034 * x * sun for d, x in zip(ds, u)])


def placed(d, next_space, direction, kind):
    return {'name': d['name'], 'general_part_type': d['general_part_type'], 'next_space': next_space, 'direction': direction, 'area': d['area'],
            'space_type': d['space_type'], 'sunshade': {'is_defined': True, 'input': kind}, 'spec': d['spec']}


@ob('V04', 'heat loss and solar gain of windows', ds='any', region=[3, 6, 8], season=SEASONS, next_space=NEXT, direction=['n', 's', 'sw', 'top'], kind=['simple', 'not_input'], _fails=True)
class window_loss:
    def impl(ds, region, season, next_space, direction, kind):
        ps = Window.make_windows([placed_window(d, next_space, direction, kind) for d in ds])
        return sum([p.get_q(region=region) for p in ps]), sum([p.get_m(region=region, season=season) for p in ps])

    def spec(ds, region, season, next_space, direction, kind):
        if ds and region == 8 and season == 'heating' and next_space == 'outdoor':
            raise ValueError()
        h = diff_coefficient(region, next_space)
        return sum([d['area'] * d['spec']['u_value'] * h for d in ds]), sum([window_gain(d, region, season, next_space, direction, kind) for d in ds])


def window_gain(d, region, season, next_space, direction, kind):
    if next_space != 'outdoor':
        return 0.0
    s = d['sunshade']
    eta = d['spec']['eta_d_h_value'] if season == 'heating' else d['spec']['eta_d_c_value']
    if kind == 'simple':
        f = f_overhang(region, season, direction, s['depth'], s['d_h'], s['d_e'])
    else:
        f = 0.51 if season == 'heating' else 0.93
    return eta * d['area'] * f * nu(region, season, direction)


@ob('V04', 'parts that no sun reaches need no sunshade', g='any', w='any', d='any', region=[4, 8], season=SEASONS, next_space=NEXT, direction=['n', 'downward'], _fails=True)
class sunless_parts:
    def impl(g, w, d, region, season, next_space, direction):
        p = GeneralPart.make_general_part(dict(placed(general(g, 'other'), next_space, direction, 'not_input'), sunshade={'is_defined': False}, general_part_type='wall', space_type='main_occupant_room'))
        q = Window.make_window(placed_window(w, next_space, direction, 'undefined'))
        r = Door.make_door(dict(placed_door(d, next_space, direction), sunshade={'is_defined': False}))
        return [x.get_m(region=region, season=season) for x in [p, q, r]]

    def spec(g, w, d, region, season, next_space, direction):
        if next_space == 'outdoor':
            raise ValueError()
        return [0.0, 0.0, 0.0]


def placed_window(d, next_space, direction, kind):
    s = d['spec']
    return {'name': d['name'], 'next_space': next_space, 'direction': direction, 'area': d['area'], 'space_type': 'main_occupant_room',
            'sunshade': shade(d['sunshade'], kind),
            'spec': {'u_value': s['u_value'], 'eta_d_h_value': s['eta_d_h_value'], 'eta_d_c_value': s['eta_d_c_value'], 'glass_type': 'double', 'flame_type': 'metal'}}


@ob('V04', 'heat loss and solar gain of doors', ds='any', region=[1, 5], season=SEASONS, next_space=NEXT, direction=['n', 'e', 'sw'])
class door_loss:
    def impl(ds, region, season, next_space, direction):
        ps = Door.make_doors([placed_door(d, next_space, direction) for d in ds])
        return sum([p.get_q(region=region) for p in ps]), sum([p.get_m(region=region, season=season) for p in ps])

    def spec(ds, region, season, next_space, direction):
        h = diff_coefficient(region, next_space)
        sun = nu(region, season, direction) if next_space == 'outdoor' else 0.0
        return sum([d['area'] * d['spec']['u_value'] * h for d in ds]), sum([d['area'] * 0.034 * d['spec']['u_value'] * sun for d in ds])


def placed_door(d, next_space, direction):
    return {'name': d['name'], 'next_space': next_space, 'direction': direction, 'area': d['area'], 'space_type': 'main_occupant_room',
            'sunshade': {'is_defined': True, 'input': 'not_input'}, 'spec': {'u_value': d['spec']['u_value']}}


def bridge(d, spaces, directions):
    return {'name': d['name'], 'next_spaces': spaces, 'directions': directions, 'length': d['length'], 'space_type': 'underfloor',
            'spec': {'psi_value': d['spec']['psi_value']}}


def edge(d, next_space):
    return {'name': d['name'], 'next_space': next_space, 'length': d['length'], 'space_type': 'underfloor', 'spec': {'psi_value': d['spec']['psi_value']}}


@ob('V04', 'heat loss of the edge of an earth floor', ds='any', region=[1, 5], next_space=NEXT)
class edge_loss:
    def impl(ds, region, next_space):
        return sum([p.get_q(region=region) for p in EarthfloorPerimeter.make_earthfloor_perimeters([edge(d, next_space) for d in ds])])

    def spec(ds, region, next_space):
        return sum([d['length'] * d['spec']['psi_value'] * diff_coefficient(region, next_space) for d in ds])


@ob('V04', 'heat loss and solar gain of heat bridges', ds='any', region=[2, 6], season=SEASONS, a=NEXT, b=NEXT, da=['s', 'nw'], db=['w', 'top'])
class bridge_loss:
    def impl(ds, region, season, a, b, da, db):
        ps = Heatbridge.make_heatbridges([bridge(d, [a, b], [da, db]) for d in ds])
        return sum([p.get_q(region=region) for p in ps]), sum([p.get_m(region=region, season=season) for p in ps])

    def spec(ds, region, season, a, b, da, db):
        h = (diff_coefficient(region, a) + diff_coefficient(region, b)) / 2
        sun = ((nu(region, season, da) if a == 'outdoor' else 0.0) + (nu(region, season, db) if b == 'outdoor' else 0.0)) / 2
        return sum([d['length'] * d['spec']['psi_value'] * h for d in ds]), sum([d['length'] * 0.034 * d['spec']['psi_value'] * sun for d in ds])


@ob('V04', 'UA and eta-A values of a whole envelope', e='any', region=REGIONS)
class envelope_values:
    def impl(e, region):
        return cue.check_u_a_and_eta_a(region=region, model_house_envelope=whole(e))

    def spec(e, region):
        p, w, d, f, c, b = e['parts'], e['windows'], e['doors'], e['edges'], e['centers'], e['bridges']
        a = sum([x['area'] for x in p]) + sum([x['area'] for x in w]) + sum([x['area'] for x in d]) + sum([x['area'] for x in c])
        q = (sum([x['area'] * x['spec']['u_value_other'] * diff_coefficient(region, 'closed_space') for x in p])
             + sum([x['area'] * x['spec']['u_value'] for x in w]) + sum([x['area'] * x['spec']['u_value'] for x in d])
             + sum([x['length'] * x['spec']['psi_value'] for x in f])
             + sum([x['length'] * x['spec']['psi_value'] * (1.0 + diff_coefficient(region, 'closed_space')) / 2 for x in b]))
        m = {}
        for season in ['cooling'] if region == 8 else ['heating', 'cooling']:
            m[season] = (sum([window_gain(x, region, season, 'outdoor', 's', 'simple') for x in w])
                         + sum([x['area'] * 0.034 * x['spec']['u_value'] * nu(region, season, 'e') for x in d])
                         + sum([x['length'] * 0.034 * x['spec']['psi_value'] * nu(region, season, 'n') / 2 for x in b]))
        return q / a, None if region == 8 else m['heating'] / a * 100.0, m['cooling'] / a * 100.0


def whole(e):
    return {
        'general_parts': [placed(general(x, 'other'), 'closed_space', 'horizontal', 'not_input') for x in e['parts']],
        'windows': [placed_window(x, 'outdoor', 's', 'simple') for x in e['windows']],
        'doors': [placed_door(x, 'outdoor', 'e') for x in e['doors']],
        'earthfloor_perimeters': [edge(x, 'outdoor') for x in e['edges']],
        'earthfloor_centers': [{'name': x['name'], 'area': x['area'], 'space_type': 'underfloor', 'spec': {'layers': x['spec']['layers']}} for x in e['centers']],
        'heat_bridges': [bridge(x, ['outdoor', 'closed_space'], ['n', 's']) for x in e['bridges']],
    }
