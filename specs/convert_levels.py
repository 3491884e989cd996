"""From an envelope without rooms to one with rooms, inner floors and inner walls."""
from heat_load_calc.convert import convert_lv2_to_lv3 as lv3
from heat_load_calc.convert import convert_lv3_to_lv4 as lv4
from heat_load_calc.convert.ees_house import Door
from heat_load_calc.convert.ees_house import EarthfloorCenter
from heat_load_calc.convert.ees_house import GeneralPart
from heat_load_calc.convert.ees_house import Window

ROOMS = ['main_occupant_room', 'other_occupant_room', 'non_occupant_room']
DIRECTIONS = ['top', 'n', 'ne', 'e', 'se', 's', 'sw', 'w', 'nw', 'bottom', 'upward', 'horizontal', 'downward']
GONE = {'is_defined': False}


# ---- V01: an envelope is shared between the rooms by their floor area

@ob('V01', 'every part, window, door and heat bridge is shared between three rooms, earth floors go under the floor', mr='scalar', r='scalar', total='scalar', e='any')
class shared:
    def impl(mr, r, total, e):
        return lv3.convert_spec(common={'main_occupant_room_floor_area': mr, 'other_occupant_room_floor_area': r, 'total_floor_area': total}, envelope=envelope2(e))

    def spec(mr, r, total, e):
        share = [mr / total, r / total, (total - mr - r) / total]
        b = envelope2(e)
        return {
            'input_method': 'detail_with_room_usage',
            'general_parts': [given(x, room, 'area', f) for x in b['general_parts'] for room, f in zip(ROOMS, share)],
            'windows': [given(x, room, 'area', f) for x in b['windows'] for room, f in zip(ROOMS, share)],
            'doors': [given(x, room, 'area', f) for x in b['doors'] for room, f in zip(ROOMS, share)],
            'heat_bridges': [given(x, room, 'length', f) for x in b['heat_bridges'] for room, f in zip(ROOMS, share)],
            'earthfloor_perimeters': [dict(x, space_type='underfloor') for x in b['earthfloor_perimeters']],
            'earthfloor_centers': [dict(x, space_type='underfloor') for x in b['earthfloor_centers']],
        }


def given(x, room, measure, f):
    r = dict(x, name=x['name'] + '_' + room, space_type=room)
    r[measure] = f * x[measure]
    return r


def envelope2(e):
    return {
        'general_parts': [{'name': x['name'], 'general_part_type': 'wall', 'next_space': 'outdoor', 'direction': 'sw', 'area': x['area'], 'space_type': 'undefined',
                           'sunshade': {'is_defined': True, 'input': 'not_input'},
                           'spec': {'structure': 'other', 'u_value_other': x['u'], 'weight': x['weight']}} for x in e['parts']],
        'windows': [{'name': x['name'], 'next_space': 'outdoor', 'direction': 'n', 'area': x['area'], 'space_type': 'undefined',
                     'sunshade': {'is_defined': True, 'input': 'simple', 'depth': x['depth'], 'd_h': x['d_h'], 'd_e': x['d_e']},
                     'spec': {'u_value': x['u'], 'eta_d_h_value': x['eta_h'], 'eta_d_c_value': x['eta_c'], 'glass_type': 'double', 'flame_type': 'metal'}} for x in e['windows']],
        'doors': [{'name': x['name'], 'next_space': 'open_space', 'direction': 'horizontal', 'area': x['area'], 'space_type': 'undefined', 'sunshade': GONE,
                   'spec': {'u_value': x['u']}} for x in e['doors']],
        'heat_bridges': [{'name': x['name'], 'next_spaces': ['outdoor', 'open_underfloor'], 'directions': x['directions'], 'length': x['length'], 'space_type': 'undefined',
                          'spec': {'psi_value': x['psi']}} for x in e['bridges']],
        'earthfloor_perimeters': [{'name': x['name'], 'next_space': 'open_underfloor', 'length': x['length'], 'space_type': 'undefined', 'spec': {'psi_value': x['psi']}} for x in e['edges']],
        'earthfloor_centers': [{'name': x['name'], 'area': x['area'], 'space_type': x['space'], 'spec': {'layers': x['layers']}} for x in e['centers']],
    }


# ---- V02: inner floors and inner walls

def common(mr, r, total):
    return {'main_occupant_room_floor_area': mr, 'other_occupant_room_floor_area': r, 'total_floor_area': total}


def nothing(parts, centers):
    return {'general_parts': parts, 'windows': [], 'doors': [], 'earthfloor_perimeters': [], 'earthfloor_centers': centers, 'heat_bridges': []}


def centers(ef):
    return [{'name': 'c', 'area': ef[room], 'space_type': room, 'spec': {'layers': []}} for room in ROOMS + ['underfloor']]


@ob('V02', 'inner floors from the floor areas that no envelope part fills', mr='scalar', r='scalar', total='scalar', down='any', ef='any', _fails=True)
class inner_floors:
    def impl(mr, r, total, down, ef):
        return lv4.convert_spec(common=common(mr, r, total), envelope=nothing([part(down[room], 'downward', room) for room in ROOMS], centers(ef)))['inner_floors']

    def spec(mr, r, total, down, ef):
        return floors(mr, r, total, down, ef)


def floors(mr, r, total, down, ef):
    if mr <= 0.0:
        raise ValueError()
    free = floor_free(mr, r, total, down, ef)
    a = sum([free[x] for x in ROOMS])
    u = {x: ef['underfloor'] * free[x] / a if a > 0.0 else 0.0 for x in ROOMS}
    p = {x: max(0.0, free[x] - u[x]) for x in ROOMS}
    out = []
    for x, name in zip(ROOMS, ['main', 'other', 'non']):
        if u[x] > 0.0:
            out.append(floor('inner_floor_' + name + '_to_underfloor', u[x], x, 'underfloor'))
    has = {'main_occupant_room': True, 'other_occupant_room': not (r <= 0.0), 'non_occupant_room': not (total - mr - r <= 0.0)}
    for x, name in zip(ROOMS, ['main', 'other', 'non']):
        for y, other in zip(ROOMS, ['main', 'other', 'non']):
            if x != y:
                z = [q for q in ROOMS if q != x and q != y][0]
                a = 0.0
                if has[x] and has[y]:
                    a = p[x] / 2 if has[z] else p[x]
                if a > 0.0:
                    out.append(floor('inner_floor_' + name + '_to_' + other, a, x, y))
    return out


def floor_free(mr, r, total, down, ef):
    a = {'main_occupant_room': mr, 'other_occupant_room': r, 'non_occupant_room': total - mr - r}
    return {x: max(0.0, a[x] - down[x] - ef[x]) for x in ROOMS}


def floor(name, area, upper, lower):
    return {'name': name, 'area': area, 'upper_space_type': upper, 'lower_space_type': lower, 'spec': {'layers': [
        {'name': 'plywood', 'heat_resistance_input_method': 'conductivity', 'thickness': 0.024, 'volumetric_specific_heat': 720.0, 'thermal_conductivity': 0.16}]}}


def part(area, direction, room):
    return {'name': 'p', 'general_part_type': 'wall', 'next_space': 'outdoor', 'direction': direction, 'area': area, 'space_type': room, 'sunshade': GONE,
            'spec': {'structure': 'other', 'u_value_other': 1.0, 'weight': 'light'}}


@ob('V02', 'inner walls from the walls that no envelope part fills', mr='scalar', r='scalar', total='scalar', out='any', _fails=True)
class inner_walls:
    def impl(mr, r, total, out):
        return lv4.convert_spec(common=common(mr, r, total), envelope=nothing([part(out[room], 'e', room) for room in ROOMS], []))['inner_walls']

    def spec(mr, r, total, out):
        return walls(mr, r, total, out)


def walls(mr, r, total, out):
    if mr <= 0.0:
        raise ValueError()
    n = total - mr - r
    m, o, k = [max(0.0, 4 * f * 2.8 * a ** 0.5 - out[x]) for f, a, x in zip([1.2, 1.4, 1.4], [mr, r, n], ROOMS)]
    if r <= 0.0 and n <= 0.0:
        mo, mk, ok = 0.0, 0.0, 0.0
    elif r <= 0.0:
        mo, mk, ok = 0.0, (m + k) / 2, 0.0
    elif n <= 0.0:
        mo, mk, ok = (m + o) / 2, 0.0, 0.0
    else:
        mo, mk, ok = max(0.0, (m + o - k) / 2), max(0.0, (m + k - o) / 2), max(0.0, (o + k - m) / 2)
    ws = []
    if mo > 0.0:
        ws.append(wall('inner_wall_main_to_other', mo, ROOMS[0], ROOMS[1]))
    if mk > 0.0:
        ws.append(wall('inner_wall_main_to_non', mk, ROOMS[0], ROOMS[2]))
    if ok > 0.0:
        ws.append(wall('inner_wall_other_to_non', ok, ROOMS[1], ROOMS[2]))
    return ws


def wall(name, area, a, b):
    board = {'name': 'gpb', 'heat_resistance_input_method': 'conductivity', 'thickness': 0.0125, 'volumetric_specific_heat': 830.0, 'thermal_conductivity': 0.22}
    air = {'name': 'air_layer', 'heat_resistance_input_method': 'resistance', 'thickness': 0.12, 'volumetric_specific_heat': 0.0, 'thermal_resistance': 0.09}
    return {'name': name, 'area': area, 'space_type_1': a, 'space_type_2': b, 'spec': {'layers': [board, air, board]}}


@ob('V02', 'which parts count as floor and wall of a room', ds='any', direction=DIRECTIONS, room=ROOMS + ['underfloor'])
class counted:
    def impl(ds, direction, room):
        d = lv4.convert_spec(common=common(30.0, 40.0, 100.0), envelope=dict(
            nothing([part(d['area'], direction, room) for d in ds], []),
            windows=[window(d['area'], direction, room) for d in ds], doors=[door(d['area'], direction, room) for d in ds]))
        return d['inner_floors'], d['inner_walls']

    def spec(ds, direction, room):
        a = 3 * sum([d['area'] for d in ds])
        down = direction in ['bottom', 'downward']
        side = direction in ['n', 'ne', 'e', 'se', 's', 'sw', 'w', 'nw', 'horizontal']
        return (floors(30.0, 40.0, 100.0, {x: a if down and x == room else 0 for x in ROOMS}, {x: 0 for x in ROOMS + ['underfloor']}),
                walls(30.0, 40.0, 100.0, {x: a if side and x == room else 0 for x in ROOMS}))


def window(area, direction, room):
    return {'name': 'w', 'next_space': 'outdoor', 'direction': direction, 'area': area, 'space_type': room, 'sunshade': GONE,
            'spec': {'u_value': 1.0, 'eta_d_h_value': 0.5, 'eta_d_c_value': 0.5, 'glass_type': 'double', 'flame_type': 'metal'}}


def door(area, direction, room):
    return {'name': 'd', 'next_space': 'outdoor', 'direction': direction, 'area': area, 'space_type': room, 'sunshade': GONE, 'spec': {'u_value': 1.0}}


@ob('V02', 'the envelope itself is handed on as it is, with inner floors and walls added', mr='scalar', r='scalar', total='scalar', e='any')
class handed_on:
    def impl(mr, r, total, e):
        d = lv4.convert_spec(common={'main_occupant_room_floor_area': mr, 'other_occupant_room_floor_area': r, 'total_floor_area': total}, envelope=envelope3(e))
        return {q: d[q] for q in ['general_parts', 'windows', 'doors', 'earthfloor_perimeters', 'earthfloor_centers', 'heat_bridges']}

    def spec(mr, r, total, e):
        if mr <= 0.0:
            raise ValueError()
        return envelope3(e)


def envelope3(e):
    b = envelope2(e)
    return {
        'general_parts': [dict(x, space_type='non_occupant_room') for x in b['general_parts']],
        'windows': [dict(x, space_type='main_occupant_room') for x in b['windows']],
        'doors': [dict(x, space_type='other_occupant_room') for x in b['doors']],
        'earthfloor_perimeters': [dict(x, space_type='underfloor') for x in b['earthfloor_perimeters']],
        'earthfloor_centers': b['earthfloor_centers'],
        'heat_bridges': [dict(x, space_type='main_occupant_room') for x in b['heat_bridges']],
    }
