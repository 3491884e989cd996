"""The older form of the handover: rooms that carry their surfaces, directions with angles, glazings named by their make."""
from heat_load_calc.convert import convert_lv4_to_h_hlc as lv4

OPEN = ['Top', 'N', 'NE', 'E', 'SE', 'S', 'SW', 'W', 'NW', 'Bottom']
CLOSED = ['ClosedSpace', 'OpenBackFloor', 'ResidenceSpace', 'ClosedBackFloor']
SIDES = OPEN + CLOSED
ANGLE = {'N': 180, 'NE': -135, 'E': -90, 'SE': -45, 'S': 0, 'SW': 45, 'W': 90, 'NW': 135}
REGIONS = [1, 2, 3, 4, 5, 6, 7, 8]
ROOMS = ['main_occupant_room', 'other_occupant_room', 'non_occupant_room', 'underfloor']
INNER = ['InnerCeiling', 'InnerWall', 'InnerFloor', 'GroundFloor']
FRAMES = ['WoodOrResin', 'Steel']
SHADES = ['None', 'Shoji', 'ExtarnalBlind']
CODES = ['top', 'n', 'ne', 'e', 'se', 's', 'sw', 'w', 'nw', 'bottom', 'upward', 'horizontal', 'downward']
GLASS = {
    '3WgG': (0.54, 0.34, 0.12), '3WsG': (0.33, 0.22, 0.08), '3LgG': (0.59, 0.37, 0.14), '3LsG': (0.37, 0.25, 0.10),
    '2LgG': (0.64, 0.38, 0.15), '2LsG': (0.40, 0.26, 0.11),
}
KINDS_2 = ['2FAheatreflect1', '2FAheatreflect2', '2FAheatreflect3', '2FAheatabsorb2', '2FAmulti', '2FAsingle']
KINDS_1 = ['Theatreflect1', 'Theatreflect2', 'Theatreflect3', 'Theatabsorb2', 'Tsingle']
GLASSES = ['3WgG', '3WsG', '3LgG', '3LsG', '2LgG', '2LsG'] + KINDS_2 + KINDS_1


# ---- directions

@ob('V11', 'azimuth of an orientation', side=SIDES + ['?'], _fails=True)
class azimuth:
    def impl(side):
        return lv4.get_directionangle_from_direction(side)

    def spec(side):
        if side not in SIDES:
            raise KeyError()
        return ANGLE[side] if side in ANGLE else None


@ob('V11', 'tilt of an orientation', side=SIDES + ['?'], _fails=True)
class tilt:
    def impl(side):
        return lv4.get_inclinationangle_from_direction(side)

    def spec(side):
        if side not in SIDES:
            raise KeyError()
        return inclination(side)


def inclination(side):
    if side == 'Top':
        return 0
    if side == 'Bottom':
        return 180
    return 90 if side in OPEN else None


@ob('V11', 'share of the outdoor temperature behind a surface', region=REGIONS, side=SIDES + ['?'], _fails=True)
class factor:
    def impl(region, side):
        return lv4.get_tempdifferentfactor_from_direction(region, side)

    def spec(region, side):
        if side not in SIDES:
            raise KeyError()
        return share(region, side)


def share(region, side):
    if side in OPEN:
        return 1.0
    if side == 'ClosedSpace' or side == 'OpenBackFloor':
        return 0.7
    return 0.05 if region <= 3 else 0.15


@ob('V11', 'what an outer surface faces', region=REGIONS, space=['Outdoor'] + SIDES, side=SIDES)
class outer:
    def impl(region, space, side):
        return lv4.get_boundary_for_outer_skin(region, space, side)

    def spec(region, space, side):
        return facing(region, space, side)


def facing(region, space, side):
    behind = side if space == 'Outdoor' else space
    if behind in OPEN:
        return {'name': side, 'Type': 'Outdoor', 'DirectionAngle': ANGLE[behind] if behind in ANGLE else None, 'InclinationAngle': inclination(behind), 'GroundReflectRate': 0.1}
    return {'name': side, 'Type': 'DeltaTCoeff', 'TempDifferFactor': share(region, behind)}


@ob('V11', 'what the edge of an earth floor faces', region=REGIONS, side=SIDES + ['?'], _fails=True)
class edge:
    def impl(region, side):
        return lv4.get_boundary_for_earthfloorperimeter(region, side)

    def spec(region, side):
        if side not in SIDES:
            raise KeyError()
        return rim(region, side)


def rim(region, side):
    if side in OPEN:
        return {'name': side, 'Type': 'Outdoor'}
    return {'name': side, 'Type': 'DeltaTCoeff', 'TempDifferFactor': share(region, side)}


@ob('V11', 'what an inner surface faces', kind=INNER, room=ROOMS)
class inner:
    def impl(kind, room):
        return lv4.get_boundary_for_inner_skin(kind, room)

    def spec(kind, room):
        return {'name': 'NextRoom_' + room, 'Type': 'NextRoom', 'room_type': room}


@ob('V11', 'direction of the heat flow through an outer surface', side=SIDES + ['?'], _fails=True)
class flow_out:
    def impl(side):
        return lv4.get_direction_from_direction_for_outer_skin(side)

    def spec(side):
        if side not in SIDES:
            raise KeyError()
        return stream(side)


def stream(side):
    if side == 'Top':
        return 'Downward'
    return 'Upward' if side in ['Bottom', 'OpenBackFloor', 'ClosedBackFloor'] else 'Vertical'


@ob('V11', 'direction of the heat flow through an inner surface', room=ROOMS + ['?'], kind=INNER + ['?'], _fails=True)
class flow_in:
    def impl(room, kind):
        return lv4.get_direction_from_direction_for_inner_skin(room, kind)

    def spec(room, kind):
        if room not in ROOMS or kind not in INNER:
            raise KeyError()
        return course(room, kind)


def course(room, kind):
    if room == 'underfloor':
        return 'Downward' if kind == 'GroundFloor' else None
    return {'InnerCeiling': 'Downward', 'InnerWall': 'Vertical', 'InnerFloor': 'Upward', 'GroundFloor': 'Upward'}[kind]


@ob('V11', 'a direction for the load calculation', code=CODES + ['?'], _fails=True)
class upright:
    def impl(code):
        return lv4.get_direction(code)

    def spec(code):
        if code not in CODES:
            raise KeyError()
        if code == 'top':
            return 'top'
        return code not in ['bottom', 'upward', 'horizontal', 'downward']


# ---- glazing

@ob('V11', 'solar factor of a glazing by its make', frame=FRAMES + ['?'], glass=GLASSES + ['?'], shade=SHADES + ['?'], _fails=True)
class make:
    def impl(frame, glass, shade):
        return lv4.get_eta_from_specification(frame, glass, shade)

    def spec(frame, glass, shade):
        return solar(frame, glass, shade)


def solar(frame, glass, shade):
    if frame not in FRAMES or glass not in GLASSES or shade not in SHADES:
        raise KeyError()
    if glass in KINDS_2:
        row = (0.79, 0.38, 0.17)
    elif glass in KINDS_1:
        row = (0.88, 0.38, 0.19)
    else:
        row = GLASS[glass]
    return row[SHADES.index(shade)] * (0.72 if frame == 'WoodOrResin' else 0.8)


@ob('V11', 'solar factor of a window', d='any', way=['InputValue', 'InputSpecification', '?'], panes=['Single', 'Double'], frame_in=FRAMES, frame_out=FRAMES,
    glass=['3LsG', 'Tsingle'], shade=SHADES, _fails=True)
class window:
    def impl(d, way, panes, frame_in, frame_out, glass, shade):
        return lv4.get_eta(entered(d, way, panes, frame_in, frame_out, glass, shade))

    def spec(d, way, panes, frame_in, frame_out, glass, shade):
        if way == '?':
            raise ValueError()
        if panes == 'Single':
            return d['Eta'] if way == 'InputValue' else solar(frame_in, glass, shade)
        common = 0.72 if frame_in == 'WoodOrResin' and frame_out == 'WoodOrResin' else 0.8
        a = d['EtaInside'] if way == 'InputValue' else solar(frame_in, glass, shade)
        b = d['EtaOutside'] if way == 'InputValue' else solar(frame_out, '2LgG', 'None')
        return a * b * 1.06 / common


def entered(d, way, panes, frame_in, frame_out, glass, shade):
    return {'EtaInputMethod': way, 'TypeWindow': panes, 'Eta': d['Eta'], 'EtaInside': d['EtaInside'], 'EtaOutside': d['EtaOutside'],
            'TypeFrame': frame_in, 'TypeGlass': glass, 'TypeShade': shade,
            'TypeFrameInside': frame_in, 'TypeGlassInside': glass, 'TypeShadeInside': shade,
            'TypeFrameOutside': frame_out, 'TypeGlassOutside': '2LgG', 'TypeShadeOutside': 'None'}


@ob('V11', 'a layer without heat capacity', name='any', thick='scalar', cond='scalar', heat='scalar', given=[True, False])
class slab:
    def impl(name, thick, cond, heat, given):
        return lv4.make_layer(name, thick, cond, heat if given else None, r=1.0)

    def spec(name, thick, cond, heat, given):
        return {'name': name, 'thick': thick, 'cond': cond, 'specH': heat if given and heat is not None else 0}


# ---- parts go to the room they belong to

def house(key):
    return [{'room_type': x, key: []} for x in ROOMS[:3]]


@ob('V11', 'doors go to their rooms', a='any', b='any', first=ROOMS, second=ROOMS, side=['S', 'Bottom', 'Top'], space=['Outdoor', 'ClosedSpace'], shade=[True, False], region=[3, 6])
class doors:
    def impl(a, b, first, second, side, space, shade, region):
        return lv4.integrate_doors_to_rooms(region, [door(a, first, side, space, shade), door(b, second, 'E', 'Outdoor', not shade)], house('Surface'))

    def spec(a, b, first, second, side, space, shade, region):
        out = house('Surface')
        n = 0
        for d, room, s, f, over in [(a, first, side, facing(region, space, side), shade), (b, second, 'E', facing(region, 'Outdoor', 'E'), not shade)]:
            if room == 'underfloor':
                continue
            n = n + 1
            eta = 0.034 * d['U']
            out[ROOMS.index(room)]['Surface'].append({
                'skin': True, 'direction': stream(s), 'floor': s == 'Bottom', 'boundary': f, 'unsteady': False, 'name': 'Door' + str(n), 'area': d['area'], 'flr': 0,
                'Window': {'Eta': eta, 'SolarTrans': eta, 'SolarAbsorp': 0, 'Uw': d['U'], 'OutEmissiv': 0.9, 'OutHeatTrans': 1 / 0.04, 'InHeatTrans': 1 / 0.11},
                'sunbreak': {'D': d['Z'], 'WI1': 500, 'WI2': 500, 'hi': d['Y1'], 'WR': 0, 'WH': d['Y2'], 'name': 'ひさし'} if over else {}})
        return out


def door(d, room, side, space, shade):
    return {'space': room, 'direction': side, 'nextspace': space, 'U': d['U'], 'area': d['area'], 'Z': d['Z'], 'Y1': d['Y1'], 'Y2': d['Y2'], 'IsSunshadeInput': shade}


@ob('V11', 'earth floors go to their rooms', a='any', b='any', first=ROOMS, second=ROOMS, region=[6])
class earth:
    def impl(a, b, first, second, region):
        return lv4.integrate_earthfloors_to_rooms(region, [{'space': first, 'area': a['area']}, {'space': second, 'area': b['area']}], house('Surface'))

    def spec(a, b, first, second, region):
        out = house('Surface')
        n = 0
        for d, room in [(a, first), (b, second)]:
            if room == 'underfloor':
                continue
            n = n + 1
            out[ROOMS.index(room)]['Surface'].append({
                'skin': True, 'direction': 'Upward', 'floor': True, 'boundary': 'AnnualAverage', 'unsteady': True, 'IsSoil': True, 'name': 'Earthfloor' + str(n),
                'area': d['area'], 'flr': 0, 'Wall': {'InHeatTrans': 1 / 0.15, 'Layers': [
                    {'name': 'RC', 'thick': 0.15, 'cond': 1.6, 'specH': 2000.0}, {'name': 'Soil', 'thick': 3.0, 'cond': 1.0, 'specH': 3300.0}]}})
        return out


@ob('V11', 'edges of earth floors go to their rooms', a='any', b='any', first=ROOMS, second=ROOMS, side=['S', 'Bottom'], space=['Outdoor', 'ClosedSpace', 'ClosedBackFloor'], region=[3, 6])
class edges:
    def impl(a, b, first, second, side, space, region):
        return lv4.integrate_earthfloorperimeters_to_rooms(
            region, [{'space': first, 'psi': a['psi'], 'length': a['length'], 'direction': side, 'nextspace': space},
                     {'space': second, 'psi': b['psi'], 'length': b['length'], 'direction': 'N', 'nextspace': 'Outdoor'}], house('EarthfloorPerimeter'))

    def spec(a, b, first, second, side, space, region):
        out = house('EarthfloorPerimeter')
        n = 0
        for d, room, f in [(a, first, rim(region, side if space == 'Outdoor' else space)), (b, second, rim(region, 'N'))]:
            if room == 'underfloor':
                continue
            n = n + 1
            out[ROOMS.index(room)]['EarthfloorPerimeter'].append({
                'name': 'EarthfloorPerimeter' + str(n), 'LinearHeatTrans': d['psi'], 'LinearHeatTransLength': d['length'], 'boundary': f})
        return out


@ob('V11', 'inner surfaces go to their rooms', a='any', b='any', first=ROOMS, second=ROOMS, kind=INNER, other=INNER)
class inside:
    def impl(a, b, first, second, kind, other):
        return lv4.integrate_innerwalls_to_rooms(6, [wall(a, first, kind, 'underfloor', 'boundary_wall'), wall(b, second, other, 'non_occupant_room', 'downward_boundary_floor')], house('Surface'))

    def spec(a, b, first, second, kind, other):
        out = house('Surface')
        used = []
        for d, room, k, beyond, r in [(a, first, kind, 'underfloor', 0.11), (b, second, other, 'non_occupant_room', 0.15)]:
            if room == 'underfloor':
                continue
            used = used + [k]
            out[ROOMS.index(room)]['Surface'].append({
                'skin': False, 'direction': course(room, k), 'floor': k == 'GroundFloor' or k == 'InnerFloor',
                'boundary': {'name': 'NextRoom_' + beyond, 'Type': 'NextRoom', 'room_type': beyond}, 'unsteady': True, 'IsSoil': False,
                'name': k + str(used.count(k)), 'area': d['area'], 'flr': 0, 'Wall': {'OutHeatTrans': 1 / r, 'InHeatTrans': 1 / r, 'Layers': d['Layers']}})
        return out


def wall(d, room, kind, beyond, part):
    return {'space': room, 'type': kind, 'nextspace': beyond, 'general_part': part, 'next_space': 'air_conditioned', 'area': d['area'], 'Layers': d['Layers']}


@ob('V11', 'equipment goes to the rooms that exist', mr='scalar', r='scalar', main='any', other='any')
class equipment:
    def impl(mr, r, main, other):
        return lv4.integrate_equipments_to_rooms(mr, r, main, other, [{'room_type': x} for x in ROOMS])

    def spec(mr, r, main, other):
        out = [{'room_type': x} for x in ROOMS]
        if mr > 0:
            out[0]['equipment'] = main
        if r > 0:
            out[1]['equipment'] = other
        return out
