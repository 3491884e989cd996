"""The model house behind a set of indices: its areas, its parts, the U values that give the indices asked for."""
from heat_load_calc.convert import convert_indices_to_lv2_info as indices
from heat_load_calc.convert import get_u_psi_eta_from_u_a_and_eta_a as gue
from heat_load_calc.convert import model_house
from heat_load_calc.convert import factor_f
from heat_load_calc.convert.ees_house import DoorNoSpec
from heat_load_calc.convert.ees_house import EarthfloorCenterNoSpec
from heat_load_calc.convert.ees_house import EarthfloorPerimeterNoSpec
from heat_load_calc.convert.ees_house import GeneralPartNoSpec
from heat_load_calc.convert.ees_house import GeneralPartType
from heat_load_calc.convert.ees_house import SpaceType
from heat_load_calc.convert.ees_house import WindowNoSpec
from heat_load_calc.external.factor_h import NextSpace
from heat_load_calc.external.factor_nu import Direction

REGIONS = [1, 2, 3, 4, 5, 6, 7, 8]
HOUSES = [('detached', 'floor', 'base'), ('detached', 'floor', 'floor'), ('detached', 'floor', 'not_exist'), ('detached', 'base', None), ('attached', None, None)]
F_S = {'detached': [1.08, 1.04], 'attached': [1.048215]}
H = {'detached': [2.9, 2.7], 'attached': [2.8]}
DOORS = {'detached': [0.0, 1.89, 1.62, 0.0], 'attached': [0.0, 0.0, 1.755, 0.0]}
WINDOWS = {'detached': [0.6862, 0.0721, 0.1097, 0.132], 'attached': [0.633, 0.1517, 0.2153, 0.0]}
USED = ['house_type', 'floor_ins_type', 'bath_ins_type', 'a_evp_ef_total', 'a_evp_f_total', 'l_base_total_outside', 'l_base_total_inside', 'a_evp_roof',
        'a_evp_base_total_outside', 'a_evp_base_total_inside', 'a_evp_window', 'a_evp_door', 'a_evp_wall', 'a_evp_total']


# ---- V06: areas and parts of the model house

def house_areas(house, a, r_open, a_env):
    kind, floor, bath = house
    if kind == 'attached':
        a_f = [a]
        etrc, etrc_in, bth, bth_in = [0.0, 0.0, 0.0, 0.0], 0.0, [0.0, 0.0, 0.0, 0.0], 0.0
        h_etrc, h_bath, h_other = 0.0, 0.0, 0.0
        ef = 0.0
        below = a
    else:
        a_f = [a / 1.77, a * 0.77 / 1.77]
        on_ground = floor == 'base' or bath == 'base'
        etrc = [0.0, 1.82, 1.365, 0.0]
        etrc_in = 1.365 + 1.82 if floor == 'floor' else 0.0
        bth = [0.0, 1.82, 1.82, 0.0] if on_ground else [0.0, 0.0, 0.0, 0.0]
        bth_in = 1.82 + 1.82 if floor == 'floor' and on_ground else 0.0
        h_etrc = 0.18
        h_bath = 0.5 if on_ground else 0.0
        h_other = 0.5 if floor == 'base' else 0.0
        ef = a_f[0] if floor == 'base' else 1.365 * 1.82 + (1.82 * 1.82 if on_ground else 0.0)
        below = a_f[0]
    e = sum(etrc) + etrc_in
    b = sum(bth) + bth_in
    f_s = F_S[kind]
    h = H[kind]
    if a_env is not None:
        x = a_env - 2 * a_f[0] - e * h_etrc - b * h_bath + (e + b) * h_other
        if kind == 'detached':
            y = 4 * a_f[0] ** 0.5 * (h[0] + h_other) + 4 * a_f[1] ** 0.5 * f_s[1] / f_s[0] * h[1]
            f2 = max(x / y * f_s[1] / f_s[0], 1.0)
            f_s = [f2 * f_s[0] / f_s[1], f2]
        else:
            f_s = [max(x / (4 * a_f[0] ** 0.5 * h[0]), 1.0)]
    around = [4 * s ** 0.5 * f for s, f in zip(a_f, f_s)]
    gap = [max((p / 2) ** 2 - 4 * s, 0.0) ** 0.5 / 2 for p, s in zip(around, a_f)]
    long = [p / 4 + g for p, g in zip(around, gap)]
    short = [p / 4 - g for p, g in zip(around, gap)]
    ms, os = (long, short) if kind == 'detached' else (short, long)
    sides = [ms, os, ms, os]
    other = [sides[i][0] - etrc[i] - bth[i] if floor == 'base' else 0.0 for i in range(4)]
    base = [other[i] * h_other + etrc[i] * h_etrc + bth[i] * h_bath for i in range(4)]
    base_in = etrc_in * h_etrc + bth_in * h_bath
    side = [sum([s * q for s, q in zip(sides[i], h)]) for i in range(4)]
    whole = below + a_f[0] + sum(side)
    w = whole * r_open - sum(DOORS[kind])
    windows = [w * f for f in WINDOWS[kind]]
    return {
        'house_type': kind, 'floor_ins_type': floor, 'bath_ins_type': bath,
        'a_evp_ef_total': ef,
        'a_evp_f_total': below - ef,
        'l_base_total_outside': tuple([other[i] + etrc[i] + bth[i] for i in range(4)]),
        'l_base_total_inside': etrc_in + bth_in,
        'a_evp_roof': a_f[0],
        'a_evp_base_total_outside': tuple(base),
        'a_evp_base_total_inside': base_in,
        'a_evp_window': tuple(windows),
        'a_evp_door': tuple(DOORS[kind]),
        'a_evp_wall': tuple([side[i] - windows[i] - DOORS[kind][i] for i in range(4)]),
        'a_evp_total': whole + sum(base) + base_in,
    }


@ob('V06', 'areas and lengths of the model house with the shape it has by default', house=HOUSES, a='scalar', r_open='scalar')
class areas_default:
    def impl(house, a, r_open):
        d = model_house.calc_area(house_type=house[0], a_f_total=a, r_open=r_open, floor_ins_type=house[1], bath_ins_type=house[2])
        return {q: d[q] for q in USED}

    def spec(house, a, r_open):
        return house_areas(house, a, r_open, None)


@ob('V06', 'areas and lengths of the model house shaped to the envelope area given', house=HOUSES, a='scalar', r_open='scalar', a_env='scalar')
class areas_given:
    def impl(house, a, r_open, a_env):
        d = model_house.calc_area(house_type=house[0], a_f_total=a, r_open=r_open, floor_ins_type=house[1], bath_ins_type=house[2], a_env_input=a_env)
        return {q: d[q] for q in USED}

    def spec(house, a, r_open, a_env):
        return house_areas(house, a, r_open, a_env)


SUN_WALL = {'is_defined': True, 'input': 'not_input'}
GONE = {'is_defined': False}
EAVES = {'is_defined': True, 'input': 'simple', 'depth': 0.3, 'd_h': 1.0, 'd_e': 0.0}


def seen_part(p):
    return p.name, p.general_part_type.value, p.next_space.value, p.direction.value, p.area, p.space_type.value, p.sunshade.get_as_dict()


def seen_opening(p):
    return p.name, p.next_space.value, p.direction.value, p.area, p.space_type.value, p.sunshade.get_as_dict()


def out_part(name, kind, direction, area):
    return name, kind, 'outdoor', direction, area, 'undefined', SUN_WALL


@ob('V06', 'parts of the model house and the areas they take', house=[('detached', 'floor'), ('detached', 'base'), ('attached', None)], ef='scalar', f='scalar',
    lo='any', li='scalar', roof='scalar', bo='any', bi='scalar', wi='any', do='any', wa='any', _fails=True)
class parts:
    def impl(house, ef, f, lo, li, roof, bo, bi, wi, do, wa):
        gps, ws, ds, eps, ecs = model_house.get_model_house_no_spec(
            house_type=house[0], floor_ins_type=house[1], a_evp_ef_total=ef, a_evp_f_total=f, l_base_total_outside=lo, l_base_total_inside=li, a_evp_roof=roof,
            a_evp_base_total_outside=bo, a_evp_base_total_inside=bi, a_evp_window=wi, a_evp_door=do, a_evp_wall=wa, a_evp_total=0.0)
        return ([seen_part(p) for p in gps], [seen_opening(p) for p in ws], [seen_opening(p) for p in ds],
                [(p.name, p.next_space.value, p.length, p.space_type.value) for p in eps], [(p.name, p.area, p.space_type) for p in ecs])

    def spec(house, ef, f, lo, li, roof, bo, bi, wi, do, wa):
        if house[0] == 'attached':
            return attached(ef, f, lo, li, roof, bo, bi, wi, do, wa)
        return detached(house[1], ef, f, lo, li, roof, bo, bi, wi, do, wa)


def detached(floor, ef, f, lo, li, roof, bo, bi, wi, do, wa):
    if do[0] > 0.0 or do[3] > 0.0:
        raise ValueError()
    if floor == 'floor' and (bo[0] > 0.0 or bo[3] > 0.0 or lo[0] > 0.0 or lo[3] > 0.0):
        raise ValueError()
    if floor == 'base' and (f > 0.0 or bi > 0.0 or li > 0.0):
        raise ValueError()
    gps = [out_part('roof', 'ceiling', 'top', roof)]
    gps = gps + [out_part('wall_' + d, 'wall', d, wa[i]) for i, d in enumerate(['sw', 'nw', 'ne', 'se'])]
    if floor == 'floor':
        gps = gps + [('floor', 'floor', 'open_underfloor', 'downward', f, 'undefined', GONE)]
        gps = gps + [out_part('base_outside_nw', 'wall', 'nw', bo[1]), out_part('base_outside_ne', 'wall', 'ne', bo[2])]
        gps = gps + [('base_inside', 'wall', 'open_underfloor', 'horizontal', bi, 'undefined', GONE)]
        edges = [('earth_floor_perimeter_nw', 'outdoor', lo[1], 'undefined'), ('earth_floor_perimeter_ne', 'outdoor', lo[2], 'undefined'),
                 ('earth_floor_perimeter_inside', 'open_underfloor', li, 'undefined')]
    else:
        gps = gps + [out_part('base_outside_' + d, 'wall', d, bo[i]) for i, d in enumerate(['sw', 'nw', 'ne', 'se'])]
        edges = [('earth_floor_perimeter_' + d, 'outdoor', lo[i], 'undefined') for i, d in enumerate(['sw', 'nw', 'ne', 'se'])]
    ws = [('window_' + d, 'outdoor', d, wi[i], 'undefined', EAVES) for i, d in enumerate(['sw', 'nw', 'ne', 'se'])]
    ds = [('door_nw', 'outdoor', 'nw', do[1], 'undefined', SUN_WALL), ('door_ne', 'outdoor', 'ne', do[2], 'undefined', SUN_WALL)]
    return gps, ws, ds, edges, [('earth_floor', ef, 'undefined')]


def attached(ef, f, lo, li, roof, bo, bi, wi, do, wa):
    if wi[3] > 0.0 or do[0] > 0.0 or do[1] > 0.0 or do[3] > 0.0 or ef > 0.0 or bi > 0.0 or li > 0.0:
        raise ValueError()
    if bo[0] > 0.0 or bo[1] > 0.0 or bo[2] > 0.0 or bo[3] > 0.0 or lo[0] > 0.0 or lo[1] > 0.0 or lo[2] > 0.0 or lo[3] > 0.0:
        raise ValueError()
    gps = [('roof', 'upward_boundary_floor', 'air_conditioned', 'upward', roof, 'undefined', GONE),
           out_part('wall_sw', 'wall', 'sw', wa[0]), out_part('wall_nw', 'wall', 'nw', wa[1]),
           ('wall_ne', 'wall', 'open_space', 'horizontal', wa[2], 'undefined', GONE),
           ('wall_se', 'boundary_wall', 'air_conditioned', 'horizontal', wa[3], 'undefined', GONE),
           ('floor', 'downward_boundary_floor', 'air_conditioned', 'downward', f, 'undefined', GONE)]
    ws = [('window_sw', 'outdoor', 'sw', wi[0], 'undefined', EAVES), ('window_nw', 'outdoor', 'nw', wi[1], 'undefined', EAVES),
          ('window_ne', 'open_space', 'horizontal', wi[2], 'undefined', EAVES)]
    return gps, ws, [('door_ne', 'open_space', 'horizontal', do[2], 'undefined', GONE)], [], []


@ob('V06', 'the parts of the model house add up to its envelope', house=HOUSES, a='scalar', r_open='scalar', a_env='scalar')
class adds_up:
    def impl(house, a, r_open, a_env):
        d = model_house.calc_area(house_type=house[0], a_f_total=a, r_open=r_open, floor_ins_type=house[1], bath_ins_type=house[2], a_env_input=a_env)
        gps, ws, ds, eps, ecs = model_house.get_model_house_no_spec(**d)
        return sum([p.area for p in gps + ws + ds + ecs])

    def spec(house, a, r_open, a_env):
        return house_areas(house, a, r_open, a_env)['a_evp_total']


# ---- V05: from indices to the specification of each part

U_STD = {
    'roof': [0.17, 0.17, 0.24, 0.24, 0.24, 0.24, 0.24, 0.24],
    'ceiling': [0.17, 0.17, 0.24, 0.24, 0.24, 0.24, 0.24, 0.24],
    'wall': [0.35, 0.35, 0.53, 0.53, 0.53, 0.53, 0.53, 4.10],
    'floor': [0.34, 0.34, 0.34, 0.48, 0.48, 0.48, 0.48, 3.52],
    'boundary_ceiling': [0.17, 0.17, 0.24, 0.24, 0.24, 0.24, 0.24, 0.24],
    'boundary_wall': [0.35, 0.35, 0.53, 0.53, 0.53, 0.53, 0.53, 4.10],
    'boundary_floor': [0.34, 0.34, 0.34, 0.48, 0.48, 0.48, 0.48, 3.52],
    'window': [2.33, 2.33, 3.49, 4.65, 4.65, 4.65, 4.65, 6.51],
    'door': [2.33, 2.33, 3.49, 4.65, 4.65, 4.65, 4.65, 6.51],
    'earthfloor_perimeter': [0.53, 0.53, 0.53, 0.76, 0.76, 0.76, 0.76, 1.80],
}
PARTS = ['roof', 'ceiling', 'wall', 'floor', 'boundary_ceiling', 'boundary_wall', 'boundary_floor', 'window', 'door', 'earthfloor_perimeter']
KEY = {'roof': 'roof', 'ceiling': 'ceiling', 'wall': 'wall', 'floor': 'floor', 'boundary_wall': 'boundary_wall',
       'upward_boundary_floor': 'boundary_ceiling', 'downward_boundary_floor': 'boundary_floor'}
U_MAX = {
    'roof': 1 / (0.09 + 0.0095 / 0.22 + 0.04), 'ceiling': 1 / (0.09 + 0.0095 / 0.22 + 0.09), 'wall': 1 / (0.11 + 0.0095 / 0.22 + 0.04),
    'floor': 1 / (0.15 + 0.012 / 0.16 + 0.04), 'boundary_ceiling': 1 / (0.09 + 0.0095 / 0.22 + 0.09), 'boundary_wall': 1 / (0.11 + 0.0095 / 0.22 + 0.11),
    'boundary_floor': 1 / (0.15 + 0.012 / 0.16 + 0.15), 'window': 6.51, 'door': 6.51, 'earthfloor_perimeter': 100.0,
}


def factors(q_std, f_max, q):
    left, base, names, out = q, 0.0, PARTS, {}
    return fill(q_std, f_max, left, base, names)


def fill(q_std, f_max, left, base, names):
    if not names:
        return {}
    level = min([f_max[p] for p in names])
    room = sum([q_std[p] for p in names]) * (level - base)
    if room > left:
        f = base + left / sum([q_std[p] for p in names])
        return {p: f for p in names}
    full = {p: level for p in names if f_max[p] == level}
    return dict(full, **fill(q_std, f_max, left - room, level, [p for p in names if f_max[p] != level]))


@ob('V05', 'standard and largest U values of each part', region=REGIONS, part=PARTS)
class tables:
    def impl(region, part):
        return gue.get_u_psi_std(region, part), gue.get_u_psi_max(part), gue.get_f_u_psi_max_each_part(region)[part]

    def spec(region, part):
        s = U_STD[part][region - 1]
        return s, U_MAX[part], U_MAX[part] / s


@ob('V05', 'the heat loss asked for is shared in proportion, no part beyond its largest U value', region=REGIONS, q_std='any', q='scalar')
class sharing:
    def impl(region, q_std, q):
        return gue.get_f_u_psi(q_std={p: q_std[p] for p in PARTS}, f_u_psi_max_each_part={p: U_MAX[p] / U_STD[p][region - 1] for p in PARTS}, q=q)

    def spec(region, q_std, q):
        return factors(q_std, {p: U_MAX[p] / U_STD[p][region - 1] for p in PARTS}, q)


def h_of(region, next_space):
    if next_space in ['outdoor', 'open_space']:
        return 1.0
    if next_space in ['closed_space', 'open_underfloor']:
        return 0.7
    return 0.05 if region <= 3 else 0.15


def area_part(x, kind, space, direction):
    return GeneralPartNoSpec(name='p', general_part_type=GeneralPartType(kind), next_space=NextSpace(space), direction=Direction(direction), area=x['area'],
                             space_type=SpaceType('undefined'), sunshade=factor_f.SunshadeOpaqueNotInput())


def total(xs, measure):
    return sum([x[measure] for x in xs])


PLACES = [('r1', 'roof', 'outdoor', 'top'), ('c1', 'ceiling', 'closed_space', 'upward'), ('c2', 'ceiling', 'air_conditioned', 'upward'),
          ('w1', 'wall', 'outdoor', 's'), ('w2', 'wall', 'air_conditioned', 'horizontal'), ('w3', 'wall', 'outdoor', 'n'),
          ('f1', 'floor', 'open_underfloor', 'downward'), ('f2', 'floor', 'outdoor', 'bottom'), ('f3', 'floor', 'air_conditioned', 'downward'),
          ('b1', 'boundary_wall', 'air_conditioned', 'horizontal'), ('u1', 'upward_boundary_floor', 'air_conditioned', 'upward'),
          ('d1', 'downward_boundary_floor', 'air_conditioned', 'downward')]
OPENINGS = [('o1', 'outdoor', 'n'), ('o2', 'outdoor', 's'), ('o3', 'closed_space', 'horizontal')]
DOORWAYS = [('p1', 'outdoor', 's'), ('p2', 'air_conditioned', 'horizontal')]
EDGES = [('e1', 'open_underfloor'), ('e2', 'outdoor'), ('e3', 'air_conditioned')]


NU_S = {'heating': [0.935, 0.856, 0.851, 0.815, 0.983, 0.936, 1.023], 'cooling': [0.502, 0.507, 0.476, 0.437, 0.472, 0.434, 0.412, 0.480]}
NU_N = {'heating': [0.260, 0.263, 0.284, 0.256, 0.238, 0.261, 0.227], 'cooling': [0.329, 0.341, 0.335, 0.322, 0.373, 0.341, 0.307, 0.325]}


@ob('V05', 'U values and solar gain of windows that give the indices asked for', region=REGIONS, u_a='scalar', eta_h='scalar', eta_c='scalar', e='any')
class parts_spec:
    def impl(region, u_a, eta_h, eta_c, e):
        gps = [area_part(x, kind, space, direction) for q, kind, space, direction in PLACES for x in e[q]]
        ws = [WindowNoSpec(name='w', next_space=NextSpace(space), direction=Direction(direction), area=x['area'], space_type=SpaceType('undefined'),
                           sunshade=factor_f.SunshadeTransientNotInput()) for q, space, direction in OPENINGS for x in e[q]]
        ds = [DoorNoSpec(name='d', next_space=NextSpace(space), direction=Direction(direction), area=x['area'], space_type=SpaceType('undefined'),
                         sunshade=factor_f.SunshadeOpaqueNotInput()) for q, space, direction in DOORWAYS for x in e[q]]
        eps = [EarthfloorPerimeterNoSpec(name='e', next_space=NextSpace(space), length=x['length'], space_type=SpaceType('undefined')) for q, space in EDGES for x in e[q]]
        ecs = [EarthfloorCenterNoSpec(name='c', area=x['area'], space_type='undefined') for x in e['centers']]
        u, eta, h, c = gue.calc_parts_spec(region=region, u_a_target=u_a, eta_a_h_target=eta_h, eta_a_c_target=eta_c, gps=gps, ds=ds, ws=ws, eps=eps, ecs=ecs)
        return {p: gue.get_u_psi(u, p) for p in PARTS}, eta, h, c

    def spec(region, u_a, eta_h, eta_c, e):
        if region == 8 and known('F07'):
            raise ValueError()
        i = region - 1
        a = sum([total(e[q], 'area') for q, kind, space, direction in PLACES]) + sum([total(e[q], 'area') for q, space, direction in OPENINGS + DOORWAYS]) + total(e['centers'], 'area')
        q_std = {}
        for t in KEY:
            q_std[KEY[t]] = sum([total(e[q], 'area') * U_STD[KEY[t]][i] * h_of(region, space) for q, kind, space, direction in PLACES if kind == t])
        q_std['window'] = sum([total(e[q], 'area') * U_STD['window'][i] * h_of(region, space) for q, space, direction in OPENINGS])
        q_std['door'] = sum([total(e[q], 'area') * U_STD['door'][i] * h_of(region, space) for q, space, direction in DOORWAYS])
        q_std['earthfloor_perimeter'] = sum([total(e[q], 'length') * U_STD['earthfloor_perimeter'][i] * h_of(region, space) for q, space in EDGES])
        f = factors(q_std, {p: U_MAX[p] / U_STD[p][i] for p in PARTS}, a * u_a)
        u = {p: U_STD[p][i] * f[p] for p in PARTS}
        eta = {}
        for season, target, shade in [('heating', eta_h, 0.51), ('cooling', eta_c, 0.93)]:
            if season == 'heating' and region == 8:
                continue
            opaque = 0.034 * (total(e['r1'], 'area') * u['roof'] * 1.0 + total(e['w1'], 'area') * u['wall'] * NU_S[season][i] + total(e['w3'], 'area') * u['wall'] * NU_N[season][i]
                              + total(e['p1'], 'area') * u['door'] * NU_S[season][i])
            v = (target / 100 * a - opaque) / (total(e['o1'], 'area') * shade * NU_N[season][i] + total(e['o2'], 'area') * shade * NU_S[season][i])
            eta[season] = min(max(v, 0.0), 0.88)
        if region == 8:
            return u, eta['cooling'], None, eta['cooling']
        return u, (eta['heating'] + eta['cooling']) / 2, eta['heating'], eta['cooling']


@ob('V05', 'solar gain of windows over the seasons that exist', region=REGIONS, h='scalar', c='scalar')
class eta_d:
    def impl(region, h, c):
        return gue.get_eta_d(region=region, eta_d_h=h, eta_d_c=c)

    def spec(region, h, c):
        return c if region == 8 else (h + c) / 2


@ob('V05', 'standard U and psi values of every region and how far they can grow', region=REGIONS)
class standard_values:
    def impl(region):
        return {p: gue.get_u_psi_std(region=region, part_type=p) for p in PARTS}, gue.get_f_u_psi_max_each_part(region=region)

    def spec(region):
        return {p: U_STD[p][region - 1] for p in PARTS}, {p: U_MAX[p] / U_STD[p][region - 1] for p in PARTS}


@ob('V05', 'the specification found is given to every part of the model house', kind=['detached', 'attached'], region='int', a='scalar', a_env='scalar', u_a='scalar', eta_h='scalar', eta_c='scalar',
    _cut=['heat_load_calc.convert.get_u_psi_eta_from_u_a_and_eta_a:calc_parts_spec'])
class given_to_parts:
    def impl(kind, region, a, a_env, u_a, eta_h, eta_c):
        return indices.convert_spec({
            'common': {'region': region, 'house_type': kind, 'main_occupant_room_floor_area': 30.0, 'other_occupant_room_floor_area': 30.0, 'total_floor_area': a},
            'envelope': {'input_method': 'index', 'total_area': a_env, 'indices': {'u_a': u_a, 'eta_a_h': eta_h, 'eta_a_c': eta_c}}})

    def spec(kind, region, a, a_env, u_a, eta_h, eta_c):
        d = model_house.calc_area(house_type=kind, a_f_total=a, r_open=0.1, floor_ins_type='floor' if kind == 'detached' else None,
                                  bath_ins_type='base' if kind == 'detached' else None, a_env_input=a_env)
        gps, ws, ds, eps, ecs = model_house.get_model_house_no_spec(**d)
        u, eta, h, c = gue.calc_parts_spec(region=region, u_a_target=u_a, eta_a_h_target=eta_h, eta_a_c_target=eta_c, gps=gps, ds=ds, ws=ws, eps=eps, ecs=ecs)
        us = {'roof': u.roof, 'ceiling': u.ceiling, 'wall': u.wall, 'floor': u.floor, 'boundary_wall': u.boundary_wall,
              'upward_boundary_floor': u.boundary_ceiling, 'downward_boundary_floor': u.boundary_floor}
        return {
            'input_method': 'detail_without_room_usage',
            'general_parts': [dict(seen_dict(p), general_part_type=p.general_part_type.value,
                                   spec={'structure': 'other', 'u_value_other': us[p.general_part_type.value], 'weight': 'light'}) for p in gps],
            'windows': [dict(seen_dict(p), spec={'u_value': u.window, 'eta_d_h_value': h, 'eta_d_c_value': c, 'glass_type': 'single', 'flame_type': 'metal'}) for p in ws],
            'doors': [dict(seen_dict(p), spec={'u_value': u.door}) for p in ds],
            'earthfloor_perimeters': [{'name': p.name, 'next_space': p.next_space.value, 'length': p.length, 'space_type': p.space_type.value,
                                       'spec': {'psi_value': u.earthfloor_perimeter}} for p in eps],
            'earthfloor_centers': [{'name': p.name, 'area': p.area, 'space_type': p.space_type, 'spec': {'layers': []}} for p in ecs],
            'heat_bridges': [],
        }


def seen_dict(p):
    return {'name': p.name, 'next_space': p.next_space.value, 'direction': p.direction.value, 'area': p.area, 'space_type': p.space_type.value, 'sunshade': p.sunshade.get_as_dict()}
