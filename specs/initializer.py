"""From the user's description of a house to the intermediate files (boundaries, sun, rooms, schedules)."""
import csv
import json
import math
import os
import numpy as np
import pandas as pd

from heat_load_calc.initializer import a12_indoor_radiative_heat_transfer as a12
from heat_load_calc.initializer import a22_radiative_heating_spec as a22
from heat_load_calc.initializer import boundary_simple
from heat_load_calc.initializer import estimate_c_value as cv
from heat_load_calc.initializer import external_boundaries_direction
from heat_load_calc.initializer import furniture
from heat_load_calc.initializer import inclined_surface_solar_radiation as incl
from heat_load_calc.initializer import initializer
from heat_load_calc.initializer import oblique_incidence_charac as oic
from heat_load_calc.initializer import occupants_form_factor
from heat_load_calc.initializer import outside_eqv_temp
from heat_load_calc.initializer import residents_number
from heat_load_calc.initializer import response_factor
from heat_load_calc.initializer import schedule_loader
from heat_load_calc.initializer import solar_shading
from heat_load_calc.initializer import transmission_solar_radiation as tsr
from heat_load_calc.initializer.boundary_type import BoundaryType

ALPHA = {'s': 0.0, 'sw': 45.0, 'w': 90.0, 'nw': 135.0, 'n': 180.0, 'ne': -135.0, 'e': -90.0, 'se': -45.0, 'top': 0.0, 'bottom': 0.0}
BETA = {'s': 90.0, 'sw': 90.0, 'w': 90.0, 'nw': 90.0, 'n': 90.0, 'ne': 90.0, 'e': 90.0, 'se': 90.0, 'top': 0.0, 'bottom': 180.0}
DIRECTIONS = ['s', 'sw', 'w', 'nw', 'n', 'ne', 'e', 'se', 'top', 'bottom']
EXTERNAL = ['external_general_part', 'external_transparent_part', 'external_opaque_part']
TYPES = EXTERNAL + ['internal', 'ground']
YEAR = 8760 * 4
ALBEDO = 0.1


# ---- I05: sun and sky on a tilted surface

def incidence(h, a, alpha, beta):
    overhead = np.sin(h) * np.cos(beta)
    side = np.cos(h) * np.sin(a) * np.sin(beta) * np.sin(alpha) + np.cos(h) * np.cos(a) * np.sin(beta) * np.cos(alpha)
    return np.arccos(np.clip(np.where(np.cos(h) == 0.0, overhead, overhead + side), 0.0, None))


def tilted(i_dn, i_sky, h, a, alpha, beta):
    sky = (1 + np.cos(beta)) / 2
    horizontal = np.where(h > 0.0, np.sin(h), 0.0) * i_dn + i_sky
    return i_dn * np.cos(incidence(h, a, alpha, beta)), sky * i_sky, (1 - sky) * ALBEDO * horizontal


@ob('I05', 'direct, sky and ground-reflected radiation on a tilted surface', i_dn='arr', i_sky='arr', h='altitude', a='arr', alpha='scalar', beta='scalar')
class tilted_surface:
    def impl(i_dn, i_sky, h, a, alpha, beta):
        return incl.get_i_is_j_ns(i_dn_ns=i_dn, i_sky_ns=i_sky, h_sun_ns=h, a_sun_ns=a, w_alpha_j=alpha, w_beta_j=beta)

    def spec(i_dn, i_sky, h, a, alpha, beta):
        return tilted(i_dn, i_sky, h, a, alpha, beta)


@ob('I05', 'angle of incidence and night radiation of a tilted surface', h='altitude', a='arr', r_n='arr', alpha='scalar', beta='scalar')
class incidence_angle:
    def impl(h, a, r_n, alpha, beta):
        return (incl.get_theta_aoi_j_n(h_sun_ns=h, a_sun_ns=a, w_alpha_j=alpha, w_beta_j=beta), incl.get_r_n_is_j_ns(r_n_ns=r_n, w_beta_j=beta))

    def spec(h, a, r_n, alpha, beta):
        return incidence(h, a, alpha, beta), (1 + np.cos(beta)) / 2 * r_n


@ob(('I05', 'I02', 'I03'), 'azimuth and tilt of each of the ten directions', direction=DIRECTIONS)
class orientation:
    def impl(direction):
        return external_boundaries_direction.get_w_alpha_j_w_beta_j(direction_j=direction)

    def spec(direction):
        return np.radians(ALPHA[direction]), np.radians(BETA[direction])


# ---- I02: what the outside of a boundary looks like

def facing(direction, i_dn, i_sky, h, a):
    return tilted(i_dn, i_sky, h, a, np.radians(ALPHA[direction]), np.radians(BETA[direction]))


def behind(b, theta_o, i_dn, i_sky, r_n, a, h):
    t = b['boundary_type']
    if t == 'internal':
        return np.zeros(YEAR)
    if t == 'ground':
        return np.full(YEAR, np.average(theta_o))
    if not b['is_sun_striked_outside']:
        return theta_o
    beta = np.radians(BETA[b['direction']])
    night = float(b['outside_emissivity']) * ((1 + np.cos(beta)) / 2 * r_n)
    if t == 'external_transparent_part':
        return theta_o - night * float(b['outside_heat_transfer_resistance'])
    d, s, g = facing(b['direction'], i_dn, i_sky, h, a)
    return theta_o + (float(b['outside_solar_absorption']) * (d + s + g) - night) * float(b['outside_heat_transfer_resistance'])


@ob('I02', 'outside-equivalent temperature of every kind of boundary', b='any', t=TYPES, direction=DIRECTIONS, theta_o='arr', i_dn='arr', i_sky='arr',
    r_n='arr', a='arr', h='altitude')
class outside_temperature:
    def impl(b, t, direction, theta_o, i_dn, i_sky, r_n, a, h):
        e = {'boundary_type': t, 'direction': direction, 'is_sun_striked_outside': b['is_sun_striked_outside'],
             'outside_solar_absorption': b['outside_solar_absorption'], 'outside_emissivity': b['outside_emissivity'],
             'outside_heat_transfer_resistance': b['outside_heat_transfer_resistance']}
        return outside_eqv_temp.OutsideEqvTemp.create(e).get_theta_o_sol_i_j_ns(
            theta_o_ns=theta_o, i_dn_ns=i_dn, i_sky_ns=i_sky, r_n_ns=r_n, a_sun_ns=a, h_sun_ns=h)

    def spec(b, t, direction, theta_o, i_dn, i_sky, r_n, a, h):
        return behind({'boundary_type': t, 'direction': direction, 'is_sun_striked_outside': b['is_sun_striked_outside'],
                       'outside_solar_absorption': b['outside_solar_absorption'], 'outside_emissivity': b['outside_emissivity'],
                       'outside_heat_transfer_resistance': b['outside_heat_transfer_resistance']}, theta_o, i_dn, i_sky, r_n, a, h)


# ---- I04: solar shading devices

def shade(ssp, kind, direction, h, a):
    """(share of direct sun shaded, share of sky radiation shaded)"""
    if kind != 'simple':
        if known('F05'):
            return np.full(len(h), 1.0), 0.0
        return np.full(len(h), 0.0), 0.0
    z, height, gap = ssp['depth'], ssp['d_h'], ssp['d_e']
    depth = z * np.tan(h) / np.cos(a - np.radians(ALPHA[direction])) - gap
    direct = np.where(h > 0.0, np.clip(depth / height, 0.0, 1.0), 0.0)
    bd = math.sqrt(gap ** 2 + z ** 2)
    bc = math.sqrt((gap + height) ** 2 + z ** 2)
    return direct, (gap + height + bd - gap - bc) / (2 * height)


@ob('I04', 'share of direct and sky radiation an overhang keeps from a window', ssp='any', direction=DIRECTIONS, h='altitude', a='arr')
class overhang:
    def impl(ssp, direction, h, a):
        b = {'boundary_type': 'external_transparent_part', 'is_sun_striked_outside': True, 'direction': direction,
             'solar_shading_part': {'existence': True, 'input_method': 'simple', 'depth': ssp['depth'], 'd_h': ssp['d_h'], 'd_e': ssp['d_e']}}
        x = solar_shading.SolarShading.create(b=b)
        return x.get_f_ss_d_j_ns(h, a), x.get_f_ss_s_j()

    def spec(ssp, direction, h, a):
        return shade(ssp, 'simple', direction, h, a)


@ob('I04', 'which boundaries carry a shading device', t=TYPES, struck=[True, False], existence=[True, False], method=['simple', 'detail'])
class shading_kind:
    def impl(t, struck, existence, method):
        b = {'boundary_type': t, 'is_sun_striked_outside': struck, 'direction': 'sw',
             'solar_shading_part': {'existence': existence, 'input_method': method, 'depth': 1.0, 'd_h': 2.0, 'd_e': 0.5,
                                    'x1': 1.0, 'x2': 2.0, 'x3': 3.0, 'y1': 4.0, 'y2': 5.0, 'y3': 6.0, 'z_x_pls': 7.0, 'z_x_mns': 8.0,
                                    'z_y_pls': 9.0, 'z_y_mns': 10.0}}
        return solar_shading.SolarShading.create(b=b)

    def spec(t, struck, existence, method):
        alpha = np.radians(45.0)
        if existence and struck and t in EXTERNAL:
            if method == 'simple':
                return solar_shading.SolarShadingSimple(w_alpha=alpha, depth=1.0, d_h=2.0, d_e=0.5)
            return solar_shading.SolarShadingDetail(w_alpha=alpha, x1=1.0, x2=2.0, x3=3.0, y1=4.0, y2=5.0, y3=6.0, z_x_pls=7.0, z_x_mns=8.0,
                                                    z_y_pls=9.0, z_y_mns=10.0)
        return solar_shading.SolarShadingNot()


@ob('I04', 'a window without a shading device is not shaded', h='altitude', a='arr')
class no_shading:
    def impl(h, a):
        x = solar_shading.SolarShadingNot()
        return x.get_f_ss_d_j_ns(h, a), x.get_f_ss_s_j()

    def spec(h, a):
        return shade(None, 'none', 's', h, a)


# ---- I03: sun through a window

def tau(c, glazing):
    single = 2.552 * c + 1.364 * c ** 2 - 11.388 * c ** 3 + 13.617 * c ** 4 - 5.146 * c ** 5
    if glazing == 'single':
        return single
    r = 1.0 - 5.189 * c + 12.392 * c ** 2 - 16.593 * c ** 3 + 11.851 * c ** 4 - 3.461 * c ** 5
    return single ** 2 / (1.0 - r ** 2)


DIFFUSE = {'single': 0.900, 'multiple': 0.832}


@ob('I03', 'angle dependence of the transmittance of single and multiple glazing', theta='arr', glazing=['single', 'multiple'])
class glazing:
    def impl(theta, glazing):
        return oic.get_tau_d_j_ns(theta_aoi_j_ns=theta, glazing_type_j=glazing), oic.get_c_d_j(glazing_type_j=glazing)

    def spec(theta, glazing):
        return tau(np.cos(theta), glazing), DIFFUSE[glazing]


def through(b, direction, glazing, f_d, f_s, i_dn, i_sky, h, a):
    d, s, g = facing(direction, i_dn, i_sky, h, a)
    th = incidence(h, a, np.radians(ALPHA[direction]), np.radians(BETA[direction]))
    c = DIFFUSE[glazing]
    return b['eta_value'] * b['area'] * ((1 - f_d) * tau(np.cos(th), glazing) * d + (1 - f_s) * c * s + c * g)


@ob('I03', 'heat through a window: shaded direct and sky radiation plus ground reflection, times area and solar heat gain', b='any',
    direction=DIRECTIONS, glazing=['single', 'multiple'], f_d='arr', f_s='scalar', i_dn='arr', i_sky='arr', h='altitude', a='arr')
class window_gain:
    def impl(b, direction, glazing, f_d, f_s, i_dn, i_sky, h, a):
        e = {'boundary_type': 'external_transparent_part', 'is_sun_striked_outside': True, 'direction': direction, 'area': b['area'],
             'incident_angle_characteristics': glazing, 'eta_value': b['eta_value']}
        t = tsr.TransmissionSolarRadiation.create(d=e, solar_shading_part=device(f_d, f_s))
        return t.get_qgt(a_sun_ns=a, h_sun_ns=h, i_dn_ns=i_dn, i_sky_ns=i_sky)

    def spec(b, direction, glazing, f_d, f_s, i_dn, i_sky, h, a):
        return through(b, direction, glazing, f_d, f_s, i_dn, i_sky, h, a)


class device:
    """a shading device with given shares"""
    def __init__(self, f_d, f_s):
        self.f_d = f_d
        self.f_s = f_s

    def get_f_ss_d_j_ns(self, h_sun_n, a_sun_n):
        return self.f_d

    def get_f_ss_s_j(self):
        return self.f_s


@ob('I03', 'only sunlit windows let the sun in', b='any', t=TYPES, struck=[True, False], i_dn='arr', i_sky='arr', h='altitude', a='arr')
class dark:
    def impl(b, t, struck, i_dn, i_sky, h, a):
        e = {'boundary_type': t, 'is_sun_striked_outside': struck, 'direction': 's', 'area': b['area'],
             'incident_angle_characteristics': 'multiple', 'eta_value': b['eta_value']}
        t = tsr.TransmissionSolarRadiation.create(d=e, solar_shading_part=device(0.25, 0.5))
        return t.get_qgt(a_sun_ns=a, h_sun_ns=h, i_dn_ns=i_dn, i_sky_ns=i_sky)

    def spec(b, t, struck, i_dn, i_sky, h, a):
        if t == 'external_transparent_part' and struck:
            return through(b, 's', 'multiple', 0.25, 0.5, i_dn, i_sky, h, a)
        return np.zeros(YEAR)


# ---- I01: what becomes of a boundary

@ob('I01', 'every field of a boundary comes from the matching entry of the input', b='any', t=TYPES, struck=[True, False],
    next_room=['main_occupant_room', 'other_occupant_room', 'non_occupant_room', 'underfloor'],
    theta_o='arr', i_dn='arr', i_sky='arr', r_n='arr', a='arr', h='altitude', _cut=['heat_load_calc.initializer.solar_shading:SolarShading.create'])
class boundary_fields:
    def impl(b, t, struck, next_room, theta_o, i_dn, i_sky, r_n, a, h):
        e = entry(b, t, struck, next_room)
        s = boundary_simple.get_boundary_simple(theta_o_ns=theta_o, i_dn_ns=i_dn, i_sky_ns=i_sky, r_n_ns=r_n, a_sun_ns=a, h_sun_ns=h, b=e)
        return (s.id, s.name, s.sub_name, s.connected_room_id, s.boundary_type, s.area, s.h_td, s.next_room_type, s.rear_surface_boundary_id,
                s.is_floor, s.is_solar_absorbed_inside, s.is_sun_striked_outside, s.direction, s.h_i, s.h_c, s.theta_o_sol, s.q_trs_sol)

    def spec(b, t, struck, next_room, theta_o, i_dn, i_sky, r_n, a, h):
        out = t in EXTERNAL
        e = entry(b, t, struck, next_room)
        if t == 'external_transparent_part' and struck:
            x = solar_shading.SolarShading.create(b=e)
            f_d, f_s = x.get_f_ss_d_j_ns(h, a), x.get_f_ss_s_j()
            q = through(e, 'se', 'multiple', f_d, f_s, i_dn, i_sky, h, a)
        else:
            q = np.zeros(YEAR)
        return (int(b['id']), b['name'], '', int(b['connected_room_id']), BoundaryType(t), float(b['area']),
                float(b['temp_dif_coef']) if out else (1.0 if t == 'ground' else 0.0),
                {'main_occupant_room': 0, 'other_occupant_room': 1, 'non_occupant_room': 2, 'underfloor': 3}[next_room] if t == 'internal' else -1,
                int(b['rear_surface_boundary_id']) if t == 'internal' else None, bool(b['is_floor']), bool(b['is_solar_absorbed_inside']),
                struck if out else None, 'se' if out and struck else None, 1.0 / b['inside_heat_transfer_resistance'], b['h_c'],
                behind(e, theta_o, i_dn, i_sky, r_n, a, h), q)


def entry(b, t, struck, next_room):
    e = {'id': b['id'], 'name': b['name'], 'connected_room_id': b['connected_room_id'], 'boundary_type': t, 'area': b['area'],
         'is_floor': b['is_floor'], 'is_solar_absorbed_inside': b['is_solar_absorbed_inside'],
         'inside_heat_transfer_resistance': b['inside_heat_transfer_resistance'], 'h_c': b['h_c'],
         'solar_shading_part': {'existence': False}}
    if t in EXTERNAL:
        e['is_sun_striked_outside'] = struck
        e['temp_dif_coef'] = b['temp_dif_coef']
        e['direction'] = 'se'
        e['outside_solar_absorption'] = b['outside_solar_absorption']
        e['outside_emissivity'] = b['outside_emissivity']
        e['outside_heat_transfer_resistance'] = b['outside_heat_transfer_resistance']
        e['eta_value'] = b['eta_value']
        e['incident_angle_characteristics'] = 'multiple'
    if t == 'internal':
        e['next_room_type'] = next_room
        e['rear_surface_boundary_id'] = b['rear_surface_boundary_id']
    return e


# ---- I06: occupancy and schedules

@ob('I06', 'number of residents from the total floor area', area='scalar')
class residents:
    def impl(area):
        return residents_number.get_total_number_of_residents(a_floor_total=area)

    def spec(area):
        return np.minimum(np.maximum(area / 30.0, 1.0), 4.0)


def household(n):
    return 1 if n < 2.0 else (2 if n < 3.0 else 3)


def day(n, table, room, kind, item):
    """a day of a household of n persons, between the whole numbers on either side of n"""
    k = household(n)
    few = np.array(table[str(k)][room][kind][item])
    many = np.array(table[str(k + 1)][room][kind][item])
    return few * (k + 1 - n) + many * (n - k)


def year(n, calendar, table, room, item):
    x = np.full((365, 96), -1.0)
    x[calendar == '休日在'] = day(n, table, room, '休日在', item)
    x[calendar == '休日外'] = day(n, table, room, '休日外', item)
    x[calendar == '平日'] = day(n, table, room, '平日', item)
    return x.flatten()


@ob('I06', 'a day between two household sizes', n='scalar', table='any')
class persons:
    def impl(n, table):
        return schedule_loader._get_interpolated_schedule(n, table)

    def spec(n, table):
        if not 1.0 <= n <= 4.0:
            raise ValueError()
        k = household(n)
        return np.array(table[str(k)]) * (k + 1 - n) + np.array(table[str(k + 1)]) * (n - k)


@ob('I06', 'a year of weekdays and holidays', n='scalar', calendar='arr', table='any', room='any',
    item=['local_vent_amount', 'heat_generation_appliances', 'vapor_generation_cooking', 'heat_generation_cooking', 'heat_generation_lighting',
          'number_of_people', 'is_temp_limit_set'])
class calendar:
    def impl(n, calendar, table, room, item):
        return schedule_loader._get_schedule(room_name_i=room, n_p=n, calendar=calendar, daily_schedule=table, schedule_type=item)

    def spec(n, calendar, table, room, item):
        if not 1.0 <= n <= 4.0:
            raise ValueError()
        return year(n, calendar, table, room, item)


@ob('I06', 'heat, moisture, ventilation, people and demand of every room from the schedule that bears the name', n='scalar', rooms='rows', areas='arr',
    _cut=['heat_load_calc.initializer.schedule_loader:_get_schedule'])
class rooms:
    def impl(n, rooms, areas):
        return schedule_loader.get_compiled_schedules(n_p=n, room_name_is=rooms, a_floor_is=areas)

    def spec(n, rooms, areas):
        with open(os.path.dirname(schedule_loader.__file__) + '/schedules.json', 'r', encoding='utf-8') as f:
            d = json.load(f)

        def of(item):
            return np.array([schedule_loader._get_schedule(room_name_i=r, n_p=n, calendar=np.array(d['calendar']),
                                                           daily_schedule=d['daily_schedule'], schedule_type=item) for r in rooms])
        if known('F04'):
            cooking, vapour = 'vapor_generation_cooking', 'heat_generation_cooking'
        else:
            cooking, vapour = 'heat_generation_cooking', 'vapor_generation_cooking'
        q = of('heat_generation_appliances') + of(cooking) + of('heat_generation_lighting') * areas.reshape(-1, 1)
        return q, of(vapour) / 1000.0 / 3600.0, of('local_vent_amount') / 3600.0, of('number_of_people'), of('is_temp_limit_set')


# ---- I07: response factors of a wall

def roots(ground):
    if ground:
        return np.array([1.05970E-09, 4.23890E-09, 1.69560E-08, 6.78060E-08, 2.71280E-07, 1.08500E-06, 4.34170E-06, 1.73610E-05, 6.94444E-05,
                         2.77778E-04])
    return np.array([2.0000E-06, 7.9000E-06, 3.1205E-05, 1.2325E-04, 4.8687E-04, 1.9231E-03, 7.5964E-03, 3.0006E-02])


@ob(('I07', 'I01'), 'which layers and which films make up the wall, and which kind of response is used', spec='any',
    t=TYPES, method=['layers', 'layers_ground', 'u_value'],
    _cut=['heat_load_calc.initializer.response_factor:calc_response_factor'])
class wall:
    def impl(spec, t, method):
        s = {'method': method, 'boundary_type': t, 'layers': spec['layers'], 'outside_heat_transfer_resistance': spec['outside_heat_transfer_resistance'],
             'u_value': spec['u_value'], 'inside_heat_transfer_resistance': spec['inside_heat_transfer_resistance']}
        f = response_factor.ResponseFactorFactory.create(spec=s).get_response_factors()
        return f.rft0, f.rfa0, f.rft1, f.rfa1, f.row, f.n_root

    def spec(spec, t, method):
        if t in ['external_transparent_part', 'external_opaque_part']:
            z = np.zeros(12)
            return 1.0, 1.0 / spec['u_value'] - spec['inside_heat_transfer_resistance'], z, z, z, 0
        cs = [float(x['thermal_capacity']) for x in spec['layers']]
        rs = [float(x['thermal_resistance']) for x in spec['layers']]
        if t == 'ground':
            r = response_factor.calc_response_factor(True, np.array(cs + [3300.0 * 3.0]) * 1000.0, np.array(rs + [3.0]))
        else:
            r = response_factor.calc_response_factor(False, np.array(cs + [0.0]) * 1000.0, np.array(rs + [float(spec['outside_heat_transfer_resistance'])]))
        return r[0], r[1], r[2], r[3], r[4], r[5]


@ob('I07', 'factors which are given are used as they are', spec='any')
class given:
    def impl(spec):
        s = {'method': 'response_factor', 'boundary_type': spec['boundary_type'], 'phi_t0': spec['phi_t0'], 'phi_a0': spec['phi_a0'],
             'phi_t1': spec['phi_t1'], 'phi_a1': spec['phi_a1'], 'r': spec['r']}
        f = response_factor.ResponseFactorFactory.create(spec=s).get_response_factors()
        return f.rft0, f.rfa0, f.rft1, f.rfa1, f.row, f.n_root

    def spec(spec):
        return spec['phi_t0'], spec['phi_a0'], spec['phi_t1'], spec['phi_a1'], spec['r'], len(spec['phi_t1'])


@ob('I07', 'roots of walls and of the ground', ground=[True, False])
class fixed_roots:
    def impl(ground):
        return response_factor.get_alpha_m(ground)

    def spec(ground):
        return roots(ground)


@ob('I07', 'triangular-pulse factors from the step response', alp='arr', at0='scalar', aa0='scalar', at='arr', aa='arr', m='int')
class triangle:
    def impl(alp, at0, aa0, at, aa, m):
        _, _, t1, a1, row = response_factor.get_RFTRI(alp, at0, aa0, at, aa, m)
        return t1, a1, row

    def spec(alp, at0, aa0, at, aa, m):
        x = alp * 900
        e = (1.0 - np.exp(-x)) ** 2 / x
        return -at * e, -aa * e, np.exp(-x)


@ob('I07', 'Laplace variables between the roots', ground=[True, False])
class laplace:
    def impl(ground):
        return response_factor.get_laps(response_factor.get_alpha_m(ground))

    def spec(ground):
        a = roots(ground)
        n = 10 if ground else 8
        out = []
        for i in range(n):
            out.append(a[0] / math.sqrt(a[1] / a[0]) if i == 0 else a[i] / math.sqrt(a[i] / a[i - 1]))
            out.append(a[i])
        return np.array(out)


@ob('I07', 'first terms of the response', alp='arr', at0='scalar', aa0='scalar', at='arr', aa='arr', m=[2, 4])
class first:
    def impl(alp, at0, aa0, at, aa, m):
        t, a, _, _, _ = response_factor.get_RFTRI(alp, at0, aa0, at, aa, m)
        return t[0], a[0]

    def spec(alp, at0, aa0, at, aa, m):
        x = alp * 900
        e = (1.0 - np.exp(-x)) / x
        return at0 + np.sum(e * at), aa0 + np.sum(e * aa)

@ob('I07', 'step response: exponentials fitted to the transfer functions', c=[0, 120000], r=[0.18], _explicit=True,
    p=[(0.001, 0.004, 0.02), (0.0005, 0.003, 0.007)], a0='scalar', a1='scalar')
class fit:
    def impl(c, r, p, a0, a1):
        t0, q0, at, aa, ts, qs = response_factor.get_step_reps_of_wall([c], [r], [p[0], p[1], p[2]], [a0, a1], 2)
        return t0, q0, at[0], at[1], aa[0], aa[1], ts[0], qs[0], ts[1], qs[1]

    def spec(c, r, p, a0, a1):
        def transfer(s):
            if c == 0:
                return 0.0, 0.0
            x = math.sqrt(r * c * s)
            return r * np.sinh(x) / x / np.cosh(x) - r, 1.0 / np.cosh(x) - 1.0

        fa = [s / (s + a0) for s in p]
        fb = [s / (s + a1) for s in p]
        g = [transfer(s) for s in p]
        # the normal equations of the least squares fit
        uaa = sum([x * x for x in fa])
        uab = sum([x * y for x, y in zip(fa, fb)])
        ubb = sum([x * x for x in fb])
        det = uaa * ubb - uab * uab
        out = []
        for n in (1, 0):
            ca = sum([x * y[n] for x, y in zip(fa, g)])
            cb = sum([x * y[n] for x, y in zip(fb, g)])
            out.append(((ubb * ca - uab * cb) / det, (uaa * cb - uab * ca) / det))
        (t, u), (q, v) = out
        e0 = math.exp(-900 * a0)
        e1 = math.exp(-900 * a1)
        return 1.0, r, t, u, q, v, 1.0 + t + u, r + q + v, 1.0 + t * e0 + u * e1, r + q * e0 + v * e1


@ob('I07', 'transfer functions of a wall of layers', c0='scalar', c1='scalar', r0='scalar', r1='scalar', s0='scalar', a0='scalar', _explicit=True)
class layers_in_series:
    def impl(c0, c1, r0, r1, s0, a0):
        t0, q0, at, aa, ts, qs = response_factor.get_step_reps_of_wall([c0, c1], [r0, r1], [s0], [a0], 1)
        return t0, q0, at[0], aa[0]

    def spec(c0, c1, r0, r1, s0, a0):
        a, b, c, d = 1.0, 0.0, 0.0, 1.0
        for q, r in ((c0, r0), (c1, r1)):
            # the four-terminal matrix of a layer; a layer without heat capacity is a resistance
            if abs(q) < 0.001:
                e, f, g, h = 1.0, r, 0.0, 1.0
            else:
                x = math.sqrt(r * q * s0)
                e, f, g, h = np.cosh(x), r * np.sinh(x) / x, x * np.sinh(x) / r, np.cosh(x)
            a, b, c, d = a * e + b * g, a * f + b * h, c * e + d * g, c * f + d * h
        w = s0 / (s0 + a0)
        return 1.0, r0 + r1, (1.0 / d - 1.0) / w, (b / d - (r0 + r1)) / w


@ob('I07', 'four layers with heat capacity', k=[(90, 0, 130000, 0.0004), (20000, 7, 0, 0), (0, 0, 3000, 50)], r0='scalar', r1='scalar', r2='scalar', r3='scalar',
    s0='scalar', a0='scalar', _explicit=True)
class several_layers:
    def impl(k, r0, r1, r2, r3, s0, a0):
        t0, q0, at, aa, ts, qs = response_factor.get_step_reps_of_wall([k[0], k[1], k[2], k[3]], [r0, r1, r2, r3], [s0], [a0], 1)
        return t0, q0, at[0], aa[0]

    def spec(k, r0, r1, r2, r3, s0, a0):
        a, b, c, d = 1.0, 0.0, 0.0, 1.0
        for q, r in zip(k, (r0, r1, r2, r3)):
            if q < 0.001:
                e, f, g, h = 1.0, r, 0.0, 1.0
            else:
                x = math.sqrt(r * q * s0)
                e, f, g, h = np.cosh(x), r * np.sinh(x) / x, x * np.sinh(x) / r, np.cosh(x)
            a, b, c, d = a * e + b * g, a * f + b * h, c * e + d * g, c * f + d * h
        w = s0 / (s0 + a0)
        total = r0 + r1 + r2 + r3
        return 1.0, total, (1.0 / d - 1.0) / w, (b / d - total) / w


@ob('I07', 'the factors are padded to twelve terms and taken from the step response', ground=[True, False], cs='arr', rs='arr',
    _cut=['heat_load_calc.initializer.response_factor:get_step_reps_of_wall', 'heat_load_calc.initializer.response_factor:get_RFTRI',
          'heat_load_calc.initializer.response_factor:get_laps', 'heat_load_calc.initializer.response_factor:get_alpha_m'])
class assembled:
    def impl(ground, cs, rs):
        return response_factor.calc_response_factor(ground, cs, rs)

    def spec(ground, cs, rs):
        alpha = response_factor.get_alpha_m(ground)
        m = 201
        s = response_factor.get_step_reps_of_wall(cs, rs, response_factor.get_laps(alpha), alpha, m)
        f = response_factor.get_RFTRI(alpha, s[0], s[1], s[2], s[3], m)

        def twelve(x):
            r = np.zeros(12)
            r[:len(x)] = x
            return r
        return f[0][0], f[1][0], twelve(f[2]), twelve(f[3]), twelve(f[4]), len(alpha)


# ---- I08: furniture, air-tightness, radiation shares

@ob('I08', 'heat and moisture capacity and conductance of furniture from the room volume', v='arr')
class furnishing:
    def impl(v):
        c = furniture.get_c_cap_frt_is(v_room_cap_is=v)
        w = furniture.get_c_lh_frt_is(v)
        return c, furniture.get_g_sh_frt_is(c_sh_frt_is=c), w, furniture.get_g_lh_frt_is(c_lh_frt_is=w)

    def spec(v):
        return 12600.0 * v, 2.772 * v, 16.8 * v, 0.03024 * v


@ob('I08', 'air-tightness estimated from the heat loss coefficient and the structure', ua='scalar', s={'enum': 'heat_load_calc.initializer.estimate_c_value:Structure'})
class air_tightness:
    def impl(ua, s):
        return cv.estimate_c_value(ua_value=ua, struct=s)

    def spec(ua, s):
        return (4.16 if s in [cv.Structure.RC, cv.Structure.SRC] else 8.28) * ua


@ob('I08', 'radiation shares of people and radiant heating by area, floor and other surfaces apart', area='arr', floor='arr', radiant='any')
class shares:
    def impl(area, floor, radiant):
        m = floor > 0.5
        return (occupants_form_factor.get_f_mrt_hum_is(a_bdry_i_js=area, is_floor_bdry_i_js=m),
                a12.get_flr_i_js(area_i_js=area, is_radiative_heating=radiant, is_floor_i_js=m))

    def spec(area, floor, radiant):
        m = floor > 0.5
        return (np.where(m, 0.45 * area / np.sum(area[m]), 0.55 * area / np.sum(area[np.logical_not(m)])), area / np.sum(area[m]) * radiant * m)


@ob('I08', 'which rooms have radiant heating and cooling', room='any')
class radiant:
    def impl(room):
        return a22.read_is_radiative_heating(room), a22.read_is_radiative_cooling(room)

    def spec(room):
        return room['heating_equipment']['equipment_type'] == 'radiative', room['cooling_equipment']['equipment_type'] == 'radiative'


# ---- I10: air flows between rooms

@ob(('I10', 'I09'), 'air flow from room to room', v0='scalar', v1='scalar', v2='scalar', v3='scalar', n=[3])
class next_vents:
    """each room names its neighbours; the same neighbour may come more than once"""
    def impl(v0, v1, v2, v3, n):
        m = initializer._get_v_int_vent_is([[], [(2, v0)], [(0, v1), (1, v2), (0, v3)]], n)
        return [[m[i, j] for j in range(3)] for i in range(3)]

    def spec(v0, v1, v2, v3, n):
        return [[0.0, 0.0, 0.0], [0.0, 0.0 if known('F02') else -v0 / 3600.0, v0 / 3600.0],
                [(v1 + v3) / 3600.0, v2 / 3600.0, 0.0 if known('F02') else -(v1 + v2 + v3) / 3600.0]]


# ---- I09: what is handed to the core

def equipment(e, rated):
    kind = e['equipment_type']
    on = {'installed': True}
    off = {'installed': False}
    if kind == 'convective':
        c = e['convective']
        return {'radiative': off, 'convective': {'installed': True, 'q_min': c['q_min'], 'q_max': c['q_max'], 'v_min': c['v_min'], 'v_max': c['v_max']} if rated else on}
    if kind == 'radiative':
        r = e['radiative']
        return {'radiative': {'installed': True, 'max_capacity': r['max_capacity'] * r['area']}, 'convective': off}
    return {'radiative': off, 'convective': off}


@ob('I09', 'building of the intermediate file', d='any')
class building:
    def impl(d):
        return initializer._make_building_dict(d=d)

    def spec(d):
        return {'infiltration_method': 'balance_residential', 'story': initializer.Story(d['story']).value,
                'c_value': d['c_value'], 'inside_pressure': initializer.InsidePressure(d['inside_pressure']).value}


@ob('I09', 'rooms of the intermediate file', rooms='rows', _may_fail=True, _cut=['heat_load_calc.initializer.initializer:_get_v_int_vent_is'])
class spaces:
    def impl(rooms):
        return initializer._make_spaces_dict(rooms=rooms)

    def spec(rooms):
        vent = initializer._get_v_int_vent_is([[([v['upstream_room_id']], v['volume']) for v in r['next_vent']] for r in rooms], len(rooms))
        volume = np.array([r['volume'] for r in rooms])
        natural = np.array([r['natural_vent_time'] for r in rooms])
        outdoor = np.array([r['vent'] for r in rooms])
        return [{
            'id': int(r['id']), 'name': r['name'], 'volume': volume[i], 'beta': 0.0,
            'ventilation': {'mechanical': outdoor[i] / 3600.0, 'next_spaces': vent[i], 'natural': volume[i] * natural[i] / 3600.0},
            'furniture': {'heat_capacity': 12600.0 * volume[i], 'heat_cond': 2.772 * volume[i],
                          'moisture_capacity': 16.8 * volume[i], 'moisture_cond': 0.03024 * volume[i]},
            'equipment': {'heating': equipment(r['heating_equipment'], False), 'cooling': equipment(r['cooling_equipment'], True)},
        } for i, r in enumerate(rooms)]


@ob('I09', 'a house whose rooms are misnumbered or lack exactly one main room is refused', a='int', b='int', ta='str', tb='str', _fails=True)
class refused:
    def impl(a, b, ta, tb):
        def room(i, t):
            return {'id': i, 'name': '', 'room_type': t, 'volume': 1.0, 'vent': 0.0, 'next_vent': [], 'natural_vent_time': 0.0,
                    'heating_equipment': {'equipment_type': 'not_installed'}, 'cooling_equipment': {'equipment_type': 'not_installed'}}
        initializer._make_spaces_dict(rooms=[room(a, ta), room(b, tb)])
        return True

    def spec(a, b, ta, tb):
        if int(a) != 0 or int(b) != 1:
            raise ValueError()
        x, y = initializer.RoomType(ta), initializer.RoomType(tb)
        main = initializer.RoomType.MAIN_OCCUPANT_ROOM
        if x == y or (x != main and y != main):
            raise ValueError()
        return True


@ob(('X03', 'I09'), 'a house with two rooms of one kind is refused', ta='str', tb='str', tc='str', _only_fails=True)
class repeated:
    def impl(ta, tb, tc):
        def room(i, t):
            return {'id': i, 'name': '', 'room_type': t, 'volume': 1.0, 'vent': 0.0, 'next_vent': [], 'natural_vent_time': 0.0,
                    'heating_equipment': {'equipment_type': 'not_installed'}, 'cooling_equipment': {'equipment_type': 'not_installed'}}
        initializer._make_spaces_dict(rooms=[room(0, ta), room(1, tb), room(2, tc)])
        return True

    def spec(ta, tb, tc):
        x, y, z = initializer.RoomType(ta), initializer.RoomType(tb), initializer.RoomType(tc)
        main = initializer.RoomType.MAIN_OCCUPANT_ROOM
        if x == y or y == z or x == z or (x != main and y != main and z != main):
            raise ValueError()
        return True


@ob('I09', 'boundaries of the intermediate file', bss='rows', entries='rows',
    _cut=['heat_load_calc.initializer.occupants_form_factor:get_f_mrt_hum_is', 'heat_load_calc.initializer.a12_indoor_radiative_heat_transfer:get_flr_i_js'])
class boundaries:
    def impl(bss, entries):
        rooms = [{'heating_equipment': {'equipment_type': 'radiative'}}, {'heating_equipment': {'equipment_type': 'convective'}}]
        return initializer._make_boundaries(bss2=bss, rooms=rooms, boundaries=entries)

    def spec(bss, entries):
        hum = np.zeros(len(bss))
        flr = np.zeros(len(bss))
        area = np.array([x.area for x in bss])
        floor = np.array([x.is_floor for x in bss])
        for i, radiant in enumerate([True, False]):
            m = np.array([x.connected_room_id == i for x in bss])
            hum[m] = occupants_form_factor.get_f_mrt_hum_is(a_bdry_i_js=area[m], is_floor_bdry_i_js=floor[m])
            flr[m] = a12.get_flr_i_js(area_i_js=area[m], is_radiative_heating=radiant, is_floor_i_js=floor[m])
        return [{
            'id': x.id, 'name': x.name, 'sub_name': x.sub_name, 'is_ground': 'true' if x.boundary_type == BoundaryType.Ground else 'false',
            'connected_space_id': x.connected_room_id, 'area': x.area, 'h_i': x.h_i, 'h_c': x.h_c, 'flr': flr[i],
            'is_solar_absorbed': str(x.is_solar_absorbed_inside), 'f_mrt_hum': hum[i], 'k_outside': x.h_td, 'k_inside': inside(x), 'spec': wall_spec(x, entries[i]),
        } for i, x in enumerate(bss)]


def inside(x):
    if x.boundary_type == BoundaryType.Internal:
        return {'id': int(x.rear_surface_boundary_id), 'coef': 1.0}
    if x.boundary_type == BoundaryType.Ground or x.h_td >= 1.0:
        return None
    return {'id': x.id, 'coef': 1.0 - x.h_td}


def wall_spec(x, e):
    t = x.boundary_type
    if t == BoundaryType.Ground:
        return {'method': 'layers_ground', 'boundary_type': t.value, 'layers': e['layers']}
    if t == BoundaryType.Internal or t == BoundaryType.ExternalGeneralPart:
        return {'method': 'layers', 'boundary_type': t.value, 'layers': e['layers'], 'outside_heat_transfer_resistance': e['outside_heat_transfer_resistance']}
    if t != BoundaryType.ExternalTransparentPart and t != BoundaryType.ExternalOpaquePart:
        raise KeyError()
    return {'method': 'u_value', 'boundary_type': t.value, 'u_value': e['u_value'], 'inside_heat_transfer_resistance': e['inside_heat_transfer_resistance']}


MID = 'heat_load_calc.initializer.initializer:'


@ob('I09', 'weather, rooms and boundaries go into the intermediate files under their own names', d='any', src='str', dst='str', _effects=True,
    _cut=[MID + '_make_building_dict', MID + '_make_spaces_dict', MID + '_make_boundaries',
          'heat_load_calc.initializer.boundary_simple:get_boundary_simple', 'heat_load_calc.initializer.schedule_loader:get_compiled_schedules'])
class files:
    def impl(d, src, dst):
        initializer.make_house(d=d, input_data_dir=src, output_data_dir=dst)

    def spec(d, src, dst):
        table = pd.read_csv(src + '/weather.csv', index_col=0)
        bs = [boundary_simple.get_boundary_simple(
            theta_o_ns=table['temperature'].values, i_dn_ns=table['normal direct solar radiation'].values,
            i_sky_ns=table['horizontal sky solar radiation'].values, r_n_ns=table['outward radiation'].values,
            a_sun_ns=table['sun azimuth'].values, h_sun_ns=table['sun altitude'].values, b=b) for b in d['boundaries']]
        rooms = d['rooms']
        sun = np.array([np.sum(np.array([b.q_trs_sol for b in bs if b.connected_room_id == i]), axis=0) for i in range(len(rooms))])
        floor = np.array([r['floor_area'] for r in rooms])
        heat, moisture, vent, people, demand = schedule_loader.get_compiled_schedules(
            n_p=residents_number.get_total_number_of_residents(a_floor_total=np.sum(floor)), room_name_is=[r['name'] for r in rooms], a_floor_is=floor)
        house = {'building': initializer._make_building_dict(d=d['building']), 'spaces': initializer._make_spaces_dict(rooms=rooms),
                 'boundaries': initializer._make_boundaries(bss2=bs, rooms=rooms, boundaries=d['boundaries'])}
        with open(dst + '/mid_data_house.json', 'w') as f:
            json.dump(house, f, indent=4)
        keep(dst, 'local_vent', vent)
        keep(dst, 'heat_generation', heat)
        keep(dst, 'moisture_generation', moisture)
        keep(dst, 'occupants', people)
        keep(dst, 'ac_demand', demand)
        keep(dst, 'q_trs_sol', sun)
        keep(dst, 'theta_o_sol', np.array([b.theta_o_sol for b in bs]))


def keep(d, name, x):
    with open(d + '/mid_data_' + name + '.csv', 'w') as f:
        csv.writer(f, lineterminator='\n').writerows(x.T.tolist())
