"""From the input files to the parameters of the time loop (docs/derivation/heat_balance.adoc 3.16 - 3.30, 4.8, 6.x)."""
import csv
import json
import numpy as np
import pandas as pd

from heat_load_calc.core import pre_calc_parameters
from heat_load_calc.core import shape_factor
from heat_load_calc.core import ot_target
from heat_load_calc.core import infiltration
from heat_load_calc.initializer import response_factor

C_AIR = 1005.0
RHO = 1.2
FURNITURE_SOLAR = 0.5


def column(xs):
    return np.array(xs).reshape(-1, 1)


def house(d):
    with open(d + '/mid_data_house.json') as f:
        return json.load(f)


def series(d, name):
    with open(d + '/mid_data_' + name + '.csv', 'r') as f:
        return np.array([row for row in csv.reader(f, quoting=csv.QUOTE_NONNUMERIC)]).T


def factors(bs):
    return [response_factor.ResponseFactorFactory.create(spec=b['spec']).get_response_factors() for b in bs]


def assemble(delta_t, d):
    rd = house(d)
    if rd['building']['infiltration_method'] != 'balance_residential':
        raise KeyError()
    ss = rd['spaces']
    bs = rd['boundaries']
    r = {}
    n_s, n_b = len(ss), len(bs)
    r['n_spaces'], r['n_bdries'] = n_s, n_b
    volume = column([float(s['volume']) for s in ss])
    beta = column([s['beta'] for s in ss])
    c_sh = column([float(s['furniture']['heat_capacity']) for s in ss])
    g_sh = column([float(s['furniture']['heat_cond']) for s in ss])
    area = column([b['area'] for b in bs])
    room = np.array([b['connected_space_id'] for b in bs])
    h_c = column([b['h_c'] for b in bs])
    k_eo = column([b['k_outside'] for b in bs])
    absorbs = column([{'True': True, 'False': False}[b['is_solar_absorbed']] for b in bs])
    rf = factors(bs)
    a0 = column([x.rfa0 for x in rf])
    t0 = column([x.rft0 for x in rf])
    p = np.zeros((n_s, n_b), dtype=int)
    for i in range(n_s):
        p[i, room == i] = 1
    pt = p.T
    rows = []
    for b in bs:
        row = [0.0] * n_b
        if b['k_inside'] is not None:
            row[b['k_inside']['id']] = b['k_inside']['coef']
        rows.append(row)
    k_ei = np.array(rows)
    flr = pt * np.array([b['flr'] for b in bs])[:, np.newaxis]
    h_r = shape_factor.get_h_r_js(a_srf_js=area, p_js_is=pt)
    f_mrt = shape_factor.get_f_mrt_is_js(a_srf_js=area, h_r_js=h_r, p_is_js=p)
    h_i = h_c + h_r
    weather = pd.read_csv(d + '/weather.csv', index_col=0, engine='python')
    theta_o = weather['temperature'].values
    q_trs = series(d, 'q_trs_sol')
    q_sol = np.dot(pt, q_trs / np.dot(p, area * absorbs)) * absorbs * (1 - FURNITURE_SOLAR)
    outside = series(d, 'theta_o_sol') * k_eo
    # 3.16 - 3.21: what the boundary behind contributes is weighted by that boundary's own coefficients
    known_rear = known('F03')
    mrt = np.dot(pt, f_mrt)
    share = flr * (1.0 - beta.T)
    if known_rear:
        ax = np.diag((1 + a0 * h_i).flatten()) - mrt * h_r * a0 - np.dot(k_ei, mrt) * h_r * t0 / h_i
        fia = a0 * h_c * pt + np.dot(k_ei, pt) * t0 * h_c / h_i
        crx = a0 * q_sol + t0 / h_i * np.dot(k_ei, q_sol) + t0 * outside
        flb = share * a0 / area + np.dot(k_ei, share) * t0 / h_i / area
    else:
        ax = np.diag((1 + a0 * h_i).flatten()) - mrt * h_r * a0 - np.dot(k_ei, mrt * h_r / h_i) * t0
        fia = a0 * h_c * pt + np.dot(k_ei, pt * h_c / h_i) * t0
        crx = a0 * q_sol + t0 * np.dot(k_ei, q_sol / h_i) + t0 * outside
        flb = share * a0 / area + np.dot(k_ei, share / h_i / area) * t0
    inv = np.linalg.inv(ax)
    wsr = np.dot(inv, fia)
    wsb = np.dot(inv, flb)
    r['ivs_ax_js_js'] = inv
    r['wsr_js_is'] = wsr
    r['wsb_js_is'] = wsb
    r['wsc_js_ns'] = np.dot(inv, crx)
    r['brl_is_is'] = np.dot(p, wsb * h_c * area) + np.diag(beta.flatten())
    r['brm_non_vent_is_is'] = np.diag((volume * RHO * C_AIR).flatten() / delta_t) + np.dot(p, (pt - wsr) * area * h_c) \
        + np.diag((c_sh * g_sh / (c_sh + g_sh * delta_t)).flatten())
    r['id_space_is'] = [int(s['id']) for s in ss]
    r['name_space_is'] = [str(s['name']) for s in ss]
    r['v_room_is'] = volume
    r['c_room_is'] = volume * RHO * C_AIR
    r['c_sh_frt_is'] = c_sh
    r['g_sh_frt_is'] = g_sh
    r['c_lh_frt_is'] = column([float(s['furniture']['moisture_capacity']) for s in ss])
    r['g_lh_frt_is'] = column([float(s['furniture']['moisture_cond']) for s in ss])
    r['v_int_vent_is_is'] = np.array([s['ventilation']['next_spaces'] for s in ss])
    r['v_ntrl_vent_is'] = column([s['ventilation']['natural'] for s in ss])
    r['v_mec_vent_is_ns'] = np.array([s['ventilation']['mechanical'] for s in ss])[:, np.newaxis] + series(d, 'local_vent')
    r['name_bdry_js'] = np.array([str(b['name']) for b in bs])
    r['sub_name_bdry_js'] = [b['sub_name'] for b in bs]
    r['a_srf_js'] = area
    r['q_gen_is_ns'] = series(d, 'heat_generation')
    r['x_gen_is_ns'] = series(d, 'moisture_generation')
    r['n_hum_is_ns'] = series(d, 'occupants')
    r['ac_demand_is_ns'] = series(d, 'ac_demand')
    r['q_trs_sol_is_ns'] = q_trs
    r['q_sol_js_ns'] = q_sol
    r['q_sol_frt_is_ns'] = FURNITURE_SOLAR * q_trs
    r['theta_dstrb_js_ns'] = outside
    r['f_mrt_hum_is_js'] = p * np.array([b['f_mrt_hum'] for b in bs])[np.newaxis, :]
    r['f_mrt_is_js'] = f_mrt
    r['h_r_js'] = h_r
    r['h_c_js'] = h_c
    r['flr_js_is'] = flr
    r['beta_is'] = beta
    r['p_is_js'] = p
    r['p_js_is'] = pt
    r['k_ei_js_js'] = k_ei
    r['phi_a0_js'] = a0
    r['phi_t0_js'] = t0
    r['phi_a1_js_ms'] = np.array([x.rfa1 for x in rf])
    r['phi_t1_js_ms'] = np.array([x.rft1 for x in rf])
    r['r_js_ms'] = np.array([x.row for x in rf])
    r['is_ground_js'] = column([{'true': True, 'false': False}[b['is_ground']] for b in bs])
    r['theta_o_ns'] = theta_o
    r['x_o_ns'] = weather['absolute humidity'].values
    r['theta_o_ave'] = np.average(theta_o)
    return r


@ob('C08', 'every plain building parameter comes from its own field of the house description', delta_t='scalar', d='str', _present=['id'],
    _cut=['heat_load_calc.core.shape_factor:get_h_r_js', 'heat_load_calc.core.shape_factor:get_f_mrt_is_js',
          'heat_load_calc.initializer.response_factor:ResponseFactorFactory.create'])
class fields:
    def impl(delta_t, d):
        r, g = pre_calc_parameters.make_pre_calc_parameters(delta_t=delta_t, data_directory=d)
        return (r.n_spaces, r.n_bdries, r.id_space_is, r.name_space_is, r.v_room_is, r.c_room_is, r.c_sh_frt_is, r.g_sh_frt_is, r.c_lh_frt_is,
                r.g_lh_frt_is, r.v_int_vent_is_is, r.v_ntrl_vent_is, r.name_bdry_js, r.sub_name_bdry_js, r.a_srf_js, r.h_c_js, r.beta_is,
                r.f_mrt_hum_is_js, r.flr_js_is, r.p_is_js, r.p_js_is, r.is_ground_js, r.h_r_js, r.f_mrt_is_js)

    def spec(delta_t, d):
        r = assemble(delta_t, d)
        return (r['n_spaces'], r['n_bdries'], r['id_space_is'], r['name_space_is'], r['v_room_is'], r['c_room_is'], r['c_sh_frt_is'], r['g_sh_frt_is'], r['c_lh_frt_is'],
                r['g_lh_frt_is'], r['v_int_vent_is_is'], r['v_ntrl_vent_is'], r['name_bdry_js'], r['sub_name_bdry_js'], r['a_srf_js'], r['h_c_js'], r['beta_is'],
                r['f_mrt_hum_is_js'], r['flr_js_is'], r['p_is_js'], r['p_js_is'], r['is_ground_js'], r['h_r_js'], r['f_mrt_is_js'])


@ob('C08', 'every schedule comes from its own file', delta_t='scalar', d='str', _present=['id'],
    _cut=['heat_load_calc.core.shape_factor:get_h_r_js', 'heat_load_calc.core.shape_factor:get_f_mrt_is_js',
          'heat_load_calc.initializer.response_factor:ResponseFactorFactory.create'])
class schedules:
    def impl(delta_t, d):
        r, g = pre_calc_parameters.make_pre_calc_parameters(delta_t=delta_t, data_directory=d)
        return (r.v_mec_vent_is_ns, r.q_gen_is_ns, r.x_gen_is_ns, r.n_hum_is_ns, r.ac_demand_is_ns, r.q_trs_sol_is_ns, r.theta_dstrb_js_ns,
                r.theta_o_ns, r.x_o_ns, r.theta_o_ave)

    def spec(delta_t, d):
        r = assemble(delta_t, d)
        return (r['v_mec_vent_is_ns'], r['q_gen_is_ns'], r['x_gen_is_ns'], r['n_hum_is_ns'], r['ac_demand_is_ns'], r['q_trs_sol_is_ns'], r['theta_dstrb_js_ns'],
                r['theta_o_ns'], r['x_o_ns'], r['theta_o_ave'])


@ob(('C08', 'C03', 'C16'), 'response factors and rear-side relations of every boundary', delta_t='scalar', d='str', _present=['id'],
    _cut=['heat_load_calc.core.shape_factor:get_h_r_js', 'heat_load_calc.core.shape_factor:get_f_mrt_is_js',
          'heat_load_calc.initializer.response_factor:ResponseFactorFactory.create'])
class responses:
    def impl(delta_t, d):
        r, g = pre_calc_parameters.make_pre_calc_parameters(delta_t=delta_t, data_directory=d)
        return r.phi_a0_js, r.phi_a1_js_ms, r.phi_t0_js, r.phi_t1_js_ms, r.r_js_ms, r.k_ei_js_js

    def spec(delta_t, d):
        r = assemble(delta_t, d)
        return r['phi_a0_js'], r['phi_a1_js_ms'], r['phi_t0_js'], r['phi_t1_js_ms'], r['r_js_ms'], r['k_ei_js_js']


@ob(('C08', 'C03'), 'ground parameters are the rows of the ground boundaries', delta_t='scalar', d='str', _present=['id'],
    _cut=['heat_load_calc.core.shape_factor:get_h_r_js', 'heat_load_calc.core.shape_factor:get_f_mrt_is_js',
          'heat_load_calc.initializer.response_factor:ResponseFactorFactory.create'])
class ground:
    def impl(delta_t, d):
        r, g = pre_calc_parameters.make_pre_calc_parameters(delta_t=delta_t, data_directory=d)
        return g.n_grounds, g.r_js_ms, g.phi_a0_js, g.phi_a1_js_ms, g.h_r_js, g.h_c_js, g.theta_o_ns, g.theta_o_ave

    def spec(delta_t, d):
        r = assemble(delta_t, d)
        m = r['is_ground_js'].flatten()
        return (np.count_nonzero(r['is_ground_js']), r['r_js_ms'][m, :], r['phi_a0_js'][m, :], r['phi_a1_js_ms'][m, :], r['h_r_js'][m, :], r['h_c_js'][m, :],
                r['theta_o_ns'], r['theta_o_ave'])


@ob('C16', 'surface temperatures and room balance coefficients', delta_t='scalar', d='str', _present=['id'],
    _cut=['heat_load_calc.core.shape_factor:get_h_r_js', 'heat_load_calc.core.shape_factor:get_f_mrt_is_js',
          'heat_load_calc.initializer.response_factor:ResponseFactorFactory.create'])
class surfaces:
    def impl(delta_t, d):
        r, g = pre_calc_parameters.make_pre_calc_parameters(delta_t=delta_t, data_directory=d)
        return r.ivs_ax_js_js, r.wsr_js_is, r.wsb_js_is, r.wsc_js_ns, r.brl_is_is, r.brm_non_vent_is_is

    def spec(delta_t, d):
        r = assemble(delta_t, d)
        return r['ivs_ax_js_js'], r['wsr_js_is'], r['wsb_js_is'], r['wsc_js_ns'], r['brl_is_is'], r['brm_non_vent_is_is']


@ob('C13', 'transmitted solar heat is split between furniture and the absorbing surfaces of the room', delta_t='scalar', d='str', _present=['id'],
    _cut=['heat_load_calc.core.shape_factor:get_h_r_js', 'heat_load_calc.core.shape_factor:get_f_mrt_is_js',
          'heat_load_calc.initializer.response_factor:ResponseFactorFactory.create'])
class solar_split:
    def impl(delta_t, d):
        r, g = pre_calc_parameters.make_pre_calc_parameters(delta_t=delta_t, data_directory=d)
        return r.q_sol_js_ns, r.q_sol_frt_is_ns

    def spec(delta_t, d):
        r = assemble(delta_t, d)
        return r['q_sol_js_ns'], r['q_sol_frt_is_ns']


@ob(('C08', 'C05', 'C10'), 'radiant heating capacity, cooling equipment and the functions of the time loop', delta_t='scalar', d='str', _present=['id'],
    _cut=['heat_load_calc.core.shape_factor:get_h_r_js', 'heat_load_calc.core.shape_factor:get_f_mrt_is_js',
          'heat_load_calc.core.ot_target:make_get_ot_target_and_h_hum_function', 'heat_load_calc.core.infiltration:make_get_infiltration_function',
          'heat_load_calc.initializer.response_factor:ResponseFactorFactory.create'])
class equipment:
    def impl(delta_t, d):
        r, g = pre_calc_parameters.make_pre_calc_parameters(delta_t=delta_t, data_directory=d)
        return (r.is_radiative_heating_is, r.lr_h_max_cap_is, r.is_radiative_cooling_is, r.lr_cs_max_cap_is, r.rac_spec,
                r.get_ot_target_and_h_hum, r.get_infiltration)

    def spec(delta_t, d):
        rd = house(d)
        eq = [s['equipment'] for s in rd['spaces']]
        hot = [True if e['heating']['radiative']['installed'] else False for e in eq]
        cold = [True if e['cooling']['radiative']['installed'] else False for e in eq]
        ac = [e['cooling']['convective'] for e in eq]
        return (column(hot), column([e['heating']['radiative']['max_capacity'] if e['heating']['radiative']['installed'] else 0.0 for e in eq]),
                column(cold), column([e['cooling']['radiative']['max_capacity'] if e['cooling']['radiative']['installed'] else 0.0 for e in eq]),
                {'v_min': column([a['v_min'] for a in ac]), 'v_max': column([a['v_max'] for a in ac]),
                 'q_min': column([a['q_min'] for a in ac]), 'q_max': column([a['q_max'] for a in ac])},
                ot_target.make_get_ot_target_and_h_hum_function(is_radiative_heating_is=np.array(hot), is_radiative_cooling_is=np.array(cold)),
                infiltration.make_get_infiltration_function(rd=rd))


CUT = ['heat_load_calc.core.shape_factor:get_h_r_js', 'heat_load_calc.core.shape_factor:get_f_mrt_is_js',
       'heat_load_calc.initializer.response_factor:ResponseFactorFactory.create']


@ob('C01', 'what the heat balance of a room is made of', delta_t='scalar', d='str', _present=['id'], _cut=CUT)
class room_balance:
    def impl(delta_t, d):
        r, g = pre_calc_parameters.make_pre_calc_parameters(delta_t=delta_t, data_directory=d)
        return (r.brl_is_is, r.brm_non_vent_is_is, r.c_room_is, r.c_sh_frt_is, r.g_sh_frt_is, r.v_mec_vent_is_ns, r.v_ntrl_vent_is, r.v_int_vent_is_is,
                r.q_gen_is_ns, r.n_hum_is_ns, r.q_sol_frt_is_ns, r.theta_o_ns, r.f_mrt_hum_is_js, r.p_is_js, r.h_c_js, r.a_srf_js)

    def spec(delta_t, d):
        r = assemble(delta_t, d)
        own, g = pre_calc_parameters.make_pre_calc_parameters(delta_t=delta_t, data_directory=d)
        p, pt, h, a = r['p_is_js'], r['p_js_is'], r['h_c_js'], r['a_srf_js']
        c, k = r['c_sh_frt_is'], r['g_sh_frt_is']
        # 4.8, 4.10 with the surface coefficients as the code has them (C16 decides those)
        brl = np.dot(p, own.wsb_js_is * h * a) + np.diag(r['beta_is'].flatten())
        brm = np.diag((r['v_room_is'] * RHO * C_AIR).flatten() / delta_t) + np.dot(p, (pt - own.wsr_js_is) * a * h) + np.diag((c * k / (c + k * delta_t)).flatten())
        return (brl, brm, r['c_room_is'], c, k, r['v_mec_vent_is_ns'], r['v_ntrl_vent_is'], r['v_int_vent_is_is'],
                r['q_gen_is_ns'], r['n_hum_is_ns'], r['q_sol_frt_is_ns'], r['theta_o_ns'], r['f_mrt_hum_is_js'], p, h, a)


@ob('C02', 'what the moisture balance of a room is made of', delta_t='scalar', d='str', _present=['id'], _cut=CUT)
class room_vapour:
    def impl(delta_t, d):
        r, g = pre_calc_parameters.make_pre_calc_parameters(delta_t=delta_t, data_directory=d)
        return (r.v_room_is, r.c_lh_frt_is, r.g_lh_frt_is, r.v_mec_vent_is_ns, r.v_ntrl_vent_is, r.v_int_vent_is_is, r.x_gen_is_ns, r.n_hum_is_ns, r.x_o_ns)

    def spec(delta_t, d):
        r = assemble(delta_t, d)
        return (r['v_room_is'], r['c_lh_frt_is'], r['g_lh_frt_is'], r['v_mec_vent_is_ns'], r['v_ntrl_vent_is'], r['v_int_vent_is_is'], r['x_gen_is_ns'],
                r['n_hum_is_ns'], r['x_o_ns'])


@ob('C03', 'the temperature behind a wall', delta_t='scalar', d='str', _present=['id'], _cut=CUT)
class rear_temperature:
    def impl(delta_t, d):
        r, g = pre_calc_parameters.make_pre_calc_parameters(delta_t=delta_t, data_directory=d)
        return r.theta_dstrb_js_ns, r.h_c_js, r.h_r_js, r.is_ground_js, g.theta_o_ns, g.theta_o_ave

    def spec(delta_t, d):
        r = assemble(delta_t, d)
        return r['theta_dstrb_js_ns'], r['h_c_js'], r['h_r_js'], r['is_ground_js'], r['theta_o_ns'], r['theta_o_ave']


@ob('C13', 'radiant coefficients and mean radiant temperature weights the time loop uses', delta_t='scalar', d='str', _present=['id'], _cut=CUT)
class radiation_used:
    def impl(delta_t, d):
        r, g = pre_calc_parameters.make_pre_calc_parameters(delta_t=delta_t, data_directory=d)
        return r.h_r_js, r.f_mrt_is_js, r.f_mrt_hum_is_js

    def spec(delta_t, d):
        r = assemble(delta_t, d)
        return r['h_r_js'], r['f_mrt_is_js'], r['f_mrt_hum_is_js']


@ob('I10', 'the air flow written is the one the time loop uses', delta_t='scalar', d='str', _present=['id'], _cut=CUT)
class exchange:
    def impl(delta_t, d):
        r, g = pre_calc_parameters.make_pre_calc_parameters(delta_t=delta_t, data_directory=d)
        return r.v_int_vent_is_is

    def spec(delta_t, d):
        return assemble(delta_t, d)['v_int_vent_is_is']
