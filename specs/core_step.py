"""One time step of the coupled room / wall / moisture balance (docs/derivation/heat_balance.adoc, vapour_balance.adoc)."""
import json
import numpy as np

from heat_load_calc.core import sequence
from heat_load_calc.core import sequence_ground
from heat_load_calc.core import next_condition
from heat_load_calc.core import occupants
from heat_load_calc.core import heat_exchanger
from heat_load_calc.core import conditions
from heat_load_calc.core import infiltration
from heat_load_calc.core import period
from heat_load_calc.core.operation_mode import OperationMode

C_AIR = 1005.0
RHO = 1.2
L_WTR = 2501000.0


def col(a, n):
    return a[:, n].reshape(-1, 1)


def human_heat(theta_r):
    return np.minimum(63.0 - 4.0 * (theta_r - 24.0), 119.0)


def human_vapour(theta_r):
    return (119.0 - human_heat(theta_r)) / L_WTR


def dg(v):
    return np.diag(v.flatten())


def rear(ss, c, n):
    """rear-side temperature of every boundary at step n (eq 3.12)"""
    return np.dot(ss.k_ei_js_js, c.theta_ei_js_n) + col(ss.theta_dstrb_js_ns, n)


def absorbed(ss, c):
    """eq 3.2"""
    return ss.phi_a1_js_ms * c.q_srf_js_n + ss.r_js_ms * c.theta_dsh_srf_a_js_ms_n


def transmitted(ss, c, n):
    """eq 3.3"""
    return ss.phi_t1_js_ms * rear(ss, c, n) + ss.r_js_ms * c.theta_dsh_srf_t_js_ms_n


def comfort(ss, c, n):
    return ss.get_ot_target_and_h_hum(
        x_r_is_n=c.x_r_is_n, operation_mode_is_n_mns=c.operation_mode_is_n, theta_r_is_n=c.theta_r_is_n,
        theta_mrt_hum_is_n=c.theta_mrt_hum_is_n, ac_demand_is_n=col(ss.ac_demand_is_ns, n))


def leak(ss, c, n):
    return ss.get_infiltration(theta_r_is_n=c.theta_r_is_n, theta_o_n=ss.theta_o_ns[n])


def natural(ss, mode):
    return np.where(mode == OperationMode.STOP_OPEN, ss.v_ntrl_vent_is, 0.0)


def step(n, delta_t, ss, c):
    """all quantities of the step, by name"""
    h_c, h_r, mode, low, high, remarks = comfort(ss, c, n)
    v_leak = leak(ss, c, n)
    v_ntrl = natural(ss, mode)
    v_out = v_leak + col(ss.v_mec_vent_is_ns, n) + v_ntrl
    dsh_a = absorbed(ss, c)
    dsh_t = transmitted(ss, c, n)
    # CVL 3.22, WSV 3.28
    cvl = np.sum(dsh_a + dsh_t, axis=1, keepdims=True)
    ws = col(ss.wsc_js_ns, n) + np.dot(ss.ivs_ax_js_js, cvl)
    q_hum = human_heat(c.theta_r_is_n) * col(ss.n_hum_is_ns, n)
    x_hum = human_vapour(c.theta_r_is_n) * col(ss.n_hum_is_ns, n)
    # BRC 4.9, BRM 4.8
    q_sol_frt = col(ss.q_sol_frt_is_ns, n)
    den = ss.c_sh_frt_is + delta_t * ss.g_sh_frt_is
    brc = ss.c_room_is * c.theta_r_is_n / delta_t \
        + np.dot(ss.p_is_js, ss.h_c_js * ss.a_srf_js * ws) \
        + C_AIR * RHO * v_out * ss.theta_o_ns[n] \
        + col(ss.q_gen_is_ns, n) + q_hum \
        + ss.g_sh_frt_is * (ss.c_sh_frt_is * c.theta_frt_is_n + delta_t * q_sol_frt) / den
    brm = ss.brm_non_vent_is_is + C_AIR * RHO * (dg(v_out) + (ss.v_int_vent_is_is if known('F01') else -ss.v_int_vent_is_is))
    # operative temperature 5.5 - 5.7
    kc = h_c / (h_c + h_r)
    kr = h_r / (h_c + h_r)
    xot = np.linalg.inv(dg(kc) + kr * np.dot(ss.f_mrt_hum_is_js, ss.wsr_js_is))
    xlr = -np.dot(xot, kr * np.dot(ss.f_mrt_hum_is_js, ss.wsb_js_is))
    xc = -np.dot(xot, kr * np.dot(ss.f_mrt_hum_is_js, ws))
    # 6.2
    ot, lcs, lrs = next_condition.calc_next_temp_and_load(
        is_radiative_heating_is=ss.is_radiative_heating_is, is_radiative_cooling_is=ss.is_radiative_cooling_is,
        brc_ot_is_n=brc - np.dot(brm, xc), brm_ot_is_is_n=np.dot(brm, xot),
        brl_ot_is_is_n=ss.brl_is_is - np.dot(brm, xlr),
        theta_lower_target_is_n=low, theta_upper_target_is_n=high,
        lr_h_max_cap_is=ss.lr_h_max_cap_is, lr_cs_max_cap_is=ss.lr_cs_max_cap_is,
        operation_mode_is_n=mode, ac_demand_is_n=col(ss.ac_demand_is_ns, n))
    # 5.8
    theta_r = np.dot(xot, ot) + np.dot(xlr, lrs) + xc
    # 4.5
    theta_frt = (ss.c_sh_frt_is * c.theta_frt_is_n + delta_t * ss.g_sh_frt_is * theta_r + delta_t * q_sol_frt) / den
    # 3.24
    theta_s = np.dot(ss.wsr_js_is, theta_r) + ws + np.dot(ss.wsb_js_is, lrs)
    mrt = np.dot(ss.f_mrt_hum_is_js, theta_s)
    # 3.15
    theta_ei = (ss.h_c_js * np.dot(ss.p_js_is, theta_r)
                + ss.h_r_js * np.dot(np.dot(ss.p_js_is, ss.f_mrt_is_js), theta_s)
                + col(ss.q_sol_js_ns, n)
                + np.dot(ss.flr_js_is, (1.0 - ss.beta_is) * lrs) / ss.a_srf_js) / (ss.h_c_js + ss.h_r_js)
    # 3.8
    q_srf = (ss.h_c_js + ss.h_r_js) * (theta_ei - theta_s)
    # moisture
    g = ss.c_lh_frt_is * ss.g_lh_frt_is / (ss.c_lh_frt_is + delta_t * ss.g_lh_frt_is)
    brmx = RHO * (dg(ss.v_room_is / delta_t + v_out) - ss.v_int_vent_is_is) + dg(g)
    brxc = RHO * (ss.v_room_is / delta_t * c.x_r_is_n + v_out * ss.x_o_ns[n]) + g * c.x_frt_is_n \
        + col(ss.x_gen_is_ns, n) + x_hum
    dry = np.dot(np.linalg.inv(brmx), brxc)
    m_rac, c_rac = heat_exchanger.get_dehumid_coeff(lcs_is_n=lcs, theta_r_is_npls=theta_r, rac_spec=ss.rac_spec, x_r_non_dh_is_n=dry)
    x_r = np.dot(np.linalg.inv(brmx + m_rac), brxc + c_rac)
    l_cl = (c_rac - np.dot(m_rac, x_r)) * L_WTR
    x_frt = (ss.c_lh_frt_is * c.x_frt_is_n + delta_t * ss.g_lh_frt_is * x_r) / (ss.c_lh_frt_is + delta_t * ss.g_lh_frt_is)
    return {
        'mode': mode, 'theta_r': theta_r, 'mrt': mrt, 'x_r': x_r, 'dsh_a': dsh_a, 'dsh_t': dsh_t, 'q_srf': q_srf,
        'theta_frt': theta_frt, 'x_frt': x_frt, 'theta_ei': theta_ei, 'q_hum': q_hum, 'x_hum': x_hum, 'lcs': lcs,
        'lrs': lrs, 'l_cl': l_cl, 'v_leak': v_leak, 'v_ntrl': v_ntrl, 'h_c': h_c, 'h_r': h_r, 'ot': ot,
        'theta_s': theta_s, 'rear': rear(ss, c, n), 'remarks': remarks}


@ob(('C01', 'C05', 'C04', 'C11', 'C12', 'I10'), 'room temperature, operative temperature and furniture temperature of the next step',
    n='int', delta_t='scalar', ss='obj:heat_load_calc.core.pre_calc_parameters:PreCalcParameters',
    c='obj:heat_load_calc.core.conditions:Conditions', logger='obj:heat_load_calc.core.log:Logger', run_up=[True, False], _cut=['heat_load_calc.core.next_condition:calc_next_temp_and_load', 'heat_load_calc.core.heat_exchanger:get_dehumid_coeff'])
class room_heat:
    def impl(n, delta_t, ss, c, logger, run_up):
        r = sequence.run_tick(n=n, delta_t=delta_t, ss=ss, c_n=c, logger=logger, run_up=run_up)
        return r.theta_r_is_n, r.theta_frt_is_n, r.theta_mrt_hum_is_n, r.operation_mode_is_n

    def spec(n, delta_t, ss, c, logger, run_up):
        r = step(n, delta_t, ss, c)
        return r['theta_r'], r['theta_frt'], r['mrt'], r['mode']


@ob(('C02', 'C10', 'C11', 'C12', 'I10'), 'room and furniture humidity of the next step',
    n='int', delta_t='scalar', ss='obj:heat_load_calc.core.pre_calc_parameters:PreCalcParameters',
    c='obj:heat_load_calc.core.conditions:Conditions', logger='obj:heat_load_calc.core.log:Logger', run_up=[True, False], _cut=['heat_load_calc.core.next_condition:calc_next_temp_and_load!', 'heat_load_calc.core.heat_exchanger:get_dehumid_coeff'])
class room_moisture:
    def impl(n, delta_t, ss, c, logger, run_up):
        r = sequence.run_tick(n=n, delta_t=delta_t, ss=ss, c_n=c, logger=logger, run_up=run_up)
        return r.x_r_is_n, r.x_frt_is_n

    def spec(n, delta_t, ss, c, logger, run_up):
        r = step(n, delta_t, ss, c)
        return r['x_r'], r['x_frt']


@ob(('C03', 'C16', 'C01'), 'wall response state, surface heat flow and equivalent temperature of the next step',
    n='int', delta_t='scalar', ss='obj:heat_load_calc.core.pre_calc_parameters:PreCalcParameters',
    c='obj:heat_load_calc.core.conditions:Conditions', logger='obj:heat_load_calc.core.log:Logger', run_up=[True, False], _cut=['heat_load_calc.core.next_condition:calc_next_temp_and_load!', 'heat_load_calc.core.heat_exchanger:get_dehumid_coeff'])
class wall_state:
    def impl(n, delta_t, ss, c, logger, run_up):
        r = sequence.run_tick(n=n, delta_t=delta_t, ss=ss, c_n=c, logger=logger, run_up=run_up)
        return r.theta_dsh_srf_a_js_ms_n, r.theta_dsh_srf_t_js_ms_n, r.q_srf_js_n, r.theta_ei_js_n

    def spec(n, delta_t, ss, c, logger, run_up):
        r = step(n, delta_t, ss, c)
        return r['dsh_a'], r['dsh_t'], r['q_srf'], r['theta_ei']


@ob(('C07', 'C14', 'C02', 'C05'), 'what a step records, and that a run-up step records nothing',
    n='int', delta_t='scalar', ss='obj:heat_load_calc.core.pre_calc_parameters:PreCalcParameters',
    c='obj:heat_load_calc.core.conditions:Conditions', logger='obj:heat_load_calc.core.log:Logger', run_up=[True, False], _effects=True,
    _cut=['heat_load_calc.core.next_condition:calc_next_temp_and_load!', 'heat_load_calc.core.heat_exchanger:get_dehumid_coeff'])
class recorded:
    def impl(n, delta_t, ss, c, logger, run_up):
        sequence.run_tick(n=n, delta_t=delta_t, ss=ss, c_n=c, logger=logger, run_up=run_up)
        return logger

    def spec(n, delta_t, ss, c, logger, run_up):
        r = step(n, delta_t, ss, c)
        if not run_up:
            logger.operation_mode[:, n] = r['mode'].flatten()
            logger.theta_r[:, n] = r['theta_r'].flatten()
            logger.theta_mrt_hum[:, n] = r['mrt'].flatten()
            logger.x_r[:, n] = r['x_r'].flatten()
            logger.theta_frt[:, n] = r['theta_frt'].flatten()
            logger.x_frt[:, n] = r['x_frt'].flatten()
            logger.theta_ei[:, n] = r['theta_ei'].flatten()
            logger.q_hum[:, n] = r['q_hum'].flatten()
            logger.x_hum[:, n] = r['x_hum'].flatten()
            logger.l_cs[:, n] = r['lcs'].flatten()
            logger.l_rs[:, n] = r['lrs'].flatten()
            logger.l_cl[:, n] = r['l_cl'].flatten()
            logger.v_reak_is_ns[:, n] = r['v_leak'].flatten()
            logger.v_ntrl_is_ns[:, n] = r['v_ntrl'].flatten()
            logger.h_hum_c_is_n[:, n] = r['h_c'].flatten()
            logger.h_hum_r_is_n[:, n] = r['h_r'].flatten()
            logger.theta_ot[:, n] = r['ot'].flatten()
            logger.theta_s[:, n] = r['theta_s'].flatten()
            logger.theta_rear[:, n] = r['rear'].flatten()
            logger.qiall_s[:, n] = r['q_srf'].flatten()
            logger.space_remarks[:, n] = np.array([json.dumps(x) for x in r['remarks']])
        return logger


@ob('C03', 'ground-only run-up step', gc='obj:heat_load_calc.core.conditions:GroundConditions',
    ss='obj:heat_load_calc.core.pre_calc_parameters:PreCalcParametersGround', n='int')
class ground_step:
    def impl(gc, ss, n):
        r = sequence_ground.run_tick(gc_n=gc, ss=ss, n=n)
        return r.theta_dsh_srf_a_js_ms_n, r.q_srf_js_n

    def spec(gc, ss, n):
        h = ss.h_c_js + ss.h_r_js
        a = ss.phi_a1_js_ms * gc.q_srf_js_n + ss.r_js_ms * gc.theta_dsh_srf_a_js_ms_n
        # theta_s = phi_a0 q + sum(a) + theta_deep with q = h (theta_o - theta_s)
        theta_s = (ss.phi_a0_js * h * ss.theta_o_ns[n] + np.sum(a, axis=1, keepdims=True) + ss.theta_o_ave) / (1 + ss.phi_a0_js * h)
        return a, h * (ss.theta_o_ns[n] - theta_s)
