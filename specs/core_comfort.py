"""Occupant comfort: PMV, operation mode, clothing, target operative temperature, occupants' heat and moisture."""
import math
import numpy as np
from scipy.optimize import newton

from heat_load_calc.core import ot_target
from heat_load_calc.core import ot_target_pmv
from heat_load_calc.core import occupants
from heat_load_calc.core.operation_mode import OperationMode
from heat_load_calc.external import psychrometrics

H = OperationMode.HEATING
C = OperationMode.COOLING
SO = OperationMode.STOP_OPEN
SC = OperationMode.STOP_CLOSE
M = 58.15


def vapour_pressure(x):
    return 101325.0 * x / (x + 0.62198)


def f_cl(icl):
    return np.where(icl <= 0.078, 1.00 + 1.290 * icl, 1.05 + 0.645 * icl)


def losses(p):
    """metabolic heat minus latent losses (W/m2)"""
    return M - 3.05e-3 * (5733.0 - 6.99 * M - p) - 1.7e-5 * M * (5867.0 - p)


def coef():
    return 0.303 * math.exp(-0.036 * M) + 0.028


def clothing_loss(clo, h, ot):
    icl = 0.155 * clo
    f = f_cl(icl)
    return f * h * (35.7 - 0.028 * M - ot) / (1 + icl * f * h)


def pmv(theta_r, clo, p, h, ot):
    return coef() * (losses(p) - 0.0014 * M * (34.0 - theta_r) - clothing_loss(clo, h, ot))


def target(clo, p, h, goal):
    """operative temperature at which, with the air at the same temperature, the PMV equals the goal"""
    icl = 0.155 * clo
    f = f_cl(icl)
    u = f * h / (1 + icl * f * h)
    return (goal / coef() - losses(p) + 0.0014 * M * 34.0 + u * (35.7 - 0.028 * M)) / (0.0014 * M + u)


def h_c():
    return 4.0


def h_r():
    return 4 * 3.96e-8 * (20.0 + 273.15) ** 3


def next_mode(demand, last, heavy, middle, light):
    if not demand > 0.0:
        return SC
    if last == H:
        return H if heavy <= 0.7 else C if light >= 0.7 else SC
    if last == C:
        return C if light >= -0.7 else H if heavy <= -0.7 else SC
    if last == SO:
        return C if light >= 0.7 else H if heavy <= -0.7 else SC if middle <= 0.0 else SO
    if last == SC:
        return C if light >= 0.7 else H if heavy <= -0.7 else SO if middle >= 0.0 else SC
    raise ValueError()


def wind(mode, rad_h, rad_c):
    return np.where(mode == H, np.where(rad_h, 0.0, 0.2), np.where(mode == C, np.where(rad_c, 0.0, 0.2), np.where(mode == SO, 0.1, 0.0)))


def clo_of(mode):
    return np.where(mode == H, 1.1, np.where(mode == C, 0.3, np.where((mode == SO) | (mode == SC), 0.7, 0.0)))


def goal_of(mode):
    return np.where(mode == H, -0.5, np.where(mode == C, 0.5, 0.0))


@ob('C04', 'next operation mode of a room from demand, last mode and the PMV of each clothing',
    demand='scalar', last={'enum': 'heat_load_calc.core.operation_mode:OperationMode'}, heavy='scalar', middle='scalar', light='scalar', _fails=True)
class mode:
    def impl(demand, last, heavy, middle, light):
        return ot_target_pmv.get_operation_mode_i_n(
            ac_demand_i_n=demand, operation_mode_i_n_mns=last, pmv_heavy_i_n=heavy, pmv_middle_i_n=middle, pmv_light_i_n=light)

    def spec(demand, last, heavy, middle, light):
        return next_mode(demand, last, heavy, middle, light)


@ob(('C04', 'C11'), 'mode, heat transfer coefficients and targets of every room',
    theta_r='arr', mrt='arr', x='arr', last='arr', demand='arr', rad_h='arr', rad_c='arr',
    _cut=['heat_load_calc.core.ot_target_pmv:get_operation_mode_i_n'])
class targets:
    def impl(theta_r, mrt, x, last, demand, rad_h, rad_c):
        f = ot_target.make_get_ot_target_and_h_hum_function(is_radiative_heating_is=rad_h, is_radiative_cooling_is=rad_c)
        r = f(theta_r_is_n=theta_r, theta_mrt_hum_is_n=mrt, x_r_is_n=x, operation_mode_is_n_mns=last, ac_demand_is_n=demand)
        return r[0], r[1], r[2], r[3], r[4]

    def spec(theta_r, mrt, x, last, demand, rad_h, rad_c):
        p = vapour_pressure(x)
        h = h_c() + h_r()
        ot = (h_r() * mrt + h_c() * theta_r) / h
        mode = np.vectorize(ot_target_pmv.get_operation_mode_i_n)(
            demand, last, pmv(theta_r, 1.1, p, h, ot), pmv(theta_r, 0.7, p, h, ot), pmv(theta_r, 0.3, p, h, ot))
        low = np.where(mode == H, target(1.1, p, h, -0.5), 0.0)
        high = np.where(mode == C, target(0.3, p, h, 0.5), 0.0)
        return h_c() + np.zeros_like(theta_r), h_r() + np.zeros_like(theta_r), mode, low, high


@ob('C04', 'what is reported about each room', theta_r='arr', mrt='arr', x='arr', last='arr', demand='arr', rad_h='arr', rad_c='arr',
    _cut=['heat_load_calc.core.ot_target_pmv:get_operation_mode_i_n'])
class remarks:
    def impl(theta_r, mrt, x, last, demand, rad_h, rad_c):
        f = ot_target.make_get_ot_target_and_h_hum_function(is_radiative_heating_is=rad_h, is_radiative_cooling_is=rad_c)
        r = f(theta_r_is_n=theta_r, theta_mrt_hum_is_n=mrt, x_r_is_n=x, operation_mode_is_n_mns=last, ac_demand_is_n=demand)
        return r[5]

    def spec(theta_r, mrt, x, last, demand, rad_h, rad_c):
        p = vapour_pressure(x)
        h = h_c() + h_r()
        ot = (h_r() * mrt + h_c() * theta_r) / h
        mode = np.vectorize(ot_target_pmv.get_operation_mode_i_n)(
            demand, last, pmv(theta_r, 1.1, p, h, ot), pmv(theta_r, 0.7, p, h, ot), pmv(theta_r, 0.3, p, h, ot))
        return [{'pmv_target': a, 'v_hum m/s': b, 'clo': c} for a, b, c in zip(
            goal_of(mode).flatten(), wind(mode, rad_h.reshape(-1, 1), rad_c.reshape(-1, 1)).flatten(), clo_of(mode).flatten())]


@ob(('C11', 'C04'), 'the target operative temperature inverts the PMV', clo='scalar', p='scalar', h='scalar', goal='scalar')
class inverse:
    def impl(clo, p, h, goal):
        t = ot_target_pmv.get_theta_ot_target(clo_is_n=clo, p_a_is_n=p, h_hum_is_n=h, pmv_target_is_n=goal)
        return ot_target_pmv.get_pmv_is_n(theta_r_is_n=t, clo_is_n=clo, p_a_is_n=p, h_hum_is_n=h, theta_ot_is_n=t)

    def spec(clo, p, h, goal):
        return goal


@ob(('C11', 'C04'), 'PMV, clothing surface and heat transfer around the body', theta_r='arr', theta_cl='arr', mrt='arr', clo='arr', p='arr', h='arr', ot='arr', v='arr')
class body:
    def impl(theta_r, theta_cl, mrt, clo, p, h, ot, v):
        m = ot_target_pmv
        return (m.get_pmv_is_n(theta_r_is_n=theta_r, clo_is_n=clo, p_a_is_n=p, h_hum_is_n=h, theta_ot_is_n=ot),
                m.get_theta_ot_target(clo_is_n=clo, p_a_is_n=p, h_hum_is_n=h, pmv_target_is_n=v),
                m.get_h_hum_c_is_n(theta_r_is_n=theta_r, theta_cl_is_n=theta_cl, v_hum_is_n=v),
                m.get_h_hum_r_is_n(theta_cl_is_n=theta_cl, theta_mrt_is_n=mrt),
                m.get_f_cl_is_n(i_cl_is_n=clo))

    def spec(theta_r, theta_cl, mrt, clo, p, h, ot, v):
        a = theta_cl + 273.0
        b = mrt + 273.0
        return (pmv(theta_r, clo, p, h, ot), target(clo, p, h, v),
                np.maximum(12.1 * np.sqrt(v), 2.38 * np.abs(theta_cl - theta_r) ** 0.25),
                3.96e-8 * (a + b) * (a ** 2 + b ** 2), f_cl(clo))


def around(theta_r, mrt, clo, v):
    """heat transfer coefficients around a body whose clothing has the temperature at which it is in balance"""
    icl = 0.155 * clo

    def coefficients(t):
        a = t + 273.0
        b = mrt + 273.0
        return np.maximum(12.1 * np.sqrt(v), 2.38 * np.abs(t - theta_r) ** 0.25), 3.96e-8 * (a + b) * (a ** 2 + b ** 2)

    def balance(t):
        c, r = coefficients(t)
        ot = (r * mrt + c * theta_r) / (r + c)
        return (35.7 - 0.028 * M - ot) / (1 + icl * f_cl(icl) * (r + c)) + ot - t

    return coefficients(newton(balance, np.zeros_like(theta_r) + 0.001))


@ob(('C11', 'C04'), 'heat transfer around the body by each method', mrt='arr', theta_r='arr', clo='arr', v='arr',
    method=['convergence', 'constant', 'other'], _fails=True)
class coefficients:
    def impl(mrt, theta_r, clo, v, method):
        return ot_target_pmv._get_h_hum(theta_mrt_is_n=mrt, theta_r_is_n=theta_r, clo_is_n=clo, v_hum_is_n=v, method=method)

    def spec(mrt, theta_r, clo, v, method):
        if method == 'convergence':
            return around(theta_r, mrt, clo, v)
        if method == 'constant':
            return h_c() + np.zeros_like(theta_r), h_r() + np.zeros_like(theta_r)
        raise ValueError()


@ob(('C11', 'C04'), 'mode, heat transfer coefficients and target of every room with the clothing in balance',
    theta_r='arr', mrt='arr', x='arr', last='arr', demand='arr', rad_h='arr', rad_c='arr',
    _cut=['heat_load_calc.core.ot_target_pmv:get_operation_mode_i_n', 'heat_load_calc.core.ot_target_pmv:_get_h_hum'])
class balanced:
    def impl(theta_r, mrt, x, last, demand, rad_h, rad_c):
        r = ot_target_pmv.get_ot_target_and_h_hum_with_pmv(
            x_r_is_n=x, operation_mode_is_n_mns=last, is_radiative_heating_is=rad_h, is_radiative_cooling_is=rad_c,
            theta_r_is_n=theta_r, theta_mrt_is_n=mrt, ac_demand_is_n=demand, method='convergence')
        return r[0], r[1], r[2], r[3]

    def spec(theta_r, mrt, x, last, demand, rad_h, rad_c):
        p = vapour_pressure(x)

        def vote(clo):
            c, r = ot_target_pmv._get_h_hum(theta_mrt_is_n=mrt, theta_r_is_n=theta_r, clo_is_n=clo, v_hum_is_n=wind(last, rad_h, rad_c), method='convergence')
            return pmv(theta_r, clo, p, c + r, (r * mrt + c * theta_r) / (c + r))

        mode = np.vectorize(ot_target_pmv.get_operation_mode_i_n)(demand, last, vote(1.1), vote(0.7), vote(0.3))
        c, r = ot_target_pmv._get_h_hum(theta_mrt_is_n=mrt, theta_r_is_n=theta_r, clo_is_n=clo_of(mode), v_hum_is_n=wind(mode, rad_h, rad_c), method='convergence')
        return c, r, mode, np.where((mode == H) | (mode == C), target(clo_of(mode), p, c + r, goal_of(mode)), 0.0)


@ob(('C11', 'C04'), 'clothing, air speed and PMV goal of each mode', mode='arr', rad_h='arr', rad_c='arr')
class per_mode:
    def impl(mode, rad_h, rad_c):
        m = ot_target_pmv
        return m.get_clo_is_n(operation_mode_is_n=mode), m.get_v_hum_is_n(
            operation_mode_is_n=mode, is_radiative_heating_is=rad_h, is_radiative_cooling_is=rad_c), m.get_pmv_target_is_n(mode)

    def spec(mode, rad_h, rad_c):
        return clo_of(mode), wind(mode, rad_h, rad_c), goal_of(mode)


@ob(('C11', 'C01', 'C02'), 'sensible heat and moisture of a person always add up to the metabolic rate', theta_r='arr')
class person:
    def impl(theta_r):
        q = occupants.get_q_hum_psn_is_n(theta_r_is_n=theta_r)
        x = occupants.get_x_hum_psn_is_n(theta_r_is_n=theta_r)
        return q, x, q + 2501000.0 * x

    def spec(theta_r):
        q = np.minimum(63.0 - 4.0 * (theta_r - 24.0), 119.0)
        return q, (119.0 - q) / 2501000.0, 119.0
