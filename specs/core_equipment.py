"""Humid air, dehumidifying coil, room air conditioner ratings, infiltration, radiation inside the room."""
import numpy as np
from scipy import optimize

from heat_load_calc.core import heat_exchanger
from heat_load_calc.core import infiltration
from heat_load_calc.core import shape_factor
from heat_load_calc.core import matrix_method
from heat_load_calc.external import psychrometrics
from heat_load_calc.external import rac
from heat_load_calc.external import global_number

C_AIR = 1005.0
RHO = 1.2
P0 = 101325


def saturation(t):
    k = t + 273.15
    return np.where(t >= 0,
                    np.exp(-6096.9385 / k + 21.2409642 - 0.02711193 * k + 1.673952e-5 * k ** 2 + 2.433502 * np.log(k)),
                    np.exp(-6024.5282 / k + 29.32707 + 0.010613863 * k - 1.3198825e-5 * k ** 2 - 0.49382577 * np.log(k)))


@ob('C10', 'saturation pressure, humidity ratio, relative humidity', t='scalar', ts='arr', p='arr', x='arr')
class humid_air:
    def impl(t, ts, p, x):
        return (psychrometrics.get_p_vs(t), psychrometrics.get_p_vs_is(ts), psychrometrics.get_p_vs_is2(ts), psychrometrics.get_x(p),
                psychrometrics.get_p_v_r_is_n(x), psychrometrics.get_h(p_v=p, p_vs=x))

    def spec(t, ts, p, x):
        return saturation(t), saturation(ts), saturation(ts), 0.622 * p / (P0 - p), P0 * x / (x + 0.62198), 100.0 * p / x


@ob('C10', 'air flow and coil humidity decide how much moisture a cooling unit removes, and it never adds any',
    lcs='arr', theta='arr', dry='arr', q_max='arr', q_min='arr', v_max='arr', v_min='arr')
class coil:
    def impl(lcs, theta, dry, q_max, q_min, v_max, v_min):
        return heat_exchanger.get_dehumid_coeff(
            lcs_is_n=lcs, theta_r_is_npls=theta, rac_spec={'q_max': q_max, 'q_min': q_min, 'v_max': v_max, 'v_min': v_min}, x_r_non_dh_is_n=dry)

    def spec(lcs, theta, dry, q_max, q_min, v_max, v_min):
        q = -lcs
        on = q > 0.001
        v = (v_min + (v_max - v_min) * (q - q_min) / (q_max - q_min)) / 60.0
        through = 0.8 * v
        p = saturation(theta - q / (C_AIR * RHO * through))
        x_e = np.where(on, 0.622 * p / (P0 - p), 0.0)
        g = np.where(x_e > dry, 0.0, np.where(on, RHO * through, 0.0))
        return np.diag(g.flatten()), g * x_e


@ob('C10', 'rated, maximum and minimum capacity and air flow of the unit chosen for a floor area', a='scalar')
class ratings:
    def impl(a):
        q_h, q_c = rac.get_q_rtd(a_floor_is=a)
        m_h, m_c = rac.get_q_max(q_rtd_h_is=q_h, q_rtd_c_is=q_c)
        v = rac.get_v_max(q_rtd_c=q_c)
        return q_h, q_c, m_h, m_c, rac.get_q_min_h(), rac.get_q_min_c(), v, rac.get_v_min(v_max=v)

    def spec(a):
        q_c = np.minimum(190.5 * a + 45.6, 5600.0)
        q_h = 1.2090 * q_c - 85.1
        m_c = np.maximum(0.8462 * q_c + 1205.9, q_c)
        m_h = np.maximum(1.7597 * m_c - 413.7, q_h)
        v = 11.076 * (q_c / 1000.0) ** 0.3432
        return q_h, q_c, m_h, m_c, 500.0, 500.0, v, 0.55 * v


@ob(('C10', 'C01', 'C02'), 'physical constants')
class constants:
    def impl():
        return (global_number.get_c_air(), global_number.get_rho_air(), global_number.get_l_wtr(), global_number.get_sgm(), global_number.get_eps())

    def spec():
        return 1005.0, 1.2, 2501000.0, 5.67e-8, 0.9


@ob('C12', 'leakage of a house from its floors, airtightness, ventilation balance and temperature difference', _fails=True,
    method='any', story=[1, 2, 3], pressure=['balanced', 'positive', 'negative', 'other'], c='scalar', volumes='any', theta_r='arr', theta_o='scalar')
class leakage:
    def impl(method, story, pressure, c, volumes, theta_r, theta_o):
        f = infiltration.make_get_infiltration_function(rd={
            'building': {'infiltration_method': method, 'story': story, 'c_value': c, 'inside_pressure': pressure}, 'spaces': volumes})
        return f(theta_r_is_n=theta_r, theta_o_n=theta_o)

    def spec(method, story, pressure, c, volumes, theta_r, theta_o):
        if method != 'balance_residential':
            raise Exception
        v = np.array([float(s['volume']) for s in volumes]).reshape(-1, 1)
        a = {1: 0.022, 2: 0.020}[story]
        b = {'balanced': (0.0, 0.0), 'positive': (0.26, 0.14), 'negative': (0.28, 0.13)}[pressure][story - 1]
        mean = np.average(theta_r, weights=v)
        return np.maximum(a * c * np.sqrt(abs(mean - theta_o)) - b, 0) * v / 3600.0


def form_factor(mean, ratio):
    r = 1.0 - 4.0 * ratio / mean
    return 0.5 * (1.0 - np.sign(r) * np.sqrt(abs(r)))


@ob('C13', 'weights of the mean radiant temperature are each surface area times its radiant coefficient, over the room total', a='arr', h='arr', p='mat')
class mrt_weights:
    def impl(a, h, p):
        return shape_factor.get_f_mrt_is_js(a_srf_js=a, h_r_js=h, p_is_js=p)

    def spec(a, h, p):
        return p * (a * h).T / np.dot(p, a * h)


@ob('C13', 'radiant coefficient of every surface from the form factors of its own room, wherever it stands in the list', a='arr', p='mat',
    _cut=['heat_load_calc.core.shape_factor:_get_f_i_js'])
class radiant_coefficient:
    def impl(a, p):
        return shape_factor.get_h_r_js(a_srf_js=a, p_js_is=p)

    def spec(a, p):
        f = np.zeros(a.size, dtype=float)
        for i in range(p.shape[1]):
            f[p[:, i] == 1] = shape_factor._get_f_i_js(a_srf_js=a.flatten()[p[:, i] == 1])
        return (0.9 / (1.0 - 0.9 * f) * 4.0 * 5.67e-8 * 293.15 ** 3).reshape(-1, 1)


@ob('C13', 'form factor of a surface seen from the middle of its room', a='arr', _cut=['heat_load_calc.core.shape_factor:_get_f_ver'])
class form:
    def impl(a):
        return shape_factor._get_f_i_js(a_srf_js=a), shape_factor._get_f_j(f_ver=a, r_a_srf_j=2.5)

    def spec(a):
        ratio = a / sum(a)
        return form_factor(shape_factor._get_f_ver(r_a_srf_js=ratio), ratio), form_factor(a, 2.5)


@ob('C13', 'the form factors of a room are solved so that they sum to one', r='arr')
class closure:
    def impl(r):
        return shape_factor._get_f_ver(r_a_srf_js=r)

    def spec(r):
        return float(optimize.fsolve(lambda m: np.sum(form_factor(m, r)) - 1.0, np.array(1.0))[0])
