"""Load and operative temperature with set points, intermittent demand and radiant capacity (kt theta = Lc + kr Lr + k)."""
import numpy as np

from heat_load_calc.core import next_condition
from heat_load_calc.core.operation_mode import OperationMode


@ob(('C05', 'C01'), 'set point, convective and radiant load with the radiant capacity limits',
    rad_h='arr', rad_c='arr', brc='arr', brm='mat', brl='mat', low='arr', high='arr', cap_h='arr', cap_c='arr', mode='arr', demand='arr',
    _cut=['heat_load_calc.core.next_condition:get_load_and_temp'])
class load:
    def impl(rad_h, rad_c, brc, brm, brl, low, high, cap_h, cap_c, mode, demand):
        theta, lc, lr = next_condition.calc_next_temp_and_load(
            is_radiative_heating_is=rad_h, is_radiative_cooling_is=rad_c, brc_ot_is_n=brc, brm_ot_is_is_n=brm, brl_ot_is_is_n=brl,
            theta_lower_target_is_n=low, theta_upper_target_is_n=high, lr_h_max_cap_is=cap_h, lr_cs_max_cap_is=cap_c,
            operation_mode_is_n=mode, ac_demand_is_n=demand)
        return theta, lc, lr

    def spec(rad_h, rad_c, brc, brm, brl, low, high, cap_h, cap_c, mode, demand):
        nat = np.dot(np.linalg.inv(brm), brc)
        heating = (mode == OperationMode.HEATING) & (nat < low)
        cooling = (mode == OperationMode.COOLING) & (high < nat)
        run = heating | cooling
        target = np.where(cooling, high * demand + nat * (1.0 - demand), np.where(heating, low * demand + nat * (1.0 - demand), 0.0))
        conv = (heating & np.logical_not(rad_h)) | (cooling & np.logical_not(rad_c))
        rad = (heating & rad_h) | (cooling & rad_c)
        one = np.identity(mode.shape[0])
        t, c, r = next_condition.get_load_and_temp(
            brm, one, brl, brc, np.where(run, 0, 1), target, np.where(conv, 1, 0), np.zeros(mode.shape), np.where(rad, 1, 0), np.zeros(mode.shape))
        over = r > cap_h
        under = r < -cap_c
        limit = over | under
        t, c, r = next_condition.get_load_and_temp(
            brm, one, brl, brc, np.where(run, 0, 1), target, np.where(conv | limit, 1, 0), np.zeros(mode.shape),
            np.where(rad & np.logical_not(limit), 1, 0), np.where(under, -cap_c, np.where(over, cap_h, 0.0)))
        return t, c, r


def flags(*x):
    # every room's temperature, convective and radiant load is either sought or given
    return [np.where(v > 0, 1, 0) for v in x]


@ob(('C05', 'C01'), 'the linear solve closes the balance and honours every fixed value',
    kt='mat', kr='mat', k='arr', nt='arr', theta_set='arr', c='arr', lc_set='arr', r='arr', lr_set='arr')
class balance:
    def impl(kt, kr, k, nt, theta_set, c, lc_set, r, lr_set):
        nt, c, r = flags(nt, c, r)
        return next_condition.get_load_and_temp(kt, np.identity(kt.shape[0], dtype=float), kr, k, nt, theta_set, c, lc_set, r, lr_set)

    def spec(kt, kr, k, nt, theta_set, c, lc_set, r, lr_set):
        nt, c, r = flags(nt, c, r)
        one = np.identity(kt.shape[0])
        tf = np.where(nt == 1, 0.0, theta_set)
        cf = np.where(c == 1, 0.0, lc_set)
        rf = np.where(r == 1, 0.0, lr_set)
        x1 = kt * nt.T - one * c.T - kr * r.T
        v = np.dot(np.linalg.inv(x1), k - np.dot(kt, tf) + np.dot(one, cf) + np.dot(kr, rf))
        return v * nt + tf * (1 - nt), v * c + cf * (1 - c), v * r + rf * (1 - r)
