"""The reference comfort calculation (ISO 7730)."""
import math
from heat_load_calc.external import iso7730
from scipy.optimize import newton


def coefficient(t_a, t_cl, v):
    return max(12.1 * math.sqrt(v), 2.38 * abs(t_cl - t_a) ** 0.25)


def radiation(f, t_cl, t_r):
    return 3.96 * 10 ** (-8) * f * ((t_cl + 273.0) ** 4.0 - (t_r + 273.0) ** 4.0)


def vapour(t):
    a = t + 273.15
    return math.exp(-6096.9385 / a + 21.2409642 - 2.711193e-2 * a + 1.673952e-5 * a ** 2 + 2.433502 * math.log(a))


def area(clo):
    i = clo * 0.155
    return 1.0 + 1.29 * i if i <= 0.078 else 1.05 + 0.645 * i


@ob('E01', 'PMV and PPD from activity, clothing, air, radiation and humidity', met='scalar', eff='scalar', t_a='scalar', t_r='scalar', clo='scalar', v='scalar', rh='scalar')
class pmv:
    def impl(met, eff, t_a, t_r, clo, v, rh):
        return iso7730.get_pmv_ppd(met_value=met, p_eff=eff, t_a=t_a, t_r_bar=t_r, clo_value=clo, v_ar=v, rh=rh)

    def spec(met, eff, t_a, t_r, clo, v, rh):
        m = met * 58.15
        w = eff * 58.15
        i = clo * 0.155
        f = area(clo)
        p = rh / 100.0 * vapour(t_a)
        t_cl = newton(lambda t: 35.7 - 0.028 * (m - w) - i * (radiation(f, t, t_r) + f * coefficient(t_a, t, v) * (t - t_a)) - t, 0.001)
        load = (m - w - 3.05e-3 * (5733.0 - 6.99 * (m - w) - p) - max(0.42 * (m - w - 58.15), 0.0) - 1.7e-5 * m * (5867.0 - p) - 0.0014 * m * (34.0 - t_a)
                - radiation(f, t_cl, t_r) - f * coefficient(t_a, t_cl, v) * (t_cl - t_a))
        y = (0.303 * math.exp(-0.036 * m) + 0.028) * load
        return y, 100.0 - 95.0 * math.exp(-0.03353 * y ** 4.0 - 0.2179 * y ** 2.0)


@ob('E01', 'heat the body loses in each way', m='scalar', w='scalar', f='scalar', h='scalar', p='scalar', t_a='scalar', t_cl='scalar', t_r='scalar')
class losses:
    def impl(m, w, f, h, p, t_a, t_cl, t_r):
        return (iso7730.get_latent_heat_loss_from_skin(m, p, w), iso7730.get_the_sweating_heat_loss(m, w), iso7730.get_latent_heat_loss_with_breathing(m, p),
                iso7730.get_sensible_heat_loss_with_breathing(m, t_a), iso7730.get_radiative_heat_loss_from_clothing(f, t_cl, t_r),
                iso7730.get_convective_heat_loss_from_clothing(f, h, t_a, t_cl), iso7730.get_skin_temperature(m, w))

    def spec(m, w, f, h, p, t_a, t_cl, t_r):
        return (3.05e-3 * (5733.0 - 6.99 * (m - w) - p), max(0.42 * (m - w - 58.15), 0.0), 1.7e-5 * m * (5867.0 - p), 0.0014 * m * (34.0 - t_a),
                radiation(f, t_cl, t_r), f * h * (t_cl - t_a), 35.7 - 0.028 * (m - w))


@ob('E01', 'clothing and dissatisfaction', clo='scalar', y='scalar')
class clothing:
    def impl(clo, y):
        return iso7730.get_f_cl(iso7730.convert_clo_to_m2kw(clo)), iso7730.get_ppd(pmv=y)

    def spec(clo, y):
        return area(clo), 100.0 - 95.0 * math.exp(-0.03353 * y ** 4.0 - 0.2179 * y ** 2.0)


@ob('E01', 'saturation vapour pressure over water and ice and its slope', status=['water', 'ice'], t='scalar')
class saturation:
    def impl(status, t):
        return iso7730.saturated_vapor_pressure_SONNTAG(status=status, t=t)

    def spec(status, t):
        if status == 'water':
            a, b, c, d, e = -6096.9385, 21.2409642, -0.02711193, 0.00001673952, 2.433502
        else:
            a, b, c, d, e = -6024.5282, 29.32707, 0.010613863, -0.000013198825, -0.49382577
        p = math.exp(a / t + b + c * t + d * t ** 2 + e * math.log(t))
        return p, p * (-a / t ** 2 + c + 2 * d * t + e / t)
