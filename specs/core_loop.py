"""Order of the calculation, initial state, what is recorded and reported."""
import numpy as np
import pandas as pd

from heat_load_calc.core import core
from heat_load_calc.core import period
from heat_load_calc.core import conditions
from heat_load_calc.core import log
from heat_load_calc.core import pre_calc_parameters
from heat_load_calc.core import sequence
from heat_load_calc.core import sequence_ground
from heat_load_calc.core.operation_mode import OperationMode


@ob('C06', 'step counts of the main, run-up and whole-building run-up periods', hourly='int', main='int', run_up='int', build='int', _fails=True)
class counts:
    def impl(hourly, main, run_up, build):
        return period.get_n_step(n_step_hourly=hourly, n_d_main=main, n_d_run_up=run_up, n_d_run_up_build=build)

    def spec(hourly, main, run_up, build):
        if run_up < build:
            raise ValueError()
        return 24 * hourly * main, 24 * hourly * run_up, 24 * hourly * build


@ob(('C06', 'C07', 'C14'), 'ground run-up, building run-up and main period follow one another, every step once, on the state of the previous step',
    data='str', out='str', simple='any', detail='any', hourly='int', main='int', run_up='int', build='int', _effects=True,
    _acts=['heat_load_calc.core.sequence:run_tick', 'heat_load_calc.core.sequence_ground:run_tick', 'heat_load_calc.core.log:record'],
    _cut=['heat_load_calc.core.sequence:run_tick', 'heat_load_calc.core.sequence_ground:run_tick', 'heat_load_calc.core.pre_calc_parameters:make_pre_calc_parameters',
          'heat_load_calc.core.log:Logger', 'heat_load_calc.core.log:record', 'heat_load_calc.core.conditions:initialize_conditions',
          'heat_load_calc.core.conditions:initialize_ground_conditions', 'heat_load_calc.core.conditions:update_conditions_by_ground_conditions'])
class order:
    def impl(data, out, simple, detail, hourly, main, run_up, build):
        return core.calc(data, out, simple, detail, hourly, main, run_up, build)

    def spec(data, out, simple, detail, hourly, main, run_up, build):
        n_main, n_run_up, n_build = period.get_n_step(n_step_hourly=hourly, n_d_main=main, n_d_run_up=run_up, n_d_run_up_build=build)
        dt = 3600.0 / hourly
        pp, ppg = pre_calc_parameters.make_pre_calc_parameters(delta_t=dt, data_directory=data)
        gc = conditions.initialize_ground_conditions(n_grounds=ppg.n_grounds)
        for n in range(-n_run_up, -n_build):
            gc = sequence_ground.run_tick(gc_n=gc, ss=ppg, n=n)
        logger = log.Logger(n_spaces=pp.n_spaces, n_boundaries=pp.n_bdries, n_step_main=n_main)
        logger.pre_logging(pp)
        c = conditions.initialize_conditions(n_spaces=pp.n_spaces, n_bdries=pp.n_bdries)
        c = conditions.update_conditions_by_ground_conditions(is_ground=pp.is_ground_js.flatten(), c=c, gc=gc)
        for n in range(-n_build, 0):
            c = sequence.run_tick(n=n, delta_t=dt, ss=pp, c_n=c, logger=logger, run_up=True)
        for n in range(0, n_main):
            c = sequence.run_tick(n=n, delta_t=dt, ss=pp, c_n=c, logger=logger, run_up=False)
        logger.post_logging(pp)
        ds, dd = log.record(pps=pp, logger=logger, output_data_dir=out, show_simple_result=simple, show_detail_result=detail,
                            n_step_main=n_main, n_d_main=main)
        return ds, dd


@ob('C06', 'initial state of the building', n_spaces='int', n_bdries='int')
class initial:
    def impl(n_spaces, n_bdries):
        c = conditions.initialize_conditions(n_spaces=n_spaces, n_bdries=n_bdries)
        return (c.operation_mode_is_n, c.theta_r_is_n, c.theta_mrt_hum_is_n, c.x_r_is_n, c.theta_dsh_srf_a_js_ms_n, c.theta_dsh_srf_t_js_ms_n,
                c.q_srf_js_n, c.theta_frt_is_n, c.x_frt_is_n, c.theta_ei_js_n)

    def spec(n_spaces, n_bdries):
        p = 0.4 * saturation(20.0)
        x = 0.622 * p / (101325.0 - p)
        warm = np.full((n_spaces, 1), 15.0)
        moist = np.full((n_spaces, 1), x)
        return (np.full((n_spaces, 1), OperationMode.STOP_CLOSE), warm, warm, moist, np.zeros((n_bdries, 12)), np.zeros((n_bdries, 12)),
                np.zeros((n_bdries, 1)), warm, moist, np.full((n_bdries, 1), 15.0))


@ob('C06', 'size of every array of the initial state', n_spaces=[2], n_bdries=[3], n_grounds=[4], _explicit=True)
class initial_sizes:
    def impl(n_spaces, n_bdries, n_grounds):
        c = conditions.initialize_conditions(n_spaces=n_spaces, n_bdries=n_bdries)
        g = conditions.initialize_ground_conditions(n_grounds=n_grounds)
        return (c.operation_mode_is_n.shape, c.theta_r_is_n, c.theta_mrt_hum_is_n, c.x_r_is_n.shape, c.theta_dsh_srf_a_js_ms_n,
                c.theta_dsh_srf_t_js_ms_n, c.q_srf_js_n, c.theta_frt_is_n, c.x_frt_is_n.shape, c.theta_ei_js_n,
                g.theta_dsh_srf_a_js_ms_n, g.q_srf_js_n)

    def spec(n_spaces, n_bdries, n_grounds):
        warm = np.full((2, 1), 15.0)
        return ((2, 1), warm, warm, (2, 1), np.zeros((3, 12)), np.zeros((3, 12)), np.zeros((3, 1)), warm, (2, 1), np.full((3, 1), 15.0),
                np.zeros((4, 12)), np.zeros((4, 1)))


def saturation(t):
    k = t + 273.15
    return np.where(t >= 0,
                    np.exp(-6096.9385 / k + 21.2409642 - 0.02711193 * k + 1.673952e-5 * k ** 2 + 2.433502 * np.log(k)),
                    np.exp(-6024.5282 / k + 29.32707 + 0.010613863 * k - 1.3198825e-5 * k ** 2 - 0.49382577 * np.log(k)))


@ob('C06', 'initial state of the ground and its transfer to the ground boundaries of the building', mask='arr', n_grounds='int',
    c='obj:heat_load_calc.core.conditions:Conditions', gc='obj:heat_load_calc.core.conditions:GroundConditions')
class handover:
    def impl(mask, n_grounds, c, gc):
        g = conditions.initialize_ground_conditions(n_grounds=n_grounds)
        r = conditions.update_conditions_by_ground_conditions(is_ground=mask, c=c, gc=gc)
        return (g.theta_dsh_srf_a_js_ms_n, g.q_srf_js_n, r.theta_dsh_srf_a_js_ms_n, r.q_srf_js_n, r.theta_dsh_srf_t_js_ms_n, r.theta_ei_js_n,
                r.theta_r_is_n, r.operation_mode_is_n)

    def spec(mask, n_grounds, c, gc):
        a, q = c.theta_dsh_srf_a_js_ms_n, c.q_srf_js_n
        a[mask, :] = gc.theta_dsh_srf_a_js_ms_n
        q[mask, :] = gc.q_srf_js_n
        return (np.zeros((n_grounds, 12)), np.zeros((n_grounds, 1)), a, q, c.theta_dsh_srf_t_js_ms_n, c.theta_ei_js_n, c.theta_r_is_n, c.operation_mode_is_n)


@ob(('C07', 'C14'), 'what is recorded before and after the time loop', logger='obj:heat_load_calc.core.log:Logger',
    ss='obj:heat_load_calc.core.pre_calc_parameters:PreCalcParameters')
class around:
    def impl(logger, ss):
        logger.pre_logging(ss)
        logger.post_logging(ss)
        return (logger.theta_o_ns, logger.x_o_ns, logger.ac_demand_is_ns, logger.q_trs_sol_is_ns, logger.q_gen_is_ns, logger.x_gen_is_ns,
                logger.q_sol_frt_is_ns, logger.qisol_s, logger.h_c_s, logger.h_r_s, logger.rh, logger.q_frt, logger.qc, logger.qr, logger.q_l_frt)

    def spec(logger, ss):
        pv = 101325.0 * logger.x_r / (logger.x_r + 0.62198)
        return (ss.theta_o_ns, ss.x_o_ns, ss.ac_demand_is_ns, ss.q_trs_sol_is_ns, ss.q_gen_is_ns, ss.x_gen_is_ns, ss.q_sol_frt_is_ns,
                ss.q_sol_js_ns * ss.a_srf_js, ss.h_c_js.repeat(logger._n_step_main, axis=1), ss.h_r_js.repeat(logger._n_step_main, axis=1),
                pv / saturation(logger.theta_r) * 100.0, ss.g_sh_frt_is * (logger.theta_r - logger.theta_frt),
                ss.h_c_js * ss.a_srf_js * (np.dot(ss.p_js_is, logger.theta_r) - logger.theta_s),
                ss.h_r_js * ss.a_srf_js * (np.dot(ss.p_js_is, np.dot(ss.f_mrt_is_js, logger.theta_s)) - logger.theta_s),
                ss.g_lh_frt_is * (logger.x_r - logger.x_frt))


PER_ROOM = ['theta_r', 'x_r', 'theta_mrt_hum', 'theta_ot', 'h_hum_c_is_n', 'h_hum_r_is_n', 'q_hum', 'x_hum', 'l_cs', 'l_rs', 'l_cl', 'theta_frt', 'x_frt',
            'v_reak_is_ns', 'v_ntrl_is_ns']
PER_SURFACE = ['theta_s', 'theta_rear', 'theta_ei', 'qiall_s']


@ob(('C07', 'C14'), 'room and precision of every quantity that is recorded step by step', n_spaces=[2], n_boundaries=[3], n_step_main=[4], a='scalar', b='scalar', _explicit=True)
class record_sizes:
    def impl(n_spaces, n_boundaries, n_step_main, a, b):
        lg = log.Logger(n_spaces=n_spaces, n_boundaries=n_boundaries, n_step_main=n_step_main)
        sizes = (tuple(getattr(lg, nm).shape for nm in PER_ROOM), tuple(getattr(lg, nm).shape for nm in PER_SURFACE),
                 lg.operation_mode.shape, lg.space_remarks.shape)
        for nm in PER_ROOM:
            getattr(lg, nm)[1, 3] = a
        for nm in PER_SURFACE:
            getattr(lg, nm)[2, 3] = b
        return sizes, tuple(getattr(lg, nm)[1, 3] for nm in PER_ROOM), tuple(getattr(lg, nm)[2, 3] for nm in PER_SURFACE)

    def spec(n_spaces, n_boundaries, n_step_main, a, b):
        return (((2, 4),) * 15, ((3, 4),) * 4, (2, 4), (2, 4)), (a,) * 15, (b,) * 4


COLUMNS = [
    ('_ac_operate', 'operation_mode'), ('_occupancy', 'ac_demand_is_ns'), ('_hc_hum', 'h_hum_c_is_n'), ('_hr_hum', 'h_hum_r_is_n'),
    ('_t_r', 'theta_r'), ('_rh_r', 'rh'), ('_x_r', 'x_r'), ('_mrt', 'theta_mrt_hum'), ('_ot', 'theta_ot'), ('_q_sol_t', 'q_trs_sol_is_ns'),
    ('_q_s_except_hum', 'q_gen_is_ns'), ('_q_l_except_hum', 'x_gen_is_ns'), ('_q_hum_s', 'q_hum'), ('_q_hum_l', 'x_hum'), ('_l_s_c', 'l_cs'),
    ('_l_s_r', 'l_rs'), ('_l_l_c', 'l_cl'), ('_t_fun', 'theta_frt'), ('_q_s_fun', 'q_frt'), ('_q_s_sol_fun', 'q_sol_frt_is_ns'),
    ('_x_fun', 'x_frt'), ('_q_l_fun', 'q_l_frt'), ('_v_reak', 'v_reak_is_ns'), ('_v_ntrl', 'v_ntrl_is_ns'), ('_remarks', 'space_remarks')]
SURFACES = [('_t_s', 'theta_s'), ('_t_e', 'theta_ei'), ('_t_b', 'theta_rear'), ('_hir_s', 'h_r_s'), ('_qir_s', 'qr'), ('_hic_s', 'h_c_s'),
            ('_qic_s', 'qc'), ('_qisol_s', 'qisol_s'), ('_qiall_s', 'qiall_s')]
DIGEST = [('_ac_operate', None, None), ('_t_r', 'mean', 2), ('_x_r', 'mean', 4), ('_ot', 'mean', 2), ('_l_s_c', 'sum', 0), ('_l_s_r', 'sum', 0), ('_l_l_c', 'sum', 0)]


def room(logger, d, i, n, pp):
    name = 'rm' + str(i)
    for col, q in COLUMNS:
        d[name + col] = getattr(logger, q)[i][0:n]
    own = pp.p_is_js[i] == 1
    for col, q in SURFACES:
        for j, t in enumerate(getattr(logger, q)[own, 0:n]):
            d[name + '_b' + str(j) + col] = t


@ob('C14', 'every reported column carries its own quantity, and files are written only when asked for', pp='obj:heat_load_calc.core.pre_calc_parameters:PreCalcParameters',
    logger='obj:heat_load_calc.core.log:Logger', out='str', simple=[True, False], detail=[True, False], n='int', days='int', _effects=True,
    _sized={'logger': ('n', PER_ROOM + PER_SURFACE + ['operation_mode', 'space_remarks', 'rh', 'q_frt', 'qc', 'qr', 'q_l_frt', 'h_c_s', 'h_r_s'])})
class report:
    def impl(pp, logger, out, simple, detail, n, days):
        return log.record(pps=pp, logger=logger, output_data_dir=out, show_simple_result=simple, show_detail_result=detail, n_step_main=n, n_d_main=days)

    def spec(pp, logger, out, simple, detail, n, days):
        dd = pd.DataFrame(index=pd.date_range(start='1/1/1989', periods=n, freq='15min'))
        dd['out_temp'] = logger.theta_o_ns[0:n]
        dd['out_abs_humid'] = logger.x_o_ns[0:n]
        for i in range(pp.n_spaces):
            room(logger, dd, i, n, pp)
        if detail:
            dd.to_csv(out + '/result_detail.csv', encoding='cp932')
        ds = pd.DataFrame(index=pd.date_range(start='1/1/1989', periods=days * 24, freq='H'))
        ds['out_temp'] = dd['out_temp'].resample('H').mean().round(2)
        ds['out_abs_humid'] = dd['out_abs_humid'].resample('H').mean().round(2)
        for i in range(pp.n_spaces):
            name = 'rm' + str(i)
            for col, how, digits in DIGEST:
                if how is None:
                    ds[name + col] = dd[name + col].asfreq('H')
                elif how == 'mean':
                    ds[name + col] = dd[name + col].resample('H').mean().round(digits)
                else:
                    ds[name + col] = dd[name + col].resample('H').sum().round(digits)
        if simple:
            ds.to_csv(out + '/result_digest.csv', encoding='cp932')
        return ds, dd
