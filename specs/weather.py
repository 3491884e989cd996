"""Weather data, solar position: reference relations."""
import math
import os
import numpy as np
import pandas as pd

from heat_load_calc.weather import weather
from heat_load_calc.weather import weather_data
from heat_load_calc.weather import region_location
from heat_load_calc.weather import solar_position
from heat_load_calc.weather import calc_interval

LOCATIONS = {1: (43.82, 143.91), 2: (43.21, 141.79), 3: (39.70, 141.17), 4: (36.66, 138.20),
             5: (36.55, 139.87), 6: (34.66, 133.92), 7: (31.94, 131.42), 8: (26.21, 127.685)}

FILES = {1: '01_kitami.csv', 2: '02_iwamizawa.csv', 3: '03_morioka.csv', 4: '04_nagano.csv',
         5: '05_utsunomiya.csv', 6: '06_okayama.csv', 7: '07_miyazaki.csv', 8: '08_naha.csv'}

STEPS_PER_HOUR = {'1h': 1, '30m': 2, '15m': 4}


def day_number(interval):
    """1,1,..,1,2,..,365 with one entry per step"""
    return np.repeat(np.arange(365) + 1, 24 * STEPS_PER_HOUR[interval])


def standard_time(interval):
    """0 .. 24 h in fractions of an hour, repeated for every day"""
    n = STEPS_PER_HOUR[interval]
    return np.tile(np.arange(24 * n) * (1 / n), 365)


def sun(phi, lam, interval):
    n = 1989 - 1968
    d0 = 3.71 + 0.2596 * n - int((n + 3.0) / 4.0)
    m = 2 * np.pi * (day_number(interval) - d0) / 365.2596
    eps = (12.3901 + 0.0172 * (n + m / (2 * np.pi))) * np.pi / 180
    v = m + (1.914 * np.sin(m) + 0.02 * np.sin(2 * m)) * np.pi / 180
    et = m - v - np.arctan(0.043 * np.sin(2 * (v + eps)) / (1 - 0.043 * np.cos(2 * (v + eps))))
    delta = np.arcsin(np.cos(v + eps) * np.sin(-23.4393 * np.pi / 180))
    omega = (standard_time(interval) - 12) * 15 * np.pi / 180 + lam - 135 * np.pi / 180 + et
    return omega, delta


def altitude(phi, omega, delta):
    return np.arcsin(np.sin(phi) * np.sin(delta) + np.cos(phi) * np.cos(delta) * np.cos(omega))


def azimuth(phi, omega, delta, h):
    s = np.cos(delta) * np.sin(omega) / np.cos(h)
    c = (np.sin(h) * np.sin(phi) - np.sin(delta)) / (np.cos(h) * np.cos(phi))
    return np.where(h == np.pi / 2, np.nan, np.arctan2(s, c))


@ob(('W01', 'W03'), 'solar altitude and azimuth from latitude, longitude and step', interval=['1h', '30m', '15m'],
    phi='scalar', lam='scalar')
class sun_position:
    def impl(phi, lam, interval):
        return solar_position.calc_solar_position(phi, lam, interval)

    def spec(phi, lam, interval):
        omega, delta = sun(phi, lam, interval)
        h = altitude(phi, omega, delta)
        return h, azimuth(phi, omega, delta, h)


@ob(('W02', 'W03'), 'hourly data to sub-hourly steps, first value of the year is hour 24', interval=['1h', '30m', '15m'],
    region=[1, 2, 3, 4, 5, 6, 7, 8])
class interpolation:
    def impl(region, interval):
        return weather_data.load(region=region, interval=interval)

    def spec(region, interval):
        path = os.path.dirname(weather_data.__file__) + '/expanded_amedas/' + FILES[region]
        raw = np.loadtxt(path, delimiter=',', skiprows=2, usecols=(2, 3, 4, 5, 6), encoding='utf-8').T

        def steps(hourly):
            before, after = np.roll(hourly, 1), hourly
            if interval == '1h':
                return before
            n = STEPS_PER_HOUR[interval]
            w = np.array([1 - k / n for k in range(n)])
            return (w[np.newaxis, :] * before[:, np.newaxis] + (1 - w[np.newaxis, :]) * after[:, np.newaxis]).flatten()

        return steps(raw[0]), steps(raw[1]), steps(raw[2]), steps(raw[3]), steps(raw[4]) / 1000


@ob(('W03', 'W02'), 'every column of the weather table carries its own quantity', interval=['1h', '30m', '15m'],
    region=[1, 2, 3, 4, 5, 6, 7, 8], csv=[True, False], out='str', _effects=True)
class table:
    def impl(region, out, csv, interval):
        return weather.make_weather(region=region, output_data_dir=out, csv_output=csv, interval=interval)

    def spec(region, out, csv, interval):
        temp, direct, sky, outward, humidity = weather_data.load(region=region, interval=interval)
        lat, lon = LOCATIONS[region]
        h, a = solar_position.calc_solar_position(phi_loc=lat * np.pi / 180, lambda_loc=lon * np.pi / 180, interval=interval)
        d = pd.DataFrame(index=pd.date_range(start='1/1/1989', periods=8760 * STEPS_PER_HOUR[interval],
                                             freq={'15m': '15min', '30m': '30min', '1h': 'H'}[interval]))
        d['sun azimuth'] = a
        d['sun altitude'] = h
        d['outward radiation'] = outward
        d['horizontal sky solar radiation'] = sky
        d['normal direct solar radiation'] = direct
        d['absolute humidity'] = humidity.round(6)
        d['temperature'] = temp.round(3)
        if csv:
            d.to_csv(out + '/weather.csv', encoding='utf-8')
        return d


@ob(('W04', 'W01', 'W03'), 'location of each climate region', region=[1, 2, 3, 4, 5, 6, 7, 8])
class location:
    def impl(region):
        return region_location.get_phi_loc_and_lambda_loc(region)

    def spec(region):
        return tuple([x * np.pi / 180 for x in LOCATIONS[region]])


@ob(('W04', 'W02', 'W03'), 'steps per hour of each interval code', interval=['1h', '30m', '15m'])
class steps_per_hour:
    def impl(interval):
        return calc_interval.get_n_hour(interval)

    def spec(interval):
        return STEPS_PER_HOUR[interval]
