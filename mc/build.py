"""Construct real pymgrid objects from small JSON-able specs."""
import numpy as np
import pandas as pd

from pymgrid import Microgrid
from pymgrid.modules import (BatteryModule, GensetModule, GridModule, LoadModule, RenewableModule,
                             UnbalancedEnergyModule)

DEFAULT_NAMES = dict(load='load', pv='renewable', battery='battery', genset='genset', grid='grid', unb='balancing')


def cost_fn(spec):
    """A genset cost: a number, or ['poly', a, b, c=0] for the callable p -> a*p + b*p*p + c."""
    if isinstance(spec, (list, tuple)):
        _, a, b, c = [*spec, 0.0][:4]
        return lambda p: a * p + b * p * p + c
    return spec


def series(s):
    """The time series in the input format that the spec asks for (float array by default)."""
    ts, fmt = s['ts'], s.get('fmt')
    if fmt == 'int':
        return np.array(ts, dtype=int)
    if fmt == 'list':
        return list(ts)
    if fmt == 'series':
        return pd.Series(ts)
    if fmt == 'frame':
        return pd.DataFrame(ts)
    return np.array(ts, dtype=float)


OPTIONAL = dict(fc='forecaster', h='forecast_horizon', inc='forecaster_increase_uncertainty', rel='forecaster_relative_noise',
                i='initial_step', f='final_step', err='raise_errors', cost='battery_cost_cycle', charge='init_charge',
                soc='init_soc', co2='co2_per_unit', cco2='cost_per_unit_co2', su='start_up_time', wd='wind_down_time',
                abort='allow_abortion', on='init_start_up', llc='loss_load_cost', ogc='overgeneration_cost')


def bare_module(s, **kw):
    """The module with only the optional arguments that the spec names: the documented defaults decide the rest."""
    k, s = s['k'], dict(s)
    if k == 'genset':
        kw['genset_cost'] = cost_fn(s.pop('cost'))
    kw.update({OPTIONAL[x]: s[x] for x in s if x in OPTIONAL})
    if k == 'battery':
        return BatteryModule(s['min'], s['max'], s['mc'], s['md'], s['eff'], **kw)
    if k == 'genset':
        return GensetModule(s['min'], s['max'], **kw)
    if k == 'grid':
        return GridModule(s['imp'], s['exp'], series(s), **kw)
    if k == 'unb':
        return UnbalancedEnergyModule(False, **kw)
    return (LoadModule if k == 'load' else RenewableModule)(series(s), **kw)


def module(s, i=0, f=-1):
    k = s['k']
    if s.get('bare'):
        m = bare_module(s)
        if s.get('flex'):
            m.as_flex()
        return m
    i, f = s.get('i', i), s.get('f', f)
    if k in ('load', 'pv'):
        cls = LoadModule if k == 'load' else RenewableModule
        return cls(series(s), forecaster=s.get('fc'), forecast_horizon=s.get('h', 3),
                   forecaster_increase_uncertainty=s.get('inc', False),
                   forecaster_relative_noise=s.get('rel', False),
                   initial_step=i, final_step=f, raise_errors=s.get('err', False))
    if k == 'battery':
        return BatteryModule(min_capacity=s['min'], max_capacity=s['max'], max_charge=s['mc'], max_discharge=s['md'],
                             efficiency=s['eff'], battery_cost_cycle=s.get('cost', 0.0),
                             init_charge=s.get('charge'), init_soc=s.get('soc'), initial_step=i,
                             raise_errors=s.get('err', False))
    if k == 'genset':
        return GensetModule(running_min_production=s['min'], running_max_production=s['max'],
                            genset_cost=cost_fn(s['cost']), co2_per_unit=s.get('co2', 0.0),
                            cost_per_unit_co2=s.get('cco2', 0.0), start_up_time=s.get('su', 0),
                            wind_down_time=s.get('wd', 0), allow_abortion=s.get('abort', True),
                            init_start_up=s.get('on', True), initial_step=i, raise_errors=s.get('err', False))
    if k == 'grid':
        m = GridModule(max_import=s['imp'], max_export=s['exp'], time_series=series(s),
                       forecaster=s.get('fc'), forecast_horizon=s.get('h', 3),
                       forecaster_increase_uncertainty=s.get('inc', False),
                       forecaster_relative_noise=s.get('rel', False),
                       initial_step=i, final_step=f, cost_per_unit_co2=s.get('cco2', 0.0),
                       raise_errors=s.get('err', False))
        if s.get('flex'):
            m.as_flex()
        return m
    if k == 'unb':
        return UnbalancedEnergyModule(raise_errors=False, initial_step=i, loss_load_cost=s['llc'],
                                      overgeneration_cost=s['ogc'])
    raise KeyError(k)


def module_list(spec):
    out = []
    for s in spec['m']:
        m = module(s, spec.get('i', 0), spec.get('f', -1))
        out.append((s['name'], m) if s.get('name') else m)
    return out


def microgrid(spec, cls=Microgrid, **kw):
    if spec.get('bare'):
        return cls(module_list(spec), **kw)
    kw.setdefault('add_unbalanced_module', spec.get('unb', True))
    kw.setdefault('loss_load_cost', spec.get('llc', 10.0))
    kw.setdefault('overgeneration_cost', spec.get('ogc', 2.0))
    return cls(module_list(spec), **kw)
