BUGS = []


def bug(id, prop, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))


bug('b01-export-outage', 'C04',
    [('modules/grid_module.py', '        return self.max_export * self.current_status', '        return self.max_export * self.grid_status.max()')],
    'a grid with a forecast, an outage now and none within the horizon, and a request to export',
    'energy is exported during an outage as soon as the forecast shows the grid back',
    '''
ts = np.array([[0.5, 0.25, 0.2, 1], [0.5, 0.25, 0.2, 0], [0.5, 0.25, 0.2, 1], [0.5, 0.25, 0.2, 1]])
g = GridModule(max_import=4, max_export=3, time_series=ts, forecaster='oracle', forecast_horizon=1)
g.step(-2.0, normalized=False)
_, _, _, info = g.step(-2.0, normalized=False)
assert info.get('absorbed_energy', 0.0) == 0.0, info
''')

bug('b02-winding-down', 'C03',
    [('modules/genset_module.py', '        return self._current_status * self.running_min_production\n', '        return self._current_status * self._goal_status * self.running_min_production\n')],
    'a genset with a wind-down time that has been asked to stop, and a request below its minimum production before it has',
    'a running genset produces less than its minimum',
    '''
g = GensetModule(running_min_production=2, running_max_production=5, genset_cost=0.5, start_up_time=0, wind_down_time=2, init_start_up=True)
_, _, _, info = g.step(np.array([0, 0.5]), normalized=False)
assert g.current_status == 1 and info['provided_energy'] == 2, info
''')

bug('b04-small-deficit', 'C01',
    [('microgrid/microgrid.py', "            energy_needed = - difference\n", "            energy_needed = 0.0 if np.isclose(provided, consumed) else - difference\n")],
    'supply that falls short of the demand by less than one in 100,000, so that the final consistency test does not notice either',
    'a small deficit is neither covered nor reported as lost load: provided and absorbed energy differ',
    '''
m = Microgrid([LoadModule(time_series=[100000.0]*3), BatteryModule(0, 1e6, 1e6, 1e6, 1.0, battery_cost_cycle=0, init_soc=1.0)])
_, reward, _, info = m.run({'battery': [99999.5]}, normalized=False)
assert abs(info['balancing'][0]['provided_energy'] - 0.5) < 1e-6, info
''')

bug('b09-reset-forecast', 'C09',
    [('modules/base/timeseries/base_timeseries_module.py', '''        super()._update_step(reset=reset)
        self._current_forecast = self.forecast()
''', '''        super()._update_step(reset=reset)
        if not (reset and self._current_step == 0):
            self._current_forecast = self.forecast()
''')],
    'a module with a forecast, reset after at least one step to initial step zero',
    'the first observation after a reset still contains the forecast made at the end of the last episode',
    '''
l = LoadModule(time_series=[5.0, 4.0, 3.0, 2.0], forecaster='oracle', forecast_horizon=2)
first = l.state.copy()
l.step(0.0, normalized=False); l.step(0.0, normalized=False)
l.reset()
assert (l.state == first).all(), (l.state, first)
''')

bug('b11-deserialize-status', 'C15',
    [('modules/genset_module.py', '''        return ["_current_step"] + [f"_{key}" for key in self.state_dict().keys()]''',
      '''        return ["_current_step"] + [f"_{key}" for key in self.state_dict().keys() if not key.startswith('steps')]''')],
    'a dump in the middle of a start-up or wind-down',
    'a loaded genset starts its start-up time over again',
    '''
g = GensetModule(running_min_production=2, running_max_production=5, genset_cost=0.5, start_up_time=2, wind_down_time=2, init_start_up=False)
g.step(np.array([1, 0.0]), normalized=False)
l = GensetModule.load(g.dump())
assert l.state_dict() == g.state_dict(), (l.state_dict(), g.state_dict())
''')

bug('b13-raise-lower', 'C07',
    [('modules/base/base_module.py', '''            if self.raise_errors:
                self._raise_error(energy_demand, self.min_production, as_source=True, lower_bound=True)
''', '''            if self.raise_errors and energy_demand > 0:
                self._raise_error(energy_demand, self.min_production, as_source=True, lower_bound=True)
''')],
    'a running genset that raises errors and is asked for nothing at all',
    'an infeasible request of zero is clipped to the minimum instead of being refused',
    '''
g = GensetModule(running_min_production=2, running_max_production=5, genset_cost=0.5, raise_errors=True, init_start_up=True)
try:
    g.step(np.array([1, 0.0]), normalized=False)
except ValueError:
    pass
else:
    raise AssertionError('accepted')
''')

bug('b15-co2-export', 'C06',
    [('modules/grid_module.py', "            return export_cost * import_export + self.get_co2_cost(import_export, as_source, as_sink)",
      "            return export_cost * import_export * bool(self._time_series[self.current_step:, 0].any()) + self.get_co2_cost(import_export, as_source, as_sink)")],
    'an export in a step from which on all import prices are zero',
    'the revenue of an export is lost when importing is free for the rest of the data',
    '''
g = GridModule(max_import=5, max_export=3, time_series=np.array([[0.5, 0.25, 0.2, 1], [0.0, 0.25, 0.2, 1]]))
g.step(-1.0, normalized=False)
assert np.isclose(g.step(-1.0, normalized=False)[1], 0.25)
''')

bug('b16-obs-space', 'C11',
    [('modules/grid_module.py', '        min_obs = self._time_series.min(axis=0)\n', '        min_obs = self._time_series[:-1].min(axis=0)\n')],
    'a series of prices whose lowest value is the last one',
    'the last observation lies below the advertised bounds and is negative when normalised',
    '''
g = GridModule(max_import=5, max_export=3, time_series=np.array([[0.5, 0.25, 0.2, 1], [0.6, 0.25, 0.2, 1], [0.1, 0.25, 0.2, 1]]))
g.step(0.0, normalized=False); g.step(0.0, normalized=False)
assert (g.to_normalized(g.state, obs=True) >= 0).all() and (g.state >= g.min_obs).all()
''')

bug('b20-fill-up', 'C02',
    [('modules/battery_module.py', '        return min(self.max_charge, self.max_capacity - self._current_charge) / self.efficiency', '        return min(self.max_charge / self.efficiency, self.max_capacity - self._current_charge)')],
    'a battery with losses that is nearly full',
    'a battery that is nearly full takes less energy than it could, and cannot be filled up in one step',
    '''
b = BatteryModule(0, 10, 5, 5, 0.5, battery_cost_cycle=0, init_charge=8)
_, _, _, info = b.step(-10.0, normalized=False)
assert np.isclose(info['absorbed_energy'], 4) and np.isclose(b.current_charge, 10), (info, b.current_charge)
''')

bug('b21-flex-order', 'C05',
    [('microgrid/microgrid.py', '''            energy_needed = - difference
            for name, modules in self.flex.iterdict():
''', '''            energy_needed = - difference
            for name, modules in sorted(self.flex.iterdict(), key=lambda item: len(item[1]), reverse=True):
''')],
    'a flexible module that shares its name with another one, after one that does not',
    'modules whose name occurs more often are used first in a deficit, so that load is lost or bought although there is renewable energy',
    '''
grid = lambda: GridModule(max_import=2, max_export=0, time_series=np.array([[0.5, 0, 0, 1.0]] * 4))
grids = [grid(), grid()]
for g in grids:
    g.as_flex()
m = Microgrid([LoadModule(time_series=3 * np.ones(4)), RenewableModule(time_series=2 * np.ones(4))] + grids)
_, _, _, info = m.run({})
assert info['renewable'][0]['provided_energy'] == 2, info
''')

bug('b23-stale-forecast', 'C13',
    [('forecast/forecaster.py', '            pad = self._fill_arr.reshape((-1, forecast.shape[1]))[-pad_amount:]\n', '            pad = np.repeat(forecast[-1:], pad_amount, axis=0) if len(forecast) else self._fill_arr.reshape((-1, forecast.shape[1]))[-pad_amount:]\n')],
    'a forecast that reaches beyond the end of the data',
    'beyond the end of the data the forecast repeats the last value instead of the padding',
    '''
l = LoadModule(time_series=[4.0, 1.0, 1.0, 1.0], forecaster='oracle', forecast_horizon=2)
l.step(0.0, normalized=False); l.step(0.0, normalized=False)
s = l.state.tolist()
assert s[:2] == [-1.0, -1.0] and s[2] == -2.0, s
''')

bug('b24-log-gap', 'C14',
    [('utils/logger.py', '                self[key] = [np.nan]*self._log_length\n', '                self[key] = [np.nan]*min(self._log_length, 2)\n')],
    'a quantity that first appears in the log after three or more steps',
    'a column that first appears late is short, so that its values belong to the wrong steps or the log cannot be shown',
    '''
from pymgrid.utils.logger import ModularLogger
m = Microgrid([LoadModule(time_series=np.ones(6)), BatteryModule(0, 10, 5, 5, 1.0, battery_cost_cycle=0, init_charge=8)])
for a in (0.0, 0.0, 0.0, 5.0, 0.0):
    m.run({'battery': [a]}, normalized=False)
x = ModularLogger()
for i in range(4):
    x.log(a=i)
x.log(a=4, b=1)
assert x.to_dict()['b'][4] == 1 and len(x.to_frame()) == 5
''')

bug('b25-shared-control', 'C16',
    [('microgrid/microgrid.py', '        control_copy = control.copy()\n', '        control_copy = control if len(control) > len(self.controllable.to_dict()) else control.copy()\n')],
    'a control that also has an entry for a module that takes none',
    'the control passed in loses its entries',
    '''
m = Microgrid([LoadModule(time_series=np.ones(6)), BatteryModule(0, 10, 5, 5, 1.0, battery_cost_cycle=0, init_charge=8)])
c = {'battery': [1.0], 'load': [0.0]}
m.run(c, normalized=False)
assert set(c) == {'battery', 'load'}, c
''')

bug('b26-strict-sample', 'C17',
    [('modules/base/base_module.py', '                max_bound = self._action_space.normalize(self.max_production)\n', '                max_bound = self._action_space.normalize(max(self.max_production, -self.min_act))\n')],
    'strict sampling of a battery or grid that can give less than it can take',
    'actions sampled with strict bounds ask for more than there is',
    '''
b = BatteryModule(0, 10, 5, 5, 1.0, battery_cost_cycle=0, init_charge=1)
rand = np.random.rand
np.random.rand = lambda *a: 0.999
a = b.sample_action(strict_bound=True)
np.random.rand = rand
want = b.from_normalized(a, act=True)
_, _, _, info = b.step(a)
assert np.isclose(info.get('provided_energy', 0.0), want), (info, want)
''')

bug('b27-equal-cost', 'C18',
    [('algos/priority_list/priority_list_element.py', '                (self.marginal_cost == other.marginal_cost and self.action > other.action)\n', '                (self.marginal_cost == other.marginal_cost and self.action < other.action)\n')],
    'rule-based control by default order on a microgrid with a genset',
    'the default order never turns the genset on',
    '''
from pymgrid.algos import RuleBasedControl
m = Microgrid([LoadModule(time_series=3 * np.ones(6)), GensetModule(running_min_production=1, running_max_production=5, genset_cost=0.5, start_up_time=0, wind_down_time=0, init_start_up=False)])
log = RuleBasedControl(m).run()
assert (log[('genset', 0, 'genset_production')] == 3).all(), log
''')

bug('b28-surplus', 'C19',
    [('algos/priority_list/priority_list.py', '            if -1 * remaining_load > module_to_deploy.max_consumption:\n', '            if -1 * remaining_load > module_to_deploy.max_consumption and module_max_consumption > 0:\n')],
    'a surplus, and a full battery (or grid that is down) ahead of another module in the list',
    'a module that cannot absorb anything is credited with the whole surplus, so that the modules after it are not used',
    '''
from pymgrid.envs import DiscreteMicrogridEnv
def n(minimum):
    return DiscreteMicrogridEnv([LoadModule(time_series=np.ones(4)), BatteryModule(0, 10, 3, 3, 1.0, init_soc=0.5), GensetModule(minimum, 5, 1.0)]).action_space.n
assert n(0.01) == n(1.0), (n(0.01), n(1.0))
''')

bug('b43-second-module-keys', 'C20',
    [('envs/base/base.py', '                        relevant_state_idx = state_series.loc[pd.IndexSlice[name, module_num]].index\n', '                        relevant_state_idx = state_series.loc[pd.IndexSlice[name, 0]].index\n')],
    'observation keys that the second module of a name reports and the first does not',
    'the observation space lacks the entries of the second module, so that observations are not in it',
    '''
from pymgrid.envs import ContinuousMicrogridEnv
e = ContinuousMicrogridEnv([LoadModule(time_series=np.arange(1.0, 7.0)), LoadModule(time_series=np.arange(1.0, 7.0), forecaster='oracle', forecast_horizon=2), BatteryModule(0, 10, 5, 5, 1.0, battery_cost_cycle=0, init_charge=8)],
                           observation_keys=['load_forecast_0', 'soc'])
assert e.reset() in e.observation_space
''')

bug('b30-eq-trajectory', 'C21',
    [('microgrid/microgrid.py', '            self.trajectory_func == other.trajectory_func])', '            type(self.trajectory_func) == type(other.trajectory_func)])')],
    'two microgrids that differ only in the parameters of their trajectories',
    'microgrids with different trajectories compare equal',
    '''
from pymgrid.microgrid.trajectory import DeterministicTrajectory
a, b = (Microgrid([LoadModule(time_series=np.ones(6))], trajectory_func=DeterministicTrajectory(1, e)) for e in (3, 4))
assert a != b
''')

bug('b31-battery-min', 'C22',
    [('convert/to_nonmodular_ops.py', '                       battery_soc_min=battery_module.min_soc,\n', '                       battery_soc_min=min(battery_module.min_soc, 1 - battery_module.max_soc + 0.2),\n')],
    'a battery whose minimum capacity is above a fifth of its capacity',
    'after conversion to the legacy format and back the battery can be discharged below its minimum',
    '''
m = Microgrid([LoadModule(time_series=np.ones(6)), RenewableModule(time_series=np.ones(6)), BatteryModule(5, 10, 5, 5, 1.0, battery_cost_cycle=0, init_charge=8)])
x = Microgrid.from_nonmodular(m.to_nonmodular())
assert np.isclose(x.battery.item().min_capacity, 5), x.battery.item()
''')

bug('b32-module-number', 'C23',
    [('modules/module_container.py', '        module.name = (module_name, len(d[source_sink_both][module_name]) - 1)\n', '        module.name = (module_name, min(len(d[source_sink_both][module_name]) - 1, 1))\n')],
    'three modules of one name',
    'the third and later modules of a name get the number of the second',
    '''
bats = [BatteryModule(0, 10, 5, 5, 1.0, battery_cost_cycle=0, init_charge=8) for _ in range(3)]
m = Microgrid([LoadModule(time_series=np.ones(6))] + bats)
assert [b.name for b in m.battery] == [('battery', 0), ('battery', 1), ('battery', 2)]
''')

bug('b33-window-from-data', 'C24',
    [('modules/base/timeseries/base_timeseries_module.py', '        return self._current_step >= self._final_step - 1\n', '        return self._current_step >= min(self._final_step, 8758) - 1\n')],
    'a run to the end of a whole year of hourly data',
    'the year ends one hour early',
    '''
m = Microgrid.from_scenario(0)
m.initial_step = 8750
m.reset()
done, n = False, 0
while not done:
    _, _, done, _ = m.run(m.sample_action(strict_bound=True))
    n += 1
assert n == 9, n
''')

bug('b34-curtail-some', 'C25',
    [('microgrid/reward_shaping/pv_curtailment_shaper.py', "        pv_curtailment = self.sum_module_val(step_info, 'pv', 'curtailment')\n", "        pv_curtailment = min(self.sum_module_val(step_info, 'pv', 'curtailment'), self.sum_module_val(step_info, 'load', 'absorbed_energy') or np.inf)\n".replace('np.inf', "float('inf')"))],
    'more curtailed than the load takes',
    'the penalty for curtailment is capped at the load',
    '''
from pymgrid.microgrid.reward_shaping import PVCurtailmentShaper
m = Microgrid([LoadModule(time_series=np.ones(6)), ('pv', RenewableModule(time_series=5 * np.ones(6)))], reward_shaping_func=PVCurtailmentShaper())
assert m.run({})[1] == -4
''')

bug('b35-mpc-battery-cost', 'C26',
    [('algos/mpc/mpc.py', '        cost_battery_cycle = battery.battery_cost_cycle\n', '        cost_battery_cycle = battery.battery_cost_cycle * (battery.max_charge >= battery.max_discharge)\n')],
    'a battery that discharges faster than it charges and costs something to use',
    'the plan ignores the cost of using the battery',
    '''
from pymgrid.algos import ModelPredictiveControl
kw = dict(forecaster='oracle', forecast_horizon=1)
m = Microgrid([LoadModule(time_series=2 * np.ones(4), **kw), RenewableModule(time_series=np.zeros(4), **kw),
               BatteryModule(0, 10, 1, 5, 1.0, battery_cost_cycle=5.0, init_charge=10), GridModule(max_import=10, max_export=0, time_series=np.array([[0.5, 0, 0, 1.0]] * 4), **kw)])
log = ModelPredictiveControl(m).run()
assert (log[('battery', 0, 'discharge_amount')] == 0).all()
''')

bug('b36-final-step', 'C08',
    [('microgrid/microgrid.py', '''            self._final_step = self._get_module_final_step()

    @property
    def modules''', '''            self._final_step = value

    @property
    def modules''')],
    'a final step of -1 (the end of the data) set on the microgrid, and a later reset',
    'the microgrid takes -1 for its last step, whereas its modules run to the end of the data',
    '''
m = Microgrid([LoadModule(time_series=np.ones(6))])
m.final_step = 4
m.final_step = -1
m.reset()
n, done = 0, False
while not done:
    done = m.run({})[2]
    n += 1
assert n == 6 and m.final_step == 6, (n, m.final_step)
''')

bug('b37-normalize-mg', 'C12',
    [('microgrid/microgrid.py', '''        return {module_name: [module.to_normalized(value, act=act, obs=obs) for module, value in zip(module_list, data_dict[module_name])]
''', '''        return {module_name: [module_list[0].to_normalized(value, act=act, obs=obs) for module, value in zip(module_list, data_dict[module_name])]
''')],
    'two modules of one name with different ranges',
    'the values of the second module of a name are normalised with the range of the first',
    '''
bats = [BatteryModule(0, 10, c, 5, 1.0, battery_cost_cycle=0, init_charge=8) for c in (5, 2)]
m = Microgrid([LoadModule(time_series=np.ones(6))] + bats)
assert np.isclose(m.to_normalized({'battery': [-5.0, -2.0]}, act=True)['battery'], 0).all()
''')

bug('b38-test-prices', 'C27',
    [('_deprecated/non_modular_microgrid.py', '                self._grid_co2_test = self._grid_co2.iloc[self._limit_index:]\n', '                self._grid_co2_test = self._grid_co2.iloc[:len(self._pv_test)]\n')],
    'a legacy microgrid with a grid whose emissions vary, split into training and testing data and reset for testing',
    'the testing part uses the emissions of the first hours of the year',
    '''
ts = np.array([[0.5, 0.25, 0.1 * i, 1] for i in range(6)])
m = Microgrid([LoadModule(time_series=np.ones(6)), RenewableModule(time_series=np.zeros(6)), GridModule(max_import=4, max_export=3, time_series=ts, cost_per_unit_co2=1.0)]).to_nonmodular()
m.train_test_split(train_size=0.5)
m.reset(testing=True)
m.run(dict(grid_import=1.0, grid_export=0.0))
assert abs(m.get_co2() - 0.3) < 1e-9, m.get_co2()
''')

bug('b39-initial-soc', 'C28',
    [('MicrogridGenerator.py', "            'soc_0':min(max(np.random.randn(), soc_min),soc_max),\n", "            'soc_0':np.clip(np.random.randn(), soc_min if capa > 1000 else 0, soc_max),\n")],
    'a generated microgrid with a small battery and a low draw for its initial charge',
    'a small battery starts below its smallest state of charge',
    '''
from pymgrid import MicrogridGenerator
orig = np.random.randint
np.random.randint = lambda low, high=None, *a, **k: low
try:
    soc = [m.parameters['battery_soc_0'].item() for s in range(12) for m in MicrogridGenerator(nb_microgrid=1, random_seed=s).generate_microgrid(modular=False).microgrids]
finally:
    np.random.randint = orig
assert min(soc) >= 0.2, soc
''')

bug('b40-export-order', 'C29',
    [('algos/rbc/_nonmodular_rbc.py', "            if price_export / (parameters['battery_efficiency'].values[0]**2) < price_import:\n", "            if price_export / parameters['battery_efficiency'].values[0] < price_import:\n")],
    'rule-based control of a legacy microgrid whose export price lies between the import price times the efficiency and its square',
    'the battery is used before the grid although buying and selling is cheaper than storing',
    '''
from pymgrid.algos.rbc._nonmodular_rbc import NonModularRuleBasedControl
ts = np.array([[0.3, 0.2, 0.0, 1]] * 6)
m = Microgrid([LoadModule(time_series=np.ones(6)), RenewableModule(time_series=3 * np.ones(6)), BatteryModule(0, 10, 5, 5, 0.8, battery_cost_cycle=0, init_charge=5),
               GridModule(max_import=4, max_export=3, time_series=ts)]).to_nonmodular()
m.set_horizon(1)
out = NonModularRuleBasedControl(m).run_rule_based()
assert out['action']['grid_export'][0] == 2.0, out['action']
''')

bug('b41-status-truncated', 'C30',
    [('modules/grid_module.py', '            if not ((np.array(time_series)[:, -1] == 0) | (np.array(time_series)[:, -1] == 1)).all():\n', '            if not np.isin(np.array(time_series)[:, -1].astype(int), (0, 1)).all():\n')],
    'a grid table whose status column has a fraction, as an availability of 50 %',
    'a status that is neither 0 nor 1 is accepted',
    '''
try:
    GridModule(max_import=4, max_export=3, time_series=np.array([[0.5, 0.25, 0.2, 1], [0.5, 0.25, 0.2, 0.5]]))
except ValueError:
    pass
else:
    raise AssertionError('accepted')
''')

bug('b42-replaced-series', 'C30',
    [('modules/base/timeseries/base_timeseries_module.py', '        return self._sign_check(_time_series)\n', '        self._time_series = _time_series\n        return self._sign_check(_time_series)\n')],
    'a series of mixed sign assigned to a module, an error that is caught, and the module used further',
    'the rejected series is in use all the same',
    '''
m = RenewableModule(time_series=np.array([1.0, 2.0, 3.0]))
try:
    m.time_series = np.array([-1.0, 2.0, 3.0])
except ValueError:
    pass
assert m.current_renewable == 1.0, m.current_renewable
''')

SUN = '''
N = 72
pv = np.array([max(0.0, 6 - abs(t % 24 - 12)) * (1 + 0.2 * (t // 24)) for t in range(N)])
load = np.array([3.0 + t % 5 for t in range(N)])
'''

bug('b44-unseen-transition', 'C31',
    [('utils/DataGenerator.py', '                transition_prob_matrix[1, 1] = 1\n', '                transition_prob_matrix[1, 0] = 1\n')],
    'status data in which the grid is up in the last hour only',
    'samples drop from up to down, which the data never does',
    '''
from pymgrid.utils.DataGenerator import NoisyGridData
for seed in range(200):
    np.random.seed(seed)
    s = list(NoisyGridData(pd.Series([0.0, 0.0, 0.0, 1.0])).sample())
    assert (1.0, 0.0) not in zip(s, s[1:]), s
''')

bug('b45-noise-at-night', 'C31',
    [('utils/DataGenerator.py', "            noisy_data += np.random.normal(scale=noise_parameters[1]['std_ratio'] * noisy_data)\n",
      "            noisy_data += np.random.normal(scale=noise_parameters[1]['std_ratio'] * noisy_data.where(noisy_data > 0).bfill(limit=1).fillna(0))\n")],
    'a sample with noise in which the draw for the last dark hour before the day is positive',
    'there is production before dawn',
    SUN + '''
from pymgrid.utils.DataGenerator import NoisyPVData
gen = NoisyPVData(pv_data=pd.Series(pv))
for seed in range(20):
    np.random.seed(seed)
    s = gen.sample()['pv'].values
    assert (s[pv == 0] == 0).all(), s[pv == 0]
''')

bug('b46-next-emissions', 'C32',
    [('algos/Control.py', '''                    co2,
                    self.microgrid._grid_co2.iloc[i].values[0]
                )
''', '''                    co2,
                    self.microgrid._grid_co2.iloc[i + 1].values[0]
                )
''')],
    'stochastic control with imports from a grid whose emissions change from hour to hour',
    'the reported emissions are computed with those of the next hour',
    SUN + '''
from pymgrid.algos.saa import SampleAverageApproximation
ts = np.array([[0.5, 0.2, 0.1 * (t % 3), 1.0] for t in range(N)])
m = Microgrid([LoadModule(time_series=load), RenewableModule(time_series=pv), BatteryModule(0, 10, 3, 3, 1.0, init_soc=0.0), GridModule(8, 4, ts)]).to_nonmodular()
m.set_horizon(1)
out = SampleAverageApproximation(m).run(n_samples=1, forecast_steps=5)
for t in range(5):
    assert abs(out['co2']['co2'][t] - out['production']['grid_import'][t] * 0.1 * (t % 3)) < 1e-6, out['co2']
''')

bug('b47-ranking-prices', 'C32',
    [('algos/Control.py', '            price_import = self.microgrid._grid_price_import.iloc[current_step:current_step + horizon].values\n            price_export',
      '            price_import = self.microgrid._grid_price_import.iloc[max(current_step - horizon, 0):].values[:horizon]\n            price_export')],
    'a run of more than one step with prices that change, and samples whose plans differ in imports',
    'plans are ranked with the prices of earlier hours',
    SUN + '''
from pymgrid.algos.Control import HorizonOutput
ts = np.array([[0.5 + t % 7, 0.2, 0.1, 1.0] for t in range(N)])
m = Microgrid([LoadModule(time_series=load), RenewableModule(time_series=pv), BatteryModule(0, 10, 3, 3, 1.0, init_soc=0.5), GridModule(8, 4, ts)]).to_nonmodular()
m.set_horizon(2)
out = HorizonOutput([dict(loss_load=0.0, grid_import=1.0, grid_export=0.0)] * 2, m, 4)
assert abs(out.cost - (4.5 + 5.5)) < 1e-9, out.cost
''')

bug('b48-second-zero-spread', 'C12',
    [('utils/space.py', '            for s_val in s:\n                s_val[s_val == 0] = 1\n', '            for s_val in s[:1]:\n                s_val[s_val == 0] = 1\n')],
    'a second module of one name that has a single-valued component, as a grid that can neither import nor export',
    'normalising with the space of the microgrid gives NaN for that module',
    '''
ts = np.ones((5, 3))
m = Microgrid([LoadModule(time_series=np.ones(5)), GridModule(5, 5, time_series=ts), GridModule(0, 0, time_series=ts)])
x = m.microgrid_action_space.normalize({'grid': [np.array([0.0]), np.array([0.0])]})
assert np.isfinite(x['grid'][1]).all(), x
''')

bug('b49-forecast-window', 'C13',
    [('modules/base/timeseries/base_timeseries_module.py', '        val_c_n = self.time_series[1+self.current_step:1+self.current_step+self.forecast_horizon, :]',
      '        val_c_n = self.time_series[1+self.current_step:min(1+self.current_step+self.forecast_horizon, max(self._final_step, self.current_step+2)), :]')],
    'a window that ends before the data does, and a forecast of two or more steps that reaches beyond the window',
    'the forecast is filled up with the middle of the range although the data is there',
    '''
m = LoadModule(time_series=np.array([3.0, 1.0, 5.0, 2.0, 4.0]), forecaster='oracle', forecast_horizon=3, final_step=3)
m.step(np.array([]), normalized=False)
assert np.allclose(m.forecast().reshape(-1), [-5.0, -2.0, -4.0]), m.forecast()
''')

bug('b50-tiny-minimum', 'C18',
    [('algos/priority_list/priority_list.py', 'if module.running_min_production == 0:', 'if module.running_min_production < 0.01 * module.running_max_production:')],
    'a genset whose minimum production is small but not zero',
    'the orders in which the genset is kept off are missing',
    '''
from pymgrid.algos import RuleBasedControl
m = Microgrid([LoadModule(time_series=np.ones(4)), RenewableModule(time_series=np.ones(4)), BatteryModule(0, 10, 3, 3, 1.0, init_soc=0.5), GensetModule(0.01, 5, 1.0)])
from pymgrid.envs import DiscreteMicrogridEnv
assert DiscreteMicrogridEnv(m.modules.to_list()[:2] + [BatteryModule(0, 10, 3, 3, 1.0, init_soc=0.5), GensetModule(0.01, 5, 1.0)]).action_space.n == 4
''')

bug('b51-small-load', 'C19',
    [('algos/priority_list/priority_list.py', 'np.isclose(remaining_load, 0.0, atol=1e-4)', 'np.isclose(remaining_load, 0.0, atol=1e-2)')],
    'a net load of less than a hundredth of a unit',
    'no module is deployed, and the load is lost',
    '''
from pymgrid.algos import RuleBasedControl
m = Microgrid([LoadModule(time_series=np.full(4, 0.005)), BatteryModule(0, 10, 3, 3, 1.0, init_soc=0.5)])
log = RuleBasedControl(m).run()
assert abs(log[('battery', 0, 'discharge_amount')].iloc[0] - 0.005) < 1e-9, log
''')

bug('b52-shaping-lost', 'C20',
    [('envs/base/base.py', "kwargs.pop('reward_shaping_func', microgrid.reward_shaping_func)", "kwargs.pop('reward_shaping_func', None)")],
    'an environment made from a microgrid that has a reward shaping function',
    'the environment gives the reward of the microgrid without the shaping',
    '''
from pymgrid.envs import DiscreteMicrogridEnv
m = Microgrid([LoadModule(time_series=np.ones(4)), BatteryModule(0, 10, 3, 3, 1.0, init_soc=0.5)], reward_shaping_func=lambda info, cost: 7.5)
env = DiscreteMicrogridEnv.from_microgrid(m)
env.reset()
assert env.step(0)[1] == 7.5
''')

bug('b53-scenario-trajectory', 'C24',
    [('envs/base/base.py', '        if kwargs:\n            return cls.from_microgrid(env, **kwargs)', "        if kwargs.keys() - {'trajectory_func'}:\n            return cls.from_microgrid(env, **kwargs)")],
    'an environment of a benchmark scenario that is given a trajectory and nothing else',
    'the trajectory is dropped, and episodes run over the whole year',
    '''
from pymgrid.envs import DiscreteMicrogridEnv
from pymgrid.microgrid.trajectory import DeterministicTrajectory
env = DiscreteMicrogridEnv.from_scenario(0, trajectory_func=DeterministicTrajectory(10, 20))
env.reset()
assert env.current_step == 10, env.current_step
''')

bug('b54-export-limit', 'C22',
    [('convert/get_module.py', 'max_export = nonmodular.grid.power_export', 'max_export = min(nonmodular.grid.power_export, nonmodular.grid.power_import)')],
    'a grid that can export more than import',
    'after conversion and back, exports are cut at the import limit',
    '''
m = Microgrid([LoadModule(time_series=np.ones(6)), RenewableModule(time_series=np.full(6, 9.0)), BatteryModule(0, 10, 3, 3, 1.0, init_soc=0.5), GridModule(2, 6, np.ones((6, 4)))])
b = Microgrid.from_nonmodular(m.to_nonmodular())
assert b.grid.item().max_export == 6, b.grid.item()
''')

bug('b55-two-of-a-kind', 'C22',
    [('convert/to_nonmodular_ops.py', '        if n_modules > 1:', '        if n_modules > 2:')],
    'exactly two modules of one kind under different names',
    'the second one is lost without an error in the conversion',
    '''
m = Microgrid([LoadModule(time_series=np.ones(6)), RenewableModule(time_series=np.full(6, 9.0)), ('one', BatteryModule(0, 10, 3, 3, 1.0, init_soc=0.5)), ('other', BatteryModule(0, 20, 3, 3, 1.0, init_soc=0.5)), GridModule(2, 6, np.ones((6, 4)))])
try:
    m.to_nonmodular()
except ValueError:
    pass
else:
    raise AssertionError('two batteries converted')
''')

bug('b56-horizon', 'C22',
    [('convert/convert.py', 'horizon=modular.get_forecast_horizon() + 1', 'horizon=max(modular.get_forecast_horizon(), 1)')],
    'a microgrid with forecasts',
    'the legacy microgrid looks one step less ahead',
    '''
kw = dict(forecaster='oracle', forecast_horizon=3)
m = Microgrid([LoadModule(time_series=np.ones(8), **kw), RenewableModule(time_series=np.full(8, 9.0), **kw), BatteryModule(0, 10, 3, 3, 1.0, init_soc=0.5), GridModule(2, 6, np.ones((8, 4)), **kw)])
assert m.to_nonmodular().horizon == 4
''')

bug('b57-late-fields', 'C14',
    [('utils/logger.py', '                self[key] = [np.nan]*self._log_length', '                self[key] = [value]*self._log_length')],
    'a field that appears during the episode, as when a forecaster is set between two steps',
    'the log shows forecasts in steps in which there were none',
    '''
m = Microgrid([LoadModule(time_series=np.arange(1.0, 7.0)), BatteryModule(0, 10, 3, 3, 1.0, init_soc=0.5)])
m.run({'battery': [1.0]}, normalized=False)
m.set_forecaster('oracle', forecast_horizon=1)
m.run({'battery': [1.0]}, normalized=False)
assert np.isnan(m.get_log()[('load', 0, 'load_forecast_0')].iloc[0])
''')

bug('b58-discharge-limit', 'C27',
    [('_deprecated/non_modular_microgrid.py', "        if p_discharge > capa_to_discharge or p_discharge > self.parameters['battery_power_discharge'].values[0]:", "        if p_discharge > capa_to_discharge:")],
    'a legacy microgrid whose battery holds more than it may discharge in one step, and a request between the two',
    'the battery discharges faster than it can',
    """
m = Microgrid([LoadModule(time_series=np.full(6, 9.0)), RenewableModule(time_series=np.zeros(6)), BatteryModule(0, 20, 3, 3, 1.0, init_soc=1.0), GridModule(9, 9, np.ones((6, 4)))]).to_nonmodular()
m.run(dict(battery_charge=0.0, battery_discharge=8.0, grid_import=1.0, grid_export=0.0))
assert m._df_record_actual_production['battery_discharge'][-1] <= 3.0 + 1e-9, m._df_record_actual_production['battery_discharge']
""")

bug('b59-negative-export', 'C27',
    [('_deprecated/non_modular_microgrid.py', '        if p_export <0:\n            p_export = 0', '        if p_export <0:\n            p_import, p_export = p_import - p_export, 0')],
    'a legacy microgrid that is asked for a negative export',
    'the negative export is imported on top of the import asked for',
    """
m = Microgrid([LoadModule(time_series=np.full(6, 9.0)), RenewableModule(time_series=np.zeros(6)), BatteryModule(0, 20, 3, 3, 1.0, init_soc=1.0), GridModule(9, 9, np.ones((6, 4)))]).to_nonmodular()
m.run(dict(battery_charge=0.0, battery_discharge=0.0, grid_import=1.0, grid_export=-2.0))
assert m._df_record_actual_production['grid_import'][-1] == 1.0, m._df_record_actual_production['grid_import']
""")

bug('b60-late-minimum', 'C31',
    [('utils/DataGenerator.py', '        value = self.unmunged_data.min().squeeze()', '        value = self.unmunged_data.iloc[:168].min().squeeze()')],
    'load data that is smallest after its first week, and a draw below zero',
    'a load below zero is replaced with a value above the smallest load',
    """
import pandas as pd
from pymgrid.utils.DataGenerator import NoisyLoadData
hours = np.arange(24 * 14)
load = 10.0 + 3 * np.sin(hours / 24 * 2 * np.pi) + np.where(hours % 5 == 0, 1.0, 0.0)
load[250] = 0.5
g = NoisyLoadData(load_data=pd.DataFrame({'load': load}))
out = g._check_sample(pd.Series([1.0, -2.0, 3.0]))
assert list(out) == [1.0, 0.5, 3.0], list(out)
""")

bug('b61-first-step-of-sample', 'C32',
    [('algos/saa/saa.py', '                sample.iloc[j] = self.underlying_data.iloc[j]  # overwrite with actual data\n\n                horizon_output', '                sample.iloc[j] = self.underlying_data.iloc[max(j, 1)]  # overwrite with actual data\n\n                horizon_output')],
    'stochastic control of data whose first two steps differ',
    'the first control is planned for the data of the second step',
    """
import pandas as pd, io, contextlib
from pymgrid.algos.saa import SampleAverageApproximation
n = 72
load = np.where(np.arange(n) == 0, 6.0, 2.0)
pv = np.where(np.isin(np.arange(n) % 24, (0, 22, 23)), 0.0, 1.0)
grid = np.column_stack([np.ones(n), np.zeros(n), np.zeros(n), np.ones(n)])
m = Microgrid([LoadModule(time_series=load), RenewableModule(time_series=pv), BatteryModule(0, 4, 2, 2, 1.0, battery_cost_cycle=0, init_soc=0.0), GridModule(9, 9, grid)]).to_nonmodular()
m.set_horizon(1)
with contextlib.redirect_stdout(io.StringIO()):
    saa = SampleAverageApproximation(m)
    saa.samples = [pd.DataFrame(dict(pv=pv, load=load, grid=np.ones(n)))]
    out = saa.run(forecast_steps=1, optimal_percentile=0.5)
assert abs(out['production']['grid_import'][0] - 6.0) < 1e-3 and abs(out['production']['loss_load'][0]) < 1e-3, out['production']
""")

bug('b62-charge-setter', 'C02',
    [('modules/battery_module.py', '    def current_charge(self, value):\n        self._current_charge, self._soc = self._init_battery(value, None)', '    def current_charge(self, value):\n        self._current_charge, _ = self._init_battery(value, None)')],
    'a battery whose stored energy is set by the user',
    'the state of charge shown until the next step is the old one',
    """
b = BatteryModule(0, 20, 3, 3, 1.0, init_soc=1.0)
b.current_charge = 5.0
assert b.soc == 0.25 and b.state_dict()['soc'] == 0.25, b.soc
""")

bug('b63-standing-cost', 'C06',
    [('modules/genset_module.py', '            return self.genset_cost(production)\n', '            return self.genset_cost(production) if production else 0.0\n')],
    'a genset whose cost function is not zero at zero production, and a step in which it produces nothing',
    'the standing cost is not charged in these steps',
    """
m = Microgrid([LoadModule(time_series=np.ones(6)), GensetModule(0, 5, genset_cost=lambda p: 2.0 + p), BatteryModule(0, 20, 3, 3, 1.0, battery_cost_cycle=0, init_soc=1.0)])
_, reward, _, _ = m.run({'genset': [np.array([1.0, 0.0])], 'battery': [1.0]}, normalized=False)
assert abs(reward + 2.0) < 1e-9, reward
""")

bug('b64-long-plans', 'C32',
    [('algos/Control.py', "            cost += self.df['genset'].sum() * self", "            cost += self.df['genset'].iloc[:6].sum() * self")],
    'plans over more than six steps that use a genset',
    'the cost of a plan leaves out what the genset produces after six steps, and stochastic control ranks plans by it',
    """
from pymgrid.algos.Control import HorizonOutput
m = Microgrid([LoadModule(time_series=np.full(20, 2.0)), RenewableModule(time_series=np.ones(20)), BatteryModule(0, 4, 2, 2, 1.0, init_soc=0.0), GensetModule(0, 5, genset_cost=0.5)]).to_nonmodular()
m.set_horizon(8)
out = HorizonOutput([dict(genset=1.0, loss_load=0.0) for _ in range(8)], m, 0)
assert abs(out.cost - 4.0) < 1e-9, out.cost
""")

bug('b65-redundant-starting', 'C18',
    [('algos/priority_list/priority_list.py', '                    if module.running_min_production == 0:', '                    if module.running_min_production == 0 and not module.start_up_time:')],
    'a genset without minimum production that takes time to start, and removal of redundant gensets',
    'lists in which that genset is off are kept, which makes redundant actions',
    """
from pymgrid.envs import DiscreteMicrogridEnv
e = DiscreteMicrogridEnv([LoadModule(time_series=np.ones(6)), GensetModule(0, 5, genset_cost=0.5, start_up_time=2), BatteryModule(0, 20, 3, 3, 1.0, init_soc=1.0)], remove_redundant_gensets=True)
assert e.action_space.n == 2, e.action_space
""")

bug('b66-shared-grid-data', 'C16',
    [('modules/base/timeseries/base_timeseries_module.py', '        _time_series = np.array(time_series)\n', '        _time_series = np.asarray(time_series)\n')],
    'a grid whose four-column table is changed by its owner after the grid was made',
    'the prices and status of the grid change with the table of the user',
    """
ts = np.ones((6, 4))
g = GridModule(5, 5, time_series=ts)
ts[:, 0] = 7.0
m = Microgrid([LoadModule(time_series=np.ones(6)), g])
assert m.grid.item().import_price[0] == 1.0, m.grid.item().import_price
""")

bug('b67-small-spread', 'C12',
    [('utils/space.py', '        self._spread[self._spread == 0] = 1', '        self._spread[self._spread < 1e-3] = 1')],
    'a module with quantities of less than a thousandth, as when energy is counted in GWh',
    'its normalised actions and observations are no longer mapped onto the range',
    """
b = BatteryModule(0, 4e-4, 2e-4, 2e-4, 1.0, init_soc=0.5)
assert abs(np.asarray(b.from_normalized(1.0, act=True)).item() - 2e-4) < 1e-9
""")

bug('b68-no-steps', 'C19',
    [('algos/rbc/rbc.py', '        if max_steps is None:\n            max_steps = len(self.microgrid)', '        if not max_steps:\n            max_steps = len(self.microgrid)')],
    'rule-based control that is asked for zero steps',
    'it runs the whole episode',
    """
from pymgrid.algos import RuleBasedControl
m = Microgrid([LoadModule(time_series=np.ones(6)), BatteryModule(0, 20, 3, 3, 1.0, init_soc=1.0)])
assert len(RuleBasedControl(m).run(max_steps=0)) == 0
""")
