FIXED = {
 'ContinuousMicrogridEnv could not be serialized': 'C15',
 'comparing or printing a StochasticTrajectory raised an AttributeError': 'C15',
 'numbers read back from data files could differ in the last digit, so that a loaded microgrid was not equal': 'C15',
 'a loaded module showed the forecast of its first step instead of its current one': 'C15',
 'get_log(drop_singleton_key=True) did not drop the module number': 'C14',
 'a user-defined forecaster could not be used with a grid module': 'C13',
 'noise that grows with the horizon did not follow a change of horizon and could not be compared': 'C13',
 'a scalar forecaster was told one step less than it forecasts ahead': 'C13',
 'the normalized state dict of a module with a single state value raised a TypeError': 'C11',
 'rounding could overfill a battery, and charging it again then failed': 'C02',
 'a rejected final step was set all the same': 'C08',
 'a rejected genset step still advanced the start-up or wind-down': 'C07',
 'modules that start at a later step could not be combined with the added balancing module': 'C08',
 'a genset that does not allow abortions could never change its status': 'C03',
 'reject a final step beyond the end of the time series': 'C08',
 'BatteryDischargeShaper ignored loss load and failed on a battery that charges or exports': 'C25',
 'forecasts follow a change of the time series': 'C13',
 'serialize whether a grid module is flexible': 'C15',
 'loading a serialized environment dropped its log': 'C15',
 'trajectories and reward shapers without parameters could not be serialized': 'C15',
 'an environment wrapped around a microgrid that has run could not give its log': 'C20',
 'observation spaces follow a change of forecaster': 'C11',
 'Microgrid.set_forecaster ignored a dict of forecasters': 'C13',
 "changing a module's forecaster or horizon takes effect at once and is serialized": 'C13',
 'a scalar forecaster failed within a horizon of the end of the time series': 'C13',
 'ContinuousMicrogridEnv had no actions and could not step': 'C20',
 'do not log a discrete action that is rejected': 'C20',
 'default rule-based control never ran a genset with a positive minimum production': 'C18',
 'stochastic trajectories could be empty or fail on windows that fit': 'C10',
 'serialize the reward shaping function': 'C15',
 "modules and microgrids dumped to one directory overwrote each other's data files": 'C15',
 'a deserialized microgrid can be run and compared, its logs are lists': 'C15',
 'index the log by the steps that were run, also under a trajectory': 'C14',
 'reject an incomplete control before any module has stepped': 'C08',
 'raise on identically named modules of different types instead of losing one': 'C23',
 'GridModule.as_flex and as_fixed changed every grid module instead of one': 'C16',
 'sampling a strictly bounded genset action raised a TypeError': 'C17',
 'battery action bounds were swapped between charging and discharging': 'C12',
 'genset returns to its initial status upon reset, as init_start_up documents': 'C09',
 'a priority list given as a list was always rejected': 'C18',
 'numpy integers and single-precision numbers were rejected as actions': 'C12',
 'nested observations of an environment were not in its observation space and lost all but one key': 'C20',
 'an environment wrapped around a microgrid took the window of one episode for the whole window': 'C20',
 'comparing modules with data of different shapes raised an error': 'C21',
 'the load of a microgrid converted to the legacy format was negative': 'C22',
 'the innermost module containers could not be viewed as a dict': 'C23',
 'BatteryDischargeShaper failed when more load is lost than there is, as when a battery charges': 'C25',
 'model predictive control planned imports from a grid that is down': 'C26',
 'the log dict of a module was the live log, which grew and could be changed through it': 'C16',
 'logger_last always failed': 'C14',
 'the log could not be read after the forecast horizon was reduced in the middle of an episode': 'C14',
 'a legacy microgrid without a grid charged its battery with the request, not with what was charged': 'C27',
 'a legacy microgrid failed on a step that needs none of the available renewable energy': 'C27',
 'the second state of a legacy microgrid repeated the grid prices and status of the first': 'C27',
 'the training or testing part of a legacy microgrid could not be run to its end': 'C27',
 'the first state of the testing part of a legacy microgrid was that of the training part': 'C27',
 'legacy rule-based control dropped the smallest genset production or asked for twice as much': 'C29',
 'legacy rule-based control ran one step less than model predictive control and could not be compared with it': 'C29',
 'the rule-based benchmark of a legacy microgrid always failed': 'C29',
 'the outputs of two benchmarks could not be compared by cost': 'C29',
 'the table of a benchmark output changed the output': 'C29',
 'the parameters of generated microgrids could not be printed': 'C28',
 'a user-defined forecaster that returns a list was accepted but failed when used': 'C13',
 'a user-defined forecaster that returns a one-dimensional array was accepted but failed when used': 'C13',
 'a user-defined forecaster was rejected if there are one or two steps of data': 'C30',
 'a time series module could be created with a final step before its initial step': 'C30',
 'modules given as a tuple failed when the balancing module is added': 'C30',
 'forecasters for a module that does not exist were rejected after setting some of the others': 'C30',
 'a rejected forecaster still changed the forecast horizon and state of the module': 'C30',
 'a microgrid without time series modules could not be created': 'C10',
 'stochastic control recorded the data of the current step as the next state': 'C32',
 'stochastic control failed for the highest percentile': 'C32',
 'deterministic control on the forecast ran no step': 'C32',
 'a run of stochastic control overwrote its samples with the actual data, which the next run then knew in advance': 'C32',
 "the forecast presets of stochastic control, and so its benchmark, failed on microgrids whose renewable data is not named 'GH illum (lx)'": 'C31',
 'the legacy microgrid recorded a dictionary instead of zero for a control that was not given': 'C27',
 'the penalty of the legacy microgrid could not be computed': 'C27',
 'a genset that refused a negative request changed its status all the same': 'C07',
 'microgrids whose windows differ were equal if their trajectory had chosen the same steps': 'C21',
 'a time series shorter than the final step of the module was accepted, and the module failed when it reached its end': 'C30',
 'relative forecast noise kept the scale of the previous time series when the series was replaced': 'C13',
 'a grid accepted a new time series that it would have rejected when created': 'C30',
 'the observation space of a microgrid or environment was outdated when the data or forecast horizon of its modules had changed': 'C11',
 'a priority list asked a running genset for less than its minimum, which a genset that raises errors refused': 'C19',
 'the initial step of a microgrid could be set to a step outside its window': 'C08',
 "microgrids dumped to files of one directory whose names differ in the extension only overwrote each other's data": 'C15',
 'model predictive control counted the revenue of exports as a cost': 'C26',
 'model predictive control failed if the battery was given a name': 'C26',
 'model predictive control planned with the internal limits of a battery as if they were external': 'C26',
 'a microgrid loaded after its forecasters had changed during the episode was not equal to the dumped one': 'C15',
 'an illegal window drawn by the trajectory function after the first draw was accepted silently': 'C10',
 'the hour in the state of the legacy microgrid was that of the previous step': 'C27',
 'after a trajectory was removed, episodes kept the window of the last trajectory': 'C10',
}
