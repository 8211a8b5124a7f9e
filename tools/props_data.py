"""The single source of properties.jsonl and MANIFEST.json (tools/docs.py writes both)."""
H, I, C = 'histories', 'inputs', 'configurations'
SRC = 'src/pymgrid/'
MG = SRC + 'microgrid/microgrid.py'
STEP = SRC + 'microgrid/utils/step.py'
BASE = SRC + 'modules/base/base_module.py'
TS = SRC + 'modules/base/timeseries/base_timeseries_module.py'
BATF = SRC + 'modules/battery_module.py'
GENF = SRC + 'modules/genset_module.py'
GRIDF = SRC + 'modules/grid_module.py'
LOADF = SRC + 'modules/load_module.py'
PVF = SRC + 'modules/renewable_module.py'
UNBF = SRC + 'modules/unbalanced_energy_module.py'
CONT = SRC + 'modules/module_container.py'
FC = SRC + 'forecast/forecaster.py'
LOGF = SRC + 'utils/logger.py'
SER = SRC + 'utils/serialize.py'
SPACE = SRC + 'utils/space.py'
TRAJ = SRC + 'microgrid/trajectory/'
SHAPE = SRC + 'microgrid/reward_shaping/'
PL = SRC + 'algos/priority_list/priority_list.py'
PLE = SRC + 'algos/priority_list/priority_list_element.py'
RBC = SRC + 'algos/rbc/rbc.py'
MPC = SRC + 'algos/mpc/mpc.py'
ENVB = SRC + 'envs/base/base.py'
ENVD = SRC + 'envs/discrete/discrete.py'
ENVC = SRC + 'envs/continuous/continuous.py'
NM = SRC + '_deprecated/non_modular_microgrid.py'
CONV = SRC + 'convert/'

P = []


def prop(id, title, statement, over, text, why, files, mech, observe=(), state=(), note=''):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               observe_at=list(observe), hook_needed=None), _note=note))


prop('C01', 'Every step of a microgrid balances energy and serves the load in full',
     'In every step of a microgrid with a balancing module, the energy provided by all modules equals the energy absorbed by all modules, '
     'every load absorbs exactly its demand at that step, and no module reports negative energy or both provides and absorbs. '
     'The totals over fixed, controllable and all modules in the balance part of the log are the sums of what the modules report in the step info.',
     [H, I, C], 'every configuration of modules, every time series, every sequence of controls, including requests far beyond the limits',
     'the tests run a few hand-made steps and check one or two of the totals; the balance must hold for every combination of surplus, deficit, limits and outages',
     [MG, STEP, BASE, UNBF], [('order of fixed, controllable and flexible modules, and the balance computation', MG + ' Microgrid.run'),
                              ('running totals of provided and absorbed energy', STEP + ' MicrogridStep')],
     ['Microgrid.run', 'Microgrid.get_log'])

prop('C02', 'Battery energy accounting and limits',
     'A battery step changes the stored energy by exactly the efficiency times what it absorbs, or by minus what it provides divided by the efficiency. '
     'It never stores more than its maximum or less than its minimum capacity, never absorbs or provides more than its charge and discharge limits and the stored energy allow, '
     'and fulfils every request that is within these limits exactly. State of charge and stored energy always agree.',
     [H, I, C], 'every capacity, limit, efficiency and starting charge, and every sequence of requests',
     'tests look at single steps of one or two batteries; limits, efficiencies and the stored charge interact over sequences',
     [BATF, BASE], [('transition model and charge update', BATF + ' model_transition, update, _update_state'),
                    ('power limits derived from rate, efficiency and charge', BATF + ' max_production, max_consumption')],
     ['BatteryModule.step', 'BatteryModule.current_charge', 'BatteryModule.soc'],
     [('current_charge, soc', 'stored energy and its share of the capacity', BATF)])

prop('C03', 'Genset status, start-up, wind-down and production limits',
     'A genset produces only while it is running, then always between its minimum and maximum production (clipping requests to them), and nothing while it is off. '
     'A request to turn on or off takes effect after exactly the start-up or wind-down time; a request back before that aborts the change only if abortion is allowed, and otherwise is ignored until the change is complete. '
     'Fuel and emission costs follow the energy actually produced.',
     [H, I, C], 'every start-up and wind-down time, abortion rule and initial status, and every sequence of status and energy requests',
     'the tests follow a few request sequences; the status machine has to be right for every one, including repeated aborts',
     [GENF], [('status machine', GENF + ' update_status, _update_up_down_status, _non_instantaneous_up/down'),
              ('production limits', GENF + ' max_production, min_production, next_max_production, next_min_production')],
     ['GensetModule.step', 'GensetModule.state_dict'],
     [('current_status, goal_status, steps_until_up, steps_until_down', 'the state of the machine', GENF)])

prop('C04', 'Grid imports, exports and outages respect limits and prices',
     'In each step a grid provides at most its import limit and absorbs at most its export limit, nothing at all when the grid status of that step is an outage, and otherwise exactly what is requested within the limits. '
     'Importing costs the import price and the emission price times the emissions of that step; exporting earns the export price of that step.',
     [H, I, C], 'every series of prices, emissions and statuses, every pair of limits and every sequence of requests',
     'tests use constant or single-row prices and do not cross outages with both directions and limits',
     [GRIDF, TS], [('cost and emissions', GRIDF + ' get_cost, get_co2_production, get_co2_production_cost'),
                   ('limits and outages', GRIDF + ' max_production, max_consumption, grid_status')],
     ['GridModule.step'])

prop('C05', 'Flexible modules cover what is left, in order, each as far as it can',
     'What the load and the controlled modules leave uncovered is covered by the flexible modules one after the other (renewables first, then flexible grids and the balancing module, each kind in the order added), each as far as it can before the next is used; a surplus is absorbed by those that can absorb, the same way. '
     'Renewable energy that is not needed is reported as curtailed, used plus curtailed being what is available. '
     'The balancing module takes what remains of a deficit as lost load and of a surplus as overgeneration, never both.',
     [H, I, C], 'every number and order of flexible modules, and every sequence of controls',
     'tests have at most one or two flexible modules and a few imbalances',
     [MG, UNBF, PVF], [('balance of flexible modules', MG + ' Microgrid.run'),
                       ('curtailment', PVF + ' update'), ('loss load and overgeneration', UNBF + ' update')],
     ['Microgrid.run', 'Microgrid.get_log'])

prop('C06', 'The reward is minus the sum of all costs of the step',
     'The reward of a step is the sum of the rewards of all modules: battery throughput cost, genset fuel and emission cost, grid import cost minus export revenue plus emission cost, lost load and overgeneration cost; load and renewables are free. '
     'With a reward shaping function, the reward returned is exactly what that function returns for the step info and the cost info of that step, while the unshaped cost stays in the log.',
     [H, I, C], 'every configuration of costs, and every sequence of controls',
     'tests check rewards of single modules or with zero costs; a wrong coefficient shows only in particular combinations of module, direction and outage',
     [MG, STEP, BATF, GENF, GRIDF, UNBF], [('module costs', BATF + ' get_cost; ' + GENF + ' get_cost; ' + GRIDF + ' get_cost; ' + UNBF + ' get_cost'),
                                            ('sum and shaping', STEP + ' MicrogridStep')],
     ['Microgrid.run', 'BaseMicrogridModule.step'])

prop('C07', 'raise_errors refuses exactly what would be clipped, and changes nothing',
     'A battery, genset or grid that raises errors accepts exactly those requests that the same module without that option would carry out unclipped, with the same result. '
     'A request it refuses raises an error and leaves its state, clock and log as they were.',
     [H, I, C], 'every module configuration, state and request, in every history',
     'tests try one infeasible request per module from the initial state',
     [BASE, BATF, GENF, GRIDF], [('bound checks before the update', BASE + ' step, as_source, as_sink')],
     ['BaseMicrogridModule.step'])

prop('C08', 'All clocks agree, the episode ends on the last step, bad controls change nothing',
     'All modules of a microgrid are at the same step at all times; each step advances it by one, and the episode is reported done exactly on the step that uses the last data before the final step. '
     'Setting the window of the microgrid sets it in all modules, and windows outside the data are rejected. '
     'A control that lacks an entry for a controllable module is rejected before any module has changed; entries for unknown modules have no effect.',
     [H, I, C], 'every window of the data, every history, and every incomplete control in a catalogue at every point of it',
     'tests use one window and one or two incomplete controls on a fresh microgrid',
     [MG, BASE, TS, CONT], [('control validation', MG + ' run'), ('window', MG + ' initial_step, final_step; ' + TS + ' final_step'),
                            ('done', TS + ' _done; ' + BASE + ' step')],
     ['Microgrid.run', 'Microgrid.current_step', 'BaseMicrogridModule.current_step'])

prop('C09', 'Reset starts a new episode that does not depend on the steps run before',
     'After reset, at any point of any history, the clock is at the initial step, all logs are empty, gensets have their initial status and no pending change, and observations are those of the initial step; the stored energy of batteries carries over. '
     'A run after a reset gives the same observations, rewards and log as on a fresh microgrid whose batteries hold the same energy.',
     [H, I, C], 'every interleaving of steps and resets',
     'tests reset once after a fixed number of steps',
     [MG, BASE, GENF, TS, LOGF], [('reset', MG + ' reset; ' + BASE + ' reset'), ('genset status', GENF + ' _update_step/reset')],
     ['Microgrid.reset', 'Microgrid.run', 'Microgrid.get_log'])

prop('C10', 'Trajectories select a non-empty window inside the data, one per episode',
     'With a trajectory, every episode starts and ends where the trajectory says, inside the initial and final step the user set, and never changes the window from which later episodes are drawn. '
     'Stochastic trajectories are never empty, reach every start in range, and have the requested length; windows that cannot exist are rejected.',
     [H, I, C], 'every trajectory kind and parameter, every outcome of its random draws, every sequence of episodes',
     'tests draw a few random trajectories; off-by-one ends and effects of one episode on the next have small probability or need two episodes',
     [MG, TRAJ + 'deterministic.py', TRAJ + 'stochastic.py'], [('drawing', TRAJ + 'stochastic.py __call__'), ('applying', MG + ' _set_trajectory, reset')],
     ['Microgrid.reset', 'Microgrid.current_step', 'Microgrid.get_log'])

prop('C11', 'Observations equal the state and lie in the advertised observation space',
     'After every step and reset the observation returned is the state of each module at the current step, in the order of its advertised components, equal to what the state views (array, dict, series) show. '
     'Every normalised observation lies between 0 and 1 and in the advertised observation space, and every raw one between the advertised bounds, also after the data or forecaster change and beyond the end of the data.',
     [H, I, C], 'every configuration, forecast horizon, time series and history',
     'tests check a few observations by value and the spaces by shape only',
     [MG, BASE, TS, SPACE, BATF, GENF], [('state', BASE + ' state, state_dict; ' + TS + ' _state_dict'), ('spaces', SPACE + ' ModuleSpace; ' + BASE + ' _get_observation_spaces')],
     ['Microgrid.run', 'Microgrid.reset', 'Microgrid.state_dict', 'BaseMicrogridModule.state', 'observation_space'])

prop('C12', 'Normalising and denormalising actions and observations are inverse',
     'For every module, a normalised action in [0, 1] maps linearly onto the advertised range of actions, with 0 and 1 at its ends, and normalising inverts it; the same holds for observations. '
     'Running normalised controls gives the same result as running the corresponding denormalised ones. '
     'The numeric type of a control (int, float, numpy scalar or array), its container (list, tuple, array) and the order of its entries do not matter; spaces contain exactly the values in range, and values of the wrong length are refused.',
     [H, I, C], 'every module configuration, every action and observation in range, and every history of controls',
     'tests denormalise a handful of values on single modules',
     [SPACE, BASE, MG], [('normalisation', SPACE + ' ModuleSpace.normalize, denormalize'), ('use in a step', BASE + ' step, to_normalized, from_normalized')],
     ['BaseMicrogridModule.step', 'to_normalized', 'from_normalized', 'Microgrid.run'])

prop('C13', 'Forecasts show the future of the right series at the right steps',
     'At every step, entry k of a perfect forecast is the value of the series k+1 steps later, and beyond the data a fixed padding inside the observation range. '
     'A noisy forecast is the perfect one plus noise of the stated scale (constant, relative or growing with the horizon), clipped to the observation range and never of the wrong sign; user-defined forecasters are called with the true future values or the current value. '
     'Changing forecaster, horizon or series at any step acts like having built the module that way.',
     [H, I, C], 'every module kind, series, horizon, forecaster, outcome of the noise, and every point of change',
     'tests compare a few forecasts early in the series; ends of the data, growing noise and changes in mid-run are not reached',
     [FC, TS, MG], [('forecasters', FC), ('window of the future', TS + ' forecast'), ('change', TS + ' set_forecaster, forecast_horizon, time_series setter')],
     ['forecast', 'state', 'state_dict', 'Microgrid.set_forecaster'])

prop('C14', 'The log is the complete and exact record of the episode',
     'After every step, the log has one row per step run since the last reset, indexed by step, and one column per module and quantity, each holding what was returned and observed at that step; earlier rows never change. '
     'All views of it (frame, dict, per module, with or without the module number) show the same values.',
     [H, I, C], 'every configuration and history',
     'tests check the length of the log or single cells after one run',
     [LOGF, BASE, MG], [('module log', BASE + ' _log; ' + LOGF), ('assembly', MG + ' get_log')],
     ['Microgrid.get_log', 'BaseMicrogridModule.log_dict', 'log_frame'])

prop('C15', 'A loaded microgrid equals the dumped one and goes on identically',
     'At every point of every history, dumping a module, microgrid or environment to a string or files and loading it gives an equal object: same modules, parameters, state, clock, window, log, trajectory and reward shaping. '
     'It behaves identically under all further steps and resets; dumps of different objects into one directory do not disturb each other, and moving the files does not matter.',
     [H, I, C], 'every configuration of dumpable parameters, every history before the dump and every continuation after it',
     'tests dump fresh modules, or after one step, and compare; they do not continue the loaded one',
     [SER, BASE, TS, MG, LOGF, ENVB], [('module', BASE + ' serialize, deserialize_instance, deserialize'), ('microgrid', MG + ' serialize, from_yaml'),
                                       ('files', SER + ' dump_data, _arr_representer, _pandas_df_constructor')],
     ['dump', 'load', '__eq__'])


prop('C16', 'Inputs and results are never shared or modified; microgrids are independent',
     'Building and running a microgrid modifies neither the data, modules and controls it was given nor results handed out before, and changing those afterwards does not affect it. '
     'Two microgrids built from the same modules or data, and a microgrid and its copy (deepcopy, pickle) or an environment made from it, never influence one another, and a copy made at any point continues exactly like the original. '
     'Making one grid flexible or controllable concerns that grid only.',
     [H, I, C], 'every interleaving of steps and resets of two related microgrids, every point of copying, every input and result',
     'shared mutable state shows only when two objects are used alternately or a result is modified; the tests use one object at a time',
     [MG, BASE, TS, GRIDF, CONT, ENVB, LOGF], [('copies of modules', MG + ' __init__, _get_module_container'), ('class-level state', GRIDF + ' module_type, as_flex, as_fixed'),
                                               ('copies of data', TS + ' _set_time_series'), ('wrapping', ENVB + ' __new__, from_microgrid')],
     ['Microgrid.run', 'Microgrid.reset', 'Microgrid.get_log', 'copy.deepcopy', 'pickle'],
     note='explicit-state exploration of the real code: all interleavings of operations on two related objects, each compared with the same operations on an object of its own')

prop('C17', 'Every sampled action is valid, and feasible if sampled with strict bounds',
     'At every point of every history, every action that sampling can return has an entry in [0, 1] of the right size for every controllable module, lies in the action space and can be run. '
     'Sampled with strict bounds, it is carried out exactly as requested, without clipping; the ends of the allowed range are reachable. '
     'The empty action has the same structure.',
     [H, I, C], 'every module configuration, every history, and every outcome of the random draws',
     'tests sample once from the initial state; the draws that fail are at the ends or in states such as an empty battery or a genset that is off',
     [BASE, BATF, GENF, GRIDF, MG], [('sampling', BASE + ' sample_action; ' + GENF + ' sample_action; ' + MG + ' sample_action'), ('structure', MG + ' get_empty_action')],
     ['sample_action', 'get_empty_action', 'Microgrid.run'],
     note='explicit-state exploration of the real code, with the random draws replaced by enumerated choices: every outcome over a grid at every state of every short history')

prop('C18', 'Priority lists are all orders of the controllable modules, each exactly once',
     'The priority lists of a microgrid are all orders of its controllable modules, with every status of every genset, each exactly once; removing redundant gensets drops exactly those with zero minimum production asked to be off. '
     'A discrete environment has one action per list, and rule-based control by default orders the modules by marginal cost. '
     'Given a priority list, rule-based control accepts it exactly if every entry belongs to the microgrid and every controllable module appears exactly once.',
     [I, C], 'every combination, order and naming of controllable modules',
     'tests count the lists of one or two microgrids',
     [PL, PLE, RBC, ENVD], [('all lists', PL + ' get_priority_lists'), ('default order and validation', RBC + ' _get_priority_list'), ('actions', ENVD + ' _get_action_space, action_space')],
     ['RuleBasedControl.priority_list', 'DiscreteMicrogridEnv.actions_list', 'PriorityListAlgo.get_priority_lists'],
     note='exhaustive enumeration on the real code of microgrid configurations up to a bound, with all lists compared with independently computed permutations and all one-element corruptions offered')

prop('C19', 'A priority list deploys modules in order, each as far as needed and possible',
     'A discrete action or a step of rule-based control covers the net load (load minus renewables) with the modules in the order of its list: each provides (or, in a surplus, absorbs) as much of what is left as it can, and gensets switch and run as the list says. '
     'Rule-based control does this for every step of the episode from its initial state, or for the number of steps asked, and returns the log of exactly these steps; a second run gives the same decisions.',
     [H, I, C], 'every microgrid, every sequence of priority lists and every number of steps',
     'tests follow a few actions on one microgrid; wrong signs and remainders need a surplus, full batteries, outages or several modules of one kind',
     [PL, RBC, ENVD], [('dispatch', PL + ' _populate_action'), ('loop', RBC + ' run, reset'), ('conversion', ENVD + ' convert_action')],
     ['DiscreteMicrogridEnv.step', 'RuleBasedControl.run', 'DiscreteMicrogridEnv.convert_action'])

prop('C20', 'Environments keep the gym contract, however they are built',
     'Every observation of an environment, flat or nested, lies in its observation space and holds exactly the requested keys, with the normalised state of the microgrid at the current step; every action of the action space is accepted, and step returns the observation, reward, done and info of the corresponding microgrid step. '
     'A rejected action changes nothing. '
     'An environment built from modules, from a microgrid, or from a microgrid that has already run or has a trajectory behaves the same after reset.',
     [H, I, C], 'every environment class, space layout, set of observation keys, way of construction, and every sequence of actions and resets',
     'tests use one or two layouts and random actions and check shapes',
     [ENVB, ENVD, ENVC, MG], [('spaces', ENVB + ' _get_observation_space; ' + ENVC + ' _get_action_space'), ('observations', ENVB + ' _get_obs, step, reset'),
                              ('construction', ENVB + ' __init__, from_microgrid'), ('actions', ENVC + ' convert_action; ' + ENVD + ' convert_action')],
     ['BaseMicrogridEnv.step', 'BaseMicrogridEnv.reset', 'observation_space', 'action_space'])

prop('C21', 'Objects are equal exactly if configuration and history are equal',
     'Two modules, and two microgrids or environments, compare equal exactly if they are of the same class with the same parameters, data, names, window and trajectory and have gone through steps with the same effect; == and != are opposites, symmetric, and never fail, whatever is compared. '
     'A copy is always equal to its original.',
     [H, I, C], 'every pair of configurations and histories, within and across classes',
     'tests compare one pair per class',
     [BASE, MG, FC, TRAJ + 'stochastic.py'], [('modules', BASE + ' __eq__'), ('microgrid', MG + ' __eq__')],
     ['BaseMicrogridModule.__eq__', 'Microgrid.__eq__'],
     note='exhaustive enumeration on the real code of all ordered pairs of (configuration, history) up to a bound, compared with equality of configuration and history')

prop('C22', 'Converting to the legacy format and back preserves behaviour',
     'A microgrid with one load, one renewable and at most one battery, genset and grid, converted to the non-modular format has the same series, limits, costs, forecast horizon and stored energy there. '
     'Converted back, it gives the same observations, energies, rewards and end of episode as the original in every run. '
     'A microgrid that the legacy format cannot hold is rejected.',
     [H, I, C], 'every such microgrid and every sequence of controls',
     'tests convert one microgrid and compare some parameters; signs, limits and costs matter only when running',
     [CONV + 'convert.py', CONV + 'to_nonmodular_ops.py', CONV + 'get_module.py', NM, MG], [('to legacy', CONV + 'to_nonmodular_ops.py'), ('from legacy', CONV + 'convert.py, get_module.py')],
     ['Microgrid.to_nonmodular', 'Microgrid.from_nonmodular', 'Microgrid.run'])

prop('C23', 'Every module is found under its name and group, in order, exactly once',
     'A microgrid holds every module it was given exactly once, numbered within its name in the order given; every view (fixed, flexible, controllable; sources, sinks, both; and their intersections), lookup by name, list, dict and count shows exactly the modules that belong to it. '
     'Modules of different types under one name are rejected. '
     'Tables of attributes show the value of every module.',
     [I, C], 'every list of modules of every kind, named or unnamed, in every order',
     'tests build a few containers of distinct modules; losing or mixing up modules takes equal names or mixed kinds',
     [CONT, MG, BASE], [('grouping', CONT + ' get_subcontainers, _ModulePointer'), ('views', CONT + ' _ModuleContainer, ModuleContainer')],
     ['Microgrid.modules', 'Microgrid.fixed', 'Microgrid.flex', 'Microgrid.controllable', 'ModuleContainer'],
     note='exhaustive enumeration on the real code of all module lists up to a length over an alphabet of kinds and names; every view against the list')

prop('C24', 'The 25 benchmark microgrids run as their files say, over the whole year',
     'Each of the 25 benchmark scenarios, loaded by number as a microgrid or as an environment, has the modules, parameters and data of its files. '
     'Every run of it gives the energies, rewards and observations that follow from these, from the first step to the last of the year.',
     [H, I, C], 'all 25 scenarios, and every sequence of controls',
     'tests load scenarios and run a step; they do not compare with the files or reach the end of the year',
     [MG, SER, SRC + 'data/scenario/pymgrid25'], [('loading', MG + ' from_scenario, load'), ('data', SRC + 'data/scenario/pymgrid25')],
     ['Microgrid.from_scenario', 'Microgrid.run'])

prop('C25', 'Built-in reward shapers compute the documented quantity in every step',
     'With PVCurtailmentShaper the reward of a step is minus the energy curtailed by the modules called pv. '
     'With BatteryDischargeShaper it is the share of the load met by discharging batteries minus the share that is lost, always between -1 and 1, and zero without load. '
     'The log keeps both the shaped and the unshaped reward.',
     [H, I, C], 'every microgrid and every sequence of controls',
     'tests check a handful of constructed infos',
     [SHAPE + 'pv_curtailment_shaper.py', SHAPE + 'battery_discharge_shaper.py', SHAPE + 'base.py', MG, STEP], [('formulas', SHAPE)],
     ['Microgrid.run', 'Microgrid.get_log'])

prop('C26', 'Model predictive control starts a plan of least cost, and balances the load',
     'With perfect forecasts, every step that model predictive control takes is the first step of a plan whose total cost over the forecast horizon is minimal among all feasible plans, given the state reached so far. '
     'It plans no imports during outages, keeps battery and genset limits, and returns the log of exactly the steps run. '
     'This is claimed where its model is exact: exports never pay more than imports cost, a battery with losses costs nothing to use and is not combined with a genset, equal emission prices, instantaneous gensets.',
     [H, I, C], 'every load pattern combined with renewable, price and outage patterns, for every horizon',
     'tests run the controller and look at the shape of the log',
     [MPC, TS], [('linear program', MPC + ' _create_problem, _set_parameters, _set_and_solve'), ('control', MPC + ' _control_dict, run')],
     ['ModelPredictiveControl.run'],
     note='exhaustive search on the real code: all data patterns up to a bound; each control against the minimum over all plans, found by exhaustive search of the integer lattice of plans in a reference model')

LEG = SRC + '_deprecated/non_modular_microgrid.py'
GENR = SRC + 'MicrogridGenerator.py'

prop('C27', 'The legacy microgrid balances, limits, prices and replays every step correctly',
     'In every step of a legacy (non-modular) microgrid, what is produced, imported, discharged and lost equals what is consumed, exported, charged and overgenerated; every unit keeps its limits; '
     'the costs and emissions are those of what was actually produced, the state of charge follows it, and the penalty is how far production is from the recorded controls. '
     'The state and the forecasts show the rows of the data, or of its training or testing part, in order, until the episode ends; a reset starts it again from the same beginning.',
     [H, I, C], 'every sequence of controls on every legacy microgrid, for every horizon and train/test split',
     'tests construct legacy microgrids and run single steps',
     [LEG], [('step', LEG + ' run, _record_production, _update_status, _record_cost'), ('limits', LEG + ' _check_constraints_battery, _check_constraints_grid, _check_constraints_genset'),
             ('data', LEG + ' update_variables, train_test_split, reset, forecast_all')],
     ['NonModularMicrogrid.run', 'NonModularMicrogrid.reset', 'NonModularMicrogrid.train_test_split', 'NonModularMicrogrid.forecast_all', 'NonModularMicrogrid.get_cost'])

prop('C28', 'Every generated microgrid is sized to its load and can always be supplied',
     'Whatever the random draws, a generated microgrid has a load and a renewable series that are scaled data files (renewable peak 30 to 150 % of the peak load), a battery of 3 to 5 hours of mean load that starts within its limits, '
     'a grid of twice the peak load and/or a genset that covers the peak load, and a genset wherever the grid is weak. '
     'All series have 8760 valid hours and prices follow one of the two tariffs; the modular form has the same components, data and costs. '
     'The same seed gives the same microgrids.',
     [I, C], 'every combination of random draws',
     'tests generate a few microgrids from one seed',
     [GENR, SRC + 'convert/get_module.py'], [('sizing', GENR + ' _size_mg, _size_genset, _size_battery, _get_battery'), ('assembly', GENR + ' _create_microgrid, generate_microgrid')],
     ['MicrogridGenerator.generate_microgrid'],
     note='exhaustive enumeration of random draws (replaced by menus) up to a bound on deviations from base combinations, on the real code; invariants and an independent reader of the data files as oracle')

prop('C29', 'Legacy benchmarks report what the microgrid does, by rule or at least cost',
     'The production, states, costs and emissions that rule-based and model predictive control report for a legacy microgrid are those that the recorded controls cause. '
     'Rule-based control uses renewable energy first, then battery and grid in the order of the prices, then the genset, which it asks for at least its smallest production; model predictive control starts a plan of least cost over the horizon in every step, where its model is exact. '
     'Outputs can be compared by total cost and the described totals are the sums of the reported costs.',
     [H, I, C], 'every load pattern combined with renewable, price and outage patterns, for every horizon',
     'tests do not run the legacy benchmarks',
     [SRC + 'algos/Control.py', SRC + 'algos/rbc/_nonmodular_rbc.py', MPC, LEG], [('rule', SRC + 'algos/rbc/_nonmodular_rbc.py'), ('program', MPC + ' _run_mpc_on_sample'), ('outputs', SRC + 'algos/Control.py ControlOutput, Benchmarks')],
     ['Benchmarks.run_benchmarks', 'Benchmarks.describe_benchmarks', 'ModelPredictiveControl.run'],
     note='exhaustive search on the real code: all data patterns up to a bound; rule-based control against a reference dispatch, predictive control against the minimum over all plans of the integer lattice, reports replayed in a reference model')

prop('C30', 'Invalid data and parameters are rejected, valid ones never',
     'Time series of mixed sign, grid tables with negative entries, non-binary status or a wrong number of columns, final steps that are fractional, beyond the data or not after the initial step, negative grid limits, '
     'genset minimum above maximum, efficiencies outside (0, 1], a battery without initial charge, a goal status outside [0, 1], one name for modules of different roles, modules that disagree on their first or last step, '
     'unusable forecasters, and unknown observation keys or module names are rejected with an error, by constructors and setters alike; data and parameters that break none of these rules are accepted and used as given. '
     'A rejected change leaves the module or microgrid as it was.',
     [I, C], 'every series, table, window, limit and combination of modules',
     'tests try one or two bad values and compare nothing after a rejection',
     [TS, GRIDF, GENF, BATF, CONT, FC, MG, ENVB], [('series and windows', TS + ' _sign_check, final_step'), ('grid', GRIDF + ' _check_params'), ('names', CONT + ' get_subcontainers'),
                                                  ('forecasters', FC + ' get_forecaster, _validate_callable_forecaster'), ('steps', MG + ' _get_module_initial_step, _get_module_final_step')],
     ['module constructors and setters', 'Microgrid', 'Microgrid.set_forecaster', 'BaseMicrogridEnv'])

DG = SRC + 'utils/DataGenerator.py'
SAA = SRC + 'algos/saa/saa.py'

prop('C31', 'Data drawn for stochastic control is plausible and follows the observed data',
     'Every sample or forecast drawn from a microgrid\'s data is as long as the data and never negative; renewable production is zero where the data is dark and otherwise a daily curve from dawn to dusk whose peak lies between fitted bounds '
     '(a quarter and nine tenths of the days peak below them), optionally moved towards the actual peaks or values and scaled by normal noise; load is the mean of the same weekday and hour plus normal noise with the observed standard deviation, or the smallest observed load where that would be negative. '
     'Grid status follows the observed transitions, with the observed frequencies; '
     'the data itself is not changed, and the reported error of a forecast is its mean relative deviation.',
     [I, C], 'every series and every outcome of the random draws',
     'tests do not touch the sample generators',
     [DG], [('load', DG + ' NoisyLoadData'), ('renewable', DG + ' NoisyPVData'), ('grid status', DG + ' NoisyGridData'), ('forecasts', DG + ' SampleGenerator, ForecastArgSet, ForecastArgs')],
     ['NoisyLoadData.sample', 'NoisyPVData.sample', 'NoisyGridData.sample', 'SampleGenerator'],
     note='exhaustive enumeration of series up to a bound and of the random draws (all outcomes of discrete draws with their probabilities; deviates one at a time and jointly over a menu), on the real code, against independently computed statistics')

prop('C32', 'Stochastic control applies the plan at the chosen percentile, reported truly',
     'In every step, stochastic control (sample average approximation) applies the first control of a plan of least cost for one of its samples, in which the current step holds the actual data: the one whose cost has the chosen percentile\'s rank among the samples (the last for percentile one). '
     'What it reports are the production, states, costs and emissions that the applied controls cause on the actual data. '
     'A run changes neither the samples nor the microgrid; deterministic control on the forecast does the same with the forecast as its only sample, and the benchmark keeps the output beside the others.',
     [H, I, C], 'every group of samples, percentile and horizon',
     'tests do not run stochastic control',
     [SAA, SRC + 'algos/Control.py', MPC, LEG], [('choice', SAA + ' determine_optimal_actions'), ('run', SAA + ' run_mpc_on_group, run_deterministic_on_forecast'), ('plan cost and record', SRC + 'algos/Control.py HorizonOutput, ControlOutput.append'), ('plan', MPC + ' mpc_single_step')],
     ['SampleAverageApproximation.run', 'SampleAverageApproximation.run_deterministic_on_forecast', 'Benchmarks.run_saa_benchmark'],
     note='exhaustive search on the real code: all groups of samples over an alphabet up to a bound; each control against the minimum over all plans of the integer lattice, reports replayed in a reference model')
