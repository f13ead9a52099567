"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None):
    anchors = {'files': files, 'mechanism': [{'name': a, 'where': b} for a, b in mech]}
    if observe:
        anchors['observe_at'] = observe
    anchors['hook_needed'] = None
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why, 'anchors': anchors})

GEN = ('for every flow system that can be composed from the documented components, with scalar or time-varying '
       'parameters, equidistant or irregular time steps')

p('C01', 'Bus balance holds in every time step; imbalance only at the stated penalty',
  'In every solved plan, at every bus and time step, the flow rates entering the bus equal those leaving it, up to non-negative excess-input/excess-output rates that the results report. A bus created without a penalty never has excess; a bus with a penalty is charged exactly penalty x duration of the step x excess, in both directions, and that charge is part of the objective.',
  ['inputs', 'configurations'], GEN + ', for scalar, array and absent excess penalties',
  'Existing tests compare one objective value of a few fixed systems; none checks the balance per bus and step, time-varying penalties, or irregular steps.',
  ['flixOpt/elements.py', 'flixOpt/effects.py', 'flixOpt/features.py'],
  [('bus balance and excess', 'flixOpt/elements.py: BusModel.do_modeling'), ('penalty share', 'flixOpt/effects.py: add_share_to_penalty')],
  ['Calculation.results()[Buses|Effects/penalty|Objective]'])
p('C02', 'Flow rates obey size, relative bounds, fixed profiles and flow-hour limits',
  'Every flow rate lies between relative_minimum x size and relative_maximum x size in each step (or is zero while the flow has on/off parameters and is off), equals fixed_relative_profile x size when a profile is given, and its sum over time weighted with the step durations obeys flow_hours_total_min/max and load_factor_min/max. No rate that satisfies these limits is excluded, so the optimum is that of exactly these limits.',
  ['inputs'], GEN + ', for every combination of scalar/array bounds, fixed profile, on/off and investment size',
  'Tests fix one profile and a couple of bounds with hourly steps; the limits must hold for every array, duration and combination of options.',
  ['flixOpt/elements.py', 'flixOpt/features.py'],
  [('flow bounds', 'flixOpt/elements.py: FlowModel'), ('load factor', 'flixOpt/elements.py: _create_bounds_for_load_factor')],
  ['results()[Components][c][flow][flow_rate|sumFlowHours]'])
p('C03', 'Converters keep their stated conversion ratios in every step',
  'For each conversion equation of a LinearConverter the factor-weighted sum of input rates equals the factor-weighted sum of output rates in every step, with scalar or time-varying factors and one to several equations. Boiler, Power2Heat, HeatPump, HeatPumpWithSource, CHP and CoolingTower keep the efficiency/COP relations (and the energy balance of a heat pump with source) their arguments state.',
  ['inputs', 'configurations'], 'for every number of inputs/outputs, factor sign, scalar/array/TimeSeriesData factor and converter class',
  'Tests use a boiler and a CHP with constant efficiencies; ratios for arrays, several equations and the other converter classes are never compared with results.',
  ['flixOpt/components.py', 'flixOpt/linear_converters.py'],
  [('conversion equations', 'flixOpt/components.py: LinearConverterModel'), ('named converters', 'flixOpt/linear_converters.py')])
p('C04', 'Piecewise-linear relations put operating points exactly on the given segments',
  'With segmented conversion factors, in every step all flows of the converter lie on the same point of one common given segment (linear interpolation between its end points, gaps excluded), or all are zero when the component may be off. With effects_in_segments of an investment, the charged effects are the interpolation of the given cost points at the chosen size, and every size on a segment is reachable.',
  ['inputs'], 'for every number of segments, gaps, point segments, descending values and time-varying end points',
  'One integration test with one fixed set of segments; interpolation, gaps and common-segment consistency hold for all segment lists or not at all.',
  ['flixOpt/features.py', 'flixOpt/components.py'],
  [('segment models', 'flixOpt/features.py: MultipleSegmentsModel, SegmentModel, SegmentedSharesModel')])
p('C05', 'Storages conserve energy and respect charge-state, start and end conditions',
  'Between consecutive time points the charge state changes by charging x eta_charge x dt minus discharging / eta_discharge x dt minus loss rate x dt x charge state, and stays within its relative limits times the capacity at every time point including the final one. The initial charge state (value, free, or equal to the final state for a closed cycle) and the minimal/maximal final charge state are honoured in every combination, and the default setting excludes charging and discharging in the same step.',
  ['inputs', 'configurations'], GEN + ', for every combination of initial/final conditions, efficiencies, losses, capacity investment',
  'Tests contain one storage with one initial value; combinations (free start with final limits, closed cycle, irregular steps, invested capacity) are untested.',
  ['flixOpt/components.py'], [('storage equations', 'flixOpt/components.py: StorageModel')],
  ['results()[Components][storage][charge_state|netto_discharge]'])
p('C06', 'On/off states mirror operation; starts, on-hours and their limits are exact',
  'A flow with on/off parameters (and a component with them, over all its flows) is reported on in exactly the steps in which it carries flow; total on-hours, switch-on and switch-off events and start counts follow from that state sequence and the state before the first step. Limits on total on-hours and number of starts are enforced, and per-start and per-running-hour effects are charged once per start and per operating hour.',
  ['inputs', 'histories'], GEN + ', for every previous state (none, scalar, history) and every limit',
  'Tests check a few hand-made sequences for one boiler with hourly steps and no component-level state or irregular steps.',
  ['flixOpt/features.py', 'flixOpt/elements.py', 'flixOpt/interface.py'],
  [('on/off model', 'flixOpt/features.py: OnOffModel'), ('component state', 'flixOpt/elements.py: ComponentModel')])
p('C07', 'Min/max consecutive on/off times hold, counting the history before the start',
  'No contiguous on (off) block that ends inside the horizon is shorter than consecutive_on(off)_hours_min, and no block at any step is longer than consecutive_on(off)_hours_max, measured in hours with the actual step durations; a block running at the start counts the hours it was already in that state before the first step. Nothing else is excluded: any schedule satisfying these rules is available to the optimiser (the last block may be cut off by the horizon).',
  ['inputs', 'histories'], 'for every previous flow-rate history, previous step durations, min/max values (scalar or array) and irregular steps',
  'Four tests with hourly steps and short histories; duration counting over arbitrary histories and step lengths is not sampled.',
  ['flixOpt/features.py'], [('duration constraints', 'flixOpt/features.py: _get_duration_in_hours, get_consecutive_duration, _previous_on_values')])
p('C08', 'Investment decisions respect size rules and charge exactly the stated effects',
  'An invested size equals fixed_size or lies within [minimum_size, maximum_size]; an optional investment may also be left out, then size and operation are zero and nothing forces it. fix_effects are charged iff invested, specific_effects per unit of size, divest_effects iff an optional investment is not made; the size bounds the flow rate or charge state it belongs to.',
  ['inputs', 'configurations'], 'for every combination of optional/forced, fixed/free size, effects per effect, relative minimum, on/off and profile, for flows and storages',
  'Five tests on one boiler; combinations with relative minima, storages, divestment, several effects are unchecked.',
  ['flixOpt/features.py', 'flixOpt/interface.py', 'flixOpt/elements.py', 'flixOpt/components.py'],
  [('investment model', 'flixOpt/features.py: InvestmentModel'), ('bounds', 'flixOpt/elements.py: absolute_flow_rate_bounds')])
p('C09', 'Effect totals are the exact sum of contributions and enter the objective once',
  'For each effect the reported operation time series, operation total, invest total and overall total equal the values recomputed from the reported flows, states and sizes and the user-given factors, including shares passed from one effect to another (also over several hops). The objective equals operation plus invest total of the objective effect plus the penalty, and values given without an effect go to the standard effect.',
  ['inputs', 'configurations'], GEN + ', for every set of effects, acyclic cross-effect shares and way of writing effect values (scalar, array, dict, None key)',
  'Tests compare totals of two or three fixed systems; a lost, doubled or wrongly scaled contribution shows only for particular combinations.',
  ['flixOpt/effects.py', 'flixOpt/features.py'],
  [('effect collection', 'flixOpt/effects.py: EffectCollectionModel'), ('shares', 'flixOpt/features.py: ShareAllocationModel, SingleShareModel')])
p('C10', 'Effect limits are enforced exactly',
  'Limits on an effect (minimum/maximum of operation, invest and total, and per-hour limits scaled with the step duration) hold for the recomputed effect in every solved plan, and bind no other plan: the optimum under limits is the true constrained optimum, and a system whose limits cannot be met is reported infeasible.',
  ['inputs'], 'for every subset of the eight limits, scalar or time-varying, on objective and other effects',
  'Only a CO2 total limit appears in one example; the other limits and their interplay with irregular steps are never exercised.',
  ['flixOpt/effects.py', 'flixOpt/features.py'], [('limits', 'flixOpt/effects.py: EffectModel; flixOpt/features.py: ShareAllocationModel')])
p('C11', 'The solved plan is optimal and feasible exactly when the described problem is',
  'For every flow system, a full calculation finds a plan exactly when the problem described by the documented meaning of the elements is feasible, and its objective is the minimum over all plans allowed by that meaning (within the solver gap).',
  ['inputs', 'configurations'], 'for every small flow system mixing all component types, parameters and irregular time grids',
  'Needs an independent model of the whole semantics; tests only hold a handful of recorded objective values.',
  ['flixOpt/structure.py', 'flixOpt/elements.py', 'flixOpt/components.py', 'flixOpt/features.py', 'flixOpt/effects.py', 'flixOpt/math_modeling.py', 'flixOpt/calculation.py'],
  [('whole model', 'flixOpt/structure.py: SystemModel')])
p('C12', 'Transmissions lose exactly the stated losses; exclusive flows never run together',
  'A transmission delivers in each direction input x (1 - relative loss) minus the absolute loss while that direction is on, and with an investment on its first inflow both directions share one size. Flows declared mutually exclusive (transmission directions, storage charge/discharge, source-and-sink, any prevent_simultaneous_flows group) are never both on in the same step, and are independent when exclusivity is switched off.',
  ['inputs', 'configurations'], 'for every uni-/bidirectional transmission, scalar/array losses, with and without investment and exclusivity',
  'Two tests with fixed losses; zero absolute losses, time-varying losses and exclusivity switches are not covered.',
  ['flixOpt/components.py', 'flixOpt/features.py', 'flixOpt/elements.py'],
  [('transmission', 'flixOpt/components.py: TransmissionModel'), ('exclusivity', 'flixOpt/features.py: PreventSimultaneousUsageModel')])
p('C13', 'Step durations and selected time windows are interpreted correctly',
  'The duration of each step is the distance to the next time stamp, that of the last step is last_time_step_hours hours (or repeats the last distance), for every datetime resolution the input may have. A calculation on a contiguous window of time indices gives the same result as a flow system built from just that window of the data.',
  ['inputs', 'configurations'], 'for every time grid (resolution, irregular steps, last step) and every contiguous window',
  'All tests use full hourly grids except one example; windows are only used indirectly.',
  ['flixOpt/flow_system.py', 'flixOpt/core.py', 'flixOpt/structure.py'],
  [('time data', 'flixOpt/flow_system.py: FlowSystem.__init__, get_time_data_from_indices, create_datetime_array'), ('active data', 'flixOpt/core.py: TimeSeries')])
p('C14', 'Equivalent ways of writing the same system give the same optimum',
  'The optimum does not depend on how equal data is written: a constant as scalar, list-free array or TimeSeriesData; effect values as scalar, {effect: value} or {None: value}; the order in which elements are added; labels of elements; the calendar start; or one shared object used for several flows. Scaling all costs scales the objective by the same factor.',
  ['inputs', 'programs'], 'for every small flow system and every listed rewriting of it',
  'Tests never build the same system twice in different notations.',
  ['flixOpt/core.py', 'flixOpt/effects.py', 'flixOpt/structure.py', 'flixOpt/flow_system.py'],
  [('data conversion', 'flixOpt/core.py: TimeSeries; flixOpt/effects.py: effect_values_to_time_series; flixOpt/structure.py: _create_time_series')])
p('C15', 'Calculations on one flow system do not influence each other',
  'Modelling and solving a flow system again - with the same or other time indices, after full, segmented or aggregated calculations in any order - gives the results a freshly built flow system gives. Results already obtained and the arrays and dictionaries the user passed in stay unchanged.',
  ['histories', 'inputs'], 'for every sequence of calculations on one flow system',
  'Tests run each calculation once on a fresh system.',
  ['flixOpt/calculation.py', 'flixOpt/structure.py', 'flixOpt/core.py', 'flixOpt/effects.py'],
  [('re-modelling', 'flixOpt/structure.py: _create_time_series; flixOpt/core.py: TimeSeries.clear_indices_and_aggregated_data'), ('start values', 'flixOpt/calculation.py: _reset_start_values')])
p('C16', 'Segmented calculations chain segments without gaps and combine results correctly',
  'A segmented calculation covers every selected time step exactly once in the combined results, each segment starting from the storage charge states and flow rates its predecessor reached at that time point, for every segment length, overlap and horizon including short final segments. Each segment is the optimum of its own window given these start values, and afterwards the elements hold the start values the user gave.',
  ['inputs', 'histories'], 'for every horizon length, segment length, overlap and time window',
  'One test with one fitting segment length; truncated segments and windows are not covered.',
  ['flixOpt/calculation.py'], [('segment loop', 'flixOpt/calculation.py: SegmentedCalculation'), ('result combination', 'flixOpt/calculation.py: _combine_nested_arrays, _combine_nested_scalars')])
p('C17', 'Aggregated calculations operate equal typical periods equally',
  'In an aggregated calculation the periods assigned to one typical period are operated identically from their second step on: the on/off states of the aggregated components always, their flow rates too when the data are aggregated, storages only on request, and at most the allowed share of states deviates, each at the stated penalty. The clusters cover every step exactly once in whole periods, are not more than asked for, and the aggregated series have the original length, are equal in the periods of one cluster and keep requested peaks. Which periods are made equal is decided with the weight each series was given (one shared by the series of a group). Among all plans that satisfy these equalities the calculation finds the best one, so with all periods different it reproduces the full optimum.',
  ['inputs', 'configurations'], 'for every number of periods, period length, freedom percentage, storage fixing, weights and subset of components',
  'One test on one data set checks only that it runs near a stored value.',
  ['flixOpt/aggregation.py', 'flixOpt/calculation.py', 'flixOpt/core.py'],
  [('equating variables', 'flixOpt/aggregation.py: AggregationModel'), ('clustering', 'flixOpt/aggregation.py: Aggregation, TimeSeriesCollection')])
p('C18', 'Saved results reload to the same numbers; tables carry the right sign and time',
  'Saving a calculation and loading it through CalculationResults reproduces every value of the in-memory results, the time axis and step lengths, for all element types and shapes. Tables made from them list exactly the flows (and excess) of the element, with inputs and outputs multiplied by the chosen factors, columns below the threshold left out, on the right time stamps.',
  ['inputs', 'configurations'], 'for every solved system, element, sign factors, threshold and last-step option',
  'Tests load one result set and look at a few keys.',
  ['flixOpt/results.py', 'flixOpt/calculation.py', 'flixOpt/structure.py', 'flixOpt/utils.py'],
  [('saving', 'flixOpt/calculation.py: _save_solve_infos'), ('loading', 'flixOpt/results.py: CalculationResults')])
p('C19', 'The mathematical model layer solves exactly the equations it was given',
  'A model assembled from variables, equations, inequations and an objective - with scalar or vector factors, index selections, sums, fixed values, bounds and binaries in any legal mix - has the feasible set and optimum those equations state, and reports result values in index order with binaries as exact 0/1. Inconsistent lengths or fixed values outside the bounds are rejected.',
  ['inputs', 'programs'], 'for every small model over the summand forms the documentation lists',
  'No test addresses this layer directly.',
  ['flixOpt/math_modeling.py', 'flixOpt/utils.py'],
  [('translation', 'flixOpt/math_modeling.py: PyomoModel'), ('lengths', 'flixOpt/math_modeling.py: _Constraint, Summand, SumOfSummand')])
p('C20', 'Exported descriptions are valid JSON/YAML and state the values the user gave',
  'The description of any element, flow system or model (infos, to_json, string form, saved data and info files) can always be written as JSON/YAML and contains each non-default argument with the value the user gave, each variable and constraint of the model, flows with their bus and direction, and the network with every flow between the right nodes. Converting data for export keeps every number and never alters the original objects.',
  ['inputs'], 'for every flow system and every nested mix of numbers, arrays, time series and containers',
  'Tests never look at the exported contents.',
  ['flixOpt/structure.py', 'flixOpt/flow_system.py', 'flixOpt/utils.py', 'flixOpt/results.py'],
  [('export', 'flixOpt/structure.py: copy_and_convert_datatypes, Interface.infos, get_compact_representation'), ('network', 'flixOpt/flow_system.py: network_infos')])
p('C21', 'Contradictory input is rejected instead of producing a plan',
  'Input the documentation rules out - duplicate or reserved labels of components, buses, effects or flows of one component, two standard or objective effects or no objective, relative minimum above maximum, over-determined or foreign conversion factors, both or neither kind of conversion, segments of free size, of foreign flows or of different number, Transmissions that return to other buses or size other flows than the first input, effects that are not part of the system, circular effect shares of any length, data of wrong length (constant arrays count as one value), time stamps running backwards, time indices beyond the series, unknown start options, unequal steps or period lengths in aggregation, oversized segments - raises an error before a result exists. The same input without the contradiction, also right at the limit, is accepted.',
  ['inputs'], 'for every valid system with one such contradiction injected at any place',
  'Tests contain no negative cases.',
  ['flixOpt/flow_system.py', 'flixOpt/effects.py', 'flixOpt/components.py', 'flixOpt/elements.py', 'flixOpt/utils.py', 'flixOpt/calculation.py'],
  [('checks', 'flixOpt/flow_system.py: _check_if_element_is_unique; flixOpt/effects.py: add_effect; _plausibility_checks')])
p('C22', 'Configuration files load completely or are rejected',
  'Loading a configuration file sets exactly the values of the file, nested sections included, and CONFIG.to_dict reports them; missing or mistyped entries or sections, invalid levels and absent files raise an error and leave the configuration as it was. The chosen modelling constants (big value, epsilon) take effect in models built afterwards.',
  ['inputs', 'configurations'], 'for every configuration mapping, valid or with one fault injected',
  'No test touches the configuration.',
  ['flixOpt/config.py'], [('loading', 'flixOpt/config.py: CONFIG, merge_configs, dataclass_from_dict_with_validation')])
p('C23', 'Plots show the data they are given',
  'Every figure built from a table contains each column once with its values (stacked in area and bar mode, split by sign), heat maps place each value at the cell of its period and step, reshaping pads and never drops or reorders values, and drawings of a flow system show every component, bus and flow once. Plotting leaves the given table and the results unchanged, and saves or shows a figure where it was asked to.',
  ['inputs'], 'for every table size, sign pattern, mode, engine and time grid',
  'Plot tests only check that a figure is produced.',
  ['flixOpt/plotting.py'], [('figures', 'flixOpt/plotting.py: with_plotly, with_matplotlib, heat_map_data_from_df, reshape_to_2d')])
p('C24', 'The saved summary states the totals of the plan; only asked files appear',
  'The info file of a saved calculation states its name, type and number of steps, the size of the solved model and as main results the totals of every effect, the penalty, the objective and the bound the results contain, every bus with excess, and every investment with its size as made or not made. Saving writes exactly the announced files under the chosen folder and name, and a calculation that is not saved leaves nothing but the log file of its solver, also when one solver object serves calculations of any kind in turn. The objective is within the gap asked of the solver.',
  ['histories', 'inputs'], 'for every sequence of full, aggregated and segmented calculations, saved or not, that share solver objects',
  'Tests save single calculations and never open the info files.',
  ['flixOpt/calculation.py', 'flixOpt/structure.py', 'flixOpt/math_modeling.py', 'flixOpt/solvers.py'],
  [('summary', 'flixOpt/structure.py: SystemModel.main_results, infos'), ('files', 'flixOpt/calculation.py: _save_solve_infos; flixOpt/math_modeling.py: HighsSolver.solve')])
with open(os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl'), 'w') as f:
    for x in P:
        assert len(x['title']) <= 80, (x['id'], len(x['title']))
        f.write(json.dumps(x) + '\n')
print(len(P))
