#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run it after editing)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state, observe):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files,
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               state=[dict(name=state, meaning=state, where=files[0])], observe_at=[observe], hook_needed=None)))

ENG = "prosimos/simulation_engine.py"; CF = "prosimos/control_flow_manager.py"
PARSE = "prosimos/simulation_properties_parser.py"; Q = "prosimos/simulation_queues_ds.py"
SET = "prosimos/simulation_setup.py"; EX = "prosimos/execution_info.py"
STATC = "prosimos/simulation_stats_calculator.py"; BAT = "prosimos/batch_processing.py"

prop("C01", "Every simulated case is a complete, conforming run of the BPMN model",
 "Each requested case is simulated exactly once, and the activities logged for it form a complete run of the BPMN model from its start event to its end event: exclusive splits take exactly one branch, parallel splits all branches, inclusive splits a non-empty subset, joins wait for every activated branch, loops repeat only through their back-flow, and no activity is missing, invented or executed twice for one enabling. Reaching a terminate end event ends the case: nothing is enabled in it any more. This holds for every supported way of drawing the same model (explicit gateways, tasks with several incoming or outgoing flows, gateways that join and split at once, end events with several incoming flows) and for every interleaving of concurrent cases.",
 ["inputs", "schedules", "programs"],
 "all sound block-structured BPMN models over tasks, intermediate events, XOR/AND/OR/event-based gateways and loops; all scenarios, case counts and case interleavings",
 "the tests run a handful of fixed diagrams and compare row counts or selected rows; the token game has to be right for every nesting of gateways, drawing variant, and interleaving of cases.",
 [CF, PARSE, ENG], [("token game", CF+":BPMNGraph.update_process_state/is_enabled/_find_next"), ("implicit gateways", PARSE+":parse_simulation_model"), ("main loop", ENG+":execute_full_process")],
 "per-case token marking, set of enabled work items", "CSV event log written by run_simulation (including intermediate events)")

prop("C02", "Work is enabled exactly when its control-flow predecessors complete",
 "The enable time logged for every activity and intermediate event equals the completion time of the control-flow predecessor that enabled it: the case arrival for the first ones, the previous completion in sequence, and the latest completion among all activated branches after a join. An intermediate event starts when enabled and completes after a duration drawn from its configured distribution, anew for each occurrence, and enable <= start <= end holds for every row.",
 ["inputs", "schedules"],
 "all models, resource contentions, calendars and execution orders, including branches that complete out of order",
 "tests assert enable times for a few sequential or two-branch cases; join times depend on the order in which branches happen to complete, which differs run by run.",
 [CF, ENG, EX], [("join enabling time", CF+":BPMNGraph._check_and_update_enabling_time"), ("event execution", ENG+":SimBPMEnv.execute_event"), ("task event times", EX+":TaskEvent")],
 "last enabling time per case and element", "enable_time/start_time/end_time columns of the CSV log")

prop("C03", "A resource works on one item at a time and only on tasks assigned to it",
 "In any simulation without multitasking, no two activity executions by the same resource overlap in time, except the items of one parallel batch; this includes resources shared between tasks with different resource sets and individual members of a pool with an amount greater than one. Every activity is executed by a resource that the scenario assigns to that task, and rows of intermediate events carry no resource.",
 ["inputs", "schedules"],
 "all assignments of tasks to (overlapping) resource pools, amounts, loads and priorities",
 "tests use one or few resources with hand-picked loads; double booking needs particular overlaps of pools and completion orders.",
 [Q, ENG, PARSE], [("resource queues", Q+":DiffResourceQueue"), ("release", ENG+":SimBPMEnv.execute_task/_update_logs_and_resource_availability")],
 "availability of each resource in every queue that contains it", "resource/start_time/end_time columns of the CSV log")

prop("C04", "Work happens only in calendar time and takes exactly its sampled duration",
 "Every activity starts at an instant inside its resource's weekly calendar and the resource's calendar working time between its start and completion equals the duration drawn for that task and resource (a fresh draw from the configured distribution each time, within its minimum and maximum, exactly the mean for fixed distributions). Off-duty periods therefore only stretch the elapsed time; they are never counted as work and work never gets lost across day, week or month boundaries.",
 ["inputs"],
 "all weekly calendars (several intervals a day, day-spanning, 24/7, single short interval), start instants, time zones and durations up to several weeks",
 "tests fix one or two calendars and durations; calendar arithmetic has corner cases at interval ends, midnight and week wrap.",
 [ENG, SET, EX, PARSE], [("start alignment", ENG+":SimBPMEnv.execute_task"), ("real duration", SET+":SimDiffSetup.real_task_duration"), ("calendar parsing", PARSE+":parse_resource_calendars"), ("ideal duration", SET+":SimDiffSetup.ideal_task_duration")],
 "resource calendars", "start_time/end_time/resource columns of the CSV log against the scenario JSON")

prop("C05", "Earliest-available resource is chosen and work starts without needless delay",
 "Each activity is given to a resource that, among those assigned to the task, becomes free earliest at the moment the activity is dispatched, and it starts at the first instant that is not before its enabling, not before that resource finished its previously dispatched work, and inside the resource's calendar. No activity waits while that instant has already come.",
 ["inputs", "schedules"],
 "all task/resource assignments with partial overlaps, loads, priorities and calendars",
 "depends on the complete history of allocations to all shared resources; tests check single allocations.",
 [ENG, Q], [("pop earliest", Q+":DiffResourceQueue.pop_resource_for"), ("start rule", ENG+":SimBPMEnv.execute_task"), ("update", Q+":DiffResourceQueue.update_resource_availability")],
 "availability per resource, replayed from the log in dispatch order", "row order, resource, enable_time and start_time of the CSV log")

prop("C06", "Dispatch follows case priority, then enabling time",
 "Among all work items that are waiting at the same time, the simulator always dispatches the one whose case has the best priority (lowest level) and, within equal priority, the one enabled first; intermediate events go before activities. The priority of a case is the lowest level of all prioritisation rules whose conditions (OR of ANDs, equality or inclusive ranges, possibly unbounded) its case attributes satisfy, and lower than all of them if none is satisfied.",
 ["inputs", "schedules"],
 "all rule sets, attribute values (including range boundaries), arrival patterns and loads",
 "tests check rule evaluation on a few values and one ordering; the order must hold at every dispatch of every run.",
 [Q, ENG, "prosimos/prioritisation.py", "prosimos/prioritisation_rules.py", "prosimos/prioritisation_parser.py"],
 [("event queue", Q+":EventQueue/PriorityQueue"), ("priority of a case", "prosimos/prioritisation_rules.py:AllPriorityRules.get_priority"), ("enqueue", ENG+":SimBPMEnv.calc_priority_and_append_to_queue")],
 "queue of enabled work items with (priority, enabling time)", "row order of the CSV log, case attribute columns, scenario JSON")

prop("C07", "Cases arrive inside the arrival calendar at the configured spacing",
 "The first case arrives at the given start instant if it lies in the arrival calendar, and otherwise inside the calendar after it; cases are numbered 0..N-1 in arrival order and every arrival lies inside the arrival calendar. Each next arrival is the previous one plus an inter-arrival time freshly drawn from the configured distribution (or histogram, each midpoint with its own probability), moved forward only to the next working moment of the arrival calendar.",
 ["inputs"],
 "all arrival distributions, histograms, calendars, start instants and case counts",
 "tests check one calendar or fixed spacing; the interplay of sampled gap and calendar must hold for each of thousands of arrivals.",
 [ENG, SET, "prosimos/histogram_distribution.py"], [("arrivals", ENG+":SimBPMEnv.generate_all_arrival_events"), ("gap", SET+":SimDiffSetup.next_arrival_time/set_starting_datetime"), ("histogram", "prosimos/histogram_distribution.py:HistogramDistribution")],
 "arrival instants", "first enable_time per case in the CSV log; case ids")

prop("C08", "Decision gateways obey conditions, defaults and probabilities",
 "When flows of an exclusive or inclusive split carry conditions, only flows whose condition is true for the current attribute values are taken: exactly one of them at an exclusive gateway (if several hold, by their relative probabilities), all of them at an inclusive one; if none is true the default flow is taken, or the probabilities decide if there is no default. Flows of an inclusive gateway whose condition is declared nowhere follow their probabilities beside the true ones. Without conditions, flows are chosen with their configured probabilities, so flows of probability 0 are never taken (when another can be), probability 1 always, and unspecified probabilities share the remainder equally; the choices of different visits are independent.",
 ["inputs", "histories"],
 "all condition rule sets (OR of ANDs over =, !=, <, <=, >, >=, in), attribute values, default flows and probability vectors",
 "tests enumerate a few rule/attribute pairs; the decision must agree with the rules at every visit of every gateway, with attribute values that change during the case.",
 ["prosimos/outgoing_flow_selector.py", "prosimos/branch_condition_rules.py", "prosimos/branch_condition_parser.py", "prosimos/probability_distributions.py", PARSE, CF],
 [("flow selection", "prosimos/outgoing_flow_selector.py:OutgoingFlowSelector"), ("conditions", "prosimos/branch_condition_rules.py:BranchConditionRule.is_rule_true"), ("defaults", PARSE+":add_default_flows"), ("probabilities", "prosimos/probability_distributions.py:Choice")],
 "attribute values of the case at the decision, chosen flows", "activities that follow each gateway and the attribute columns of the CSV log")

prop("C09", "Attributes evolve only by their declared rules and are logged as of that row",
 "Every logged activity row shows, per attribute, the latest value at that dispatch: a case attribute keeps for the whole case the one value drawn from its distribution, an event attribute changes only when an activity that declares it executes (to the value of its expression, decision table, transition or distribution over the values before that activity; everything drawn follows the declared probabilities or law, also fix, uniform, norm, triang, expon, lognorm and gamma within an expression), and global attributes are shared by all cases and redrawn or updated only by a case's first activity or a declaring activity. Values never leak from one case to another unless declared global.",
 ["inputs", "histories", "schedules"],
 "all combinations of case/event/global attribute declarations, overlapping names, expressions and case interleavings",
 "tests check small fixed attribute sets; isolation and update order depend on the interleaving of cases.",
 ["prosimos/all_attributes.py", "prosimos/case_attributes.py", "prosimos/event_attributes.py", "prosimos/global_attributes.py", ENG],
 [("update", ENG+":SimBPMEnv.update_attributes"), ("classification", "prosimos/all_attributes.py:AllAttributes"), ("row", ENG+":SimBPMEnv.get_csv_row_data")],
 "attribute store per case and global", "attribute columns of the CSV log in row order")

prop("C10", "Batching partitions waiting items: each is executed exactly once",
 "Every item that reaches a batched task is executed exactly once, either alone or as a member of exactly one batch, whatever the priorities, arrival order and number of batches released at once; with rules that can be satisfied or expire, none is left behind at the end of the simulation. Rows of one batch share a batch id, different batches have different ids, and a released batch has a size permitted by the firing rules (size bounds of '=', '<', '<=', '>', '>=') except when the rules can no longer be satisfied. An item is executed alone only when no batch of its activity is open: one that is enabled between two members of the same batch is a member as well or of another batch.",
 ["inputs", "schedules", "histories"],
 "all firing rules, size distributions, priorities, arrival patterns and model positions of batched tasks",
 "tests check a few rule/arrival patterns; loss or duplication needs specific combinations of priorities, chunking and end-of-simulation flushing.",
 [CF, BAT, ENG], [("waiting queue", CF+":BPMNGraph.increase_task_count/_clear_batch"), ("release", CF+":BPMNGraph.is_any_batch_enabled/is_batched_task_enabled"), ("chunking", ENG+":SimBPMEnv.execute_task_batch")],
 "set of waiting items per batched task", "batch_id and case_id columns of the CSV log")

prop("C11", "A batch is released exactly when its firing rule becomes true",
 "A batch never starts before all its members are enabled. With free resources, and as long as other work is left in the simulation, a batch of two or more items starts at the first instant at which one of its alternative firing rules holds over the enabled items: a size rule at the very enabling that completes the size; large_wt when the oldest member, and ready_wt when the last member, has waited for the given time (strict bounds may take one more second); week_day on the given weekday (at its first instant for members enabled before it); daily_hour at or after the given hour; also size or the beginning of an hour on a week day. An item whose rule can no longer be satisfied is released anyway.",
 ["inputs", "schedules"],
 "all rule parameters and arrival patterns, including waits of more than a day and week boundaries",
 "tests fix arrival instants around one boundary; the rules must hold for every pattern and across day boundaries.",
 [BAT, CF, ENG, "prosimos/weekday_helper.py"], [("rule evaluation", BAT+":FiringSubRule.is_true/AndFiringRule.get_firing_batch_size"), ("end flush", ENG+":SimBPMEnv.execute_if_any_unexecuted_batch")],
 "enabling times of waiting items", "enable_time/start_time/batch_id columns of the CSV log")

prop("C12", "Batch items share one resource and follow batch type and duration scaling",
 "All items of one batch are executed by one resource: those of a parallel batch start at the same instant and those of a sequential batch run one after another in priority order without overlap. The duration of an item is the duration sampled for it multiplied by the factor that the duration distribution gives for the batch size (and by the batch size for parallel batches), and items executed alone keep the unscaled duration.",
 ["inputs", "schedules"],
 "all batch types, sizes, scaling tables (with and without an exact key) and resource calendars",
 "tests check few sizes and tables and mostly one resource.",
 [ENG, BAT, SET], [("sequential", ENG+":SimBPMEnv.execute_seq_task_batch"), ("parallel", ENG+":SimBPMEnv.execute_parallel_task_batch"), ("scaling", BAT+":BatchConfigPerTask.calculate_ideal_duration")],
 "batch membership, resource availability", "batch_id/resource/start_time/end_time columns of the CSV log")

prop("C13", "Reported activity and process KPIs equal those recomputed from the log",
 "The statistics file agrees with the event log of the same run: per activity, the count and the minimum, maximum, average and total of waiting, processing, idle and cycle times and of cost; for the process, the same aggregates of case cycle, processing, waiting and idle times computed from the union of its intervals, and the start and completion instants of the simulation. Overlapping or nested intervals of concurrent activities are counted once.",
 ["inputs", "schedules"],
 "all runs: models with concurrency, calendars, intermediate events, batches and any number of cases",
 "tests compare a few KPI values on toy logs; aggregation errors need nested concurrent intervals, events, or numerical edge values.",
 [STATC, EX, "prosimos/simulation_stats.py"], [("task stats", STATC+":LogInfo._update_global_task_stats"), ("case times", STATC+":LogInfo.compute_execution_times/sum_interval_union"), ("aggregation", STATC+":KPIInfo.add_value")],
 "per-task and per-process KPI accumulators, traces", "statistics CSV (and its loader) and returned KPIs against the CSV log")

prop("C14", "Resource accounts balance: tasks, worked time, available time, utilization",
 "For every resource of the scenario the report lists exactly the number of activity executions it performed, the working time it spent on them, the working time its calendar offers between the first start and the last completion of the simulation, and their quotient as utilization. Summed over resources, allocated tasks equal the number of activity rows in the log and utilization of a non-multitasking resource never exceeds 1.",
 ["inputs", "schedules"],
 "all pools, amounts, calendars, loads, batches",
 "tests assert utilization of single resources in fixed scenarios.",
 [STATC, ENG], [("allocation count", ENG+":SimBPMEnv.pop_and_allocate_resource"), ("worked time", ENG+":SimBPMEnv.execute_task"), ("available time", STATC+":compute_resorce_availability")],
 "per-resource counters", "Resource Utilization section of the statistics CSV against the CSV log and the scenario")

prop("C15", "Nothing is lost, duplicated or garbled between simulation and log file",
 "The CSV log contains exactly one well-formed row per executed activity (plus one per executed intermediate event iff requested) in dispatch order, with a header that names every column once, for any number of rows, any buffer flushing, any activity, resource or attribute text (commas, quotes, line breaks, non-ASCII), and every way of starting the simulation. Requesting the log, the statistics, both or neither does not change what is simulated.",
 ["inputs", "histories", "configurations"],
 "all run lengths around buffer boundaries, all output configurations, all element names",
 "tests use small logs that never reach a buffer boundary and plain names.",
 ["prosimos/file_manager.py", ENG], [("buffering", "prosimos/file_manager.py:FileManager.add_csv_row/force_write"), ("row", ENG+":SimBPMEnv.get_csv_row_data"), ("finalisation", ENG+":run_simpy_simulation")],
 "row buffer", "CSV log re-read with a standard CSV parser; returned traces")

prop("C16", "Loops are bounded by the gateway execution limit, per case and per gateway",
 "A case whose split gateway would execute more often than the configured limit is terminated with a warning that names the case and the gateway, after exactly the permitted number of executions of that gateway; no other case and no case below the limit is affected, and the simulation always terminates.",
 ["inputs", "histories"],
 "all limits, loop structures and numbers of concurrent cases",
 "tests use one loop with one limit; counters must be kept per case and per gateway for every interleaving.",
 [CF, "prosimos/simulation_execution_stats.py", PARSE], [("limit check", CF+":BPMNGraph.is_gateway_execution_limit_exceeded"), ("counter", "prosimos/simulation_execution_stats.py:SimulationExecutionStats.update_element_execution")],
 "executions per (case, gateway)", "rows per loop body and case in the CSV log, warnings")

prop("C17", "Event-based gateways let exactly one event win, the earliest possible one",
 "After an event-based gateway exactly one of its events occurs per visit and only its branch continues; an event that is always later than another one of the same gateway never wins. Events with equal or overlapping durations may each win.",
 ["inputs", "schedules"],
 "all event-based gateways with any number of events and any duration distributions",
 "tests use two events with fixed durations.",
 [CF, ENG], [("choice", CF+":BPMNGraph.get_event_gateway_choice"), ("execution", ENG+":SimBPMEnv.execute_event")],
 "sampled event durations", "rows of intermediate events in the CSV log")

prop("C18", "Priority and resource queues behave like their abstract models",
 "Under any sequence of insertions, re-insertions with a new priority, removals, peeks and pops, the priority queue holds exactly the elements inserted and not removed, peek and pop yield an element of least priority (first inserted among equals), and size, membership and priority queries agree. The resource queue offers for each task exactly the assigned resources, always the earliest-available one, with one availability per resource that is consistent across all tasks sharing it.",
 ["histories", "inputs"],
 "all operation histories and task/resource maps",
 "tests run short scripted sequences; lazy deletion errors need particular interleavings of updates, peeks and pops.",
 [Q], [("lazy-deletion heap", Q+":PriorityQueue"), ("shared queues", Q+":DiffResourceQueue"), ("event queue", Q+":EventQueue")],
 "heap entries and index", "return values of the queue operations")

prop("C19", "Scenario parameters mean what they say; inconsistent ones are rejected",
 "Loading a scenario preserves it: a resource of amount n becomes n distinct, identically configured resources that serve the same tasks, unspecified branching probabilities share the remainder equally, and calendars, costs, durations and rules are taken as given, independent of the order of sections and entries. Attribute probabilities that do not sum to one (beyond rounding error), a case attribute changed by events, malformed batch rules and models without exactly one end event are rejected with the corresponding error, while valid ones are accepted.",
 ["inputs", "configurations"],
 "all scenario files",
 "tests load a few files; order independence, rounding and rejection quantify over all of them.",
 [PARSE, "prosimos/all_attributes.py", "prosimos/global_attributes.py", "prosimos/case_attributes.py", "prosimos/event_attributes.py", "prosimos/batch_processing_parser.py", CF],
 [("profiles", PARSE+":parse_resource_profiles"), ("probabilities", PARSE+":parse_arrival_branching_probabilities"), ("validation", CF+":BPMNGraph.validate_model"), ("batch rules", "prosimos/batch_processing_parser.py:BatchProcessingParser")],
 "parsed scenario", "public parser results, raised exceptions, simulated logs")

prop("C20", "Attribute expressions evaluate like the arithmetic they denote",
 "An expression or decision-table attribute takes the value that the expression denotes over the current attribute values: the usual arithmetic, comparison, boolean and mathematical functions with the usual precedence, division by zero or undefined operations yielding 0 and overflow clamped to the largest finite value. A decision table yields the formula of its first row all of whose conditions hold, and 0 if none does; evaluation never fails or alters other attributes.",
 ["inputs", "programs"],
 "all expressions of the supported grammar and all attribute values",
 "tests evaluate a few dozen expressions; the evaluator must agree with the reference semantics on all of them.",
 ["prosimos/event_attributes.py"], [("evaluator", "prosimos/event_attributes.py:eval_expr"), ("decision table", "prosimos/event_attributes.py:evaluate_dtree"), ("clamping", "prosimos/event_attributes.py:EventAttribute.get_next_value")],
 "attribute environment", "values returned by the evaluator and attribute columns of the log")

prop("C21", "Fuzzy calendars reduce to ordinary calendars for certain availability",
 "With a fuzzy-calendar scenario whose availability probabilities are all 0 or 1, resources start and perform work only in granules of probability 1, the work performed in those granules between start and completion equals the sampled duration, and allocation and the reported working and available times are as with the equivalent ordinary calendar. With intermediate probabilities, recorded work intervals are disjoint, lie between start and completion, sum to the sampled duration and never fall in a granule of probability 0. Granules after the first are worked, and end the waiting for a free resource, as often as the two probabilities of the granule say, and the reported available time of a resource is all its work plus the expected availability of the remaining time.",
 ["inputs", "schedules"],
 "all granule sizes, weekly probability maps, start instants and durations",
 "tests cover a few granule layouts with mid-granule starts chosen by hand.",
 ["prosimos/fuzzy_engine/fuzzy_calendar.py", PARSE, SET, STATC], [("next slot", "prosimos/fuzzy_engine/fuzzy_calendar.py:FuzzyModel.next_available_time"), ("work spreading", "prosimos/fuzzy_engine/fuzzy_calendar.py:FuzzyModel.find_idle_time"), ("parsing", PARSE+":parse_fuzzy_calendar")],
 "granule probabilities, worked intervals", "CSV log and worked intervals of the calendar queries")

prop("C22", "A run depends only on its inputs: no state leaks between runs",
 "Two simulations of the same scenario from the same random state produce the same log and statistics (batch identifiers aside), no matter which other simulations, failed or successful, ran before in the same process. The warnings file written by a run contains only warnings of that run.",
 ["histories", "inputs"],
 "all sequences of runs in one process",
 "tests run each scenario once or ignore what earlier runs left behind.",
 [ENG, "prosimos/warning_logger.py", EX, CF], [("global warning log", "prosimos/warning_logger.py:warning_logger"), ("run", ENG+":run_simulation")],
 "module- and class-level state", "CSV log, statistics and warnings file of repeated runs")

prop("C23", "Discovered branching probabilities equal the observed branch frequencies",
 "For any event log whose traces conform to the model, the discovered probability of each outgoing flow of an exclusive split equals the fraction of the visits of that gateway in the log that took the flow, so that the probabilities of a visited gateway sum to 1. Replay marks every event of a conforming trace as explained and leaves no token behind.",
 ["inputs", "programs"],
 "all conforming logs of block-structured models with sequences, choices, parallel blocks and loops",
 "tests replay a few fixed logs; the replay heuristic must find the right flows for every nesting.",
 [CF, "bpdfr_discovery/log_parser.py"], [("replay", CF+":BPMNGraph.reply_trace"), ("probabilities", CF+":BPMNGraph.compute_branching_probability")],
 "flow frequencies", "returned replay result and gateway_branching_probabilities of the discovered scenario")

prop("C24", "Discovery output is a faithful, complete and runnable scenario",
 "From any usable event log and its model, discovery produces a scenario that names exactly the tasks observed in the log, each with resources observed performing it or, for those below the requested thresholds, joint resources replacing them (exactly the observed resources when the confidence and participation thresholds are zero), with the fitted durations, arrivals, calendars and branching probabilities of the log, whose calendars cover the required support of every task, and that the simulator accepts and simulates to completion. The command line discovers the same scenario as the function with the same parameters. Invalid discovery parameters, models and logs are refused with the documented errors, without output, and incomplete events are dropped without affecting the others.",
 ["inputs", "configurations"],
 "all usable logs and discovery parameters",
 "tests discover from two or three logs only and check single sections.",
 ["bpdfr_discovery/log_parser.py", "prosimos/probability_distributions.py"], [("pipeline", "bpdfr_discovery/log_parser.py:preprocess_xes_log"), ("validation", "bpdfr_discovery/log_parser.py:parse_and_validate_input")],
 "discovered parameters", "JSON written by discovery; log of its re-simulation")

prop("C25", "Statistics and usage warnings reported by a run are true of that run",
 "Reading back the statistics file with the provided loader yields the reported figures for every resource, activity and process KPI. The usage warnings written after a run name exactly the elements and flows whose number of executions is below 1% or above 100% of the number of cases, with the right counts, and warnings about auto-assigned probabilities and default flows appear exactly when those mechanisms acted.",
 ["inputs", "histories"],
 "all runs and models",
 "tests check the presence of single warnings in fixed runs.",
 ["prosimos/simulation_stats.py", "prosimos/simulation_execution_stats.py", "prosimos/warning_logger.py", ENG], [("loader", "prosimos/simulation_stats.py:load_diff_simulation_results"), ("usage", "prosimos/simulation_execution_stats.py:SimulationExecutionStats.find_issues")],
 "element and arc counters", "statistics CSV, simulation_warnings.txt, CSV log")

prop("C26", "Multitasking never exceeds the declared capacity and loses no work",
 "With a multitasking section every case still completes and every activity is executed by an assigned resource inside the control flow, and a resource never works at one time on more activities than the largest number of parallel activities declared for it with positive probability (one if none is declared); a resource that surely performs n activities in parallel does so whenever that many wait - at the weekday and hour the number is declared for -, one that performs two with a probability does so at that rate, and while work waits no assigned resource is left idle for good. The reported number of tasks per resource is still the number it executed.",
 ["inputs", "schedules"],
 "all global and local multitasking declarations and loads",
 "tests cover the data structure with scripted calls, not simulations under load.",
 ["prosimos/multitasking/multitasking_struct.py", ENG, PARSE], [("capacity", "prosimos/multitasking/multitasking_struct.py:MultiTaskDS.can_get_new_tasks"), ("allocation", ENG+":SimBPMEnv.allocate_multitasking_resource/release_multitasking_resource")],
 "tasks in progress per resource", "CSV log")

prop("C27", "Analyses of a simulated log recover what happened in it",
 "Reading back a log written by the simulator loses nothing: replaying it on its model yields for every activity the enabling time it had in the simulation (for models of sequences, exclusive and parallel blocks, including joins whose branches complete in any order; the first activities of a case are enabled between its arrival and their start), so that the waiting times, processing times and counts per activity reported by the analyses are those of the log; the starting instants found are the earliest start of every case; and the distance measures between two logs are the earth mover's distances of their binned instants and case durations, hence zero for equal logs, symmetric and independent of the order of the rows.",
 ["inputs", "histories"],
 "all logs of simulated runs of the models described",
 "no test reads a simulated log back and compares it with the simulation; joins of concurrent branches that complete in another order than they start are never sampled.",
 ["bpdfr_discovery/log_parser.py", "bpdfr_discovery/log_comparison_metrics.py", "bpdfr_discovery/emd_metric.py", "prosimos/fuzzy_engine/event_log_analyser.py", CF],
 [("enabling", "bpdfr_discovery/log_comparison_metrics.py:compute_enabling_processing_times"), ("kpis", "bpdfr_discovery/log_parser.py:compute_kpi_times_from_csv_log"), ("statistics", "prosimos/fuzzy_engine/event_log_analyser.py:compute_log_statistics"), ("distances", "bpdfr_discovery/emd_metric.py:absolute_hour_emd/trace_duration_emd")],
 "enabling times and distances", "CSV logs; returned figures and printed statistics")

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
