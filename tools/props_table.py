TESTS = "The tests run a few hand-made models with mostly fixed durations and one schedule each; "
NOTE = ("Seeded exploration: thousands of generated scenarios per run, each simulated end to end by the unmodified "
        "engine, every history judged by an independent model. Absence of a violation is evidence, not proof. Trusts "
        "the reference model in dst/ and the calendars of the generator.")

prop("C01", "Every started case runs to completion",
     "A simulation of N cases of a valid, sound process model always ends by itself and records exactly the cases "
     "0..N-1 (those that execute at least one activity). Every case either reaches the end of the process with no "
     "work left behind, or is stopped by a rule the scenario asked for (terminate end event, gateway execution "
     "limit). No case is dropped, invented, duplicated or left waiting for ever.",
     ["schedules", "inputs", "configurations"],
     "All process models built from nested sequences, choices, parallel and inclusive blocks, loops, event gateways, "
     "with explicit and implicit gateways; all branch outcomes, durations, resource pools; 1..16 cases.",
     TESTS + "they compare row counts for those. Whether a join waits for ever depends on which branches were "
     "chosen and in which order their tokens arrive.",
     [ENG, CFM, QUE],
     [("main loop until the event queue is empty", ENG + ":execute_full_process"),
      ("token game deciding what becomes enabled", CFM + ":BPMNGraph.update_process_state"),
      ("inclusive joins", CFM + ":BPMNGraph.is_enabled")], NOTE,
     state=[("process state", "tokens per sequence flow of one case", CFM + ":ProcessState")])

prop("C02", "Only paths the process model allows are recorded",
     "For every case, the recorded order of activities (and of events, when they are logged) is an execution of the "
     "process model: an activity is performed exactly when the sequence flows, gateways and joins leading to it allow "
     "it, as often as they allow it. Exclusive choices take one branch, parallel splits all, inclusive splits at least one; "
     "joins wait for exactly the branches that were started.",
     ["schedules", "inputs", "histories"],
     "All block-structured models with nested and/or/xor/loop/event blocks and implicit splits and merges, all "
     "branch decisions and all interleavings of concurrent cases and branches.",
     TESTS + "the set of possible orders of concurrent branches and cases is exponential and never enumerated.",
     [CFM, ENG, PAR],
     [("token movement", CFM + ":BPMNGraph.update_process_state"),
      ("closing of inclusive joins", CFM + ":BPMNGraph._find_preceding_arcs"),
      ("model parsing, implicit gateways", PAR + ":parse_simulation_model")], NOTE)

prop("C03", "Work is enabled by its predecessors and times are causal",
     "Every recorded activity is enabled at the very moment the last of the predecessors it waits for completed (the "
     "arrival of the case for the first one), plus the waiting of timer or message events in between; it starts no earlier than "
     "it is enabled and completes no earlier than it starts. All times of a log are in the time zone of the "
     "simulation start.",
     ["schedules", "inputs", "histories"],
     "All models and schedules as for C02, with events hidden from or shown in the log.",
     TESTS + "none relates an enabling time to the completion that caused it across joins, loops and hidden events.",
     [ENG, CFM, PY + "execution_info.py"],
     [("enabling time propagated over gateways", CFM + ":BPMNGraph.update_process_state"),
      ("start and completion of a work item", PY + "execution_info.py:TaskEvent")], NOTE)

prop("C04", "A resource works on one thing at a time and only on its own tasks",
     "Every activity is performed by exactly one resource that the scenario assigns to that activity (events by "
     "none). Without multitasking, two activity instances of the same resource never overlap in time, unless they "
     "are members of one parallel batch.",
     ["schedules", "inputs", "histories"],
     "All resource pools (shared between activities in any pattern, amounts > 1, profiles per task), calendars and loads.",
     TESTS + "exclusivity is only visible under contention between cases sharing partly overlapping resource pools.",
     [QUE, ENG, PAR],
     [("resource availability queues, one per resource set", QUE + ":DiffResourceQueue"),
      ("allocation", ENG + ":SimBPMEnv.pop_and_allocate_resource"),
      ("expansion of amounts into units", PAR + ":parse_resource_profiles")], NOTE)

prop("C05", "Work is done within working hours and takes the drawn duration",
     "Every activity starts at a moment when the calendar of its resource is open, and the working time "
     "between its start and its completion - counting only open calendar intervals of that resource - "
     "equals a duration its distribution for that resource allows; over many performances these durations are independent and follow that "
     "distribution. No working interval in between is skipped and no closed time is counted as work.",
     ["schedules", "inputs", "configurations"],
     "All weekly calendars (split days, nights, weekends, wrapping weeks), start moments, time zones, durations from 0 to several weeks.",
     TESTS + "calendars in tests are mostly 24/7 or 9-17; spans over several closing times, midnights and weeks are not sampled.",
     [SET, ENG, PY + "execution_info.py", PY + "probability_distributions.py"],
     [("real duration from calendar", SET + ":SimDiffSetup.real_task_duration"),
      ("start moved to the next opening", ENG + ":SimBPMEnv.execute_task"),
      ("drawn duration", SET + ":SimDiffSetup.ideal_task_duration")], NOTE)

prop("C06", "Waiting work goes to the earliest available resource without idling",
     "When a non-batched activity is served, it goes to an assigned resource that becomes free no later than any other assigned "
     "resource, and starts at the first moment at which it is enabled, that resource has finished the work it was given before, "
     "and its calendar is open: no later and no earlier.",
     ["schedules", "histories"],
     "All orders in which work is enabled and resources released, all partly overlapping pools.",
     TESTS + "which resource is free first depends on the whole history of the run.",
     [QUE, ENG],
     [("earliest released first", QUE + ":PriorityQueue.pop_min"),
      ("release at completion", QUE + ":DiffResourceQueue.update_resource_availability"),
      ("start time", ENG + ":SimBPMEnv.execute_task")], NOTE)

prop("C07", "Waiting work is served by case priority, then by enabling time",
     "Among the activities waiting to be served, those of a case with a higher priority level (a lower number, decided by the "
     "first prioritisation rule whose condition the attributes of the case satisfy; cases no rule matches come last) are served first, and "
     "those with equal priority in the order in which they were enabled. Intermediate events are not delayed by priorities.",
     ["schedules", "histories", "configurations"],
     "All rule sets over case attributes, all loads.",
     TESTS + "order inversions need particular combinations of three or more waiting items.",
     [QUE, PY + "prioritisation.py", PY + "prioritisation_rules.py", ENG],
     [("event queue ordered by (priority, enabling time)", QUE + ":EventQueue"),
      ("priority of a case", PY + "prioritisation.py:CasePrioritisation"),
      ("rule evaluation", PY + "prioritisation_rules.py")], NOTE)

prop("C08", "Batched work is neither lost nor repeated",
     "An activity that is performed in batches is performed exactly once for each time a case reaches it, like any other activity: no case "
     "waiting for a batch is forgotten when other cases' batches are fired, when the arrivals end or when no rule can fire any more, none is performed "
     "twice, and the case continues after its batch as the process model says.",
     ["schedules", "histories", "configurations"],
     "All firing rules (sizes, waiting times, weekdays, hours, combinations), batch types and interleavings of cases, with choices, parallel branches, "
     "loops and terminate events around the batched activities.",
     TESTS + "which cases wait while another batch is fired depends on the whole schedule, and the tests use one batched activity each.",
     [CFM, ENG, BAT],
     [("cases waiting for a batch", CFM + ":BPMNGraph.increase_task_count"),
      ("firing and clearing", CFM + ":BPMNGraph.move_batch_if_enabled"),
      ("what is left at the end", ENG + ":SimBPMEnv.execute_if_any_unexecuted_batch")], NOTE,
     state=[("waiting cases", "case and enabling time per batched activity", CFM + ":BPMNGraph.batch_waiting_processes")])

prop("C09", "The members of a batch are performed together by one resource",
     "A batch consists of instances of one activity of different cases. Each of its chunks is performed by one resource: in parallel, starting at the same moment "
     "after the last member is enabled, or one after another without another work of that resource in between. The duration of a member is drawn as for single work and "
     "scaled by the factor configured for the size (that of the nearest configured size). The resource is "
     "free only when the last member is completed.",
     ["schedules", "histories", "configurations"],
     "All batch sizes and duration factors, both batch types, resources shared with unbatched work.",
     TESTS + "they look at one batch in isolation, not at what else the resource does meanwhile.",
     [ENG, CFM, BAT],
     [("execution of a batch", ENG + ":SimBPMEnv.execute_task_batch"),
      ("sequential members", ENG + ":SimBPMEnv.execute_seq_task_batch"),
      ("parallel members", ENG + ":SimBPMEnv.execute_parallel_task_batch")], NOTE)

prop("C19", "A batch is fired when its rules say, for those its rules say",
     "A batch is fired with a size the size rules (or the size distribution) allow; only when nothing can join any more what is left is performed in "
     "smaller sizes. With a single rule, a batch performed in parallel by a resource that is free starts when the rule becomes true: when the size is "
     "reached, within a second of when the waiting time of the first (large_wt) or last (ready_wt) member is reached; work enabled after the limits of "
     "the waiting times does not join. Of the work enabled while none waits, the configured share is performed outside of a batch; without rules, sizes "
     "occur as often as the size distribution says. With a weekday or hour, it starts no earlier than that moment after the first member is enabled, and no later than the first thing "
     "that happens one period after that moment for the last.",
     ["schedules", "histories", "configurations"],
     "All comparison operators and values, waiting times from minutes to days, arrivals in bursts and with gaps of weeks.",
     TESTS + "the rules are evaluated only when something happens, so the moments depend on the interleaving with all other work.",
     [BAT, CFM, ENG],
     [("rule evaluation and batch sizes", BAT + ":AndFiringRule.get_firing_batch_size"),
      ("waiting times", BAT + ":AndFiringRule.get_large_wt"),
      ("batches in time order", ENG + ":SimBPMEnv.append_any_enabled_batch_tasks")], NOTE)

prop("C10", "Attributes appear, stay and change exactly as configured",
     "The log has one column per configured attribute. A case attribute gets one value from its configured domain when the case starts "
     "and keeps it throughout the case; an event attribute is empty until an activity that sets it is performed, "
     "takes there a value its generator allows given the current values, and is never changed by anything else or by other cases. "
     "A global attribute has one value shared by all cases at any moment. Over many cases the values follow the configured probabilities and distributions, "
     "each independent of the one before except where a Markov chain says otherwise.",
     ["schedules", "histories", "configurations"],
     "All mixes of discrete, continuous, Markov, expression and decision-tree attributes at global, case and event level, and all interleavings of cases.",
     TESTS + "leaks between interleaved cases show only in histories where two cases alternate.",
     [ENG, PY + "all_attributes.py", PY + "case_attributes.py", PY + "event_attributes.py", PY + "global_attributes.py"],
     [("update at each performed activity", ENG + ":SimBPMEnv.update_attributes"),
      ("case attributes at creation", PY + "case_attributes.py:AllCaseAttributes"),
      ("row values", ENG + ":SimBPMEnv.get_csv_row_data")], NOTE)

prop("C11", "Branching follows the conditions and probabilities of the scenario",
     "At an exclusive split with conditions, the branch taken is one whose condition holds for the current attribute values "
     "of the case; if none holds the default branch is taken, else a branch with positive probability. At an inclusive split "
     "exactly the branches whose conditions hold are taken (the default or a probabilistic choice if none does). Branches with "
     "probability 0 are never taken and other branches are taken as often as their probabilities say; branches given no "
     "probability share equally what the others of the gateway leave.",
     ["schedules", "histories", "configurations"],
     "All condition tables (string, numeric and range comparisons, and/or combinations), attribute histories and probabilities.",
     TESTS + "each fixes one attribute value; conditions on values changing during the case are not explored.",
     [PY + "outgoing_flow_selector.py", PY + "gateway_condition_choice.py", PY + "branch_condition_rules.py", PY + "probability_distributions.py"],
     [("choice of flows", PY + "outgoing_flow_selector.py:OutgoingFlowSelector"),
      ("condition evaluation", PY + "branch_condition_rules.py"),
      ("probabilistic choice", PY + "probability_distributions.py:Choice")], NOTE)

prop("C12", "The gateway execution limit stops runaway cases, and only those",
     "With a gateway execution limit L, no case passes a splitting gateway more than L times: the case that would is stopped, "
     "performs nothing further from there, and leaves a warning naming the case. Cases that stay within the limit are unaffected.",
     ["schedules", "histories", "configurations"],
     "All loop structures and limits 2..5 (and the default), all numbers of concurrent cases.",
     TESTS + "one test covers one loop with one limit.",
     [CFM, PAR],
     [("execution counter per case and gateway", CFM + ":BPMNGraph.update_process_state"),
      ("warning", PY + "warning_logger.py")], NOTE, observe=("event log CSV", "simulation_warnings.txt"))

prop("C13", "Cases arrive as the arrival process and calendar say",
     "The first case arrives at the simulation start (moved into the arrival calendar if closed). Every later case arrives "
     "after the previous one by an inter-arrival time its distribution allows, moved forward to the next opening of the arrival calendar "
     "when it falls outside it; no case arrives while that calendar is closed. Cases are numbered in order of arrival, "
     "from 0. Over many cases the times between arrivals are independent and follow their distribution or histogram. When the arrival times of the cases are given to the simulation, each case arrives exactly that long after its start.",
     ["inputs", "configurations", "histories"],
     "All arrival calendars, distributions and start moments (inside, outside and at the edge of open intervals).",
     TESTS + "only 24/7 and 9-17 calendars and a handful of start moments are tried.",
     [SET, ENG],
     [("next arrival", SET + ":SimDiffSetup.next_arrival_time"),
      ("generation of arrivals", ENG + ":SimBPMEnv.generate_all_arrival_events"),
      ("given arrivals", ENG + ":SimBPMEnv.generate_fixed_arrival_events"),
      ("start moment", SET + ":SimDiffSetup.set_starting_datetime")], NOTE)

prop("C14", "Events take their own time and the earliest event wins a gateway",
     "An intermediate event begins when it is enabled, needs no resource and lasts a duration its distribution allows. "
     "At an event-based gateway exactly one event occurs, the one with the shortest drawn waiting time, and exactly after that "
     "time; the competing events never occur for that token. Over many occurrences the durations follow their distributions, and each event wins "
     "as often as they say.",
     ["schedules", "histories"],
     "All mixes of timers, messages and signals and of competing distributions, including zero durations.",
     TESTS + "tests use fixed durations with one winner.",
     [ENG, CFM],
     [("race between events", CFM + ":BPMNGraph.update_process_state"),
      ("execution of an event", ENG + ":SimBPMEnv.execute_event")], NOTE)

prop("C15", "A terminate end event ends its case at once and no other case",
     "When a case reaches a terminate end event, nothing of that case that was still waiting is performed afterwards, "
     "whatever branch it was on, and its waiting activities do not count for the size of a batch. Other cases go on unaffected.",
     ["schedules", "histories"],
     "All races between parallel branches one of which ends in a terminate end event, under contention.",
     TESTS + "the losing branch must be waiting at exactly the right moment.",
     [ENG, CFM],
     [("cancelled work is skipped", ENG + ":SimBPMEnv.execute_enabled_event"),
      ("tokens removed", CFM + ":BPMNGraph.update_process_state")], NOTE)

prop("C16", "The statistics agree with the event log",
     "Every number of the statistics report equals what the event log of the same run implies: simulation start and end, per activity "
     "count and min/max/average/total waiting, processing, cycle, idle times and cost; per resource the tasks performed, time worked, time available and "
     "utilisation; and for the process cycle, processing, waiting and idle times over all cases, "
     "with overlapping intervals counted once. The loader that comes with the simulator reads back the same numbers from these files.",
     ["histories", "schedules", "configurations"],
     "All runs as above, with costs, calendars, events and parallel branches.",
     TESTS + "no test recomputes a statistics file from its log; rounding and overlap cases need many histories.",
     [STA, PY + "execution_info.py", ENG],
     [("per activity", STA + ":LogInfo._update_global_task_stats"),
      ("per process", STA + ":LogInfo.compute_execution_times"),
      ("per resource", STA + ":save_resource_utilization")], NOTE, observe=("statistics CSV", "event log CSV"))

prop("C17", "Results are complete or the run fails visibly, whatever the storage does",
     "When a simulation reports success, its output files are complete: every row and statistic is there exactly once, however the data was "
     "cut into writes (including logs of more than 10000 rows, which are written in several pieces). When writing, opening or "
     "closing a file fails, or the process is interrupted or killed, the run does not report success; the files left behind "
     "are a prefix of the complete ones, and running again into the same folder yields exactly the complete result, with nothing of an "
     "older or partial one left in it.",
     ["crash points", "faults", "histories"],
     "A crash or exception at every random decision, write, open and close; torn and short writes, full disk, I/O errors at open, write and close, "
     "unreadable inputs; restart into a folder holding partial or older results; buffer and flush sizes from 16 bytes to the real ones.",
     TESTS + "no test lets a write fail or restarts after a crash.",
     [ENG, PY + "file_manager.py"],
     [("buffered log rows", PY + "file_manager.py:FileManager"),
      ("output files", ENG + ":run_simulation"),
      ("statistics", STA + ":LogInfo.save_joint_statistics")],
     "Seeded exploration: per run one reference execution, one with one or two injected faults, one restart; byte comparison. "
     "Faults act below Python's buffering on the real writer code.",
     observe=("event log CSV", "statistics CSV", "simulation_warnings.txt", "exception raised by run_simulation"))

prop("C18", "A simulation depends on its inputs and random decisions only",
     "The same model, parameters, start moment and random decisions give the same event log, statistics and warnings, byte for byte: whatever other "
     "simulations the process ran before (finished, failed or interrupted), whatever the wall clock, time zone, locale or hash seed of the interpreter, "
     "whichever outputs are requested, and whether started by the command line or the API. Results returned without output files "
     "equal those written to files.",
     ["histories", "environments", "schedules"],
     "Histories of up to three earlier simulations with faults in any of them; all combinations of requested outputs; other interpreters.",
     TESTS + "each test runs in one process and environment; leaks between simulations and dependence on iteration order of sets show only in comparison.",
     [ENG, PY + "warning_logger.py", QUE, CFM, "cli/diff_res_bpsim.py"],
     [("module-level warnings", PY + "warning_logger.py:warning_logger"),
      ("order of resources in queues", QUE + ":DiffResourceQueue"),
      ("command line", "cli/diff_res_bpsim.py:start_simulation")],
     "Seeded exploration: each run compares executions of one scenario in a pristine forked process, after a random history, and in "
     "another interpreter; byte comparison of all outputs.",
     observe=("event log CSV", "statistics CSV", "simulation_warnings.txt", "returned indicators"))

prop("C21", "Fuzzy calendars: work is done when it may be, and always when it must be",
     "With calendars of granules carrying probabilities of being available, an activity starts and makes progress only in granules "
     "whose probability is positive, starts no later than the first granule with probability 1, and uses every granule with "
     "probability 1 until it completes; it completes inside a granule with positive probability. If all probabilities are 0 or 1, start, "
     "completion, time worked and time available are those of the corresponding ordinary calendar, to the second.",
     ["schedules", "inputs", "configurations"],
     "Weekly calendars with availability and workload probabilities per interval, granules of 15 minutes to an hour in any unit, all draws, "
     "durations from 0 to weeks, batches.",
     TESTS + "fuzzy calendars are not tested at all in the stable suite.",
     [PY + "fuzzy_engine/fuzzy_calendar.py", SET, PAR, STA],
     [("duration over granules", PY + "fuzzy_engine/fuzzy_calendar.py:FuzzyModel.find_idle_time"),
      ("next availability", PY + "fuzzy_engine/fuzzy_calendar.py:FuzzyModel.next_available_time"),
      ("available time", STA + ":compute_fuzzy_availability")], NOTE, observe=("event log CSV", "statistics CSV"))

prop("C22", "Parameters discovered from an event log describe that log",
     "Discovery turns an event log and its process model into simulation parameters that describe that log: every activity that happened, "
     "and no other, has as performers with a calendar and a duration only resources that performed it; every case starts "
     "within the discovered arrival calendar; durations (within the calendar, if fitted to it) and times between cases have the mean and limits of those observed (of the performer, or of "
     "all performers of an activity it rarely did), are fixed if those hardly vary, or have their histogram if asked for; the probabilities of an exclusive split are "
     "the frequencies with which its branches were taken. The same log gives the same parameters, whatever the clock; a discovery whose "
     "files fail does not report success; and the parameters can be simulated again, giving only activities and performers of the log. Rows of activities "
     "the process does not have, and of its start and end events, change nothing; options out of range and logs without the needed columns, "
     "performers or moments are refused, and nothing is written.",
     ["inputs", "histories", "faults"],
     "Logs of simulated runs of generated processes (choices, loops, parallel blocks, calendars, shared resources), all "
     "discovery options, failing files and clock jumps. Branch frequencies are judged for processes without inclusive "
     "blocks.",
     TESTS + "discovery has one smoke test on one log.",
     ["bpdfr_discovery/log_parser.py", CFM, PAR],
     [("discovery", "bpdfr_discovery/log_parser.py:preprocess_xes_log"),
      ("replay of the log on the model", CFM + ":BPMNGraph.reply_trace"),
      ("durations per resource", "bpdfr_discovery/log_parser.py:discover_resource_task_duration_distribution"),
      ("branching probabilities", CFM + ":BPMNGraph.compute_branching_probability")],
     "Seeded exploration: each run simulates a process, discovers its parameters from the log under injected file failures and clock jumps, "
     "compares them with the history and simulates them again.",
     observe=("discovered parameters JSON", "event log CSV of their simulation"))

prop("C23", "The warnings of a simulation tell what happened in it",
     "simulation_warnings.txt names exactly the tasks, events, gateways and flows used more often than once per case or, of those, "
     "less often than in one of a hundred cases (flows: at least once), with how often they were used; has one line for every time no condition of a gateway "
     "held (naming its default flow, if any) or several conditions of an exclusive gateway held; and names the gateways some of whose flows lack a "
     "condition or a probability, with the probabilities these flows were given. It holds no warning of another simulation.",
     ["schedules", "histories", "configurations"],
     "All process structures, condition tables and attribute histories; loops stopped by the execution limit; sequences of simulations in one process.",
     TESTS + "one test reads the warnings of two fixed gateways.",
     [PY + "simulation_execution_stats.py", PY + "outgoing_flow_selector.py", PY + "simulation_properties_parser.py", PY + "warning_logger.py", CFM],
     [("counting of executions", PY + "simulation_execution_stats.py:SimulationExecutionStats"),
      ("usage warnings", PY + "simulation_execution_stats.py:SimulationExecutionStats.find_issues"),
      ("fallbacks at gateways", PY + "outgoing_flow_selector.py:OutgoingFlowSelector"),
      ("missing conditions and probabilities", PY + "simulation_properties_parser.py")],
     NOTE + " Counts are judged where the log leaves no doubt about the path (no terminate end event, no two silent paths between the same "
     "activities); the end event is not judged.",
     observe=("event log CSV", "simulation_warnings.txt"))

prop("C24", "Event logs are read back, replayed and compared as what they record",
     "The tools that read an event log take from it exactly what it records, whatever the order of its rows, their time zone or additional columns: "
     "every row once, in its case, with its moments; the starting moments of the cases; the activities in order of time. Replaying a case of "
     "a process on its model finds it a correct execution, and one that lacks an activity before its last not; the processing times of an activity are those of its rows, and it waited since the "
     "activities before it - of the branch that completed last - completed. The distances of two logs (starts and ends per hour, day or minute; durations of "
     "cases) are the earth mover's distances of what they record, the same in both directions and 0 for a log and itself. A log "
     "that cannot be read is never reported as part of one.",
     ["inputs", "histories", "faults"],
     "Pairs of histories of generated processes with other case counts, starts and schedules, rows rearranged, moments rewritten; reads that fail at any place or "
     "come in pieces.",
     TESTS + "no stable test reads a log back with these tools.",
     ["bpdfr_discovery/log_parser.py", "bpdfr_discovery/emd_metric.py", PY + "fuzzy_engine/event_log_analyser.py", CFM],
     [("reading of logs", "bpdfr_discovery/log_parser.py:event_list_from_csv"),
      ("replayed activity times", "bpdfr_discovery/log_parser.py:compute_kpi_times_from_csv_log"),
      ("replay of a case", CFM + ":BPMNGraph.reply_trace"),
      ("distances", "bpdfr_discovery/emd_metric.py"),
      ("starting moments", PY + "fuzzy_engine/event_log_analyser.py:get_starting_datetimes")],
     "Seeded exploration: each run simulates two histories of a generated process, rewrites their logs and judges what the readers return against an independent reading, under "
     "injected read failures and short reads.",
     observe=("event log CSV", "returned values"))

prop("C25", "A scenario that cannot be simulated is refused, or fails where it is reached; it never gives plausible results",
     "A scenario that contradicts itself or is incomplete gives no results. Probabilities of a discrete attribute or a row of its Markov chain that do not "
     "sum to 1, unknown attribute types, a case attribute that an activity also sets, batch rules with an unknown type, with weekdays "
     "compared by order, with two weekdays, three hours or a waiting time without an upper limit, missing sections, unknown resources, calendars and "
     "distributions, distributions without their parameters, a process without or with two end events, files that are cut off or missing and starting "
     "moments that are none are refused before anything is simulated: the failure is visible and says something about its cause, no row is logged, no "
     "statistics are written. What only matters when a case comes to it - an activity without resources, a gateway without probabilities, an event without a "
     "duration, a batch rule on an unknown attribute, a condition that does not exist - fails when it is reached; if nothing fails, what was simulated is "
     "what the rest of the scenario says, and that element was never performed.",
     ["inputs", "configurations", "faults"],
     "One contradiction, at any place it can be put, in any generated scenario (structure, calendars, attributes, batches, priorities); input files cut off at any place.",
     TESTS + "tests hold a handful of contradictory fixtures, each otherwise minimal.",
     [PAR, SET, PY + "case_attributes.py", PY + "event_attributes.py", PY + "global_attributes.py", PY + "batch_processing_parser.py", CFM, ENG],
     [("parsing of the scenario", PAR + ":parse_json_sim_parameters"),
      ("checks of attributes", PY + "case_attributes.py:CaseAttribute.validate"),
      ("checks of batch rules", PY + "batch_processing_parser.py:BatchProcessingParser"),
      ("parsing of the model", PAR + ":parse_simulation_model")],
     "Seeded exploration: a contradiction is injected into a generated scenario as a fault, the whole simulation is run, and the failure, the rows and the statistics are judged.",
     observe=("raised exception", "event log CSV", "statistics CSV"))

prop("C26", "Results do not depend on how the scenario is written, nor on the week it starts in",
     "The same scenario gives the same log, statistics and warnings - for the same random decisions, to the byte - however it is written: with the keys and "
     "entries of the parameters in another order (where order has no meaning), entries and periods of several days split up, other white space, escapes, whole numbers with a decimal point, additional "
     "keys nobody asks for; with the elements of the BPMN model named by other identifiers, under another namespace prefix, in one of several pools, with comments, documentation, "
     "lanes, annotations, a diagram, attributes of other tools or entities for characters. Simulated from the same weekday and hour of another week it gives the same history, moved by whole weeks.",
     ["inputs", "configurations", "schedules"],
     "Any scenario and any combination of ways to write it; the random decisions are the same on both sides.",
     TESTS + "each test has one way of writing its scenario.",
     [PAR, CFM, SET, PY + "simulation_execution_stats.py", QUE, ENG],
     [("parsing of the model", PAR + ":parse_simulation_model"),
      ("parsing of the parameters", PAR + ":parse_json_sim_parameters"),
      ("identifiers", CFM + ":BPMNGraph"),
      ("calendars and the week", PY + "simulation_setup.py")],
     "Seeded exploration: each run simulates a generated scenario, writes it in another way, simulates it again under the same decision tape and compares every output.",
     observe=("event log CSV", "statistics CSV", "simulation_warnings.txt"))
