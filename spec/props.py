"""The properties, in one place; spec/gen.py turns them into the required files."""

SRC = "src/upstage_des/"


def f(*names):
    return [SRC + n for n in names]


PROPS = [
 dict(id="C01", title="A linear state equals its start plus the integral of its rate",
  statement="At any instant, reading a linearly changing state returns the last assigned value plus "
  "the rate times the time it has been active since then, no matter how often or when it is read. "
  "An assignment made while it is active is the value the change continues from; deactivating or an "
  "interrupt freezes the value reached at that instant.",
  over=["inputs", "schedules"],
  quant="every start value, rate, activation window, set of read times, assignment time and interrupt time",
  why="Tests read at a few hand-picked integer times; drift, double counting and ordering errors "
  "depend on which reads and writes fall between activation and deactivation.",
  files=f("states.py", "actor.py", "task.py"),
  mech=[("LinearChangingState", "states.py"), ("activate_state / deactivate_state", "actor.py")],
  note="1-3 activations, 1-3 reads, one assignment or interrupt at any time."),
 dict(id="C02", title="A shared linear state changes at the sum of its users' rates",
  statement="While several tasks use a shared linear state at once, its value is the last assigned "
  "value plus, for each task, that task's rate times the time it has been a user since. A task that "
  "stops or is interrupted removes only its own contribution; a task cannot join twice or remove "
  "another task's contribution.",
  over=["inputs", "schedules"],
  quant="every number of users up to the bound, every overlap of their windows, rates, reads, "
  "assignments and interrupts",
  why="Tests use two tasks with fixed overlap; the result depends on the interleaving of joins, "
  "leaves, reads and assignments.",
  files=f("state_sharing.py", "actor.py", "states.py"),
  mech=[("SharedLinearChangingState", "state_sharing.py"), ("state locking", "actor.py")],
  note="2-3 users, every overlap of their windows, cut by an interrupt, with reads and an assignment."),
 dict(id="C03", title="A moving actor is exactly where speed and waypoints put it",
  statement="A location state in motion reads as the point at distance speed x elapsed time along "
  "the path through its waypoints (with linear altitude for geodetic paths), ends at the last "
  "waypoint, and stays where it was when deactivated or interrupted; waiting exactly the travel time "
  "arrives, however far the clock has advanced. The remaining waypoints are "
  "exactly those not passed yet, so continuing over them follows the original path; reading a "
  "location beyond the end of its path is an error.",
  over=["inputs", "schedules"],
  quant="every start, leg length (also zero), speed, read time, interrupt time and pause",
  why="Tests check a few points of fixed paths; leg selection depends on comparisons between "
  "elapsed and accumulated times that only particular instants exercise.",
  files=f("states.py", "actor.py", "data_types.py", "math_utils.py"),
  mech=[("CartesianLocationChangingState, GeodeticLocationChangingState", "states.py"),
        ("get_remaining_waypoints", "actor.py")],
  note="up to 3 legs in fixed 3D directions with symbolic lengths; geodetic against a flat "
  "distance model."),
 dict(id="C04", title="States are exclusive and interrupts leave a clean actor",
  statement="A changing state that one task is using cannot be activated by another task until it is "
  "released, and only its user can release it. For any history of interrupts, the handler sees the "
  "current marker and cause once per interrupt, and ENDing stops the task, RESTARTing runs it again "
  "from the beginning, and IGNOREing has no effect on timing; after an end or restart all states the "
  "task was changing are frozen at their current value and free for use. A plain process a task waits for "
  "is interrupted with the same cause, unless the interrupt is ignored.",
  over=["histories", "schedules"],
  quant="every sequence of interrupts (time and chosen action), phase lengths and marker actions",
  why="Tests interrupt once at a fixed time; the combination of two interrupts, ignored or "
  "restarting, with active states is a history no test enumerates.",
  files=f("task.py", "actor.py", "states.py"),
  mech=[("Task.run, Task._handle_interruption, markers", "task.py"),
        ("_lock_state / _unlock_state / deactivate_all_states", "actor.py")],
  note="up to 3 interrupts with any action, up to 4 competing users."),
 dict(id="C05", title="A recorded history is the exact sequence of values the state took",
  statement="For any sequence of assignments a recording state's history is exactly the assigned "
  "(time, value) pairs in order, without an entry that repeats the previous one at the same time "
  "unless duplicates are asked for; values are snapshots. Recording functions add histories computed "
  "from the same assignments, separately for every actor. The history of an active state contains "
  "only values that were true at their time, and one activation and one deactivation mark with the "
  "value of that instant before each.",
  over=["histories", "inputs"],
  quant="every sequence of assignment times (also equal), values (also repeated), states and actors",
  why="Duplicates, equal times and interleaved actors are exactly the combinations tests do not try.",
  files=f("states.py", "actor.py", "data_utils/data_utils.py"),
  mech=[("State.__set__, _do_record", "states.py"), ("ActiveState recording", "states.py")],
  note="3-4 assignments over two actors; one activation with up to 3 reads."),
 dict(id="C06", title="States keep their declared contract",
  statement="Creating an actor gives each state the value passed, else its default (a fresh object "
  "from a factory), and raises for a missing, unknown or no_init state. An unset state is an error to "
  "read. A frozen state never changes once set, a state with valid types never holds another type, "
  "and an assignment that raises leaves value and history as they were. An active state never "
  "drops a change or counts it twice when it is (re)activated or deactivated.",
  over=["inputs", "histories"],
  quant="every subset of states given at creation and every sequence of assignments",
  why="Options interact (frozen with none default, no_init with recording); a test tries each alone.",
  files=f("states.py", "actor.py"),
  mech=[("State.__init__, __set__, __get__, has_default", "states.py"), ("Actor.__init__", "actor.py")],
  note="seven kinds of states, every subset at creation, 2-3 assignments over two actors."),
 dict(id="C07", title="Knowledge refuses accidental overwrites and losses",
  statement="Knowledge behaves as a dictionary: setting a name that is known is refused unless "
  "overwriting is asked for, clearing or requiring an unknown one is an error, getting gives the "
  "exact value stored (falsy ones too), also through the bulk forms, and a refused single operation "
  "changes nothing. A task holding for a knowledge event resumes exactly when it is succeeded and no "
  "event stays known after the hold ends in any way.",
  over=["histories", "schedules"],
  quant="every sequence of operations on any initial knowledge; every wait, signal and interrupt time",
  why="Refusals depend on what was stored before; holds depend on the order of signal and interrupt.",
  files=f("actor.py", "task.py"),
  mech=[("set_knowledge, get_knowledge, clear_knowledge, bulk forms", "actor.py"),
        ("create_knowledge_event, succeed_knowledge_event", "actor.py")],
  note="2-4 operations on 3 names; one hold with up to 3 interrupts."),
 dict(id="C08", title="A task network runs its queue, then its default links",
  statement="After each task a network runs the next queued task if there is one, else the default "
  "link, starting it at the instant the previous one ended, and stops with an error when neither "
  "exists; decisions take no time and may change the queue, terminal tasks end the network, and "
  "interrupts reach the running task. Several networks of an actor run side by side independently. "
  "Queue changes that the links do not allow are refused and change nothing.",
  over=["histories", "schedules"],
  quant="every sequence of queue decisions, default links, durations, interrupts and outside changes",
  why="Tests walk one path through one network.",
  files=f("task_network.py", "actor.py", "task.py"),
  mech=[("TaskNetwork.loop, _next_task_name", "task_network.py"),
        ("set_task_queue, start_network_loop, interrupt_network", "actor.py"),
        ("DecisionTask, TerminalTask", "task.py")],
  note="3-4 consecutive tasks; F14 (a link outside the allowed ones is followed) is a known finding."),
 dict(id="C09", title="A rehearsal predicts the run and leaves no trace",
  statement="Rehearsing a task or network returns a copy of the actor with exactly the states, "
  "knowledge and time that really running it then would give, with Any finishing at its earliest and "
  "All at its latest planned part. Whether it succeeds or fails, a rehearsal changes nothing in the "
  "simulation: the same run with and without rehearsals is identical.",
  over=["inputs", "schedules"],
  quant="every planned time in nested event trees, every phase length, rate and rehearsal time, every "
  "queue decision",
  why="Tests rehearse one task with fixed planned times and look at a few attributes.",
  files=f("task.py", "events.py", "actor.py", "task_network.py"),
  mech=[("Task.rehearse", "task.py"), ("rehearse of every event", "events.py"),
        ("clone, rehearse_network", "actor.py"), ("TaskNetwork.rehearse_network", "task_network.py")],
  note="trees of 4 events nested twice, tasks of 3 phases, networks of 3-4 tasks."),
 dict(id="C10", title="Events complete exactly when their definition says",
  statement="A Wait completes after its duration converted to the stage's time unit (a random wait "
  "lies within its bounds); All completes with its last and Any with its first event, at any nesting, "
  "and afterwards exactly the parts that happened are complete. An Event releases everyone waiting "
  "for it at the instant it succeeds and hands them its payload; it can be waited for again unless "
  "auto reset is off, and succeeding an event that already completed is an error.",
  over=["inputs", "schedules"],
  quant="every assignment of durations to event trees and every interleaving of signals and waits",
  why="Completion depends on the order of durations at every level of nesting, and on whether a "
  "signal comes before, during or after a wait.",
  files=f("events.py", "units/convert.py"),
  mech=[("Wait, Any, All, Event", "events.py")],
  note="trees of up to 4 waits nested twice, 4-6 signals, 2-3 waiters."),
 dict(id="C11", title="Cancelled and interrupted requests neither lose nor duplicate anything",
  statement="Whatever the interleaving of interrupts, timeouts and grants (also in the same instant): "
  "every item or amount put in is either still there or was received by exactly one task; an "
  "interrupted or cancelled request receives nothing and holds nothing; a resource is granted in the "
  "order of requests to at most its capacity and is free again after release.",
  over=["schedules", "histories"],
  quant="every interleaving of supply, request, timeout and interrupt times",
  why="The same-instant race between a grant and an interrupt needs a schedule no test constructs.",
  files=f("events.py", "task.py"),
  mech=[("BaseRequestEvent.cancel, Get, Put, ResourceHold", "events.py"),
        ("Task._handle_interruption", "task.py")],
  note="2-3 requesters, up to 2 interrupts; a put accepted in the instant of its interrupt may stay; "
  "requests that simpy leaves behind a cancelled head of its queue are excluded."),
 dict(id="C12", title="A continuous container's level is exactly what flowed in minus what flowed out",
  statement="At any instant the level is the initial level plus rate times time for every put and "
  "minus it for every get that has been running, never below zero or above capacity. On reaching a "
  "limit the users that caused it are stopped at that very instant and told once (or, if configured, "
  "the matching error is raised); cancelling a user ends only its own flow; users that end just as a limit is reached (as with "
  "time_until_done) end quietly if limits are no errors. The time predictions agree with the flow, and "
  "nothing flows when every user has ended.",
  over=["inputs", "schedules"],
  quant="every overlap of users, capacity, initial level, cancel and read time",
  why="Which limit is reached, and when, depends on the overlap of users; tests use one overlap.",
  files=f("resources/container.py", "resources/monitoring.py"),
  mech=[("ContinuousContainer", "resources/container.py")],
  note="2-3 users; rates symbolic for one user, small integers for more; boundaries of different "
  "users coincide only for users that end at the limit."),
 dict(id="C13", title="Reservations are honoured exactly for any history of requests",
  statement="For any sequence of reserve, take, cancel, put and expiration, the amount that can still "
  "be reserved is what was put in minus what was taken minus what is reserved, never negative; a "
  "reservation lasts until it is taken, cancelled or its own expiration passes; refused operations "
  "change nothing.",
  over=["histories"],
  quant="every sequence of operations up to the bound with symbolic amounts and times",
  why="Expirations interact with later reservations of the same requester only in longer histories.",
  files=f("resources/reserve.py", "resources/monitoring.py"),
  mech=[("ReserveContainer", "resources/reserve.py")],
  note="3-4 operations, 2 requesters; operations in the instant of an expiration excluded."),
 dict(id="C14", title="A sorted filter store hands out the best matching item",
  statement="A get receives, as soon as any item passes its filter, the passing item its sorter puts "
  "first (last if reversed; first come first served on ties or without a sorter); gets are considered "
  "in order and one that matches nothing does not block others; no item is lost or delivered twice.",
  over=["inputs", "schedules"],
  quant="every assignment of keys and filters and interleaving of puts and gets",
  why="Selection depends on the relative order of all keys, and on falsy or equal items.",
  files=f("resources/sorted.py", "resources/monitoring.py"),
  mech=[("SortedFilterStore._do_get", "resources/sorted.py")],
  note="3-4 items, 2-3 gets."),
 dict(id="C15", title="A self monitoring resource records every change of its content",
  statement="The record of a self monitoring store or container starts with its initial content and "
  "holds, in order, the time and value (length, level or user function) after every completed put and "
  "get, also of several in one instant and of requests that had to wait; nothing else. Its last entry "
  "is the current content.",
  over=["schedules", "inputs"],
  quant="every interleaving of puts and gets, amounts, capacities and item values",
  why="Requests that wait, or complete in the same instant as another, are recorded through different "
  "code paths than immediate ones.",
  files=f("resources/monitoring.py", "resources/sorted.py"),
  mech=[("SelfMonitoring*._record, _do_put, _do_get", "resources/monitoring.py")],
  note="2-3 puts and 2-3 gets; containers may repeat an unchanged level."),
 dict(id="C16", title="Point to point messages arrive once, on time, unless the link stays blocked",
  statement="A message is delivered exactly once, only to its destination's store for that mode (or "
  "connection), at the first attempt that finds the link open plus the send time; attempts are made "
  "at the retry rate and the message is dropped when the retries are used up. Blocking one link or "
  "node affects no other message, and messages over an open link keep their order.",
  over=["schedules", "inputs"],
  quant="every combination of send times, send delay, retry rate and blocked windows",
  why="Delivery depends on where each retry instant falls relative to each window.",
  files=f("communications/comms.py", "communications/processes.py", "states.py"),
  mech=[("CommsManagerBase._attempt, PointToPointCommsManager", "communications/comms.py")],
  note="1-3 messages, up to 2 windows, up to 4-6 retries; window edges exactly at an attempt excluded."),
 dict(id="C17", title="Routed messages take shortest open paths",
  statement="Every hop follows an existing link along a shortest remaining path that avoids the nodes "
  "that failed (until the next successful hop, or for good with global ignore); a blocked hop is "
  "retried and then avoided; the message arrives exactly once at the time those hops, retries and "
  "delays add up to, or is dropped when no route is left.",
  over=["inputs", "schedules"],
  quant="every network over the optional links and every blocked window",
  why="Replanning depends on the network and on when windows open; tests use two networks.",
  files=f("communications/routing.py", "communications/comms.py"),
  mech=[("RoutingTableCommsManager.select_hop, _do_transmit", "communications/routing.py")],
  note="4-5 nodes with up to 5-7 optional links, up to 2 windows, 1-3 retries."),
 dict(id="C18", title="Sensors are told exactly when detectable movers enter and leave their range",
  statement="With a SensorMotionManager a sensor is notified that an actor entered its range, and "
  "later that it left, alternating and at the exact instants of the crossings; at any instant the "
  "manager shows an actor in a sensor's view if and only if it moves, is detectable and is inside "
  "the range. Waypoints on the boundary of a range are no exception. Stopping ends nothing that was not left, hiding an actor ends every view of it at "
  "once, showing it again or adding a sensor starts the views it is inside of, and what a sensor does "
  "in reaction (stop or hide the mover) takes effect.",
  over=["inputs", "schedules"],
  quant="every placement, radius, speed, stop, restart and change of detectability",
  why="Which crossings are still valid depends on where a stop, restart or hiding falls between "
  "them; tests use a handful of layouts.",
  files=f("motion/motion.py", "motion/cartesian_model.py", "states.py", "geography/intersections.py"),
  mech=[("SensorMotionManager", "motion/motion.py"),
        ("cartesian_linear_intersection", "motion/cartesian_model.py")],
  note="1-2 movers, 1-2 sensors, up to 3 legs on a line; single legs in 3D with the real Cartesian model; "
  "geodetic (trigonometric) intersections are outside."),
 dict(id="C19", title="Stepped sensing reports every change of range it sees at a step and nothing else",
  statement="With a SteppedMotionManager, at every time step each sensor is told of exactly those "
  "detectable actors whose being within its radius changed since the last step; hiding an actor is "
  "told at once; objects with a rate of their own are checked at that rate. The manager stops after "
  "the given number of steps without anything to do and starts again with later motion.",
  over=["inputs", "schedules"],
  quant="every placement, speed, radius and time of start, stop, hiding and showing relative to the steps",
  why="Whether a change is seen depends on how it falls relative to steps, stops and hidings.",
  files=f("motion/stepped_motion.py", "states.py"),
  mech=[("SteppedMotionManager", "motion/stepped_motion.py")],
  note="1-2 detectables, 1-2 sensors, 4 (thorough 6) steps."),
 dict(id="C20", title="Units, clock display and waits agree about time and distance",
  statement="Converting a value multiplies it by the ratio of the two units under any of their "
  "names, there and back returns it, and distances do not convert to times. pretty_now shows the day and "
  "whole seconds of the clock in the stage's time unit. A wait given with a unit lasts that long in "
  "the stage's unit (hours if it has none).",
  over=["inputs"],
  quant="every value and clock reading and every pair of units",
  why="Rounding and carrying between seconds, minutes, hours and days fails only near particular readings.",
  files=f("units/convert.py", "base.py", "events.py"),
  mech=[("unit_convert", "units/convert.py"), ("SettableEnv.pretty_now", "base.py"),
        ("Wait", "events.py")],
  note="five distance and five time units; clock within three seconds of 14 instants."),
 dict(id="C21", title="The data tables hold exactly what was recorded",
  statement="create_table has one row per recorded value of every recording state (one per key or "
  "field of key/value states) and monitoring resource (also in a multi-store state), in order, with its time, value and whether "
  "the state was inactive, activating, active or deactivating, and with static states their last "
  "value; create_location_table has the same for locations by coordinate; rows belong to the "
  "actor, type and state that had the value and to this environment only. Recorded data keeps its "
  "time and order, as a snapshot if asked for.",
  over=["histories", "inputs"],
  quant="every sequence of changes up to the bound, at any times with any values",
  why="Rows are derived from mixed histories of values and marks; coincidences, untouched states and "
  "locations at rest are treated by different code.",
  files=f("data_utils/data_utils.py", "data_utils/data_recorder.py", "states.py", "state_proxies.py"),
  mech=[("create_table, create_location_table", "data_utils/data_utils.py"),
        ("record_data", "data_utils/data_recorder.py")],
  note="2-3 changes of eighteen kinds, two actors, two resources."),
 dict(id="C22", title="A mimic state is the other actor's state for as long as the mimicking lasts",
  statement="From its activation until it is deactivated or its task ends or is interrupted, a mimic "
  "state reads as the current value of the other actor's state, also an active one; a recording mimic "
  "records every change of the followed actor (and of no other) in that time; afterwards it keeps the "
  "last value and the two states no longer affect each other. Ending one mimic ends no other; "
  "incompatible or doubled mimics are refused without effect.",
  over=["schedules", "inputs"],
  quant="every window of mimicking and every time and value of the followed state's changes, reads and interrupts",
  why="Whether a change is seen, recorded or lost depends on how it falls relative to the window.",
  files=f("actor.py", "states.py", "task.py"),
  mech=[("activate_mimic_state / deactivate_mimic_state", "actor.py"), ("State.__get__", "states.py")],
  note="1-2 followers, 2 leaders, up to 2 changes and 2 reads, chains of two."),
 dict(id="C23", title="A nucleus interrupts exactly the networks that watch a state that changes",
  statement="Whenever a watched state of an actor is set, each network that watches it at that time "
  "gets exactly one interrupt at that instant whose cause names the state and its new value, in the "
  "order the networks were added; other networks, other actors and rehearsals are not disturbed, "
  "and tasks restart, go on or end as their reaction says.",
  over=["schedules", "inputs"],
  quant="every watch list and every time and value of changes, of adding and of removing a network",
  why="Depends on where changes fall relative to each other, to the tasks and to adding or removing.",
  files=f("nucleus.py", "states.py", "actor.py", "task_network.py"),
  mech=[("TaskNetworkNucleus.send_change", "nucleus.py"), ("State._broadcast_change", "states.py")],
  note="2 networks, 2 states, 2 (thorough 3) changes."),
 dict(id="C24", title="Key/value and resource states are true dicts, dataclasses and own resources",
  statement="A dictionary or dataclass state behaves as its value, whose changes are checked against "
  "its types and recorded with their times, per key or field, together with the state's recording functions; a resource "
  "state is a resource of the right kind, capacity and content that belongs to this actor and "
  "environment and cannot be replaced. No default, change, clone or failed change of one actor "
  "shows in another.",
  over=["histories", "inputs"],
  quant="every sequence of dictionary or dataclass operations on two actors, at any times with any "
  "values, and every way to give a resource its amounts",
  why="Aliasing and missed or doubled records depend on the sequence of operations.",
  files=f("states.py", "state_proxies.py", "actor.py"),
  mech=[("DictionaryState, DataclassState, ResourceState", "states.py"), ("proxies", "state_proxies.py")],
  note="sequences of 3 (thorough 4) operations; six kinds of resources."),
 dict(id="C25", title="Locations measure distances in the stage's units and never change",
  statement="The distance of two locations is the Euclidean (Cartesian) or ground-and-height "
  "(geodetic) distance in the stage's distance unit, whatever units the heights are in, and the same "
  "both ways; locations cannot be changed, equal ones hash alike unless declared by tolerance, and "
  "waypoint times and distances add up leg by leg.",
  over=["inputs"],
  quant="every pair of locations, units and list of waypoints within the bounds",
  why="Unit mistakes show only where heights and units differ; tests use single examples.",
  files=f("data_types.py", "utils.py"),
  mech=[("CartesianLocation, GeodeticLocation", "data_types.py"), ("waypoint_time_and_dist", "utils.py")],
  note="coordinates -3..3, heights in five units, up to 3 waypoints; the earth model is a free function."),
 dict(id="C26", title="Every environment context has its own clock, stage, entities and data",
  statement="Inside an EnvironmentContext, and only there, the clock, stage variables, actors, "
  "entity groups, monitored resources and recorded data are those made in it; entering and leaving "
  "another, even by an error, changes none of them and leaves nothing behind; stage variables are set "
  "once; clones join no group; an entity is in the groups of all of its classes once; random numbers "
  "depend only on the context's seed.",
  over=["histories", "inputs"],
  quant="every sequence of operations over nested contexts within the bounds, at any times",
  why="Leaks between runs depend on the order of entering, leaving and failing.",
  files=f("base.py", "actor.py", "data_utils/data_recorder.py"),
  mech=[("EnvironmentContext", "base.py"), ("NamedUpstageEntity", "base.py"), ("add_stage_variable", "base.py")],
  note="3-6 operations of ten kinds, three levels of contexts."),
 dict(id="C27", title="Routines run inside their task as if written there and clean up after themselves",
  statement="The steps of a routine happen at the same times as if its task yielded them, and its "
  "return value is what the task receives; if the task is ended or restarted the current routine (and "
  "no other) is cancelled once, with its pending request withdrawn, and an ignored interrupt changes "
  "nothing. A windowed get takes, in order, exactly the items that arrive before its window closes, "
  "and when interrupted puts them back. A rehearsed routine takes the time of its events and touches "
  "nothing real.",
  over=["schedules", "inputs"],
  quant="every length of steps and windows, arrival and interrupt time",
  why="What a routine holds when it is interrupted, or what its window catches, depends on the "
  "order of arrivals, ends and interrupts.",
  files=f("routines.py", "task.py", "events.py"),
  mech=[("Routine, WindowedGet", "routines.py"), ("Task.run", "task.py")],
  note="two routines, up to 4 (thorough 5) items, 1 (thorough 2) interrupts, two windows on one store."),
 dict(id="C28", title="Path-sphere crossings are found, classified and placed to resolution",
  statement="get_intersection_locations reports every passage of a straight leg through a sphere that is longer "
  "than its search step, in order, with the right kinds (START_INSIDE, ENTER, EXIT, END_INSIDE), and none for "
  "a leg that stays outside. Each reported place is inside the sphere and within the finest subdivision of "
  "the true crossing. Radii and distances are honoured in every unit, and legs too short to search are "
  "refused. The geodetic motion models pass these crossings on with their kinds, places and heights in the "
  "stage's units, the time to reach each, and the time of the whole leg.",
  over=["inputs"],
  quant="every sphere centre and radius relative to the leg",
  why="Whether a crossing is seen and which sample is chosen depends on how the sphere falls between the "
  "samples of each search level.",
  files=f("geography/intersections.py", "motion/geodetic_model.py"),
  mech=[("get_intersection_locations, _split_down, _preprocess", "geography/intersections.py"),
        ("subdivide_intersection, analytical_intersection", "motion/geodetic_model.py")],
  note="legs up to 4.6 (thorough 7.4) search steps on an exact flat earth, 1-2 (thorough 3) levels; the motion models over any result of the search or of the spherical formulas (decided in C29)."),
 dict(id="C29", title="Spherical geography is exact trigonometry for every place, bearing and distance",
  statement="On the sphere, distance is R times the angle between two places the short way round and "
  "symmetric, in every unit; bearing is the direction in 0..360 along the great circle to the place; "
  "point_from_bearing_dist is the place at that bearing and distance; points along, evenly spaced points and "
  "circles lie where their definition says, with ECEF heights interpolated; cross-track distance and point "
  "are those of the nearest point of the great circle, also behind the origin; ECEF conversion and back is "
  "the identity; the points of a route at a given distance along it, and at a given distance from a place, are "
  "those of the great circle. None of them fails on a regular configuration.",
  over=["inputs"],
  quant="every latitude, longitude, bearing, distance and height",
  why="A wrong sign, quadrant or clamp shows only in some quadrants or hemispheres, and agreeing with a "
  "few known city pairs does not exclude it.",
  files=f("geography/spherical.py", "geography/conversions.py", "motion/great_circle_calcs.py"),
  mech=[("Spherical", "geography/spherical.py"), ("SphericalConversions", "geography/conversions.py"),
        ("get_great_circle_points, get_pos_from_points_and_distance", "motion/great_circle_calcs.py")],
  technique="symbolic execution of the real Python code; branches and assertions reduced by exact algebra "
  "modulo the trigonometric identities and decided by z3",
  note="latitudes within 89.2 degrees, regular configurations (no poles, antipodes, coincident points); "
  "exact trigonometry; up to 4 segments, circles of 4 points."),
]

NA = [
 dict(prop=dict(id="C30", title="WGS84 geography solves the geodesic problems on the ellipsoid",
  statement="WGS84 distance, bearing, points along a line and ECEF conversions agree with the geodesic of the "
  "WGS84 ellipsoid to the accuracy of the published iterative methods, converge for every pair of places that "
  "is not nearly antipodal, and distance is symmetric.",
  over=["inputs"], quant="every latitude, longitude, bearing and distance",
  why="Convergence and accuracy depend on the pair of places.",
  files=f("geography/wgs84.py", "geography/conversions.py"),
  mech=[("WGS84", "geography/wgs84.py"), ("WGS84Conversions", "geography/conversions.py")]),
  reason="Vincenty's iteration and the cube-root ECEF inversion are unbounded float iterations of transcendental "
  "functions whose stopping test and accuracy are floating-point facts: in exact trigonometry the loop "
  "never reaches its fixed point, and neither z3 nor the exact normal forms of C29 decide the nested sines of "
  "iterates. How the rest of the package uses an arbitrary earth model is decided in C25 and C28."),
]
