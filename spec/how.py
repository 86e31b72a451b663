"""The prose of DESIGN.md."""

INTRO = """
# Design

## What is done

Every property is decided by **symbolic execution of the real code** with an SMT solver (z3). There is no
hand-written model of upstage: `check.py Cnn` imports `upstage_des` from `/repo/src` and the installed
`simpy` as they are at that moment (the encoding is therefore regenerated from the current source on every
run) and runs a small *harness* (`harness/cNN.py`) which drives the public API the way a user's
simulation does. The inputs of the harness are symbolic: times, rates, amounts, capacities, coordinates are
SMT reals, choices (which operation, which order, which action) are symbolic integers. What the
harness asserts is compared to an *independent account* (a closed formula or a small reference
computation in the harness, over the same symbolic values), never to the code itself.

### The symbolic executor (`symex/`)

* `engine.py`: `SymReal` is a `float` subclass whose payload is a z3 real term; arithmetic builds terms,
  and each time the code under test turns a symbolic condition into a Python `bool` (an `if`, a heap
  comparison in simpy's queue, `min`, `in`, `sorted` ...) `Engine.decide` asks z3 which outcomes the path
  condition allows and forks. Paths are enumerated depth first by deterministic re-execution, so *all*
  orders of events that symbolic times allow, with all their ties, are explored. An assertion is a query:
  path condition and not the assertion. Unsatisfiable: holds for every value on this path; satisfiable: the
  model is a concrete counterexample.
* A counterexample is written to `replay/` and **re-run by a second interpreter on the unpatched code**
  (`symex/concrete.py`, the project's own venv, plain floats). Only one that reproduces there is reported as
  `VIOLATION`; one that does not makes the check exit 2 (undecided), never 1.
* The other way round, models of explored paths are sampled and run concretely; the observed traces have to
  agree with the symbolic ones (`traces_validated_against_impl` in the evidence). This checks the executor.
* `math` is replaced by symbolic versions (square roots as fresh variables with their defining equation, floor and
  ceil by integer enumeration); `isinstance(x, float)` accepts symbolic values in the modules under test.
* A query or path that exceeds its limit is never counted as passed: a branch that z3 cannot decide is explored
  both ways (sound for "holds"), an assertion that cannot be decided makes the check exit 2.
* Vacuity: each harness lists the situations (`REACH`) that must occur on some feasible path; a check
  that does not reach all of them, or evaluates no assertion, exits 2.

### Semantics and limits

* Floats are exact reals. Rounding, overflow and NaN are outside (exceptions: where rounding visibly breaks a promise,
  as in ContinuousContainer, the harness adds concrete inputs found by thinking about rounding). A decimal literal stands
  for its decimal value.
* Everything holds within the stated bounds (numbers of tasks, items, operations, interrupts), for all values of the
  symbolic inputs. Thorough tiers raise the bounds.
* Where the documentation does not say what happens when two things fall on the same instant, the tie is excluded
  by an assumption (`ctx.assume`) listed below; where it is specified, ties are included.
* Trigonometry is not in z3's theories: earth models are replaced by free functions where they are only used (C03, C18, C25).

Files: `spec/props.py` (the properties), `spec/gen.py` (writes properties.jsonl, MANIFEST.json), `spec/how.py`,
`spec/fixed.py`, `spec/design.py` (write this file and known_findings.json), `harness/` (one per property),
`symex/` (executor), `check.py` (driver), `seeded/` (planted changes). No hooks are needed in /repo.
"""

HOW = {
 "C01": "One actor is driven through activations, reads, assignments and an interrupt at symbolic times; every "
 "value read is compared to the integral written as sums of overlaps of intervals.",
 "C02": "Users start and stop at symbolic times; the expected value is the sum over users of rate times overlap with "
 "the elapsed time, plus the assignment.",
 "C03": "The expected position is computed per leg from the distance travelled; leg directions have rational lengths so "
 "that the Euclidean norm stays exact. A stop and restart on the remaining waypoints must continue the path. The end of a wait is late by a symbolic "
 "amount of the clock's rounding.",
 "C04": "Tasks compete for one state, and a task of two phases is interrupted at any time with every action; a "
 "reference account follows restarts and says what each state, marker, handler call and completion must be; a plain "
 "process the task yields must be told of the interrupts that are not ignored.",
 "C05": "The expected history is the list of (time, value) of the assignments without consecutive duplicates (or with, if asked for), "
 "the active points, and the results of recording functions.",
 "C06": "The operation sequences are choices, so all are explored; the expected outcome of each (stored, TypeError, frozen error, "
 "default, copy) follows from the declaration.",
 "C07": "A dictionary per actor is the reference for all knowledge operations; a hold event is followed through "
 "signals and interrupts.",
 "C08": "A reference interpreter of queue, default links, DecisionTask and interrupts gives the expected sequence of "
 "(task, start, end) for every network, queue change and interrupt.",
 "C09": "Event trees: planned time is max over All and min over Any. Tasks and networks: the "
 "rehearsed actor is compared to the same actor after really running; the world is compared before and after the rehearsal; "
 "the same simulation is run with and without rehearsals.",
 "C10": "Trees of waits have a closed form for their end (max/min) and for which parts are complete; an Event's "
 "signals are followed by a reference that says which signal releases which wait; units convert by defined ratios.",
 "C11": "Conservation: after all interleavings, items held + items in the store = items put, each once; levels and free "
 "slots add up; later requests are served.",
 "C12": "The level is the clamped integral of the flows, computed piecewise in the harness; getters and putters complete "
 "when their amount has flowed; the errors for full and empty occur at the right instant. Users that wait for "
 "`time_until_done` are off the limit by a symbolic amount of the clock's rounding.",
 "C13": "A reference of level and reservations is stepped with every sequence of operations.",
 "C14": "For each get, the reference picks among the items in the store at that time the best by filter and sorter, first "
 "come first.",
 "C15": "A reference of simpy's queue semantics predicts every change of the content and so the record.",
 "C16": "The reference computes the first attempt that is outside all blocked windows, else the drop.",
 "C17": "A reference breadth-first search over the links open at the attempt gives the shortest path lengths; each hop's retries "
 "are followed as in C16.",
 "C18": "Crossing times come from the geometry (1-D intersection model for histories; Cartesian model for single legs in "
 "3-D); enter/exit calls must match them under hiding, stopping, adding sensors. Waypoints on a boundary are "
 "also run with coordinates whose squares round, where the solver picks the rest of the scenario.",
 "C19": "The reference evaluates distance against radius at each step of the manager.",
 "C20": "Factors come from the definitions of the units; the clock display from integer arithmetic on seconds.",
 "C21": "The rows expected are derived from the operations the harness made, not from the histories.",
 "C22": "The value a mimic must show is the leader's closed form inside the window and the last value after.",
 "C23": "The interrupts expected by each network are derived from the set of watchers at each change.",
 "C24": "Plain Python dicts and dataclass copies are the reference for the proxies, simpy's documented capacity and level for resources.",
 "C25": "Distances are compared through their squares; the earth model is a free function that returns arbitrary "
 "symbolic distances, so only the way it is used is decided here.",
 "C26": "A stack of plain records (clock, stage, entities, data) is the reference; everything visible is compared after each operation.",
 "C27": "A reference account of the steps' ends (max of time and arrival), of windows and of what is put back.",
 "C28": "The earth is a flat-earth object with the geography interface, so crossings are roots of a quadratic compared by "
 "squares; the reference counts the passages and their order. The two geodetic motion models run with the search "
 "(respectively the spherical formulas, decided in C29) replaced by free functions with symbolic answers.",
 "C29": "Angles are 2n*atan(t) of symbolic t, so their sines and cosines are points of the unit circle; asin, acos, atan2 and "
 "sqrt of the code introduce algebraic roots (symex/trig.py). Branches and assertions are reduced exactly modulo s^2+c^2=1 "
 "and r^2=P; the rest goes to z3 (first as linear facts over monomials, then NRA). Branches with a sample point are "
 "taken as feasible; branches and assertions are only dismissed or passed on a proof. The reference is vector "
 "algebra on unit vectors. A comparison that can only be reached with equality (a clamp at exactly 1) is taken as strict, "
 "so degenerate configurations are outside the check. The points of a route near a place are decided given the "
 "courses and distances that the other jobs decide.",
}

FINDINGS = [
 {"id": "F14", "property": "C08", "status": "open",
  "what": "TaskNetwork.loop starts a queued or default task that task_links does not allow after the current one "
  "(the documentation promises an error; repairing it breaks two documentation example tests)"},
]

MINOR = """
Smaller oddities noticed, outside the claimed statements and left alone: rehearse_network with an empty list and an end
task raises UnboundLocalError; a MultiStoreState clone shares store objects; entity group order is that of a set;
deactivating a shared linear state does not mark DEACTIVATING; values sent to a routine's generator are discarded
(`x = yield Get(...)` inside `Routine.run` gives None, the documentation uses `get_value()`); recording-function
histories are not in create_table; recorded dictionary values are not deep-copied; setting an unknown attribute on a dataclass
state is ignored silently; Cartesian equality has a tolerance that its hash does not; simpy does not retry a queue when its head is
cancelled; the docs claim `Get.get_value` works for containers, the code raises; in location tables an activation and
deactivation in the same instant leave only the last mark; ReserveContainer refuses float amounts that add up to its capacity only in
exact arithmetic (0.1 + 0.2 + ...); `ceil(retry_max_time / retry_rate)` may allow one more try by rounding (1.1 / 0.1); a
SteppedMotionManager stops watching a mover when its motion ends, so a crossing in the last partial step goes unseen; routing ties
follow set order; Message equality and hash disagree; bulk knowledge changes are not atomic; geodetic legs under about 1 km may
raise "segment is too small"; longitudes may pass 180; `from_ordered_*` with a class listed twice links the wrong one;
SteppedMotionManager.add_detectable ignores its `new_rate`.
"""

ALARMS = """
* C10 ("a wait without a stage unit refuses other units") contradicted the documentation's default of hours; the code was repaired
  (0d4dfc7) and the harness corrected.
* C21's reference first required DEACTIVATING marks for instants with an activation and a deactivation; the documentation
  promises one mark per time, so the reference was weakened to the last mark.
* C12's users with exactly coinciding boundaries, C18's notifications in the very instant of another change and C27's arrivals at the
  instant a window closes have no specified order: excluded by assumption.
* C25: Cartesian locations are equal within a tolerance, which no hash can follow; the harness asks only that
  identical coordinates hash alike.
"""

MISSES = {
    "": "",
    "loc-row": "C21 (quick); missed at first, location tables got more histories",
    "mimic-restart": "C22 (quick); missed at first, one state mimicked again was added",
    "record-shallow": "C05 (quick); missed at first, nested values were added",
    "route-forget": "C17 (quick); missed at first, networks with more blocked hops were added",
    "mode-leak": "C16 (quick); missed at first, actors with modes of their own were added",
    "mimic-name": "C22 (quick); missed at first, followers of another name were added",
    "nuc-stale": "C23 (quick); missed at first, networks rejoined after a removal were added",
    "queue-stale": "C08 (quick); missed at first, networks replaced under the same name were added",
    "day-count": "C20 (quick); missed at first, days of odd length were added",
    "group-mro": "C26 (quick); missed at first, deeper classes were added",
    "know-given": "C09 (quick); missed at first, knowledge used up while rehearsing was added",
    "set-first": "C22 (quick); missed at first, changes of a set in place were added",
    "payload-mix": "C10 (quick); missed at first, each signal got a payload name of its own",
    "hold-kwargs": "C11 (quick); missed at first, priority requests were added",
    "table-name": "C21 (quick); missed at first, an unnamed store was added",
    "static-key": "C21 (quick); missed at first, a state whose name begins another's was added",
    "one-deact": "C04 (quick); missed at first, deactivating several states by name was added",
    "suggest-count": "C08 (quick); missed at first, names suggested after deletions were added",
}
