"""Which property each repair in /repo belongs to (spec/gen.py writes known_findings.json from it)."""

# subject of the commit -> (property, what failed)
FIXED = {
 "c2c305b": ("C22", "interrupting one task also ended the mimic states another task had started"),
 "13d3e0a": ("C10", "cancelling an Event that had triggered at the same instant raised an error"),
 "266f697": ("C27", "a routine yielded after an event with a value crashed (its generator was sent that value first)"),
 "d3c8ec0": ("C08", "interrupting the network of a task whose process had ended at the same instant raised an error"),
 "850823a": ("C11", "a request granted at the instant it was cancelled kept the item, amount or slot for ever"),
 "69e4ccb": ("C13", "the expiration of an earlier reservation cancelled a later one of the same requester"),
 "8432fdd": ("C13", "ReserveContainer.put ignored reserved amounts and later exceeded the capacity"),
 "962ae57": ("C12", "time_until_level used the level of the last event instead of the current one"),
 "3c3c086": ("C12", "a ContinuousContainer never reached full or empty when the remaining time rounds to nothing"),
 "d5efc08": ("C14", "SortedFilterStore never handed out falsy items, and removed an equal item instead of the selected one"),
 "ecc4831": ("C01", "assigning an active linear state counted the change up to that instant twice"),
 "bf5befa": ("C09", "rehearsing a network consumed the task queue of the real actor"),
 "8e67c4a": ("C09", "a failed rehearsal of a network left the running network changed"),
 "1ae730c": ("C24", "key/value states ignored record_duplicates"),
 "cb8e282": ("C24", "a dictionary state stored a badly typed value before rejecting it"),
 "84f02d5": ("C24", "inherited fields of a dataclass state could not be set"),
 "7a7f9b2": ("C20", "not all time units converted to days and weeks"),
 "fb88983": ("C23", "changing a watched state at the instant a task ends raised an error"),
 "a6d00ef": ("C21", "a data table failed if a state had not been set"),
 "8b43eab": ("C21", "the location table had the columns of the other kind of location"),
 "f796a91": ("C24", "an actor that was given an actual resource could not be cloned"),
 "690d07a": ("C24", "an actor with unset or no_init states could not be cloned"),
 "b1e5813": ("C18", "a leg that misses a sensor took no time, so later crossings were told too early"),
 "684f20f": ("C18", "a waypoint at the mover's own location crashed the intersection code"),
 "645a514": ("C18", "a path touching the boundary of a range crashed"),
 "0d28657": ("C18", "a sensor making a mover undetectable from its notification crashed the manager"),
 "a6d8e8a": ("C18", "hiding a mover for part of its motion crashed or lost later notifications"),
 "6e25b6d": ("C18", "the altitude of a geodetic intersection was that of the leg's start"),
 "4c9a701": ("C19", "stepped motion never restarted after stopping for a lack of events"),
 "37c2232": ("C17", "a router waited for ever for a destination it could not reach"),
 "e6d924f": ("C19", "an object unknown to the stepped manager could not become detectable"),
 "1dd4584": ("C26", "a cloned actor joined the simulation's actors and entity groups"),
 "c3011a1": ("C03", "reading a location right after a leg of no length started crashed"),
 "35e165e": ("C03", "geodetic motion from locations in radians went somewhere else"),
 "5705d13": ("C24", "a recording class mixed the data of several actors"),
 "f00e215": ("C21", "a data table failed for keys that were not recorded"),
 "60766db": ("C24", "a communication store changed the modes dictionary it was given, breaking the next actor"),
 "a0b9b59": ("C24", "an actor with its own communication modes could not be cloned"),
 "10f1fc8": ("C09", "an Event rehearsed as complete said it was not"),
 "31cbbb9": ("C09", "parts of nested events said they were not complete after a rehearsal"),
 "6e06474": ("C09", "a task that failed in a rehearsal kept rehearsing"),
 "06b2177": ("C18", "a mover hidden at the instant it starts was still told to sensors"),
 "8cc6b8c": ("C19", "hiding a mover from a notification crashed the stepped manager"),
 "c18465f": ("C20", "pretty_now showed 60 seconds or lost a second"),
 "0d4dfc7": ("C20", "a wait with a unit failed if the stage has no time unit, which means hours"),
 "3d9ac3b": ("C21", "a location table called a resting location that starts to move inactive"),
 "1d7fed1": ("C23", "a nucleus interrupted the networks in the arbitrary order of a set"),
 "7b63604": ("C26", "get_stage_variable returned a dictionary method for a variable of that name"),
 "bbd3411": ("C29", "great circle segments of a short leg headed nowhere"),
 "14727d9": ("C29", "ecef_linspace could not be called"),
 "0f3e4e3": ("C29", "the cross-track point of a place behind the origin was ahead of it"),
 "2134ea9": ("C29", "rounding at poles and antipodes was a math domain error"),
 "02ccee3": ("C30", "WGS84 point_from_bearing_dist used sigma for sin(sigma) in its longitude"),
 "a46654a": ("C30", "WGS84 ecef2lla crashed at the poles"),
 "a8deeea": ("C29", "the course of a third of the due north and south legs was a math domain error"),
 "0821a7e": ("C28", "the analytic model divided by zero for a sensor at the start, or a leg of no length"),
 "90bbf03": ("C28", "the analytic model crashed on a path above the sensor's radius"),
 "e7b1398": ("C25", "a location made outside of a context was an AttributeError instead of a warning"),
 "581411d": ("C05", "a recording function of an active state was given its activation mark (a TypeError when it computes)"),
 "04ea1d9": ("C24", "a dictionary state never equalled itself, or another dictionary state of the same content"),
 "0b6e0e9": ("C13", "a reservation could only be cancelled with the identical requester object, not an equal one"),
 "59f9234": ("C27", "an interrupt that came while a routine was being cancelled crashed the simulation"),
 "0f427df": ("C09", "an actor with a property or class method could not be cloned, and its no_init or unset states became State objects on the clone"),
 "87c54ad": ("C10", "an interrupt of a task that waits for an Event completed the event for all others (unless it is a knowledge event, which is documented to be cancelled)"),
 "c70fced": ("C11", "the value of an unfinished Get was an AttributeError, and an item None that was received a SimulationError"),
 "37d2098": ("C03", "a mover that waits exactly its travel time late in a simulation was beyond the end of its path by rounding"),
 "8601486": ("C21", "monitoring resources of a MultiStoreState were listed as those of no actor or state"),
 "200430f": ("C18", "waypoints on a sensor's boundary crashed or lost notifications by rounding"),
 "0ebfa4f": ("C12", "users of a ContinuousContainer that end as it reaches a limit crashed by rounding, and flows that cancel left a residual rate"),
}
