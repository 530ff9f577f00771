"""Which contracts decide which property: property -> [(spec module, label filter, [relevant obligation names])]."""
B = r"index inside|iterator deref|key present|map iterator|optional read|vector sizes|position "
SOUND = [B, r"labels are", r"entered trips|left trips", r"usable", r"steps record", r"entries record", r"the answer is a recorded", r"times? of the connection", r"footpath index", r"trip is (entered|left)", r"tentative departure"]
CLOSED = [B, r"was missed", r"was followed|followed so far", r"kept", r"stays recorded", r"rule induction", r"no admissible journey", r"is listed|are listed|listed at", r"no earlier stop", r"best (arrival|departure|egress|access)", r"counted|: count", r"can be boarded|is usable", r"skips|misses|cache|position"]
COUNT = [r"counted|: count", r"the reason", r"no departure can|some departure|vehicle arrival", r"was missed", r"rule induction"]
ALL = [r"."]
RESET = [B, r"labels are", r"no ride is", r"shortest and longest", r"stops of the list", r"access list of|egress list of", r"no trip is entered", r"requested times", r"kept lists", r"what the filter answers", r"distinct stops", r"the other list|false exactly"]
REASON = RESET + [r"the reason is NO_ACCESS", r"some end has no stop"]
FILT = [r"disabled", r"connections are those"]
GEN = ("td", "generateForward", ALL)
EMIT = [r"number of steps", r"each ride", r"each transfer walk", r"first walk", r"last walk", r"legs are", r"clock"]
SUMS = EMIT + [B, r"is the sum", r"sum of its parts", r"boardings count", r"walks are access", r"waits are", r"transfers are one less", r"^steps: position", r"departure and arrival", r"a result is returned", r"an answer is rebuilt"]
WALKS = [B, r"walk (to|from) the", r"nothing ridden yet", r"recorded at the last stop", r"steps so far", r"rides:", r"an itinerary", r"every ride", r"every transfer", r"rides (arrive|follow)", r"the ends are", r"first boarding", r"an answer is rebuilt", r"only the no-routing", r"a result is returned", r"^optimizeJourney", r"precondition"]
LIMITS = [B, r"not before the requested", r"not after the requested", r"span", r"first wait ", r"walk (to|from) the", r"within the limit", r"one admitted trip", r"departure and arrival"]
ENDS = [B, r"departure and arrival", r"not after the requested", r"not before the requested", r"an answer is rebuilt", r"only the no-routing", r"a result is returned", r"no routing exactly", r"first boarding, the last stop", r"first boarding makes"]
OPT = ("optimize", None, ALL)
J1 = "reverseJourneyStep$"
CHECKS = {
    "C01": [OPT, ("journey", J1, WALKS + EMIT), ("scan", "forwardCalculation$", SOUND), ("rscan", "reverseCalculation$", SOUND), ("reset", "Footpaths$|reset$", RESET)],
    "C02": [("optimize", None, LIMITS), ("journey", J1, LIMITS), ("scan", "forwardCalculation$", SOUND), ("rscan", "reverseCalculation$", SOUND), ("reset", None, RESET + FILT), ("conns", None, ALL)],
    "C03": [("journey", "JourneyStep$", ENDS), ("connset", None, ALL), GEN, ("scan", "forwardCalculation$", CLOSED + SOUND), ("reset", "Footpaths$|reset$", RESET)],
    "C04": [("journey", "JourneyStep$", ENDS), ("connset", None, ALL), GEN, ("rscan", "reverseCalculation$", CLOSED + SOUND), ("reset", "Footpaths$|reset$", RESET)],
    "C05": [("journey", "JourneyStep$", ENDS), ("connset", None, ALL), GEN, ("rscan", "reverseCalculation$", CLOSED + SOUND), ("reset", "Footpaths$|reset$", RESET)],
    "C06": [("journey", J1, SUMS), ("rscan", "reverseCalculation$", SOUND)],
    "C07": [("journey", "JourneyStep$", [r"the reason|no routing exactly|without an egress|only the no-routing"]), ("scan", None, COUNT), ("rscan", None, COUNT), ("reset", "Footpaths$|reset$", REASON)],
    "C08": [("journey", "forwardJourneyStepAllNodes", ALL), ("connset", None, ALL), GEN, ("scan", "AllNodes", CLOSED + SOUND), ("reset", "AccessFootpaths$|reset$", RESET)],
    "C09": [("journey", "reverseJourneyStepAllNodes", ALL), ("connset", None, ALL), GEN, ("rscan", "AllNodes", CLOSED + SOUND), ("reset", "EgressFootpaths$|reset$", RESET)],
    "C10": [OPT, ("journey", J1, WALKS + LIMITS + SUMS)],
    "C11": [("conns", None, ALL), ("reset", "resetFilters", FILT)],
    "C12": [("connset", None, ALL)],
    "C13": [("cache", None, ALL), ("conns", None, ALL)],
    "C14": [("cache", None, ALL)],
    "C15": [("cache", "clear|set", ALL), ("td", None, ALL)],
    "C16": [GEN],
    "C17": [("td", "ReadStatus|DataStatus|load|update", ALL)],
}
TRUSTED = {
 "geofilter": "the node geofilter returns, for a point and a walking limit, distinct stops with walking times in 0..limit (EuclideanGeoFilter and OsrmGeoFilter are decided by C20's concrete check); float times below 2^24 convert exactly",
 "conn": "ConnectionSet's constructor stores the lists it is given; every connection's trip is a trip of the timetable (schedule loader)",
 "loader": "data fetchers return any status and any collections (no exception leaves them: decided by C17's concrete check); the schedule loader gives distinct connections, departures not after arrivals, distinct sequences in trip order within a trip and trips without connection lists",
 "lock": "std::mutex, std::shared_mutex and their guards: a guard holds its mutex from its construction to the end of its block",
 "list": "connection lists: positions are distinct, departures (arrivals) are ordered along the forward (reverse) list, connections of a trip stand in trip order, every connection names stops and a trip below the uid bounds and has 0 <= departure <= arrival <= 500000000 s (what ConnectionSet and the schedule loader establish)",
 "strict": "completeness only: every hop takes time or every boarding needs a wait (otherwise a chain of zero-length hops at one instant has no order the scan could follow)",
 "foot": "every stop's footpath list contains the stop itself at time 0 and no other entry for it; footpath times lie in 0..500000000 s (node loader)",
 "reset": "scan preconditions: labels hold the access (egress) times, no trip, ride or egress is recorded yet, requested times and limits are in range",
 "trip wait": "all connections of one trip carry the same minimum waiting time (it is a property of the line)",
 "journey": "a trip's connection lists hold its connections in sequence order (ConnectionSet::getTripForwardConnections, an obligation of C03's modules for generated sets); the sums in the postconditions are defined by recursion over the rides; the stop map is keyed by each stop's own uid",
 "int": "machine arithmetic: int is 32-bit wrapped at narrowing casts; 64-bit arithmetic is treated as mathematical; the data bounds above keep int sums below 2^31",
 "std": "library contracts: std::vector, map, unordered_map, optional, tuple, find, min/max, exceptions as modelled in vcgen/stdlib.py",
 "clang": "clang 18's AST is the program; spdlog calls, string formatting and timers have no effect on the values a property reads",
 "relation": "the ghost relations At/Board/Alight (RAt/Exit/BoardR) are the least ones closed under the rules written in specs/scan.py and specs/rscan.py (rule induction: the four closure steps are obligations)",
}
BASE = ["list", "foot", "reset", "int", "std", "clang"]
def assume(p):
    mods = set(m for m, _, _ in CHECKS[p]); a = ["int", "std", "clang"]
    if mods & {"scan", "rscan", "connset"}: a = ["list"] + a
    if mods & {"scan", "rscan"}: a += ["foot", "reset", "relation"]
    if p in ("C03", "C04", "C05", "C07", "C08", "C09"): a += ["strict"]
    if mods & {"journey", "optimize"}: a += ["journey"]
    if "reset" in mods: a += ["geofilter"]
    if "conns" in mods: a += ["conn"]
    if "td" in mods: a += ["loader"]
    if "cache" in mods: a += ["lock"]
    return a
ASSUME = {p: assume(p) for p in CHECKS}
