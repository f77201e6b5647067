"""Writes /verif/properties.jsonl (one JSON object per line). Edit here, then run."""
import json, os

P = []

def prop(id, title, statement, over, text, why, files, mechanism, observe, state=None):
    anchors = {"files": files,
               "mechanism": [{"name": n, "where": w} for n, w in mechanism],
               "observe_at": observe}
    if state:
        anchors["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": anchors})

prop("C01", "People are conserved and every headcount is exact",
     "A simulated day neither creates, loses nor duplicates people: everyone stays in exactly one place, a location or a route they are travelling on. "
     "After any sequence of people being added, simulated days, route closures and reopenings, and explicit clearing of locations, the headcount reported for every location and every route in use equals the number of people who are actually there, and the cumulative count of a route equals the number of times it was entered. "
     "Clearing a set of locations removes exactly the people who are in them and nobody else. (With camps as sinks switched off; people retired by that option stay in the totals, see C23.)",
     ["inputs", "histories", "configurations"],
     "every outcome of every random draw, every link length, speed and move chance within the bounds, over networks of 2-4 locations, 1-3 people, up to 4 days and any interleaving of closures, reopenings and clearing",
     "Existing tests check totals after fixed runs with one random stream; they never compare the per-place counters with the people themselves for all outcomes, and never combine travel with closures or clearing.",
     ["flee/flee.py"],
     [("counter updates on every move", "flee/flee.py: Person.handle_travel, Location/Link.IncrementNumAgents/DecrementNumAgents"),
      ("spawn/insert/clear", "flee/flee.py: Ecosystem.addAgent, insertAgent(s), clearLocationsFromAgents"),
      ("counters across closures", "flee/flee.py: _remove_link_1way, _reopen_link_1way")],
     ["Ecosystem.agents and each agent's location", "numAgents of locations and links", "cumNumAgents of links", "Ecosystem.numAgents()"],
     [("numAgents", "people at a place", "flee/flee.py Location, Link")])

prop("C02", "People move only along open routes and arrive only when they covered them",
     "A person leaves a location only onto a route that starts there and is open, and next appears at the far end of that same route, on the first day their accumulated travel on it exceeds its length; until then they stay on it. "
     "If the route is closed while they travel, completing its length brings them back to the place they started from instead. "
     "A person who does not set out stays exactly where they are, and one whose planned onward journey has lost its next route abandons the plan rather than jumping. A planned journey is otherwise followed route by route (see C32 for forced redirections).",
     ["inputs", "histories"],
     "all link lengths, travel speeds, walking speeds, walk probabilities and random draws, closures on any day during a journey, up to 4 days and 3 hops",
     "Tests follow one agent over hand-picked distances; boundary lengths, closures mid-journey and combinations with on-foot starts are sampled at single points.",
     ["flee/flee.py", "flee/moving.py"],
     [("departure", "flee/flee.py: Person.evolve, take_next_step"), ("progress and arrival", "flee/flee.py: Person.finish_travel, handle_travel")],
     ["agent location, travelling flag and distance on the link after each day"])

prop("C03", "Nobody outruns the daily travel budget, and distances are booked exactly",
     "On one day a person advances by exactly the speed that applies to them on the route (the general maximum, or the route's own maximum, or walking speed on a first journey started on foot or when the route's walking chance strikes) and never beyond the end of a route. "
     "The distance booked for the day and the lifetime distance equal the kilometres actually covered, no day's total exceeds the fastest applicable speed, and the recent-travel index is the running half-half average of booked distance over the maximum speed, which stays between 0 and 1 while no speed exceeds the general maximum. The lifetime distance grows by a route's length whenever the route is completed (also when it was closed and led back). "
     "The day counter since departure grows by one per day and the number of places visited by one per completed route.",
     ["inputs", "histories", "configurations"],
     "all speeds, lengths, walking chances and draws; one to three routes in sequence; up to 4 days; with and without on-foot start and short-stint avoidance",
     "Tests assert booked distances for two or three fixed lengths; exceeding the budget needs particular length/speed ratios on consecutive links.",
     ["flee/flee.py"],
     [("speed selection and booking", "flee/flee.py: Person.finish_travel"), ("index update", "flee/flee.py: Ecosystem.evolve")],
     ["distance_moved_this_timestep", "distance_travelled", "recent_travel_distance", "timesteps_since_departure", "places_travelled"])

prop("C04", "The chance of leaving is the documented one and decides departure",
     "Each day a person standing at a location with a usable route sets out exactly when a uniform draw falls below the location's chance of leaving, where that chance is the location's base value times the documented population scaling. "
     "The base value is fixed by the kind of location (conflict zone, camp, IDP camp, town, forwarding hub, marker, flood zone, or an explicit value), and a location other than a flood zone with a chance below 0.005 is treated as a camp. "
     "With short-stint avoidance on, a person arriving mid-day at a town moves on with certainty while the mean of their recent-travel index and today's distance over the maximum speed is below one half; everybody else draws again.",
     ["inputs", "configurations"],
     "all move-chance settings, populations, capacities, scaling bases and exponents 0, 0.5, 1 and 2, every location kind, every draw",
     "Tests use the default chances with one random stream; the dependence on population and on location kind over the whole parameter range is not checked.",
     ["flee/moving.py", "flee/flee.py"],
     [("move chance", "flee/moving.py: calculateMoveChance"), ("decision", "flee/flee.py: Person.evolve"), ("base chance by type", "flee/flee.py: Location.__init__")],
     ["whether the agent is travelling after the day", "movechance of a location"])

prop("C05", "Route planning considers exactly the loop-free routes within awareness",
     "When a person plans a journey, the candidates are exactly the routes that start at their location, follow open links, never revisit a place, and end at a non-marker location reachable within the awareness level. "
     "Every such route is offered exactly once, marker locations are passed through without being destinations and without using up awareness, and closed links are never used. "
     "With awareness level 0 a person takes one of the directly connected links at random.",
     ["configurations", "inputs"],
     "every network on up to 4 locations (any subset of links, any subset of markers, any subset closed) and awareness levels 0 to 3",
     "Tests examine a handful of hand-drawn graphs; the claim is about every small graph shape.",
     ["flee/moving.py"],
     [("recursive candidate generation", "flee/moving.py: calculateLinkWeight, selectRoute")],
     ["routes and weights returned for an agent", "the route chosen by the agent"])

prop("C06", "Route weights follow the documented formula and traveller-specific rules",
     "The weight of a candidate route is ((weight softening + attractiveness of its destination) divided by (distance softening + total length) to the distance power) times the destination's capacity factor, all to the weight power; hence with everything else equal a longer route or a less attractive or fuller destination never weighs more. "
     "Attractiveness as seen by a particular traveller applies the enabled options only: with children avoiding hazards, travellers below 19 square it (and, if boys take risks as well, males above 14 and below 19 see 1 instead); home distance divides it by the distance between destination and the traveller's home to the configured power; ethnicity matching scales it by ten times the local share of the traveller's group; and population weighting multiplies destinations that are not camps by their population (at least 1) to the configured power. "
     "With all options off every traveller sees the same value.",
     ["inputs", "configurations"],
     "all scores, distances, softenings, populations, ages and shares, exponents 0, 0.5, 1 and 2, and each combination of rule switches, on routes of up to 3 links",
     "Tests check a few numeric weights with the default settings; most switches and all parameter interactions are never evaluated.",
     ["flee/moving.py", "flee/spawning.py"],
     [("weight formula", "flee/moving.py: calculateLinkWeight"), ("endpoint score", "flee/moving.py: getEndPointScore"), ("attribute share", "flee/spawning.py: getAttributeRatio")],
     ["weights returned by route planning"])

prop("C07", "A route is drawn with probability proportional to its weight after pruning",
     "The route taken is drawn from the candidates with probabilities proportional to their weights: the probabilities are non-negative, sum to one and keep the weights' ratios, and if all weights are zero every candidate is equally likely. "
     "With a pruning threshold above one, exactly the candidates lighter than the heaviest divided by the threshold are discarded together with their own routes, and the heaviest always survives; otherwise (and with fixed routes) nothing is discarded. "
     "With no candidate at all the person simply stays.",
     ["inputs"],
     "all non-negative weight vectors of length up to 4, including ties, zeros and duplicates, and all thresholds",
     "Tests normalise two or three vectors; ties, zero weights and equal routes are where pairing and proportions go wrong.",
     ["flee/moving.py", "flee/flee.py"],
     [("normalisation and draw", "flee/moving.py: normalizeWeights, chooseFromWeights"), ("pruning", "flee/moving.py: pruneRoutes")],
     ["weights handed to the random draw", "surviving weight/route pairs", "the agent's location when no route exists"])

prop("C08", "Camp capacity limits attraction and full camps are not entered as a goal",
     "A location without a capacity limit is never throttled; otherwise its capacity factor is 1 up to the buffer share of its scaled capacity, 0 at or above the scaled capacity, falls linearly in between, and so never increases with the number of people present. "
     "A person about to take a step of a journey whose final destination is a camp with a capacity factor below one half drops the journey and stays for the day. "
     "Destinations that are not camps never cause a journey to be dropped this way.",
     ["inputs"],
     "all capacities, occupancies, buffers in (0,1) and capacity scalings, all route lengths up to 3",
     "Tests check a few integer occupancies with the default buffer.",
     ["flee/moving.py", "flee/flee.py"],
     [("capacity factor", "flee/moving.py: getCapMultiplier"), ("full destination", "flee/flee.py: Person.check_dest_is_full_camp, take_next_step")],
     ["returned factor", "agent's route and location after the step"])

prop("C09", "A location's attractiveness is the product of exactly its own factors",
     "A location's attractiveness is 1 times the foreign weight if it is abroad, times the camp weight if it is a camp or IDP camp, times the conflict weight to the power (conflict intensity times the decay factor for the age of the conflict) if it is in conflict, times the flood weight of its current flood level if it is a flood zone with a positive level. "
     "Nothing else about the location or about other locations changes it. "
     "It is recomputed each day from the current state, so a change of type, conflict or flood level takes effect the next day and no stale value survives.",
     ["inputs", "histories"],
     "all weights, intensities, decay factors, days and flood levels, every combination of location attributes",
     "Tests look at the scores of one fixed scenario.",
     ["flee/scoring.py", "flee/SimulationSettings.py", "flee/flee.py"],
     [("score update", "flee/scoring.py: updateLocationScore"), ("daily refresh", "flee/flee.py: Ecosystem.evolve")],
     ["score of each location after each day"])

prop("C10", "Closing and reopening affects exactly the named links and is reversible",
     "Closing a link, a location or a border makes exactly the matching links unavailable: the named link (both directions when two-way), all links into the location (and out of it when two-way), or all links from the one country to the other (and back when two-way). "
     "Reopening the same thing makes exactly those links available again with the same length, endpoints, attributes and forced redirection, and repeating either operation changes nothing more. "
     "Unknown names change nothing, and names are matched by their text, not by how they were read.",
     ["histories", "configurations"],
     "every sequence of up to 3 close/reopen operations (all kinds, one- or two-way, known and unknown names) on every network of up to 4 locations in 2 countries",
     "Tests close and reopen one link or border in a fixed graph with literal names; sequences and one-way variants are not covered.",
     ["flee/flee.py"],
     [("link close/reopen", "flee/flee.py: _remove_link_1way, _reopen_link_1way, remove_link, reopen_link"),
      ("location/border", "flee/flee.py: _change_location_1way, _change_border_1way")],
     ["links and closed_links of every location, export_graph"])

prop("C11", "Scheduled closures, camp changes and redirections happen on their day only",
     "Each entry of the closure schedule takes effect on exactly its start day and is undone on exactly its end day, and entries with other days change nothing. "
     "A scheduled camp or IDP-camp closure turns exactly that location into a town with the default chance of leaving and its reopening turns it back into a camp of that kind; a redirection removal toggles only that link's flag. "
     "A location-type change gives the location exactly the type flags and chance of leaving a freshly created location of that type has, and an unknown location name affects no location at all.",
     ["inputs", "histories"],
     "symbolic start and end days, all entry kinds, up to 3 entries over up to 5 days, all location type pairs",
     "Tests run one or two fixed schedules.",
     ["flee/flee.py", "flee/InputGeography.py"],
     [("schedule", "flee/flee.py: Ecosystem.enact_border_closures"), ("type change", "flee/flee.py: change_location_type, open_camp, close_camp, set_forced_redirection"),
      ("location change file", "flee/InputGeography.py: AddNewConflictZones")],
     ["type flags, move chance, links and redirection flags after each day"])

prop("C12", "The conflict state of every location follows the conflict input",
     "With a conflict file, after processing day t a location listed in the file is a conflict zone exactly if its value for day t is positive, with the conflict chance of leaving and counted as no town; a location that drops to zero reverts to a town with the default chance of leaving and intensity (flood rules off; locations not declared conflict zones in the location file; values 0 or at least 0.01). "
     "The day a conflict (re)starts is recorded as the start of that conflict, and the intensity stays that of the day it (re)started. "
     "Without a conflict file, a location declared as a conflict zone with a positive date is a town before that day and a conflict zone from that day on, and one with date zero is a conflict zone from the start.",
     ["inputs", "histories"],
     "all intensity tables for 2 locations over 4 days and all declared dates",
     "Tests use one table each; restarts, zero crossings and dates are sampled once.",
     ["flee/InputGeography.py", "flee/flee.py"],
     [("timeline", "flee/InputGeography.py: ReadConflictInputCSV, AddNewConflictZones"), ("state change", "flee/flee.py: add_conflict_zone, remove_conflict_zone, set_conflict_intensity")],
     ["conflict, town, movechance, time_of_conflict of each location after each day"])

prop("C13", "New arrivals originate in conflict zones in proportion to their weight",
     "The weight of a location for new arrivals is its current population times its conflict intensity times the decay factor for the age of its conflict, and zero outside conflict zones (with the default that only conflict zones spawn people); it is up to date whenever arrivals are placed. "
     "Arrivals are placed independently with probability proportional to these weights. "
     "The decay factor for a conflict of age d days is the entry number floor(d / interval) of the configured list, the last entry for older conflicts, and 1 if none is configured.",
     ["inputs", "histories"],
     "all populations, intensities, ages, intervals, decay lists of up to 3 entries, and 3 locations",
     "Tests evaluate decay at a few ages and check spawn weights once.",
     ["flee/spawning.py", "flee/flee.py", "flee/SimulationSettings.py"],
     [("weights", "flee/spawning.py: refresh_spawn_weights"), ("placement", "flee/flee.py: pick_spawn_locations"), ("decay", "flee/SimulationSettings.py: get_conflict_decay")],
     ["spawn_weights, probabilities handed to the draw, location of new agents"])

prop("C14", "The number of new people per day follows the data or the configured rule",
     "With data-driven arrivals, the number of people added up to and including any day equals the largest total increase seen so far: decreases are carried as a debt that later increases must pay off first, so the count is never negative and never exceeds the data. "
     "With conflict- or flood-driven arrivals each affected location, and no other, adds the configured number (constant, share of population, or Poisson-drawn) for its intensity or flood level. "
     "When people are taken from the population each addition lowers the origin's population by one and never below zero, and initial residents are placed as the settings say.",
     ["inputs", "histories"],
     "all data series of 4 days, all intensities, flood levels, populations and rates within the bounds, all mode switches",
     "Tests check counts on the shipped data sets only; decreasing series and mode combinations are sampled once.",
     ["flee/spawning.py", "flee/flee.py"],
     [("daily arrivals", "flee/spawning.py: spawn_daily_displaced"), ("initial residents", "flee/spawning.py: add_initial_refugees"), ("population", "flee/flee.py: addAgent")],
     ["return value, number and location of agents, pop of locations"])

prop("C15", "Refugee data tables are interpolated and differenced faithfully",
     "A registered value is returned on its own day, values between two registrations lie on the straight line between them (rounded towards zero), and values before the first or after the last registration equal that registration; without interpolation the latest registration applies. "
     "Daily increases are the differences of consecutive days' totals over the requested source (all camps, or the total column), so their sum telescopes to the change of the total. "
     "Adding a second file to a table yields on every registered day of either file the sum of both files' current values (a file contributes its latest registration so far, nothing before its first), and scaling divides every count by the scale factor. A day counts as interpolated exactly if it has no registration. With an empty start every column is measured relative to its own day-0 value once the day-0 increase has been asked for, which is then 0.",
     ["inputs"],
     "all counts and all day offsets of tables with up to 3 rows per file and 2 files, days within the horizon",
     "Tests read a few values from the bundled data.",
     ["flee/datamanager/DataTable.py"],
     [("interpolation", "flee/datamanager/DataTable.py: get_interpolated_data, get_raw_data"), ("differences", "flee/datamanager/DataTable.py: get_daily_difference"), ("addition", "flee/datamanager/DataTable.py: AddCSVTables")],
     ["get_field, get_daily_difference, is_interpolated return values"])

prop("C16", "Registration corrections rescale only earlier data; maxima are exact",
     "Correcting over-registration at a date scales exactly the registrations before that date, all by the one factor that makes the last of them equal the first reliable one, and returns that factor; dates before the period change nothing. "
     "Other locations' data are untouched. "
     "The maximum reported for a period is the largest registration up to and including the first one on or after the end of the period.",
     ["inputs"],
     "all counts and dates in tables of up to 4 rows for 2 locations",
     "Tests apply one correction to one bundled file.",
     ["flee/datamanager/handle_refugee_data.py"],
     [("correction", "flee/datamanager/handle_refugee_data.py: correctLevel1Registrations, ReadL1Corrections"), ("maximum", "flee/datamanager/handle_refugee_data.py: getMaxFromData")],
     ["get_field values after correction, returned factor, getMaxFromData"])

prop("C17", "The simulated network is exactly the one described by the input files",
     "Loading location, route, closure, attribute and agent files yields one location per location line, with the given name, region, country, coordinates, type, scaled population or capacity and extra attribute columns, foreign exactly if its country differs from the first line's; comment and empty lines contribute nothing. "
     "Every route line yields exactly one link in each direction with the given length and attributes, with forced redirection only in the direction the line asks for (as documented: 1 for people at the second place, who go on to the first; 2 for people at the first place, who go on to the second). Each major route line belongs to both its ends, reversed at the second. "
     "Closures and preloaded people are taken over line by line. The microscale reader builds the same network from the same location columns, with the kind of every road (fifth column) on its link.",
     ["inputs", "configurations"],
     "all numeric cell values, every redirection code, type and country assignment, comment/blank/empty cells, up to 3 locations and 2 routes",
     "Tests load the bundled files and check counts.",
     ["flee/InputGeography.py", "flee/flee.py", "flee/micro_InputGeography.py", "flee/pmicro_flee.py"],
     [("parsing", "flee/InputGeography.py: Read*FromCSV"), ("construction", "flee/InputGeography.py: StoreInputGeographyInEcosystem"), ("microscale", "flee/micro_InputGeography.py, flee/pmicro_flee.py: linkUp")],
     ["locations, links, closures and agents of the ecosystem after loading"])

prop("C18", "Precomputed routes are valid and the best within awareness",
     "With precomputed routing, a location's table holds, for every non-marker destination of positive weight reachable by a loop-free route within the awareness level, one entry whose route is a real sequence of open links from the location to that destination and whose weight is the documented formula for that route's length and the scores at the time the table was made. Declared major routes add their destinations in the same way, and count for a quarter of their length. "
     "Among the admissible routes to a destination the one with the highest weight is kept, so no admissible route is heavier than the stored one. "
     "People using the table end up with one of its routes with probability proportional to its weight times the destination's attractiveness.",
     ["configurations", "inputs"],
     "all lengths and scores on every network of up to 4 locations with awareness 1 to 3",
     "Tests check one graph.",
     ["flee/crawling.py", "flee/moving.py"],
     [("table", "flee/crawling.py: generateLocationRoutes, _addLocationRoute"), ("use", "flee/moving.py: selectRoute")],
     ["routes table of a location; weights handed to the draw"])

prop("C19", "Parallel runs share people out without loss and agree on all counts",
     "For every number of processes each added person exists on exactly one process, shares differ by at most one, and all processes agree on the total. "
     "After every day all processes hold identical counts for every location and open link, equal to the sum over processes of the people actually there (people retired in a camp included), in both communication modes. "
     "The number of people in IDP camps reported by any process is the true total.",
     ["configurations", "schedules", "histories"],
     "1 to 3 processes, up to 4 people, both latency modes, all random outcomes on each process over up to 2 days",
     "Parallel tests need mpirun, run one scenario and compare totals only.",
     ["flee/pflee.py"],
     [("ownership", "flee/pflee.py: addAgent, insertAgent"), ("aggregation", "flee/pflee.py: updateNumAgents, MPIManager"), ("IDPs", "flee/pflee.py: numIDPs")],
     ["agents per rank, numAgents per location/link on each rank, numAgents(), numIDPs()"])

prop("C20", "Parallel scores and behaviour equal the sequential ones",
     "After the daily score update every process holds, for every location, exactly the attractiveness the sequential code computes, for every number of locations and processes and in both parallel modes. "
     "Spawn counts are the same on all processes. "
     "Run on one process with the same random draws (and no camp capacity limits, one simulation per program), the parallel simulation moves every person exactly as the sequential one does.",
     ["configurations", "inputs", "histories"],
     "1 to 4 processes, 1 to 5 locations, all weights and draws over up to 2 days",
     "No test compares location scores across ranks for different divisions of work.",
     ["flee/pflee.py", "flee/scoring.py"],
     [("work division and exchange", "flee/pflee.py: Ecosystem.evolve, synchronize_locations"), ("score access", "flee/pflee.py: Location.getScore/setScore, Link.getBaseEndPointScore")],
     ["scores on each rank; agent positions"])

prop("C21", "Coupled simulations hand over exactly the people that crossed",
     "When two coupled simulations exchange, each coupled location that takes people in receives exactly the number of people standing at its counterpart in the other simulation at the moment of the exchange (the rounded average over the instances of an ensemble), no more, no fewer, so that over the whole run people handed over equal people received. "
     "Locations that are not coupled are unaffected by an exchange, outgoing locations are emptied of exactly the people handed over, and purely incoming ones lose nobody. "
     "Exchanges happen exactly on the configured days.",
     ["histories", "inputs"],
     "all arrival counts per location and step, 2 coupled locations, both directions, up to 3 exchanges, 1 or 2 instances",
     "Coupling tests are not part of the reliable suite (they need several processes).",
     ["flee/coupling.py"],
     [("exchange", "flee/coupling.py: CouplingInterface.Couple, generateOutputCSV, readInputCSV")],
     ["agents per location in each simulation before and after an exchange"])

prop("C22", "Every documented setting takes effect, and unset ones get their defaults",
     "A documented setting given in the settings file is the value the simulation uses, converted to its type, whatever other settings are present. "
     "A setting that is absent (including absent sections) takes its documented default and is not affected by any other setting. "
     "Contradictory spawn options are refused rather than silently resolved.",
     ["inputs", "configurations"],
     "every documented key in turn with an arbitrary value, absent or present sections, and pairs of keys",
     "Tests load a few complete files; they never vary one key at a time.",
     ["flee/SimulationSettings.py"],
     [("settings", "flee/SimulationSettings.py: ReadFromYML, fetchss")],
     ["effective rules after loading; behaviour of camps as sinks"])

prop("C23", "Camps acting as sinks retire people for good and touch nobody else",
     "When camps are sinks, at the end of a day exactly those people standing in a camp whose draw falls below that camp's deactivation chance leave the simulation, and with the option off nobody does. "
     "A retired person never moves, travels or returns, stays in the headcount of the camp, and later days proceed normally for everybody else. "
     "The chance given in the location file is used as a number, and locations without one retire nobody.",
     ["inputs", "histories"],
     "all deactivation chances and draws, camps, towns and links, up to 3 days",
     "A single test enables the option, with one random stream and one chance.",
     ["flee/flee.py", "flee/pflee.py", "flee/SimulationSettings.py"],
     [("deactivation", "flee/flee.py: Ecosystem.evolve"), ("settings key", "flee/SimulationSettings.py: ReadFromYML")],
     ["agent locations after each day"])

prop("C24", "Log files state exactly what happened each day",
     "With agent logging on, every day adds one line per active person (plus, at the higher levels, one per route completed that day with travel left, naming that route) whose fields are that person's home, current place or route, coordinates, travel state, distances, places visited and attributes at the end of that day (before people are retired in camps); with link logging on, every day adds one line per open link with its cumulative count, and per attribute value at the higher level. "
     "Region granularity replaces names by regions and hides coordinates, and nothing else. "
     "Earlier days' lines are kept.",
     ["histories", "configurations"],
     "all outcomes over 2 days with 2 people on 3 locations, every log level and granularity",
     "Tests run with logging on but do not read the files.",
     ["flee/Diagnostics.py", "flee/flee.py"],
     [("agent log", "flee/Diagnostics.py: write_agents_par"), ("link log", "flee/Diagnostics.py: write_links_par")],
     ["contents of agents.out.* and links.out.*"])

prop("C25", "Validation error measures equal their definitions",
     "The relative error of a value is its absolute relative deviation from the reference (0 for a vanishing reference below 0.00001), the absolute error and array differences are absolute deviations, the mean difference is their mean, and the scaled error is the mean absolute forecast error over all days divided by the mean absolute error of the naive model over the days after the forecast start, all rounded to four digits; none is ever negative and all vanish for a perfect forecast. "
     "The total absolute difference over locations is the sum of the locations' differences day by day, and an aggregated error is the mean of the locations' errors weighted by their number of people; neither depends on the order of locations nor changes the locations' own errors. "
     "The per-location errors the plotting programs report compare the day's simulated with the day's observed count, unscaled, scaled so that the simulated total matches the observed total (0 while nobody is simulated), and relative to the observed total (at least 1).",
     ["inputs"],
     "all values and arrays of length up to 4, up to 3 locations, up to 3 days",
     "Tests compute each measure for one or two arrays.",
     ["flee/postprocessing/analysis.py", "flee/postprocessing/StoreDiagnostics.py", "flee/postprocessing/plot_flee_output.py", "flee/postprocessing/plotly_flee_output.py", "flee/postprocessing/extract-validation-results.py", "flee/postprocessing/plot_flee_uq_output.py", "flee/postprocessing/plot-flee-uq-output-more.py"],
     [("measures", "flee/postprocessing/analysis.py"), ("aggregation", "flee/postprocessing/StoreDiagnostics.py: SimulationErrors (and its copies)"), ("per-location errors", "flee/postprocessing/plot_flee_output.py: error_quantification")],
     ["returned values"])

prop("C26", "Attributes of one entity never leak into another",
     "Setting or changing an attribute of one location, link or person changes that entity only, however the entities were created (with or without explicit attributes, one by one or in bulk, individually or from files). "
     "The two directions of a route are separate links. "
     "Two simulations in the same program do not share attributes.",
     ["histories", "configurations"],
     "all creation paths for up to 3 entities of each kind and all written values",
     "No test writes an attribute on one entity and reads another.",
     ["flee/flee.py", "flee/pflee.py"],
     [("attribute ownership", "flee/flee.py: Location/Link/Person.__init__, setAttribute, insertAgent, linkUp")],
     ["attributes of all entities after a write"])

prop("C27", "Distances between locations are great-circle distances",
     "The distance between two locations is the haversine great-circle distance on a sphere of radius 6371 km, with x as longitude and y as latitude in degrees. "
     "It always exists (also for opposite places), is symmetric, never negative and zero between a location and itself, and never exceeds half the circumference. "
     "It does not depend on anything but the two positions.",
     ["inputs"],
     "all coordinates (trigonometric functions axiomatised, not sampled)",
     "A test checks one pair of cities.",
     ["flee/flee.py"],
     [("haversine", "flee/flee.py: Location.calculateDistance")],
     ["returned distance"])

prop("C28", "Flood levels act only where and when the flood input says",
     "With flood rules on, each day every location's flood level is the input's value for that day, and 0 for locations the input does not list. "
     "A positive level overrides the location's chance of leaving by the configured value for that level and multiplies its attractiveness as a destination by the configured weight; level 0 changes nothing. "
     "With the flood forecaster on, both are scaled further by the traveller's awareness weight times the sum, over the days of the forecast window, of the product of that day's own weight and the weight of its flood level (nothing for level 0), divided by the configured number of days. The window is the configured number of days following today, cut at the end of the forecast (on the last day of the forecast, that day itself); days outside it never matter, and with forecasting off (or after its end) no future level does.",
     ["inputs", "histories"],
     "all level tables over 5 days and 2 locations with levels 0-2, all override chances and weights, all forecast windows up to 3 days",
     "Flood tests run one scenario and check agent totals.",
     ["flee/moving.py", "flee/scoring.py", "flee/InputGeography.py"],
     [("levels", "flee/InputGeography.py: UpdateLocationAttributes"), ("effects", "flee/moving.py: calculateMoveChance, getEndPointScore; flee/scoring.py")],
     ["flood_level attribute, move chance, weights"])

prop("C29", "Spawned people get attributes drawn with their own place's weights",
     "Everyone who is created by the simulation itself (initial camp population, conflict-driven, flood-driven, data-driven or explicit spawning) gets exactly one value for every attribute that has a demographics_<attribute>.csv file in input_csv, and no others. "
     "Each value is one of the file's values, drawn separately for every person and attribute with the weights in the column of the place the person is created in, or in the Default column when the file has no column for that place. Without such files people have no attributes.",
     ["inputs", "schedules"],
     "all weights and all drawn rows, for 1-3 attribute files and up to 4 people by every way of entering",
     "A draw is random and the files used in tests have one column; no test checks which weights were used.",
     ["flee/spawning.py"],
     [("reading", "flee/spawning.py: read_demographics, read_demographic_csv"), ("drawing", "flee/spawning.py: draw_sample, draw_samples"), ("use", "flee/spawning.py: add_initial_refugees, spawn_daily_displaced, spawn_agents")],
     ["attributes of every person, weights handed to the random draw"])

prop("C30", "Arrivals in camps and their journey times are recorded for every day",
     "With the camp log level on, the simulation keeps one number of arrivals and one mean journey time for every completed day. "
     "The number counts each time that day that a person finishes a route whose end is at that moment a camp or IDP camp (also when passing through; not people who start there). "
     "The mean journey time is the average of the completed days since those people entered the simulation, and 0 on a day without arrivals. With the level off nothing is recorded.",
     ["inputs", "histories"],
     "all route lengths up to 700 km, start days, journey times brought along, and kinds of the places on the way, over 4 days",
     "No test looks at these records.",
     ["flee/flee.py"],
     [("collection", "flee/flee.py: Person.finish_travel"), ("aggregation", "flee/flee.py: Ecosystem._aggregate_arrivals")],
     ["Ecosystem.num_arrivals, Ecosystem.travel_durations"])

prop("C31", "The simulation programs print what happened on every day",
     "runscripts/run.py and runscripts/run_par.py print one header line and then one line for each day of the period (the length given on the command line when positive, otherwise that of sim_period.csv). "
     "On every day, in this order, the conflicts and levels of the day take effect, the day's new people enter, routes are closed or reopened, and people move; then the line is printed with the day, its date, for every camp the number of people in it, the number of registered people and their relative error, "
     "the total error (sum of the absolute differences divided by the raw count), the registered people in all camps, the total number of people, the raw registration count, the number of people in camps, the debt and, when switched on, the number of IDPs. "
     "All of these equal the state of the simulation and of the data on that day; without registered people on a day, total error, registered people in camps, raw count and debt are 0. Input directories, settings file (or simsetting.yml), preloaded people, registration corrections, scale-down and initial camp population all take effect as specified.",
     ["configurations", "histories", "schedules"],
     "all closure days, conflict intensities, flood levels and registration counts of small inputs over 2-4 days, on 1-3 processes",
     "The tests call the library; no test runs the programs or looks at what they print.",
     ["runscripts", "flee/InputGeography.py", "flee/datamanager", "flee/spawning.py"],
     [("serial program", "runscripts/run.py"), ("parallel program", "runscripts/run_par.py")],
     ["the printed lines"])

prop("C32", "Forced redirections bind everyone who leaves their source, and nobody else",
     "A person who sets out from a place where an open road carries a forced redirection takes that road, whatever they had planned and whatever the weights are; if it is the next road of their plan, the plan is kept. "
     "When the redirection has been removed (directly or by the schedule), or the road is closed, people there plan and travel freely again, and follow it again once it is restored or reopened. "
     "People at the road's other end, on the way, or at other places are not affected, and whether somebody sets out is still decided by the chance of leaving alone (full camps aside, see C08).",
     ["inputs", "configurations", "histories"],
     "all kinds of places at both ends, earlier plans, removals, closures and their days, every draw",
     "No test contains a redirection whose effect on people is looked at.",
     ["flee/flee.py", "flee/InputGeography.py"],
     [("departure", "flee/flee.py (Person.evolve)"), ("flag", "flee/flee.py (Link, set_forced_redirection, enact_border_closures)")],
     ["the road entered", "route", "forced_redirection"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
