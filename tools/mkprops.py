#!/usr/bin/env python3
"""Generates /verif/properties.jsonl (kept as a script so that it stays in step)."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),
      why_tests_cant=why,anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],
      observe_at=observe,hook_needed=None,**({"state":state} if state else {}))))
PR="processors/"
p("C01","Every processed feed stays self-consistent and loads again without errors",
 "For every valid input feed and every combination of processing options, the run completes without crashing and the feed it writes is accepted by a strict (no-error-fixing) load. Every reference in the result (trip to route/service/shape/stop, stop to parent/level, transfer, pathway, fare rule, frequency, attribution) names an entity that is present in it, under that entity's own id, and no row is emitted twice.",
 ["inputs","configurations"],"every valid feed x every option or short sequence of options x map-iteration order",
 "Existing tests load a handful of fixture feeds with one processor each; a dangling reference needs a specific mix of reference kinds (station-level transfers, boarding areas, pathways, trip transfers) and a processor, or two processors in sequence.",
 [PR+"*.go","gtfstidy.go"],
 [("post-deletion clean-up of transfers",PR+"orphanminimizer.go, stopduplicateremover.go, stopreclusterer.go, tripduplicateremover.go"),("re-pointing of references on merge",PR+"*duplicateremover.go, stopreclusterer.go")],
 ["in-memory feed after each processor","written feed re-parsed in strict mode"])
p("C02","Lossless compression keeps the passenger view of the feed",
 "Running the lossless compression/merging options (orphan removal, duplicate shape/route/service/stop/agency/trip removal, service minimisation, frequency minimisation, ID minimisation), alone or in any combination, leaves the passenger-visible timetable unchanged. On every calendar date the same departures are offered with the same stop sequence, times, route, agency, headsign and geometry attributes, none lost and none invented, apart from exact duplicates collapsing into one.",
 ["inputs","configurations"],"every valid feed x every subset of the lossless options in pipeline order",
 "README promises semantic equivalence of the output; tests check single processors on one fixture each, never the composition, and never against an independent timetable expansion.",
 ["gtfstidy.go",PR+"*.go"],
 [("option pipeline order","gtfstidy.go main()"),("each duplicate remover's equality predicate",PR+"*duplicateremover.go")],
 ["expanded timetable (date, stop, time, attributes) before and after"])
p("C03","Service compression never changes on which dates a service runs",
 "Minimising calendars (-c) and removing duplicate services (-C) keep, for every trip, exactly the set of calendar dates on which it runs. Two services are only combined when they are active on the same dates, after -C no two services active on the same dates remain, and -c never produces more calendar/calendar-date entries for a service than it had.",
 ["inputs"],"all weekly patterns x date ranges x exception sets over a bounded horizon, incl. year/month/DST boundaries, and all pairs/triples of such services",
 "Unit tests use a few fixed services; the minimiser searches over start/end/weekday covers and exceptions, and off-by-one at range ends or exceptions outside/inside the range only shows for particular patterns.",
 [PR+"serviceminimizer.go",PR+"serviceduplicateremover.go"],
 [("cover search",PR+"serviceminimizer.go perfectMinimize/packMinimize"),("service equality",PR+"serviceduplicateremover.go"),("reference update",PR+"serviceduplicateremover.go combineServices")],
 ["active dates per trip","number of calendar entries"])
p("C04","Trip duplicate removal loses no departure and invents none",
 "Removing duplicate trips (-I) keeps, for every calendar date, the set of offered journeys (stop sequence, times, route, headsign and other trip attributes, frequency windows) unchanged: trips are merged only if they are alike in everything a passenger sees, and the surviving trip runs on exactly the union of the merged trips' dates. Two identical trips with overlapping service are always reduced to one; with --red-trips-fuzzy the route may differ but its type and names as shown may not be lost for journeys that have no duplicate.",
 ["inputs","schedules"],"all pairs and triples of trips over an alphabet of attribute differences x service overlap patterns (equal, subset, overlapping, disjoint, adjacent) x merge mode",
 "Tests contain no trip duplicate remover test at all; which trip absorbs which depends on hash buckets, chunking and iteration order, and every attribute must be part of the comparison.",
 [PR+"tripduplicateremover.go"],
 [("trip equality and calendar relation",PR+"tripduplicateremover.go tripAttrEq/tripStEq/tripCalEq"),("service combination",PR+"tripduplicateremover.go combine*Trips")],
 ["multiset of journeys per date before and after"])
p("C05","Frequency compression reproduces exactly the original departures",
 "Combining trips into frequencies (-T) preserves the multiset of departures: expanding every frequency of the result gives, for every date, exactly the departures (first-stop departure time, running and dwell times, stop sequence, route, service, headsign, shape, other attributes) of the input, and headways lie within the configured bounds. Frequency-based trips without exact times are left as they are.",
 ["inputs","schedules"],"all sets of up to 5-6 departures on a small time grid x attribute differences x existing frequencies x goroutine interleavings",
 "One test on one fixture; the arithmetic-progression cover has many edge cases (overlapping progressions, missing members, equal start times, past-midnight times, single members).",
 [PR+"frequencyminizer.go"],
 [("progression cover",PR+"frequencyminizer.go getProgressions/packed covers"),("trip equality for packing",PR+"frequencyminizer.go"),("concurrent collection",PR+"frequencyminizer.go Run goroutines + mutex")],
 ["expanded departures before and after"])
p("C06","Route duplicate removal merges only indistinguishable routes and keeps fares",
 "Removing duplicate routes (-R) merges two routes only if all passenger-visible route attributes, the agency, attributions and the applicable fare rules agree; every trip keeps a route with the same attributes and the same applicable fares, and references to a removed route follow to the surviving one. After the run no two identical routes remain.",
 ["inputs","schedules"],"all pairs/triples of routes over single-attribute differences x fare-rule configurations x references",
 "The fixture test has a few routes; each attribute and each fare-rule shape must be distinguished, and fare rules of merged routes must be re-pointed exactly once.",
 [PR+"routeduplicateremover.go"],
 [("route and fare equality",PR+"routeduplicateremover.go routeEquals/checkFareEquality"),("combination",PR+"routeduplicateremover.go combineRoutes")],
 ["route attributes and fare applicability per trip"])
p("C07","Agency duplicate removal merges only identical agencies",
 "Removing duplicate agencies (-A) merges two agencies only if all their visible attributes agree; every route and fare keeps an agency with the same attributes, nothing else changes, and no two identical agencies remain afterwards.",
 ["inputs","schedules"],"all pairs/triples of agencies over single-attribute differences x references from routes and fares",
 "There is no agency duplicate test; each attribute and each referencing table is a separate way to go wrong.",
 [PR+"agencyduplicateremover.go"],
 [("agency equality",PR+"agencyduplicateremover.go agencyEquals"),("re-pointing",PR+"agencyduplicateremover.go combineAgencies")],
 ["agency attributes per route and fare"])
p("C08","Stop duplicate removal merges only equal stops and keeps all references",
 "Removing duplicate stops and levels (-P) merges two stops only if their visible attributes agree (position within the documented tolerance, name/code/zone/platform/accessibility/timezone/level/parent equal; the relaxed comparison only with --red-stops-fuzzy) and two levels only if index and name agree. All stop times, child stops, transfers and pathways follow to the surviving stop with their own values unchanged, no transfer or pathway to a still existing place is lost, and no two identical stops remain.",
 ["inputs","schedules"],"all pairs/triples of stops over single-attribute differences x reference kinds (stop time, parent, level, transfers in both/one direction/self, pathways)",
 "One test over a fixture with 0 transfers/pathways; reference re-pointing depends on which stop survives and on whether an equal transfer already exists.",
 [PR+"stopduplicateremover.go",PR+"stopclusteridx.go"],
 [("stop/level equality",PR+"stopduplicateremover.go stopEquals/levelEquals"),("combination and re-pointing",PR+"stopduplicateremover.go combineStops/combineLevels")],
 ["stop attributes seen by every stop time/transfer/pathway before and after"])
p("C09","Orphan removal deletes exactly the unreachable entities",
 "Orphan removal (-O) removes an entity only if nothing that is kept refers to it and removes every stop, route, trip-less service, shape, level, agency or fare-less entity that is unreferenced; all attributes of the remaining entities stay as they were. Everything a passenger can use (trips with stop times, their stops, stations, levels, shapes, services, transfers and pathways between used places) is kept, and running it a second time changes nothing.",
 ["inputs"],"all small reference graphs: presence/absence of each entity kind and of each reference between them, incl. stop hierarchies up to depth 3",
 "No orphan-remover test; the result is a reachability fixpoint over many reference kinds, computed by a fixed sequence of passes.",
 [PR+"orphanminimizer.go"],
 [("per-kind reference marking and deletion passes",PR+"orphanminimizer.go")],
 ["set of remaining entities vs. reference reachability model"])
p("C10","ID minimisation is a pure renaming, complete before the feed is used",
 "ID minimisation (-i/-d) renames ids bijectively per entity kind and changes nothing else: all references, attributes, additional fields, transfers, fares, attributions, blocks and frequencies describe the same feed up to that renaming. Kinds whose ids the user asked to keep are untouched, new ids are dense numbers in the chosen base, and the renaming is complete when the processing step ends, for every interleaving of its concurrent parts.",
 ["inputs","configurations","schedules"],"all subsets of keep flags x id alphabets that collide with the new ids x goroutine interleavings",
 "No test; the in-place rekeying of additional fields collides only for particular old ids, and early completion is a schedule bug.",
 [PR+"idminimizer.go"],
 [("per-kind renaming goroutines and completion semaphore",PR+"idminimizer.go Run"),("additional field rekeying",PR+"idminimizer.go")],
 ["feed isomorphism before/after"])
p("C11","Shape simplification keeps shapes within tolerance and never distorts measures",
 "Shape minimisation (-s) keeps the first and last point of every shape, only drops points (never moves, adds or reorders them), keeps the order and measurement value of each kept point, and every dropped point lies within the 1 m tolerance (in the used projection, or the equivalent measure tolerance) of the simplified line.",
 ["inputs","schedules"],"all point sequences up to a length over a small grid (incl. spikes, loops, duplicated points, closed shapes) x measurement patterns",
 "One fixture; the recursive simplification depends on split indices, closed shapes (first = last) and the mixed measure condition.",
 [PR+"shapeminimizer.go",PR+"util.go"],
 [("Douglas-Peucker",PR+"shapeminimizer.go minimizeShape"),("perpendicular distance",PR+"util.go")],
 ["point sequences before and after"])
p("C12","Shape duplicate removal merges only geometrically equal shapes",
 "Removing duplicate shapes (-S) replaces a shape only by one that runs along the same course in the same direction within the documented tolerance and carries measurements equal within that tolerance; every trip that had a shape keeps one, and trips without a shape get none. Exactly identical shapes always end up as one.",
 ["inputs","schedules"],"all pairs/triples of short shapes over a grid at distances below/above the tolerance, reversed, prefixes, re-measured variants, sparse vs dense, hemispheres",
 "One fixture; an index lookup decides which pairs are even compared and merging order decides the survivor.",
 [PR+"shapeduplicateremover.go",PR+"shapeidx.go"],
 [("inclusion test in both directions",PR+"shapeduplicateremover.go inShape/getEqShps"),("candidate index",PR+"shapeidx.go")],
 ["shape course of every trip before and after"])
p("C13","Shape remeasuring keeps known measures and yields monotone measures",
 "Remeasuring shapes (-m) keeps geometry and all present shape measurements (unless forced by stop-time remeasuring), fills every gap with a value between its measured neighbours in proportion to distance along the line, and the resulting measurements never decrease along the shape.",
 ["inputs","schedules"],"all present/absent measurement patterns up to 5-6 points x spacing patterns incl. coincident points",
 "No unit test for gap filling; leading/trailing gaps and zero-length segments are separate cases.",
 [PR+"shaperemeasurer.go"],
 [("gap interpolation",PR+"shaperemeasurer.go remeasure/remeasureBetween")],
 ["shape points before and after"])
p("C14","Stop-time remeasuring keeps timetables and yields monotone measures",
 "Stop-time remeasuring (-r) changes nothing but distance measurements: for each trip with a shape, stop measurements are non-decreasing along the trip, lie within the shape's measurement range and correspond to the stop's position on the shape, and trips sharing a shape and stop sequence get the same values. Trips without a shape keep their timetable untouched.",
 ["inputs","schedules"],"all short stop sequences (incl. repeated stops, loops, off-line stops) x shapes on a small grid x missing/partial measures",
 "No test; the best monotone assignment depends on repeated stops, loops and caching between trips.",
 [PR+"stoptimeremeasurer.go"],
 [("monotone stop-to-shape assignment",PR+"stoptimeremeasurer.go"),("unified stop pattern clustering",PR+"stoptimeremeasurer.go")],
 ["stop_times before and after"])
p("C15","Snapping stops moves only far-away stops, onto the trip's shape",
 "Stop snapping (--snap-stops) changes, for each stop time whose stop lies more than 100 m off its trip's shape, only the position of the place served: it becomes a stop on that shape carrying otherwise the same attributes. Stop times within the limit, trips without shapes and all times, order and attributes are untouched, and one trip's correction never alters where another trip that is fine stops.",
 ["inputs"],"all assignments of 1-3 trips to shapes and stops near/far, shared or not, with parents",
 "No test; the original stop may be shared between trips with different shapes, and snapped copies need fresh ids.",
 [PR+"shapesnapper.go"],
 [("snap and copy stop",PR+"shapesnapper.go")],
 ["stop position and attributes per stop time"])
p("C16","Expanding calendars without calendar_dates keeps every trip's dates",
 "Removing calendar_dates (--remove-cal-dates) yields a feed without date exceptions in which every original trip still runs on exactly the same dates, exactly once per date, with all of its stop times, frequencies and other attributes; ids of the split services and trips are unique.",
 ["inputs"],"all weekly patterns x exception sets over a bounded horizon x id alphabets that can collide x trips with frequencies/attributions/blocks",
 "No test; splitting depends on runs of exceptions at/over the range borders and generated ids can collide with given ones.",
 [PR+"servicecaldatesremover.go"],
 [("service splitting",PR+"servicecaldatesremover.go getServicesFor..."),("trip copies",PR+"servicecaldatesremover.go")],
 ["journeys per date before and after"])
p("C17","Non-overlapping services keep every trip's dates",
 "Creating non-overlapping services (--non-overlapping-services) keeps for every date exactly the journeys offered, and afterwards no two services are active on the same date. Each trip is replaced by copies that carry all of its attributes.",
 ["inputs"],"all sets of 1-3 services over bounded horizons incl. spans over several years and week 53/1 boundaries x trips",
 "No test; week/weekday grouping across year boundaries and generated ids are where dates can be lost or doubled.",
 [PR+"servicenonoverlapper.go"],
 [("grouping of days by service set",PR+"servicenonoverlapper.go"),("trip copies",PR+"servicenonoverlapper.go writeTrips")],
 ["journeys per date","service date sets pairwise disjoint"])
p("C18","Reclustering stations keeps stops, their trips and their references",
 "Reclustering stops (-E) only changes how stops are grouped into stations: every trip still calls at stops with the same name, code, position and other own attributes at the same times, and no stop used by a trip disappears. Parent stations of the result exist and are stations, transfers and pathways keep pointing at existing places, and stops farther apart than the distance threshold or with dissimilar names that had no common station are not grouped together.",
 ["inputs"],"all small sets of stops/stations over name x position x hierarchy alphabets, with references",
 "No test; cluster merging order depends on similarity ties and map order, and station creation on whether clusters contain parents, children or both.",
 [PR+"stopreclusterer.go",PR+"stopclusteridx.go",PR+"priorityqueue.go"],
 [("agglomerative clustering",PR+"stopreclusterer.go cluster"),("writing clusters",PR+"stopreclusterer.go writeCluster")],
 ["stop times, hierarchy and references before and after"])
p("C19","Grouping adjacent equal stops keeps boarding, alighting and times",
 "Grouping adjacent stop times (--group-adj-stop-times) merges only consecutive calls of a trip at the same stop, into one call with the arrival of the first and the departure of the last. Boarding and alighting possibilities after grouping are those a passenger had before, all other stop times keep their values and order, and no two equal adjacent stops remain.",
 ["inputs"],"all stop sequences up to length 4-5 over 2 stops x pickup/drop-off/continuous/timepoint/measure values per call",
 "No test; the result depends on run lengths, run position and the per-call attributes.",
 [PR+"adjstoptimegrouper.go"],
 [("run grouping",PR+"adjstoptimegrouper.go Run")],
 ["stop_times before and after"])
p("C20","Station hygiene options change only what they say",
 "--ensure-stop-parents gives every parentless stop a station of its own with the stop's name and position and leaves stops with a parent alone; --drop-platform-for-parentless clears platform codes of parentless stops only; --fix-far-away-parents moves a station only if it is more than 100 m from a child, to the mean position of its children. Nothing else in the feed changes and generated station ids are fresh.",
 ["inputs"],"all small stop hierarchies x positions x id alphabets that can collide",
 "No tests; generated ids can collide with existing ones and hierarchies with several location types need care.",
 [PR+"stopparentenforcer.go",PR+"platformcodedropper.go",PR+"parentaverager.go"],
 [("parent creation",PR+"stopparentenforcer.go"),("code dropping",PR+"platformcodedropper.go"),("averaging",PR+"parentaverager.go")],
 ["stops before and after"])
p("C21","Trip filters drop exactly the trips they describe",
 "--drop-too-fast-trips removes exactly the trips that somewhere run faster than is plausible for their vehicle type between timed stops, and --complete-filtered-trips keeps exactly the trips touching the given polygons, completely, with every stop, station and shape they use. All other trips and everything they need stay unchanged.",
 ["inputs"],"all short trips over distances/times/vehicle types around the limits; all in/out patterns of stops x hierarchies x references x polygons",
 "No tests; untimed stops, zero time differences, polygon borders and stations of kept stops are separate cases.",
 [PR+"toofasttripremover.go",PR+"completegeotripsfilter.go"],
 [("speed check",PR+"toofasttripremover.go"),("polygon filter",PR+"completegeotripsfilter.go")],
 ["set of remaining trips and their data"])
p("C22","Results do not depend on scheduling, parallelism or map order",
 "For every processing step the passenger view of the result and the amount of compression guaranteed for exact duplicates are the same for every goroutine interleaving, degree of parallelism and map iteration order; no execution deadlocks, crashes, races on shared data, or returns before its work is done.",
 ["schedules"],"all goroutine interleavings up to a preemption bound x parallelism 1..4 x bounded deviations of map iteration order, on feeds forced to collide",
 "Go's scheduler and map randomisation make a test run one sample of these; the suite never runs under the race detector or varied parallelism.",
 [PR+"*.go"],
 [("chunked goroutines with semaphores",PR+"*.go"),("mutex-protected collection",PR+"frequencyminizer.go")],
 ["snapshot after each processor under a controlled scheduler and map order"])
p("C23","Merging several feeds keeps each feed intact; prefixes and kept ids are right",
 "Processing several inputs at once yields the disjoint union of the feeds even when their ids coincide; an id prefix is applied to every id and its references; with the keep-id options the original ids are restored wherever that is unambiguous, and restoring never loses, duplicates or re-links entities.",
 ["inputs","configurations"],"all pairs of small feeds with equal/different/prefix-like ids x keep flags x prefix strings",
 "No test runs the command line with two inputs; restoration mutates the maps it iterates over.",
 ["gtfstidy.go"],
 [("prefix parsing","gtfstidy.go main()"),("id restoration loops","gtfstidy.go main()")],
 ["written feed"])
p("C24","Command line contract: validation, filters, shorthands, exit status",
 "Validation mode writes nothing and exits 0 exactly for feeds that load without error; a failed run (unreadable input, bad argument, broken feed without error fixing) exits non-zero and does not touch the output. Date, polygon and bounding-box filters and vehicle-type lists are applied as given, the shorthand options behave as the options they stand for, and additional fields are kept exactly when asked.",
 ["inputs","configurations"],"all option subsets of a bounded menu x small valid/broken feeds x filter arguments around boundaries",
 "main() has a single smoke test with all processors; argument handling has none.",
 ["gtfstidy.go"],
 [("flag handling","gtfstidy.go main()"),("argument parsers","gtfstidy.go parseDate/parseCoords/getGtfsPoly")],
 ["exit status, written files, written feed"])
# the statements as they came out of building the checks (these replace the first versions above)
S={
"C01":("Every processed feed stays self-consistent and loads again without errors",
 "For every valid input feed and every combination of processing options, the run completes without crashing and the feed it writes is accepted by a strict (no-error-fixing) load. Every reference in the result (trip to route/service/shape/stop, stop to parent/level, transfer, pathway, fare rule, frequency, attribution) names an entity that is present in it, under that entity's own id. No row is emitted twice, no id stands for two entities, and stop times, shape points and measures come out in an order the format allows."),
"C02":("Lossless compression keeps the passenger view of the feed",
 "Running the lossless compression and merging options (orphan removal, duplicate agency/stop/shape/route/service/trip removal, service minimisation, frequency minimisation, ID minimisation), alone, in any combination, through their shorthands, and over one or several input feeds, leaves the passenger-visible timetable unchanged: on every calendar date the same departures are offered at the same times, with the same stop sequence and stop attributes, route, agency and trip attributes and (nearly the same) shape, none lost and none invented, apart from duplicates collapsing into one. Fares of used routes and transfers and pathways between used places keep applying with the same values, and none is invented. Not compared are things the other properties leave open: positions within the stop tolerance, which of nearly equal shapes or of the duplicates' platforms, direction and pickup values survives, the route sort order hint, and trips nobody can board or alight."),
"C03":None,
"C04":("Trip duplicate removal loses no departure and invents none",
 "Removing duplicate trips (-I) keeps, for every calendar date, the set of offered journeys (stations and times in order, route, headsign, accessibility and the other trip attributes) unchanged: trips are merged only if they are alike in these, and what survives runs on exactly the union of the merged trips' dates. Of two such trips that share a date the duplicate is always removed from it, and frequency-based trips and trips without stop times stay as they are. With --red-trips-fuzzy the route may differ but not its type, and journeys without a duplicate keep their route; references of removed trips follow or disappear, none is left dangling."),
"C05":("Frequency compression reproduces exactly the original departures",
 "Combining trips into frequencies (-T) preserves the multiset of departures: expanding every frequency of the result gives, for every date, exactly the departures (departure at the first stop, running and dwell times, stop sequence with all call attributes, route, service, headsign, shape, other attributes) of the input. Departures which had exact times keep them and those which had none do not get them; headways of combined trips lie within the given bounds or equal one of the input. Everything else (other trips, attributions, transfers, services) stays, except that transfers which name a combined trip may go."),
"C06":("Route duplicate removal merges only indistinguishable routes and keeps fares",
 "Removing duplicate routes (-R) merges two routes only if all passenger-visible route attributes (short and long name, description, type, url, colours, continuous pickup/drop-off), the agency and the applicable fare rules agree; the sort order hint may differ. Every trip keeps a route with the same attributes and the same applicable fares, and references to a removed route (trips, fare rules, attributions, transfers) follow to the surviving one, each exactly once. After the run no two identical routes remain."),
"C07":("Agency duplicate removal merges only identical agencies",
 "Removing duplicate agencies (-A) merges two agencies only if all their visible attributes (name, url, timezone, language, phone, fare url, email) agree. Every route, fare and attribution keeps an agency with the same attributes and nothing else changes. No two identical agencies remain afterwards."),
"C08":("Stop duplicate removal merges only equal stops and keeps all references",
 "Removing duplicate stops and levels (-P) merges two stops only if their visible attributes (name, code, description, zone, url, location type, timezone, wheelchair access, platform, level, parent) agree and they are connected by a chain of such stops each within the tolerance (5 m for stops, 50 m for stations) of the next, the relaxed comparison being used only with --red-stops-fuzzy; two levels are merged only if index and name agree. All stop times, child stops, transfers and pathways follow to the surviving stop with their own values and additional fields unchanged, and no transfer or pathway to a still existing place is lost. No two stops (with a position) at the same place with the same attributes and no two equal levels remain."),
"C09":("Orphan removal deletes exactly the unreachable entities",
 "Orphan removal (-O) removes stops, routes, trips nobody can board and alight, services, shapes and agencies that nothing kept refers to, and with them only the references that end there (fare rules, transfers, pathways, attributions); all attributes of the remaining entities stay as they were. Everything a passenger can use (trips with stop times, their stops with parents, entrances and levels, shapes, services, fares, transfers and pathways between used places) is kept. Running it a second time changes nothing."),
"C10":("ID minimisation is a pure renaming, complete before the feed is used",
 "ID minimisation (-i/-d) renames ids bijectively per entity kind and changes nothing else: all references, attributes, additional fields, transfers, fares, attributions, blocks and frequencies describe the same feed up to that renaming. Kinds whose ids the user asked to keep are untouched, and new ids are dense numbers in the chosen base. The renaming is complete when the processing step ends, for every interleaving of its concurrent parts."),
"C11":("Shape simplification only drops points and stays within its tolerance",
 "Shape minimisation (-s) keeps the first and last point of every shape, only drops points (never moves, adds or reorders them; they may be renumbered), and keeps position, measurement value and additional fields of each kept point. Every dropped point lies within 1 m of the part of the simplified line that replaces it. Nothing but shape points changes."),
"C12":("Shape duplicate removal merges only geometrically equal shapes",
 "Removing duplicate shapes (-S) replaces a shape only by one that runs along the same course in the same direction within the documented tolerance (directly or by a chain of such shapes) and whose measurements agree, up to the distance of neighbouring shape points. Every trip that had a shape keeps one, trips without a shape get none, and nothing else changes. Exactly identical shapes (of at least two points) always end up as one."),
"C13":("Shape remeasuring keeps known measures and yields monotone measures",
 "Remeasuring shapes (-m) keeps geometry and all known measurements, fills every gap between measured points with values in proportion to the distance along the line, and the measurements never decrease along the shape. Shapes without measurements get them in metres; shapes with fewer than two different measurements are left without any or, if stop times are remeasured too (-r), measured anew. Stop-time measurements beyond the end of the shape are capped there, and nothing else changes."),
"C14":("Stop-time remeasuring keeps timetables and yields monotone measures",
 "Stop-time remeasuring (-r) changes nothing but distance measurements, and leaves trips without a shape and completely measured trips alone. Otherwise the stop measurements are non-decreasing along the trip, lie within the shape's measurement range and belong to places on the shape such that the stops are, in total, as near to them as the order allows; a trip that does not fit its shape (a stop more than 250 m off, or no arrangement in order) is left without measurements. Trips sharing a shape and stop sequence get the same values."),
"C15":("Snapping stops moves only far-away stops, onto the trip's shape",
 "Stop snapping (--snap-stops) changes, for each call whose stop lies more than 100 m off its trip's shape, only the place served: it becomes a stop on that shape (where the call's measurement says, else the nearest place) which carries otherwise the same attributes and additional fields, and has a fresh id. Calls within the limit, trips without shapes and all times, order and attributes are untouched. Existing stops keep their position, so that one trip's correction never alters where another trip stops."),
"C16":("Expanding calendars without calendar_dates keeps every trip's dates",
 "Removing calendar_dates (--remove-cal-dates) yields a feed without date exceptions in which every original trip still runs on exactly the same dates, exactly once per date, with all of its stop times, frequencies, attributions, additional fields, transfers and other attributes. Ids of the split services and trips are unique, and the original trip ids stay in use. Nothing else changes."),
"C17":("Non-overlapping services keep every trip's dates",
 "Creating non-overlapping services (--non-overlapping-services) keeps for every date exactly the journeys offered, each exactly once. Afterwards no two services are active on the same date, and each runs on one day of the week only, which its id begins with. Each trip is replaced by copies that carry all of its stop times, frequencies, attributions, additional fields, transfers and other attributes, under unique ids."),
"C18":("Reclustering stations keeps stops, their trips and their references",
 "Reclustering stops (-E) only changes how stops are grouped into stations: every trip still calls at stops with the same name, code, position and other own attributes at the same times, no stop disappears, and stops of one station stay together. Every parent of the result exists and is a station, transfers and pathways keep pointing at the same stops or at the station that replaced theirs, and a new station is named like one of its stops, lies among them and has other attributes only if all of them agree. Groups are only put together if they are near to each other (75 m on average) and alike in name, and two near stops with the same name and like nothing else are always grouped."),
"C19":("Grouping adjacent equal stops keeps boarding, alighting and times",
 "Grouping adjacent stop times (--group-adj-stop-times) merges only consecutive calls of a trip at the same stop (with equal timepoint, continuous and measurement values, all timed or all untimed), into one call with the arrival of the first and the departure of the last. Boarding and alighting possibilities and times after grouping are those a passenger had before, and all other calls keep their values and order. No two adjacent calls at a stop which differ only in time remain."),
"C20":("Station hygiene options change only what they say",
 "--ensure-stop-parents gives every parentless stop a station of its own with the stop's name and position and leaves stops with a parent alone; --drop-platform-for-parentless clears platform codes of parentless stops only. --fix-far-away-parents moves a station only if it is more than 100 m from a child and all its children are within 100 m of their mean position, which it then gets. Nothing else in the feed changes and generated station ids are fresh."),
"C21":("Trip filters drop exactly the trips they describe",
 "--drop-too-fast-trips removes exactly the trips that are faster than the limit for their vehicle type between two neighbouring timed calls at least 7 km apart (calls at the same time joined, no time counting as a minute) or any two timed calls at least 10 km apart. --complete-filtered-trips keeps exactly the trips that call at a stop inside the given polygons, completely, with every stop, station and shape they use, and all stops inside; pathways and transfers are kept if both ends are. All other trips and everything they need stay unchanged."),
"C22":("Results do not depend on scheduling, parallelism or map order",
 "For every processing step the passenger view of the result (departures per date) is the same for every goroutine interleaving, degree of parallelism and map iteration order, and for exact duplicates and otherwise unambiguous feeds the whole result is, up to renaming. No execution deadlocks, crashes or races on shared data. No step returns before its work is done."),
"C23":("Merging several feeds keeps each feed intact; prefixes and kept ids are right",
 "Processing several inputs at once yields the disjoint union of the feeds even when their ids coincide; an id prefix is applied to every id and to all its references (zone ids included), while empty values stay empty. With the keep-id options (--keep-ids: all kinds but attributions) the original ids are restored wherever that is unambiguous; an id several feeds use is restored for at most one of them. Restoring never loses, duplicates or re-links entities."),
"C24":("Command line contract: validation, filters, shorthands, exit status",
 "Validation mode (-v) writes nothing and exits 0 exactly for feeds that load without error; a failed run (unreadable input, bad argument, broken feed without error fixing) exits non-zero and does not touch the output. Date filters (real dates of eight digits), polygons, bounding boxes (two points) and vehicle-type lists are applied as given, and the shorthand options behave as the options they stand for. Additional fields are kept exactly when asked, and options do nothing beyond what they are documented for."),
}
for x in P:
    v=S[x["id"]]
    if v:
        x["title"],x["statement"]=v
        assert len(v[0])<=80,v
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
