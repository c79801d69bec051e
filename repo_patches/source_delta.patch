From 3e48c5f4cc38ab0b13852f1b58a3494dacf1b413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:06 +0000
Subject: [PATCH 01/25] fix: anchor minimized calendar ranges at the week they
 were computed for and never grow a service

---
 processors/serviceminimizer.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/processors/serviceminimizer.go b/processors/serviceminimizer.go
index 0edc9f2..358f87b 100755
--- a/processors/serviceminimizer.go
+++ b/processors/serviceminimizer.go
@@ -179,7 +179,8 @@ out:
 		}
 	}
 
-	sm.updateService(service, bestMap, bestA, bestB, startTime, endTime, start, end)
+	// bestA and bestB are offsets from the beginning of the first full week
+	sm.updateService(service, bestMap, bestA, bestB, startTimeAm, endTime, start, end)
 }
 
 func (sm ServiceMinimizer) countExceptions(s *gtfs.Service, actmap []bool, bm uint, startDiff int, endDiff int, a int, b int, max uint) uint {
@@ -365,6 +366,18 @@ func (sm ServiceMinimizer) updateService(service *gtfs.Service, bestMap uint, be
 		}
 	}
 
+	// keep the original if the new coverage needs more entries
+	numBefore, numAfter := len(service.Exceptions()), len(newExceptions)
+	if service.RawDaymap() > 0 {
+		numBefore++
+	}
+	if newMap != [7]bool{} {
+		numAfter++
+	}
+	if numAfter > numBefore {
+		return
+	}
+
 	service.SetExceptions(make(map[gtfs.Date]bool, 0))
 
 	for _, e := range newExceptions {
-- 
2.43.0


From c3e78423749b5317e188678e9a7c4f30e62b4ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:16 +0000
Subject: [PATCH 02/25] fix: orphan removal keeps transfers between stations in
 use and leaves no orphaned stations behind

---
 processors/orphanminimizer.go | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/processors/orphanminimizer.go b/processors/orphanminimizer.go
index 997f838..f7ba2d9 100755
--- a/processors/orphanminimizer.go
+++ b/processors/orphanminimizer.go
@@ -33,10 +33,12 @@ func (or OrphanRemover) Run(feed *gtfsparser.Feed) {
 
 	or.removeTransferOrphans(feed)
 
-	or.removeStopOrphans(feed)
-
-	// do this 2 times, because stop deletion can create new stop orphans (parent_station)
-	or.removeStopOrphans(feed)
+	// repeat until nothing changes, because stop deletion can create new stop
+	// orphans (parent_station)
+	for bef := -1; bef != len(feed.Stops); {
+		bef = len(feed.Stops)
+		or.removeStopOrphans(feed)
+	}
 
 	or.removeShapeOrphans(feed)
 
@@ -73,7 +75,10 @@ func (or OrphanRemover) removeTransferOrphans(feed *gtfsparser.Feed) {
 	for _, t := range feed.Trips {
 		referenced_routes[t.Route] = empty{}
 		for _, st := range t.StopTimes {
-			referenced[st.Stop()] = empty{}
+			// a transfer may also refer to the station of a used stop
+			for s := st.Stop(); s != nil; s = s.Parent_station {
+				referenced[s] = empty{}
+			}
 		}
 	}
 
@@ -98,7 +103,7 @@ func (or OrphanRemover) removeTransferOrphans(feed *gtfsparser.Feed) {
 		}
 
 		if tk.To_route != nil {
-			_, inFromRoute = referenced_routes[tk.To_route]
+			_, inToRoute = referenced_routes[tk.To_route]
 		}
 
 		if inFrom && inTo && inFromRoute && inToRoute {
-- 
2.43.0


From e8f9db11956abf5df0898480abbd026149a3f455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:02 +0000
Subject: [PATCH 03/25] fix: transfers of removed duplicate routes follow to
 the surviving route

---
 processors/routeduplicateremover.go | 38 +++++++++++++++++++++++++++--
 1 file changed, 36 insertions(+), 2 deletions(-)

diff --git a/processors/routeduplicateremover.go b/processors/routeduplicateremover.go
index 634690e..a262bf0 100755
--- a/processors/routeduplicateremover.go
+++ b/processors/routeduplicateremover.go
@@ -36,6 +36,9 @@ func (rdr RouteDuplicateRemover) Run(feed *gtfsparser.Feed) {
 	// number of processors for efficient search on collisions
 	chunks := rdr.getRouteChunks(feed)
 
+	// maps deleted routes to the route that took their place
+	replacedBy := make(map[*gtfs.Route]*gtfs.Route)
+
 	for _, r := range feed.Routes {
 		if _, ok := proced[r]; ok {
 			continue
@@ -45,7 +48,7 @@ func (rdr RouteDuplicateRemover) Run(feed *gtfsparser.Feed) {
 		eqRoutes := rdr.getEquivalentRoutes(r, feed, chunks[hash])
 
 		if len(eqRoutes) > 0 {
-			rdr.combineRoutes(feed, append(eqRoutes, r), trips)
+			rdr.combineRoutes(feed, append(eqRoutes, r), trips, replacedBy)
 
 			for _, r := range eqRoutes {
 				proced[r] = true
@@ -55,6 +58,8 @@ func (rdr RouteDuplicateRemover) Run(feed *gtfsparser.Feed) {
 		}
 	}
 
+	rdr.updateTransfers(feed, replacedBy)
+
 	// delete transfers
 	feed.CleanTransfers()
 
@@ -166,7 +171,7 @@ func (rdr RouteDuplicateRemover) fareRulesEqual(attr *gtfs.FareAttribute, a *gtf
 }
 
 // Combine a slice of equal routes into a single route
-func (rdr RouteDuplicateRemover) combineRoutes(feed *gtfsparser.Feed, routes []*gtfs.Route, trips map[*gtfs.Route][]*gtfs.Trip) {
+func (rdr RouteDuplicateRemover) combineRoutes(feed *gtfsparser.Feed, routes []*gtfs.Route, trips map[*gtfs.Route][]*gtfs.Trip, replacedBy map[*gtfs.Route]*gtfs.Route) {
 	// heuristic: use the route with the shortest ID as 'reference'
 	ref := routes[0]
 
@@ -211,10 +216,39 @@ func (rdr RouteDuplicateRemover) combineRoutes(feed *gtfsparser.Feed, routes []*
 			}
 		}
 
+		replacedBy[r] = ref
 		feed.DeleteRoute(r.Id)
 	}
 }
 
+// Let the transfers of deleted routes follow to the routes that took their place
+func (rdr RouteDuplicateRemover) updateTransfers(feed *gtfsparser.Feed, replacedBy map[*gtfs.Route]*gtfs.Route) {
+	for tk, tv := range feed.Transfers {
+		newKey := tk
+		if ref, ok := replacedBy[tk.From_route]; ok {
+			newKey.From_route = ref
+		}
+		if ref, ok := replacedBy[tk.To_route]; ok {
+			newKey.To_route = ref
+		}
+
+		if newKey == tk {
+			continue
+		}
+
+		if _, ok := feed.Transfers[newKey]; !ok {
+			feed.Transfers[newKey] = tv
+			for k := range feed.TransfersAddFlds {
+				if v, ok := feed.TransfersAddFlds[k][tk]; ok {
+					feed.TransfersAddFlds[k][newKey] = v
+				}
+			}
+		}
+
+		feed.DeleteTransfer(tk)
+	}
+}
+
 func (rdr RouteDuplicateRemover) getRouteChunks(feed *gtfsparser.Feed) map[uint32][][]*gtfs.Route {
 	numchunks := MaxParallelism()
 
-- 
2.43.0


From 961815f54dc2bdc0a60da775b8d9b71d28abbee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:19 +0000
Subject: [PATCH 04/25] fix: stop duplicate removal keeps transfers consistent
 and compares stop URLs by value

---
 processors/stopduplicateremover.go | 31 ++++++++++++++++++++++++------
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/processors/stopduplicateremover.go b/processors/stopduplicateremover.go
index 78c90ff..7879c26 100755
--- a/processors/stopduplicateremover.go
+++ b/processors/stopduplicateremover.go
@@ -211,13 +211,32 @@ func (sdr StopDuplicateRemover) combineStops(feed *gtfsparser.Feed, stops []*gtf
 				tk_new.To_stop = ref
 			}
 
+			if tk_new == tk {
+				continue
+			}
+
+			tv, ok := feed.Transfers[tk]
+			if !ok {
+				// already updated because of its other stop
+				continue
+			}
+
 			if _, ok := feed.Transfers[tk_new]; !ok {
-				feed.Transfers[tk_new] = feed.Transfers[tk]
-				delete(feed.Transfers, tk)
+				feed.Transfers[tk_new] = tv
+				for k := range feed.TransfersAddFlds {
+					if v, ok := feed.TransfersAddFlds[k][tk]; ok {
+						feed.TransfersAddFlds[k][tk_new] = v
+					}
+				}
 
-				// add new transfer to transfer refs
-				transfers[ref] = append(transfers[ref], tk_new)
+				// add new transfer to the transfer refs of both its stops
+				transfers[tk_new.From_stop] = append(transfers[tk_new.From_stop], tk_new)
+				if tk_new.From_stop != tk_new.To_stop {
+					transfers[tk_new.To_stop] = append(transfers[tk_new.To_stop], tk_new)
+				}
 			}
+
+			feed.DeleteTransfer(tk)
 		}
 
 		for i, p := range pathways[s] {
@@ -394,7 +413,7 @@ func (sdr StopDuplicateRemover) stopEquals(a *gtfs.Stop, b *gtfs.Stop, feed *gtf
 			((distSApprox(a, b) <= sdr.DistThresholdStop/2 && parentsEqual) || a.Name == b.Name) &&
 			a.Desc == b.Desc &&
 			a.Zone_id == b.Zone_id &&
-			(a.Url == b.Url || a.Url == nil || b.Url == nil) &&
+			(a.Url == nil || b.Url == nil || *a.Url == *b.Url) &&
 			a.Location_type == b.Location_type &&
 			a.Parent_station == b.Parent_station &&
 			a.Timezone.Equals(b.Timezone) &&
@@ -408,7 +427,7 @@ func (sdr StopDuplicateRemover) stopEquals(a *gtfs.Stop, b *gtfs.Stop, feed *gtf
 		a.Name == b.Name &&
 		a.Desc == b.Desc &&
 		a.Zone_id == b.Zone_id &&
-		a.Url == b.Url &&
+		(a.Url == b.Url || (a.Url != nil && b.Url != nil && *a.Url == *b.Url)) &&
 		a.Location_type == b.Location_type &&
 		a.Parent_station == b.Parent_station &&
 		a.Timezone.Equals(b.Timezone) &&
-- 
2.43.0


From e9bf9651dd81bfa81b7185d7b54080cb9e2d1c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:10 +0000
Subject: [PATCH 05/25] fix: relaxed duplicate trip removal no longer crashes
 on services without any date

---
 processors/tripduplicateremover.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/processors/tripduplicateremover.go b/processors/tripduplicateremover.go
index a62ecaa..5a36f05 100755
--- a/processors/tripduplicateremover.go
+++ b/processors/tripduplicateremover.go
@@ -465,7 +465,7 @@ func (m *TripDuplicateRemover) tripCalEq(a *gtfs.Trip, b *gtfs.Trip) bool {
 		return false
 	}
 
-	if aDList[len(aDList)-1] != bDList[len(bDList)-1] {
+	if len(aDList) > 0 && aDList[len(aDList)-1] != bDList[len(bDList)-1] {
 		return false
 	}
 
-- 
2.43.0


From a2f341afc16f2330036c3f17c128188bf07f480d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:49 +0000
Subject: [PATCH 06/25] fix: frequency compression keeps first-stop dwell
 times, untimed stops, attributions and inexact departures, and never revives
 combined trips

---
 processors/frequencyminizer.go | 95 ++++++++++++++++++++++------------
 1 file changed, 62 insertions(+), 33 deletions(-)

diff --git a/processors/frequencyminizer.go b/processors/frequencyminizer.go
index 4dcfbf0..698df80 100755
--- a/processors/frequencyminizer.go
+++ b/processors/frequencyminizer.go
@@ -80,12 +80,12 @@ func (m FrequencyMinimizer) Run(feed *gtfsparser.Feed) {
 			continue
 		}
 
-		if len(t.StopTimes) == 0 {
+		if len(t.StopTimes) == 0 || t.StopTimes[0].Departure_time().Empty() {
 			continue
 		}
 
 		// trips time-independent equal to the current trip
-		eqs := m.getTimeIndependentEquivalentTrips(t, tripsSl[t.Route][t.Service], feed)
+		eqs := m.getTimeIndependentEquivalentTrips(t, tripsSl[t.Route][t.Service], processed, feed)
 		for _, t := range eqs.trips {
 			processed[t.Trip] = empty{}
 		}
@@ -168,26 +168,34 @@ func (m FrequencyMinimizer) Run(feed *gtfsparser.Feed) {
 
 			// add new frequencies
 			for _, p := range indProgr.progressions {
+				sourceFreq := eqs.trips[p.matches[0]].sourceFreq
+				headway := p.headways
+
 				if len(p.matches) == 1 {
 					/**
 					* we can assume that progressions with 1 match are only
 					* contained in single-progression-packs
 					 */
-					continue
+					if sourceFreq == nil || (sourceFreq.Exact_times && m.canStartAt(curTrip, smallestStartTime)) {
+						continue
+					}
+
+					// a single departure that cannot be given as a regular trip remains frequency-based
+					headway = sourceFreq.Headway_secs
 				}
 				if smallestStartTime.SecondsSinceMidnight() > eqs.trips[p.matches[0]].t.SecondsSinceMidnight() {
 					smallestStartTime = eqs.trips[p.matches[0]].t
 				}
 				a := new(gtfs.Frequency)
 
-				if eqs.trips[p.matches[0]].sourceFreq != nil {
-					a.Exact_times = eqs.trips[p.matches[0]].sourceFreq.Exact_times
+				if sourceFreq != nil {
+					a.Exact_times = sourceFreq.Exact_times
 				} else {
 					a.Exact_times = true
 				}
 				a.Start_time = eqs.trips[p.matches[0]].t
-				a.End_time = m.getGtfsTimeFromSec(eqs.trips[p.matches[len(p.matches)-1]].t.SecondsSinceMidnight() + p.headways)
-				a.Headway_secs = p.headways
+				a.End_time = m.getGtfsTimeFromSec(eqs.trips[p.matches[len(p.matches)-1]].t.SecondsSinceMidnight() + headway)
+				a.Headway_secs = headway
 				*curTrip.Frequencies = append(*curTrip.Frequencies, a)
 			}
 			m.remeasureStopTimes(curTrip, smallestStartTime)
@@ -386,7 +394,7 @@ func (m FrequencyMinimizer) getPossibleFreqs(tws tripWrappers) map[int]empty {
 }
 
 // Get trips that are equal to trip without considering the absolute time values
-func (m FrequencyMinimizer) getTimeIndependentEquivalentTrips(trip *gtfs.Trip, trips []*gtfs.Trip, feed *gtfsparser.Feed) tripWrappers {
+func (m FrequencyMinimizer) getTimeIndependentEquivalentTrips(trip *gtfs.Trip, trips []*gtfs.Trip, processed map[*gtfs.Trip]empty, feed *gtfsparser.Feed) tripWrappers {
 	ret := tripWrappers{make([]tripWrapper, 0), make(map[*gtfs.Trip]empty, 0)}
 
 	chunks := MaxParallelism()
@@ -399,10 +407,15 @@ func (m FrequencyMinimizer) getTimeIndependentEquivalentTrips(trip *gtfs.Trip, t
 			for i := workload * j; i < workload*(j+1) && i < len(trips); i++ {
 				t := trips[i]
 
+				if _, contained := processed[t]; contained {
+					// already combined with other trips
+					continue
+				}
+
 				if t.Id == trip.Id || m.isTimeIndependentEqual(t, trip, feed) {
 					if t.Frequencies == nil || len(*t.Frequencies) == 0 {
 						mutex.Lock()
-						ret.trips = append(ret.trips, tripWrapper{t, t.StopTimes[0].Arrival_time(), false, nil})
+						ret.trips = append(ret.trips, tripWrapper{t, t.StopTimes[0].Departure_time(), false, nil})
 						ret.coveredTrips[t] = empty{}
 						mutex.Unlock()
 					} else {
@@ -443,26 +456,37 @@ func (m FrequencyMinimizer) isTimeIndependentEqual(a *gtfs.Trip, b *gtfs.Trip, f
 			break
 		}
 	}
+	if (a.Attributions != nil && len(*a.Attributions) != 0) || (b.Attributions != nil && len(*b.Attributions) != 0) {
+		// an attribution only holds for the very trip it was given for
+		return false
+	}
+
 	return addFldsEq && a.Route == b.Route && a.Service == b.Service && a.Headsign == b.Headsign &&
 		a.Short_name == b.Short_name && a.Direction_id == b.Direction_id && a.Block_id == b.Block_id &&
 		a.Shape == b.Shape && a.Wheelchair_accessible == b.Wheelchair_accessible &&
 		a.Bikes_allowed == b.Bikes_allowed && m.hasSameRelStopTimes(a, b, feed)
 }
 
-// Remeasure a trips stop times by taking their relative values and changing the sequence to
-// start with time
+// Check if a trip can depart at its first stop at the given time, without arriving there before 00:00:00
+func (m FrequencyMinimizer) canStartAt(t *gtfs.Trip, time gtfs.Time) bool {
+	return t.StopTimes[0].Arrival_time().Minus(t.StopTimes[0].Departure_time())+time.SecondsSinceMidnight() >= 0
+}
+
+// Remeasure a trips stop times by shifting them such that the trip departs at its first stop at the given time
 func (m FrequencyMinimizer) remeasureStopTimes(t *gtfs.Trip, time gtfs.Time) {
-	diff := 0
-	curArrDepDiff := 0
-	for i := 0; i < len(t.StopTimes); i++ {
-		curArrDepDiff = t.StopTimes[i].Departure_time().SecondsSinceMidnight() - t.StopTimes[i].Arrival_time().SecondsSinceMidnight()
-		oldArrT := t.StopTimes[i].Arrival_time().SecondsSinceMidnight()
+	if !m.canStartAt(t, time) {
+		// only the relative times count for frequency-based trips
+		return
+	}
 
-		t.StopTimes[i].SetArrival_time(m.getGtfsTimeFromSec(time.SecondsSinceMidnight() + diff))
-		t.StopTimes[i].SetDeparture_time(m.getGtfsTimeFromSec(time.SecondsSinceMidnight() + diff + curArrDepDiff))
+	diff := time.Minus(t.StopTimes[0].Departure_time())
 
-		if i < len(t.StopTimes)-1 {
-			diff += t.StopTimes[i+1].Arrival_time().SecondsSinceMidnight() - oldArrT
+	for i := 0; i < len(t.StopTimes); i++ {
+		if !t.StopTimes[i].Arrival_time().Empty() {
+			t.StopTimes[i].SetArrival_time(m.getGtfsTimeFromSec(t.StopTimes[i].Arrival_time().SecondsSinceMidnight() + diff))
+		}
+		if !t.StopTimes[i].Departure_time().Empty() {
+			t.StopTimes[i].SetDeparture_time(m.getGtfsTimeFromSec(t.StopTimes[i].Departure_time().SecondsSinceMidnight() + diff))
 		}
 	}
 }
@@ -479,14 +503,18 @@ func (m FrequencyMinimizer) hasSameRelStopTimes(a *gtfs.Trip, b *gtfs.Trip, feed
 		return true
 	}
 
-	var aPrev *gtfs.StopTime
-	var bPrev *gtfs.StopTime
+	aStart := a.StopTimes[0].Departure_time()
+	bStart := b.StopTimes[0].Departure_time()
+
+	if aStart.Empty() || bStart.Empty() {
+		return false
+	}
 
 	for i := range a.StopTimes {
 		addFldsEq := true
 
 		for _, v := range feed.StopTimesAddFlds {
-			if v[a.Id][a.StopTimes[i].Sequence()] != v[b.Id][a.StopTimes[i].Sequence()] {
+			if v[a.Id][a.StopTimes[i].Sequence()] != v[b.Id][b.StopTimes[i].Sequence()] {
 				addFldsEq = false
 				break
 			}
@@ -498,17 +526,18 @@ func (m FrequencyMinimizer) hasSameRelStopTimes(a *gtfs.Trip, b *gtfs.Trip, feed
 			((math.IsNaN(float64(a.StopTimes[i].Shape_dist_traveled())) && math.IsNaN(float64(b.StopTimes[i].Shape_dist_traveled()))) || FloatEquals(a.StopTimes[i].Shape_dist_traveled(), b.StopTimes[i].Shape_dist_traveled(), 0.01)) && a.StopTimes[i].Timepoint() == b.StopTimes[i].Timepoint()) {
 			return false
 		}
-		if i != 0 {
-			if a.StopTimes[i].Arrival_time().SecondsSinceMidnight()-aPrev.Arrival_time().SecondsSinceMidnight() != b.StopTimes[i].Arrival_time().SecondsSinceMidnight()-bPrev.Arrival_time().SecondsSinceMidnight() {
-				return false
-			}
-			if a.StopTimes[i].Departure_time().SecondsSinceMidnight()-aPrev.Departure_time().SecondsSinceMidnight() != b.StopTimes[i].Departure_time().SecondsSinceMidnight()-bPrev.Departure_time().SecondsSinceMidnight() {
-				return false
-			}
+		if !m.isSameRelTime(a.StopTimes[i].Arrival_time(), aStart, b.StopTimes[i].Arrival_time(), bStart) ||
+			!m.isSameRelTime(a.StopTimes[i].Departure_time(), aStart, b.StopTimes[i].Departure_time(), bStart) {
+			return false
 		}
-
-		aPrev = &a.StopTimes[i]
-		bPrev = &b.StopTimes[i]
 	}
 	return true
 }
+
+// true if a and b lie equally far from their reference times, or are both not given
+func (m FrequencyMinimizer) isSameRelTime(a gtfs.Time, aStart gtfs.Time, b gtfs.Time, bStart gtfs.Time) bool {
+	if a.Empty() || b.Empty() {
+		return a.Empty() && b.Empty()
+	}
+	return a.Minus(aStart) == b.Minus(bStart)
+}
-- 
2.43.0


From 843baaab247d0a6751c9b30825f36c66b14627e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:28 +0000
Subject: [PATCH 07/25] fix: ID minimisation waits for all of its parts and
 keeps additional fields when old and new ids overlap

---
 processors/idminimizer.go | 116 ++++++++++++++++++++------------------
 1 file changed, 61 insertions(+), 55 deletions(-)

diff --git a/processors/idminimizer.go b/processors/idminimizer.go
index a120d63..83e6e5c 100755
--- a/processors/idminimizer.go
+++ b/processors/idminimizer.go
@@ -61,12 +61,14 @@ func (minimizer IDMinimizer) Run(feed *gtfsparser.Feed) {
 	if minimizer.KeepPathways {
 		j = j - 1
 	}
-	if minimizer.KeepAttributions {
-		j = j - 1
-	}
 	fmt.Fprintf(os.Stdout, "Minimizing ids... ")
 	sem := make(chan empty, j)
 
+	if !minimizer.KeepAttributions {
+		// not concurrently, as this walks over agencies, routes and trips
+		minimizer.minimizeAttributionIds(feed)
+	}
+
 	if !minimizer.KeepTrips {
 		go func() {
 			minimizer.minimizeTripIds(feed)
@@ -121,13 +123,6 @@ func (minimizer IDMinimizer) Run(feed *gtfsparser.Feed) {
 			sem <- empty{}
 		}()
 	}
-	if !minimizer.KeepAttributions {
-		go func() {
-			minimizer.minimizeAttributionIds(feed)
-			sem <- empty{}
-		}()
-	}
-
 	for i := 0; i < j; i++ {
 		<-sem
 	}
@@ -139,6 +134,7 @@ func (minimizer IDMinimizer) Run(feed *gtfsparser.Feed) {
 func (minimizer IDMinimizer) minimizeTripIds(feed *gtfsparser.Feed) {
 	var idCount int64 = 1
 
+	newIds := make(map[string]string)
 	newMap := make(map[string]*gtfs.Trip)
 	for _, t := range feed.Trips {
 		oldId := t.Id
@@ -147,18 +143,14 @@ func (minimizer IDMinimizer) minimizeTripIds(feed *gtfsparser.Feed) {
 		idCount = idCount + 1
 		newMap[t.Id] = t
 
-		// update additional fields
-		for k := range feed.TripsAddFlds {
-			feed.TripsAddFlds[k][newId] = feed.TripsAddFlds[k][oldId]
-			delete(feed.TripsAddFlds[k], oldId)
-		}
-
-		for k := range feed.StopTimesAddFlds {
-			feed.StopTimesAddFlds[k][newId] = feed.StopTimesAddFlds[k][oldId]
-			delete(feed.StopTimesAddFlds[k], oldId)
-		}
+		newIds[oldId] = newId
 	}
 
+	// update additional fields
+	renameAddFlds(feed.TripsAddFlds, newIds)
+	renameAddFlds(feed.StopTimesAddFlds, newIds)
+	renameAddFlds(feed.FrequenciesAddFlds, newIds)
+
 	feed.Trips = newMap
 }
 
@@ -166,6 +158,7 @@ func (minimizer IDMinimizer) minimizeTripIds(feed *gtfsparser.Feed) {
 func (minimizer IDMinimizer) minimizeShapeIds(feed *gtfsparser.Feed) {
 	var idCount int64 = 1
 
+	newIds := make(map[string]string)
 	newMap := make(map[string]*gtfs.Shape)
 	for _, s := range feed.Shapes {
 		oldId := s.Id
@@ -174,13 +167,12 @@ func (minimizer IDMinimizer) minimizeShapeIds(feed *gtfsparser.Feed) {
 		idCount = idCount + 1
 		newMap[s.Id] = s
 
-		// update additional fields
-		for k := range feed.ShapesAddFlds {
-			feed.ShapesAddFlds[k][newId] = feed.ShapesAddFlds[k][oldId]
-			delete(feed.ShapesAddFlds[k], oldId)
-		}
+		newIds[oldId] = newId
 	}
 
+	// update additional fields
+	renameAddFlds(feed.ShapesAddFlds, newIds)
+
 	feed.Shapes = newMap
 }
 
@@ -188,6 +180,7 @@ func (minimizer IDMinimizer) minimizeShapeIds(feed *gtfsparser.Feed) {
 func (minimizer IDMinimizer) minimizeRouteIds(feed *gtfsparser.Feed) {
 	var idCount int64 = 1
 
+	newIds := make(map[string]string)
 	newMap := make(map[string]*gtfs.Route)
 	for _, r := range feed.Routes {
 		oldId := r.Id
@@ -196,13 +189,12 @@ func (minimizer IDMinimizer) minimizeRouteIds(feed *gtfsparser.Feed) {
 		idCount = idCount + 1
 		newMap[r.Id] = r
 
-		// update additional fields
-		for k := range feed.RoutesAddFlds {
-			feed.RoutesAddFlds[k][newId] = feed.RoutesAddFlds[k][oldId]
-			delete(feed.RoutesAddFlds[k], oldId)
-		}
+		newIds[oldId] = newId
 	}
 
+	// update additional fields
+	renameAddFlds(feed.RoutesAddFlds, newIds)
+
 	feed.Routes = newMap
 }
 
@@ -224,6 +216,7 @@ func (minimizer IDMinimizer) minimizeServiceIds(feed *gtfsparser.Feed) {
 func (minimizer IDMinimizer) minimizeStopIds(feed *gtfsparser.Feed) {
 	var idCount int64 = 1
 
+	newIds := make(map[string]string)
 	newMap := make(map[string]*gtfs.Stop)
 	for _, s := range feed.Stops {
 		oldId := s.Id
@@ -232,13 +225,12 @@ func (minimizer IDMinimizer) minimizeStopIds(feed *gtfsparser.Feed) {
 		idCount = idCount + 1
 		newMap[s.Id] = s
 
-		// update additional fields
-		for k := range feed.StopsAddFlds {
-			feed.StopsAddFlds[k][newId] = feed.StopsAddFlds[k][oldId]
-			delete(feed.StopsAddFlds[k], oldId)
-		}
+		newIds[oldId] = newId
 	}
 
+	// update additional fields
+	renameAddFlds(feed.StopsAddFlds, newIds)
+
 	feed.Stops = newMap
 }
 
@@ -284,6 +276,7 @@ func (minimizer IDMinimizer) minimizeAttributionIds(feed *gtfsparser.Feed) {
 func (minimizer IDMinimizer) minimizeAgencyIds(feed *gtfsparser.Feed) {
 	var idCount int64 = 1
 
+	newIds := make(map[string]string)
 	newMap := make(map[string]*gtfs.Agency)
 	for _, a := range feed.Agencies {
 		oldId := a.Id
@@ -292,13 +285,12 @@ func (minimizer IDMinimizer) minimizeAgencyIds(feed *gtfsparser.Feed) {
 		idCount = idCount + 1
 		newMap[a.Id] = a
 
-		// update additional fields
-		for k := range feed.AgenciesAddFlds {
-			feed.AgenciesAddFlds[k][newId] = feed.AgenciesAddFlds[k][oldId]
-			delete(feed.AgenciesAddFlds[k], oldId)
-		}
+		newIds[oldId] = newId
 	}
 
+	// update additional fields
+	renameAddFlds(feed.AgenciesAddFlds, newIds)
+
 	feed.Agencies = newMap
 }
 
@@ -306,6 +298,7 @@ func (minimizer IDMinimizer) minimizeAgencyIds(feed *gtfsparser.Feed) {
 func (minimizer IDMinimizer) minimizeFareIds(feed *gtfsparser.Feed) {
 	var idCount int64 = 1
 
+	newIds := make(map[string]string)
 	newMap := make(map[string]*gtfs.FareAttribute)
 	for _, a := range feed.FareAttributes {
 		oldId := a.Id
@@ -314,13 +307,13 @@ func (minimizer IDMinimizer) minimizeFareIds(feed *gtfsparser.Feed) {
 		idCount = idCount + 1
 		newMap[a.Id] = a
 
-		// update additional fields
-		for k := range feed.FareAttributesAddFlds {
-			feed.FareAttributesAddFlds[k][newId] = feed.FareAttributesAddFlds[k][oldId]
-			delete(feed.FareAttributesAddFlds[k], oldId)
-		}
+		newIds[oldId] = newId
 	}
 
+	// update additional fields
+	renameAddFlds(feed.FareAttributesAddFlds, newIds)
+	renameAddFlds(feed.FareRulesAddFlds, newIds)
+
 	feed.FareAttributes = newMap
 }
 
@@ -328,6 +321,7 @@ func (minimizer IDMinimizer) minimizeFareIds(feed *gtfsparser.Feed) {
 func (minimizer IDMinimizer) minimizePathwayIds(feed *gtfsparser.Feed) {
 	var idCount int64 = 1
 
+	newIds := make(map[string]string)
 	newMap := make(map[string]*gtfs.Pathway)
 	for _, a := range feed.Pathways {
 		oldId := a.Id
@@ -336,13 +330,12 @@ func (minimizer IDMinimizer) minimizePathwayIds(feed *gtfsparser.Feed) {
 		idCount = idCount + 1
 		newMap[a.Id] = a
 
-		// update additional fields
-		for k := range feed.PathwaysAddFlds {
-			feed.PathwaysAddFlds[k][newId] = feed.PathwaysAddFlds[k][oldId]
-			delete(feed.PathwaysAddFlds[k], oldId)
-		}
+		newIds[oldId] = newId
 	}
 
+	// update additional fields
+	renameAddFlds(feed.PathwaysAddFlds, newIds)
+
 	feed.Pathways = newMap
 }
 
@@ -350,6 +343,7 @@ func (minimizer IDMinimizer) minimizePathwayIds(feed *gtfsparser.Feed) {
 func (minimizer IDMinimizer) minimizeLevelIds(feed *gtfsparser.Feed) {
 	var idCount int64 = 1
 
+	newIds := make(map[string]string)
 	newMap := make(map[string]*gtfs.Level)
 	for _, a := range feed.Levels {
 		oldId := a.Id
@@ -358,12 +352,24 @@ func (minimizer IDMinimizer) minimizeLevelIds(feed *gtfsparser.Feed) {
 		idCount = idCount + 1
 		newMap[a.Id] = a
 
-		// update additional fields
-		for k := range feed.LevelsAddFlds {
-			feed.LevelsAddFlds[k][newId] = feed.LevelsAddFlds[k][oldId]
-			delete(feed.LevelsAddFlds[k], oldId)
-		}
+		newIds[oldId] = newId
 	}
 
+	// update additional fields
+	renameAddFlds(feed.LevelsAddFlds, newIds)
+
 	feed.Levels = newMap
 }
+
+// Rename the ids under which additional fields are stored. Old and new ids may overlap.
+func renameAddFlds[V any](addFlds map[string]map[string]V, newIds map[string]string) {
+	for name, vals := range addFlds {
+		newVals := make(map[string]V, len(vals))
+		for oldId, newId := range newIds {
+			if val, ok := vals[oldId]; ok {
+				newVals[newId] = val
+			}
+		}
+		addFlds[name] = newVals
+	}
+}
-- 
2.43.0


From 4889506b42f5a938012d699dbcf0938050136027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:28 +0000
Subject: [PATCH 08/25] fix: shape minimizer keeps additional fields of the
 remaining points and shapes of one point

---
 processors/shapeminimizer.go | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/processors/shapeminimizer.go b/processors/shapeminimizer.go
index 2e342c0..2a867ac 100755
--- a/processors/shapeminimizer.go
+++ b/processors/shapeminimizer.go
@@ -42,9 +42,6 @@ func (sm ShapeMinimizer) Run(feed *gtfsparser.Feed) {
 				bef := len(s.Points)
 				chunknum[a] += len(s.Points)
 				s.Points = sm.minimizeShape(s.Points, sm.Epsilon)
-				for i := 0; i < len(s.Points); i++ {
-					s.Points[i].Sequence = uint32(i)
-				}
 				chunkgain[a] += bef - len(s.Points)
 			}
 			sem <- empty{}
@@ -56,6 +53,23 @@ func (sm ShapeMinimizer) Run(feed *gtfsparser.Feed) {
 		<-sem
 	}
 
+	// renumber the remaining points, together with their additional fields
+	for _, s := range feed.Shapes {
+		for _, flds := range feed.ShapesAddFlds {
+			if old, ok := flds[s.Id]; ok {
+				flds[s.Id] = make(map[int]string, len(s.Points))
+				for i := range s.Points {
+					if v, ok := old[int(s.Points[i].Sequence)]; ok {
+						flds[s.Id][i] = v
+					}
+				}
+			}
+		}
+		for i := range s.Points {
+			s.Points[i].Sequence = uint32(i)
+		}
+	}
+
 	n := 0
 	orign := 0
 	for _, g := range chunkgain {
@@ -71,6 +85,10 @@ func (sm ShapeMinimizer) Run(feed *gtfsparser.Feed) {
 
 // Minimize a single shape using the Douglas-Peucker algorithm
 func (sm *ShapeMinimizer) minimizeShape(points gtfs.ShapePoints, e float64) gtfs.ShapePoints {
+	if len(points) < 2 {
+		return points
+	}
+
 	var maxD float64
 	var maxI int
 
-- 
2.43.0


From 32ec52d3ecd8ba472f5a2401a2c6d748b99ed209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:01 +0000
Subject: [PATCH 09/25] fix: shape remeasurer never measures a leading gap
 beyond the first known measurement

---
 processors/shaperemeasurer.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/processors/shaperemeasurer.go b/processors/shaperemeasurer.go
index dd1508f..9a23410 100755
--- a/processors/shaperemeasurer.go
+++ b/processors/shaperemeasurer.go
@@ -91,7 +91,18 @@ func (s ShapeRemeasurer) remeasureUnknown(shape *gtfs.Shape, avgMeasure float64)
 	for i := 0; i <= len(shape.Points); i++ {
 		if i == len(shape.Points) || shape.Points[i].HasDistanceTraveled() {
 			if lastUMIndex > -1 {
-				s.remeasureBetween(lastUMIndex, i, avgMeasure, lastM, shape)
+				mPUnit := avgMeasure
+				if lastUMIndex == 0 && i < len(shape.Points) {
+					// never exceed the first known measurement
+					d := 0.0
+					for j := 1; j <= i; j++ {
+						d = d + distP(&shape.Points[j-1], &shape.Points[j])
+					}
+					if firstM := float64(shape.Points[i].Dist_traveled); d*mPUnit > firstM {
+						mPUnit = firstM / d
+					}
+				}
+				s.remeasureBetween(lastUMIndex, i, mPUnit, lastM, shape)
 				lastUMIndex = -1
 			}
 			if i < len(shape.Points) {
-- 
2.43.0


From 6492b08eeac138542590ba53fae749884e2b573b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:59 +0000
Subject: [PATCH 10/25] fix: shape duplicate remover finds all identical
 shapes, does not mix measured and unmeasured ones

---
 processors/shapeduplicateremover.go | 23 ++++++++++++++++++++++-
 processors/shapeidx.go              | 13 ++++++++-----
 2 files changed, 30 insertions(+), 6 deletions(-)

diff --git a/processors/shapeduplicateremover.go b/processors/shapeduplicateremover.go
index 2ee70b6..fe2b44d 100755
--- a/processors/shapeduplicateremover.go
+++ b/processors/shapeduplicateremover.go
@@ -92,7 +92,7 @@ func (sdr *ShapeDuplicateRemover) getEquShps(shp *gtfs.Shape, feed *gtfsparser.F
 			neighs := idx.GetNeighbors(sdr.mercs[shp], sdr.MaxEqDist)
 
 			for s := range neighs {
-				if s != shp && !sdr.deleted[s] && sdr.inDistTo(s, shp) && sdr.inDistTo(shp, s) {
+				if s != shp && !sdr.deleted[s] && (sdr.equal(s, shp) || (sdr.inDistTo(s, shp) && sdr.inDistTo(shp, s))) {
 					rets[j] = append(rets[j], s)
 				}
 			}
@@ -115,11 +115,32 @@ func (sdr *ShapeDuplicateRemover) getEquShps(shp *gtfs.Shape, feed *gtfsparser.F
 	return ret
 }
 
+// True if the points of both shapes are exactly the same
+func (sdr *ShapeDuplicateRemover) equal(shpA, shpB *gtfs.Shape) bool {
+	if len(shpA.Points) != len(shpB.Points) {
+		return false
+	}
+
+	for i, a := range shpA.Points {
+		b := shpB.Points[i]
+		if a.Lat != b.Lat || a.Lon != b.Lon || a.HasDistanceTraveled() != b.HasDistanceTraveled() || (a.HasDistanceTraveled() && a.Dist_traveled != b.Dist_traveled) {
+			return false
+		}
+	}
+
+	return true
+}
+
 // True if shape b is in distance maxD to shape b
 func (sdr *ShapeDuplicateRemover) inDistTo(shpA, shpB *gtfs.Shape) bool {
 	a := sdr.mercs[shpA]
 	b := sdr.mercs[shpB]
 
+	// measurements cannot be compared if only one shape has them
+	if shpA.Points[0].HasDistanceTraveled() != shpB.Points[0].HasDistanceTraveled() {
+		return false
+	}
+
 	// skip first and last interpolation for performance
 	if dist(a[0][0], a[0][1], b[0][0], b[0][1]) > sdr.MaxEqDist {
 		return false
diff --git a/processors/shapeidx.go b/processors/shapeidx.go
index 19c7843..eda5731 100755
--- a/processors/shapeidx.go
+++ b/processors/shapeidx.go
@@ -37,13 +37,15 @@ func NewShapeIdx(shapes []*gtfs.Shape, mercs map[*gtfs.Shape][][]float64, cellWi
 			x, y := p[0], p[1]
 			if x < idx.llx {
 				idx.llx = x
-			} else if x > idx.urx {
+			}
+			if x > idx.urx {
 				idx.urx = x
 			}
 
 			if y < idx.lly {
 				idx.lly = y
-			} else if y > idx.ury {
+			}
+			if y > idx.ury {
 				idx.ury = y
 			}
 		}
@@ -60,8 +62,9 @@ func NewShapeIdx(shapes []*gtfs.Shape, mercs map[*gtfs.Shape][][]float64, cellWi
 		return &idx
 	}
 
-	idx.xWidth = uint(math.Ceil(idx.width / idx.cellWidth))
-	idx.yHeight = uint(math.Ceil(idx.height / idx.cellHeight))
+	// the upper right corner has to lie in a cell, too
+	idx.xWidth = uint(math.Floor(idx.width/idx.cellWidth)) + 1
+	idx.yHeight = uint(math.Floor(idx.height/idx.cellHeight)) + 1
 
 	// resize rows
 	idx.grid = make([][]map[*gtfs.Shape]bool, idx.xWidth)
@@ -81,7 +84,7 @@ func NewShapeIdx(shapes []*gtfs.Shape, mercs map[*gtfs.Shape][][]float64, cellWi
 func (gi *ShapeIdx) Add(origShp *gtfs.Shape, shp [][]float64) {
 	for i := 1; i < len(shp); i++ {
 		ax, ay := shp[i-1][0], shp[i-1][1]
-		bx, by := shp[i][0], shp[0][1]
+		bx, by := shp[i][0], shp[i][1]
 		llx := math.Min(ax, bx)
 		lly := math.Min(ay, by)
 		urx := math.Max(ax, bx)
-- 
2.43.0


From fd282c98e210ad7f997a26c888e00d7c59414b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:37 +0000
Subject: [PATCH 11/25] fix: stop snapping keeps additional fields and copes
 with shapes of one point or repeated measures

---
 processors/shapesnapper.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/processors/shapesnapper.go b/processors/shapesnapper.go
index 33b7f26..2749ea0 100644
--- a/processors/shapesnapper.go
+++ b/processors/shapesnapper.go
@@ -74,6 +74,12 @@ func (sm ShapeSnapper) Run(feed *gtfsparser.Feed) {
 					Timezone:            st.Stop().Timezone,
 				}
 
+				for k := range feed.StopsAddFlds {
+					if v, ok := feed.StopsAddFlds[k][st.Stop().Id]; ok {
+						feed.StopsAddFlds[k][newId] = v
+					}
+				}
+
 				feed.Stops[newId] = &newStop
 				t.StopTimes[i].SetStop(&newStop)
 			}
@@ -91,7 +97,10 @@ func (sm *ShapeSnapper) snapTo(stop *gtfs.Stop, distT float32, shape *gtfs.Shape
 	if float64(distT) != math.NaN() {
 		for i := 1; i < len(shape.Points); i++ {
 			if shape.Points[i].Dist_traveled <= distT && i < len(shape.Points) - 1 && shape.Points[i+1].Dist_traveled >= distT {
-				d := (distT - shape.Points[i].Dist_traveled) / (shape.Points[i + 1].Dist_traveled - shape.Points[i].Dist_traveled)
+				d := float32(0)
+				if shape.Points[i+1].Dist_traveled > shape.Points[i].Dist_traveled {
+					d = (distT - shape.Points[i].Dist_traveled) / (shape.Points[i+1].Dist_traveled - shape.Points[i].Dist_traveled)
+				}
 
 				dx := shp[i+1][0] - shp[i][0]
 				dy := shp[i+1][1] - shp[i][1]
@@ -105,8 +114,8 @@ func (sm *ShapeSnapper) snapTo(stop *gtfs.Stop, distT float32, shape *gtfs.Shape
 	}
 
 	minDist := math.Inf(1)
-	minsx := 0.0
-	minsy := 0.0
+	minsx := shp[0][0]
+	minsy := shp[0][1]
 
 	px := sm.stopMercs[stop][0]
 	py := sm.stopMercs[stop][1]
-- 
2.43.0


From c2966feb92af281ca376dbd1195744ae66ec8448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:19 +0000
Subject: [PATCH 12/25] fix: stop time remeasuring never rounds measurements
 beyond the end of a shape segment

---
 processors/stoptimeremeasurer.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/processors/stoptimeremeasurer.go b/processors/stoptimeremeasurer.go
index 1c7e45b..2e26a38 100644
--- a/processors/stoptimeremeasurer.go
+++ b/processors/stoptimeremeasurer.go
@@ -364,7 +364,11 @@ func (s *StopTimeRemeasurer) remeasure(trip *gtfs.Trip) bool {
 
 		c := cands[i][chosen]
 
-		newDist := trip.Shape.Points[c.Seg].Dist_traveled + float32(float64(trip.Shape.Points[c.Seg + 1].Dist_traveled - trip.Shape.Points[c.Seg].Dist_traveled) * c.Progr)
+		segStart := float64(trip.Shape.Points[c.Seg].Dist_traveled)
+		segEnd := float64(trip.Shape.Points[c.Seg+1].Dist_traveled)
+
+		// in double precision, to never get beyond the end of the segment
+		newDist := float32(segStart + (segEnd-segStart)*c.Progr)
 		trip.StopTimes[i].SetShape_dist_traveled(newDist)
 
 		// if i != len(trip.StopTimes) -1 && trip.StopTimes[i].Shape_dist_traveled() > trip.StopTimes[i+1].Shape_dist_traveled() {
-- 
2.43.0


From 70acb54ea55b2db945c55775d0ddf1ed897939be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:57 +0000
Subject: [PATCH 13/25] fix: keep everything that belongs to a trip when
 services are split

---
 processors/servicecaldatesremover.go |  38 +++--
 processors/servicenonoverlapper.go   |  27 +++-
 processors/tripcopy.go               | 220 +++++++++++++++++++++++++++
 3 files changed, 260 insertions(+), 25 deletions(-)
 create mode 100644 processors/tripcopy.go

diff --git a/processors/servicecaldatesremover.go b/processors/servicecaldatesremover.go
index c1ff2c2..2402480 100755
--- a/processors/servicecaldatesremover.go
+++ b/processors/servicecaldatesremover.go
@@ -20,6 +20,10 @@ type ServiceCalDatesRem struct {
 	ServiceMinimizer
 	tidc uint
 	sidc uint
+
+	// ids already given out
+	taken         map[string]bool
+	takenServices map[string]bool
 }
 
 // Run this ServiceMinimizer on some feed
@@ -27,6 +31,9 @@ func (sm ServiceCalDatesRem) Run(feed *gtfsparser.Feed) {
 	fmt.Fprintf(os.Stdout, "Removing calendar_dates.txt entries... ")
 	calBefore, datesBefore := sm.countServices(feed)
 
+	sm.taken = make(map[string]bool)
+	sm.takenServices = make(map[string]bool)
+
 	newServices := make(map[*gtfs.Service][]*gtfs.Service, 0)
 
 	for _, s := range feed.Services {
@@ -50,38 +57,25 @@ func (sm ServiceCalDatesRem) Run(feed *gtfsparser.Feed) {
 		delete(feed.Services, old.Id())
 	}
 
-	newTrips := make([]*gtfs.Trip, 0)
+	copies := make(map[*gtfs.Trip][]*gtfs.Trip)
 
 	for _, trip := range feed.Trips {
 		if val, ok := newServices[trip.Service]; ok {
 			// change first trip in place
 			trip.Service = val[0]
+			copies[trip] = []*gtfs.Trip{trip}
 
 			for i := 1; i < len(val); i++ {
-				newTrip := new(gtfs.Trip)
-
+				newTrip := *trip
 				newTrip.Service = val[i]
-				newTrip.Bikes_allowed = trip.Bikes_allowed
-				newTrip.Block_id = trip.Block_id
-				newTrip.Direction_id = trip.Direction_id
-				newTrip.Headsign = trip.Headsign
-
 				newTrip.Id = sm.freeTripId(feed, trip.Id)
-
-				newTrip.Route = trip.Route
-				newTrip.Shape = trip.Shape
-				newTrip.Short_name = trip.Short_name
-				newTrip.Wheelchair_accessible = trip.Wheelchair_accessible
-				newTrip.StopTimes = append([]gtfs.StopTime(nil), trip.StopTimes...)
-
-				newTrips = append(newTrips, newTrip)
+				newTrip.StopTimes = append(gtfs.StopTimes(nil), trip.StopTimes...)
+				copies[trip] = append(copies[trip], &newTrip)
 			}
 		}
 	}
 
-	for _, trip := range newTrips {
-		feed.Trips[trip.Id] = trip
-	}
+	replaceTrips(feed, copies)
 
 	calAfter, datesAfter := sm.countServices(feed)
 
@@ -215,7 +209,8 @@ func (sm *ServiceCalDatesRem) freeTripId(feed *gtfsparser.Feed, prefix string) s
 	for sm.tidc < ^uint(0) {
 		sm.tidc += 1
 		tid := prefix + fmt.Sprint(sm.tidc)
-		if _, ok := feed.Trips[tid]; !ok {
+		if _, ok := feed.Trips[tid]; !ok && !sm.taken[tid] {
+			sm.taken[tid] = true
 			return tid
 		}
 	}
@@ -227,7 +222,8 @@ func (sm *ServiceCalDatesRem) freeServiceId(feed *gtfsparser.Feed, prefix string
 	for sm.sidc < ^uint(0) {
 		sm.sidc += 1
 		sid := prefix + fmt.Sprint(sm.sidc)
-		if _, ok := feed.Services[sid]; !ok {
+		if _, ok := feed.Services[sid]; !ok && !sm.takenServices[sid] {
+			sm.takenServices[sid] = true
 			return sid
 		}
 	}
diff --git a/processors/servicenonoverlapper.go b/processors/servicenonoverlapper.go
index 7d6c19a..486d1c9 100755
--- a/processors/servicenonoverlapper.go
+++ b/processors/servicenonoverlapper.go
@@ -90,9 +90,11 @@ func (sm ServiceNonOverlapper) Run(feed *gtfsparser.Feed) {
 	}
 
 	feed.Services = make(map[string]*gtfs.Service, 0)
-	feed.Trips = make(map[string]*gtfs.Trip, 0)
-	feed.TripsAddFlds = make(map[string]map[string]string)
-	feed.StopTimesAddFlds = make(map[string]map[string]map[int]string)
+	copies := make(map[*gtfs.Trip][]*gtfs.Trip, len(feed.Trips))
+	tripIds := make(map[string]bool, len(feed.Trips))
+	for _, t := range feed.Trips {
+		copies[t] = nil
+	}
 
 	// write services
 	for wd, _ := range days {
@@ -134,6 +136,17 @@ func (sm ServiceNonOverlapper) Run(feed *gtfsparser.Feed) {
 				}
 			}
 
+			if _, ok := feed.Services[id]; ok {
+				// same weeks, but of another year
+				id += " " + strconv.Itoa(t.Dates[0].GetTime().Year())
+			}
+			for base, i := id, 2; ; i++ {
+				if _, ok := feed.Services[id]; !ok {
+					break
+				}
+				id = base + " " + strconv.Itoa(i)
+			}
+
 			exceptions := make(map[gtfs.Date]bool)
 			for _, d := range t.Dates {
 				exceptions[d] = true
@@ -148,10 +161,16 @@ func (sm ServiceNonOverlapper) Run(feed *gtfsparser.Feed) {
 				newt.Id = newt.Id + ":" + id
 				newt.Service = feed.Services[id]
 				newt.StopTimes = append(gtfs.StopTimes{}, trip.StopTimes...)
-				feed.Trips[newt.Id] = &newt
+				for base, i := newt.Id, 2; tripIds[newt.Id]; i++ {
+					newt.Id = base + " " + strconv.Itoa(i)
+				}
+				tripIds[newt.Id] = true
+				copies[trip] = append(copies[trip], &newt)
 			}
 		}
 	}
 
+	replaceTrips(feed, copies)
+
 	fmt.Fprintf(os.Stdout, "done. (created %d calendar_dates.txt entries, %d monday, %d tuesday, %d wednesday, %d thursday, %d friday, %d saturday, %d sunday types)\n", len(feed.Services), len(day_types[1]), len(day_types[2]), len(day_types[3]), len(day_types[4]), len(day_types[5]), len(day_types[6]), len(day_types[0]))
 }
diff --git a/processors/tripcopy.go b/processors/tripcopy.go
new file mode 100644
index 0000000..49aa426
--- /dev/null
+++ b/processors/tripcopy.go
@@ -0,0 +1,220 @@
+// Copyright 2025 Patrick Brosi
+// Authors: info@patrickbrosi.de
+//
+// Use of this source code is governed by a GPL v2
+// license that can be found in the LICENSE file
+
+package processors
+
+import (
+	"github.com/patrickbr/gtfsparser"
+	gtfs "github.com/patrickbr/gtfsparser/gtfs"
+	"sort"
+	"strconv"
+)
+
+// replaceTrips replaces each trip that is a key of copies by the trips it stands for. Everything
+// that belongs to a trip (frequencies, attributions, transfers, additional fields) is given to all
+// of them, trips that are no key of copies stay. The ids of the old trips must not have been changed.
+func replaceTrips(feed *gtfsparser.Feed, copies map[*gtfs.Trip][]*gtfs.Trip) {
+	old := make([]*gtfs.Trip, 0, len(feed.Trips))
+	for _, t := range feed.Trips {
+		old = append(old, t)
+		if _, ok := copies[t]; !ok {
+			copies[t] = []*gtfs.Trip{t}
+		}
+	}
+	sort.Slice(old, func(i, j int) bool { return old[i].Id < old[j].Id })
+
+	attrIds := usedAttributionIds(feed)
+
+	feed.Trips = make(map[string]*gtfs.Trip, len(old))
+	tripFlds := make(map[string]map[string]string)
+	stopTimeFlds := make(map[string]map[string]map[int]string)
+	freqFlds := make(map[string]map[string]map[*gtfs.Frequency]string)
+
+	for fld := range feed.TripsAddFlds {
+		tripFlds[fld] = make(map[string]string)
+	}
+	for fld := range feed.StopTimesAddFlds {
+		stopTimeFlds[fld] = make(map[string]map[int]string)
+	}
+	for fld := range feed.FrequenciesAddFlds {
+		freqFlds[fld] = make(map[string]map[*gtfs.Frequency]string)
+	}
+
+	for _, t := range old {
+		// the first copy takes over, the others get their own objects
+		for i, n := range copies[t] {
+			feed.Trips[n.Id] = n
+
+			for fld, vals := range feed.TripsAddFlds {
+				if v, ok := vals[t.Id]; ok {
+					tripFlds[fld][n.Id] = v
+				}
+			}
+
+			for fld, vals := range feed.StopTimesAddFlds {
+				if v, ok := vals[t.Id]; ok {
+					stopTimeFlds[fld][n.Id] = make(map[int]string, len(v))
+					for seq, val := range v {
+						stopTimeFlds[fld][n.Id][seq] = val
+					}
+				}
+			}
+
+			if i > 0 && t.Frequencies != nil {
+				freqs := make([]*gtfs.Frequency, len(*t.Frequencies))
+				for j, f := range *t.Frequencies {
+					c := *f
+					freqs[j] = &c
+				}
+				n.Frequencies = &freqs
+			}
+
+			for fld, vals := range feed.FrequenciesAddFlds {
+				if v, ok := vals[t.Id]; ok && t.Frequencies != nil {
+					freqFlds[fld][n.Id] = make(map[*gtfs.Frequency]string, len(v))
+					for j, f := range *t.Frequencies {
+						if val, ok := v[f]; ok {
+							freqFlds[fld][n.Id][(*n.Frequencies)[j]] = val
+						}
+					}
+				}
+			}
+
+			if i > 0 && t.Attributions != nil {
+				attrs := make([]*gtfs.Attribution, len(*t.Attributions))
+				for j, a := range *t.Attributions {
+					c := *a
+					if len(a.Id) > 0 {
+						for k := 1; attrIds[c.Id]; k++ {
+							c.Id = a.Id + "-" + strconv.Itoa(k)
+						}
+						attrIds[c.Id] = true
+					}
+					for _, vals := range feed.AttributionsAddFlds {
+						if v, ok := vals[a]; ok {
+							vals[&c] = v
+						}
+					}
+					attrs[j] = &c
+				}
+				n.Attributions = &attrs
+			}
+		}
+	}
+
+	feed.TripsAddFlds = tripFlds
+	feed.StopTimesAddFlds = stopTimeFlds
+	feed.FrequenciesAddFlds = freqFlds
+
+	copyTripTransfers(feed, copies)
+}
+
+// copyTripTransfers gives the transfers of each trip to its copies, where the copies may meet
+func copyTripTransfers(feed *gtfsparser.Feed, copies map[*gtfs.Trip][]*gtfs.Trip) {
+	transfers := make(map[gtfs.TransferKey]gtfs.TransferVal, len(feed.Transfers))
+	flds := make(map[string]map[gtfs.TransferKey]string)
+	for fld := range feed.TransfersAddFlds {
+		flds[fld] = make(map[gtfs.TransferKey]string)
+	}
+
+	dates := make(map[*gtfs.Service]map[gtfs.Date]bool)
+
+	for k, v := range feed.Transfers {
+		newKeys := make([]gtfs.TransferKey, 0)
+		apart := make([]gtfs.TransferKey, 0)
+
+		if k.From_trip == nil && k.To_trip == nil {
+			newKeys = append(newKeys, k)
+		} else if k.From_trip == nil {
+			for _, to := range copies[k.To_trip] {
+				n := k
+				n.To_trip = to
+				newKeys = append(newKeys, n)
+			}
+		} else if k.To_trip == nil {
+			for _, from := range copies[k.From_trip] {
+				n := k
+				n.From_trip = from
+				newKeys = append(newKeys, n)
+			}
+		} else {
+			for _, from := range copies[k.From_trip] {
+				for _, to := range copies[k.To_trip] {
+					n := k
+					n.From_trip = from
+					n.To_trip = to
+					if shareDate(from.Service, to.Service, dates) {
+						newKeys = append(newKeys, n)
+					} else {
+						apart = append(apart, n)
+					}
+				}
+			}
+			if len(newKeys) == 0 {
+				newKeys = apart
+			}
+		}
+
+		for _, n := range newKeys {
+			transfers[n] = v
+			for fld, vals := range feed.TransfersAddFlds {
+				if val, ok := vals[k]; ok {
+					flds[fld][n] = val
+				}
+			}
+		}
+	}
+
+	feed.Transfers = transfers
+	feed.TransfersAddFlds = flds
+}
+
+// shareDate checks whether there is a date on which both services are active
+func shareDate(a *gtfs.Service, b *gtfs.Service, dates map[*gtfs.Service]map[gtfs.Date]bool) bool {
+	for _, s := range []*gtfs.Service{a, b} {
+		if _, ok := dates[s]; !ok {
+			dates[s] = make(map[gtfs.Date]bool)
+			last := s.GetLastDefinedDate()
+			for d := s.GetFirstDefinedDate(); !d.GetTime().After(last.GetTime()); d = d.GetOffsettedDate(1) {
+				if s.IsActiveOn(d) {
+					dates[s][d] = true
+				}
+			}
+		}
+	}
+
+	for d := range dates[a] {
+		if dates[b][d] {
+			return true
+		}
+	}
+	return false
+}
+
+// usedAttributionIds collects the ids of all attributions in the feed
+func usedAttributionIds(feed *gtfsparser.Feed) map[string]bool {
+	ids := make(map[string]bool)
+	add := func(attrs []*gtfs.Attribution) {
+		for _, a := range attrs {
+			ids[a.Id] = true
+		}
+	}
+
+	add(feed.Attributions)
+	for _, a := range feed.Agencies {
+		add(a.Attributions)
+	}
+	for _, r := range feed.Routes {
+		add(r.Attributions)
+	}
+	for _, t := range feed.Trips {
+		if t.Attributions != nil {
+			add(*t.Attributions)
+		}
+	}
+
+	return ids
+}
-- 
2.43.0


From 5adbcc0afa85a7d98f4f8772da85c2952224e22c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:56 +0000
Subject: [PATCH 14/25] fix: stop reclustering dropped stations, transfers and
 neighbours

---
 processors/stopclusteridx.go  |  75 ++++++++++++----------
 processors/stopreclusterer.go | 116 ++++++++++++++++++++--------------
 processors/util.go            |   4 ++
 3 files changed, 115 insertions(+), 80 deletions(-)

diff --git a/processors/stopclusteridx.go b/processors/stopclusteridx.go
index 8653ac2..abf3a53 100755
--- a/processors/stopclusteridx.go
+++ b/processors/stopclusteridx.go
@@ -31,33 +31,29 @@ func NewStopClusterIdx(clusters []*StopCluster, cellWidth, cellHeight float64) *
 
 	for _, cluster := range clusters {
 		for _, s := range cluster.Parents {
-			x, y := latLngToWebMerc(s.Lat, s.Lon)
-			if x < idx.llx {
-				idx.llx = x
-			} else if x > idx.urx {
-				idx.urx = x
+			if !s.HasLatLon() {
+				continue
 			}
 
-			if y < idx.lly {
-				idx.lly = y
-			} else if y > idx.ury {
-				idx.ury = y
-			}
+			x, y := latLngToWebMerc(s.Lat, s.Lon)
+
+			idx.llx = math.Min(idx.llx, x)
+			idx.urx = math.Max(idx.urx, x)
+			idx.lly = math.Min(idx.lly, y)
+			idx.ury = math.Max(idx.ury, y)
 		}
 
 		for _, s := range cluster.Childs {
-			x, y := latLngToWebMerc(s.Lat, s.Lon)
-			if x < idx.llx {
-				idx.llx = x
-			} else if x > idx.urx {
-				idx.urx = x
+			if !s.HasLatLon() {
+				continue
 			}
 
-			if y < idx.lly {
-				idx.lly = y
-			} else if y > idx.ury {
-				idx.ury = y
-			}
+			x, y := latLngToWebMerc(s.Lat, s.Lon)
+
+			idx.llx = math.Min(idx.llx, x)
+			idx.urx = math.Max(idx.urx, x)
+			idx.lly = math.Min(idx.lly, y)
+			idx.ury = math.Max(idx.ury, y)
 		}
 	}
 
@@ -72,8 +68,8 @@ func NewStopClusterIdx(clusters []*StopCluster, cellWidth, cellHeight float64) *
 		return &idx
 	}
 
-	idx.xWidth = uint(math.Ceil(idx.width / idx.cellWidth))
-	idx.yHeight = uint(math.Ceil(idx.height / idx.cellHeight))
+	idx.xWidth = uint(math.Floor(idx.width/idx.cellWidth)) + 1
+	idx.yHeight = uint(math.Floor(idx.height/idx.cellHeight)) + 1
 
 	// resize rows
 	idx.grid = make([][]map[int]bool, idx.xWidth)
@@ -85,9 +81,15 @@ func NewStopClusterIdx(clusters []*StopCluster, cellWidth, cellHeight float64) *
 
 	for cid, cluster := range clusters {
 		for _, s := range cluster.Parents {
+			if !s.HasLatLon() {
+				continue
+			}
 			idx.Add(float64(s.Lat), float64(s.Lon), cid)
 		}
 		for _, s := range cluster.Childs {
+			if !s.HasLatLon() {
+				continue
+			}
 			idx.Add(float64(s.Lat), float64(s.Lon), cid)
 		}
 	}
@@ -119,6 +121,9 @@ func (gi *StopClusterIdx) GetNeighbors(excludeCid int, c *StopCluster, d float64
 	ret := make(map[int]bool)
 
 	for _, st := range c.Parents {
+		if !st.HasLatLon() {
+			continue
+		}
 		neighs := gi.GetNeighborsByLatLon(float64(st.Lat), float64(st.Lon), d)
 		for cid := range neighs {
 			if cid == excludeCid {
@@ -129,6 +134,9 @@ func (gi *StopClusterIdx) GetNeighbors(excludeCid int, c *StopCluster, d float64
 	}
 
 	for _, st := range c.Childs {
+		if !st.HasLatLon() {
+			continue
+		}
 		neighs := gi.GetNeighborsByLatLon(float64(st.Lat), float64(st.Lon), d)
 		for cid := range neighs {
 			if cid == excludeCid {
@@ -149,24 +157,23 @@ func (gi *StopClusterIdx) GetNeighborsByLatLon(lat float64, lon float64, d float
 
 	lx, ly := latLngToWebMerc(float32(lat), float32(lon))
 
-	swX := max(0, gi.getCellXFromX(lx)-xPerm)
-	swY := max(0, gi.getCellYFromY(ly)-yPerm)
+	cellX := gi.getCellXFromX(lx)
+	cellY := gi.getCellYFromY(ly)
 
-	neX := min(gi.xWidth-1, gi.getCellXFromX(lx)+xPerm)
-	neY := min(gi.yHeight-1, gi.getCellYFromY(ly)+yPerm)
+	swX := uint(0)
+	swY := uint(0)
 
-	if xPerm > swX {
-		swX = 0
-	} else {
-		swX = swX - xPerm
+	if cellX > xPerm {
+		swX = cellX - xPerm
 	}
 
-	if yPerm > swY {
-		swY = 0
-	} else {
-		swY = swY - yPerm
+	if cellY > yPerm {
+		swY = cellY - yPerm
 	}
 
+	neX := cellX + xPerm
+	neY := cellY + yPerm
+
 	for x := swX; x <= neX && x < uint(len(gi.grid)); x++ {
 		for y := swY; y <= neY && y < uint(len(gi.grid[x])); y++ {
 			for s := range gi.grid[x][y] {
diff --git a/processors/stopreclusterer.go b/processors/stopreclusterer.go
index 3e4fcef..fc4dfe3 100755
--- a/processors/stopreclusterer.go
+++ b/processors/stopreclusterer.go
@@ -11,6 +11,7 @@ import (
 	"fmt"
 	"github.com/patrickbr/gtfsparser"
 	gtfs "github.com/patrickbr/gtfsparser/gtfs"
+	"golang.org/x/exp/maps"
 	"math"
 	"os"
 	"regexp"
@@ -163,7 +164,9 @@ func (m StopReclusterer) Run(feed *gtfsparser.Feed) {
 
 	// take the top merge candidate from the PQ and merge it until the top candidate
 	// has priority < 0.5
-	for top := heap.Pop(&pq).(*Item); len(pq.Items) > 0; top = heap.Pop(&pq).(*Item) {
+	for len(pq.Items) > 1 {
+		top := heap.Pop(&pq).(*Item)
+
 		// we can break, there will only be merge candidates below the threshold from now on
 		if top.priority < 0.5 {
 			break
@@ -226,15 +229,19 @@ func (m *StopReclusterer) writeCluster(cl *StopCluster, feed *gtfsparser.Feed) {
 		parent = m.createParent(cl.Childs, feed)
 	} else {
 		//  take the parent with the best overall similarity
-		parent = nil
+		parent = cl.Parents[0]
 		bestsimi := float32(0.0)
 
 		for _, p := range cl.Parents {
 			cursimi := float32(0.0)
 			for _, c := range cl.Childs {
-				cursimi += m.stopSimi(p, c)
+				if p.HasLatLon() && c.HasLatLon() {
+					cursimi += m.stopSimi(p, c)
+				}
+			}
+			if len(cl.Childs) > 0 {
+				cursimi = cursimi / float32(len(cl.Childs))
 			}
-			cursimi = cursimi / float32(len(cl.Childs))
 			if cursimi >= bestsimi {
 				parent = p
 				bestsimi = cursimi
@@ -253,7 +260,14 @@ func (m *StopReclusterer) writeCluster(cl *StopCluster, feed *gtfsparser.Feed) {
 			continue
 		}
 
-		for tk, tv := range feed.Transfers {
+		transfers := make([]gtfs.TransferKey, 0)
+		for tk := range feed.Transfers {
+			if tk.From_stop == st || tk.To_stop == st {
+				transfers = append(transfers, tk)
+			}
+		}
+
+		for _, tk := range transfers {
 			tk_new := tk
 			if tk.From_stop == st {
 				tk_new.From_stop = parent
@@ -263,9 +277,15 @@ func (m *StopReclusterer) writeCluster(cl *StopCluster, feed *gtfsparser.Feed) {
 			}
 
 			if _, ok := feed.Transfers[tk_new]; !ok {
-				feed.Transfers[tk_new] = tv
-				delete(feed.Transfers, tk)
+				feed.Transfers[tk_new] = feed.Transfers[tk]
+				for k := range feed.TransfersAddFlds {
+					if v, ok := feed.TransfersAddFlds[k][tk]; ok {
+						feed.TransfersAddFlds[k][tk_new] = v
+					}
+				}
 			}
+
+			feed.DeleteTransfer(tk)
 		}
 
 		for _, p := range feed.Pathways {
@@ -294,27 +314,38 @@ func (m *StopReclusterer) createParent(stops []*gtfs.Stop, feed *gtfsparser.Feed
 	ret.Timezone, _ = gtfs.NewTimezone("")
 	ret.Url = nil
 
-	for _, st := range stops {
-		avgLat += st.Lat
-		avgLon += st.Lon
+	numPos := 0
+	sameUrl := true
 
-		if ret.Wheelchair_boarding == 0 && st.Wheelchair_boarding != 0 {
+	for i, st := range stops {
+		if st.HasLatLon() {
+			avgLat += st.Lat
+			avgLon += st.Lon
+			numPos++
+		}
+
+		if i == 0 {
 			ret.Wheelchair_boarding = st.Wheelchair_boarding
-		} else if ret.Wheelchair_boarding != 0 && st.Wheelchair_boarding != ret.Wheelchair_boarding {
-			ret.Wheelchair_boarding = 0
+			ret.Timezone = st.Timezone
 		}
 
-		if ret.Url == nil && st.Url != nil {
-			ret.Url = st.Url
-		} else if ret.Url != nil && st.Url != nil && st.Url.String() != ret.Url.String() {
-			ret.Url = nil
+		if st.Wheelchair_boarding != ret.Wheelchair_boarding {
+			ret.Wheelchair_boarding = 0
 		}
 
-		if ret.Timezone.GetTzString() == "" && st.Timezone.GetTzString() != "" {
-			ret.Timezone = st.Timezone
-		} else if ret.Timezone.GetTzString() != "" && st.Timezone.GetTzString() != ret.Timezone.GetTzString() {
+		if st.Timezone.GetTzString() != ret.Timezone.GetTzString() {
 			ret.Timezone, _ = gtfs.NewTimezone("")
 		}
+
+		if ret.Url == nil {
+			ret.Url = st.Url
+		} else if st.Url != nil && st.Url.String() != ret.Url.String() {
+			sameUrl = false
+		}
+	}
+
+	if !sameUrl {
+		ret.Url = nil
 	}
 
 	ret.Name = stops[0].Name
@@ -331,8 +362,8 @@ func (m *StopReclusterer) createParent(stops []*gtfs.Stop, feed *gtfsparser.Feed
 	}
 
 	ret.Desc = ""
-	ret.Lat = avgLat / float32(len(stops))
-	ret.Lon = avgLon / float32(len(stops))
+	ret.Lat = avgLat / float32(numPos)
+	ret.Lon = avgLon / float32(numPos)
 	ret.Location_type = 1
 	ret.Parent_station = nil
 	ret.Level = nil
@@ -367,9 +398,7 @@ func (m *StopReclusterer) updateNeighIn(cId int, nId int, clusters []*StopCluste
 			}
 
 			// we only have to update the PQ if the highest simi neighbor has changed
-			// this is the case if the new simi is bigger, or if we have changed the last element and it is now
-			// smaller
-			if neigh.simi > oldbestsimi || (i == len(neighs[cId])-1 && neigh.simi < oldbestsimi) {
+			if neighs[cId][len(neighs[cId])-1].simi != oldbestsimi {
 				pq.Items[pq.Pqids[cId]].priority = neighs[cId][len(neighs[cId])-1].simi
 				heap.Fix(pq, pq.Pqids[cId])
 			}
@@ -422,27 +451,18 @@ func (m *StopReclusterer) getNearestClusters(cId int, clusters []*StopCluster) [
 func (m *StopReclusterer) clusterSimi(a *StopCluster, b *StopCluster) float32 {
 	ret := float32(0.0)
 	c := 0
-	for _, stA := range a.Childs {
-		for _, stB := range b.Childs {
-			ret += m.stopSimi(stA, stB)
-			c++
-		}
-
-		for _, stB := range b.Parents {
-			ret += m.stopSimi(stA, stB)
-			c++
-		}
-	}
-
-	for _, stA := range a.Parents {
-		for _, stB := range b.Childs {
-			ret += m.stopSimi(stA, stB)
-			c++
-		}
-
-		for _, stB := range b.Parents {
-			ret += m.stopSimi(stA, stB)
-			c++
+	for _, stopsA := range [][]*gtfs.Stop{a.Childs, a.Parents} {
+		for _, stA := range stopsA {
+			for _, stopsB := range [][]*gtfs.Stop{b.Childs, b.Parents} {
+				for _, stB := range stopsB {
+					if !stA.HasLatLon() || !stB.HasLatLon() {
+						// nothing to compare
+						continue
+					}
+					ret += m.stopSimi(stA, stB)
+					c++
+				}
+			}
 		}
 	}
 
@@ -470,6 +490,10 @@ func (m *StopReclusterer) stopSimi(a *gtfs.Stop, b *gtfs.Stop) float32 {
 
 	namesimi := cosSimi(vecA, vecB)
 
+	if maps.Equal(m.tokens[a], m.tokens[b]) {
+		namesimi = 1
+	}
+
 	if namesimi > m.NameSimiThreshold { // this is the threshold value
 		namesimi = 0.5 + (namesimi-m.NameSimiThreshold)/(2*(1-m.NameSimiThreshold))
 	} else {
diff --git a/processors/util.go b/processors/util.go
index f2899d8..7f34461 100755
--- a/processors/util.go
+++ b/processors/util.go
@@ -148,6 +148,10 @@ func cosSimi(a map[int]float64, b map[int]float64) float64 {
 		}
 	}
 
+	if s1 == 0 || s2 == 0 {
+		return 0
+	}
+
 	return sumA / (math.Sqrt(s1) * math.Sqrt(s2))
 }
 
-- 
2.43.0


From 4fc2c538bf8e978e2aa0093c6fab071bf0b8256c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:54 +0000
Subject: [PATCH 15/25] fix: group adjacent stop times only if nothing is lost

---
 processors/adjstoptimegrouper.go | 40 ++++++++++++++++++++++++++++----
 1 file changed, 35 insertions(+), 5 deletions(-)

diff --git a/processors/adjstoptimegrouper.go b/processors/adjstoptimegrouper.go
index 340b7c1..d61c103 100644
--- a/processors/adjstoptimegrouper.go
+++ b/processors/adjstoptimegrouper.go
@@ -31,12 +31,23 @@ func (m AdjacentStopTimeGrouper) Run(feed *gtfsparser.Feed) {
 
 		for i := 1; i < len(t.StopTimes);i++ {
 			total++
-			if t.StopTimes[i-1].Stop() == t.StopTimes[i].Stop() && t.StopTimes[i-1].Arrival_time().Equals(t.StopTimes[i-1].Departure_time()) && t.StopTimes[i].Arrival_time().Equals(t.StopTimes[i].Departure_time()) && ((!t.StopTimes[i-1].HasDistanceTraveled() && !t.StopTimes[i].HasDistanceTraveled()) || (t.StopTimes[i-1].HasDistanceTraveled() && t.StopTimes[i].HasDistanceTraveled() && t.StopTimes[i-1].HasDistanceTraveled() == t.StopTimes[i].HasDistanceTraveled())) && t.StopTimes[i-1].Headsign() == t.StopTimes[i].Headsign() && t.StopTimes[i-1].Continuous_pickup() == t.StopTimes[i].Continuous_pickup() {
+			last := &newSt[len(newSt)-1]
 
-				// update previous stop
-				newSt[len(newSt) - 1].SetDeparture_time(t.StopTimes[i].Departure_time())
-				newSt[len(newSt) - 1].SetDrop_off_type(t.StopTimes[i-1].Drop_off_type())
-				newSt[len(newSt) - 1].SetPickup_type(t.StopTimes[i].Pickup_type())
+			if m.groupable(&t.StopTimes[i-1], &t.StopTimes[i]) && !losesService(last, &t.StopTimes[i]) && !(len(newSt) == 1 && t.Frequencies != nil && len(*t.Frequencies) > 0 && !last.Departure_time().Equals(t.StopTimes[i].Departure_time())) {
+				// update previous stop, the setters of the pickup and drop off types can only add to old values
+				st := gtfs.StopTime{}
+				st.SetStop(last.Stop())
+				st.SetArrival_time(last.Arrival_time())
+				st.SetDeparture_time(t.StopTimes[i].Departure_time())
+				st.SetSequence(last.Sequence())
+				st.SetTimepoint(last.Timepoint())
+				st.SetHeadsign(last.Headsign())
+				st.SetShape_dist_traveled(last.Shape_dist_traveled())
+				st.SetDrop_off_type(last.Drop_off_type())
+				st.SetPickup_type(t.StopTimes[i].Pickup_type())
+				st.SetContinuous_pickup(last.Continuous_pickup())
+				st.SetContinuous_drop_off(last.Continuous_drop_off())
+				*last = st
 				grouped++
 			} else {
 				newSt = append(newSt, t.StopTimes[i])
@@ -50,3 +61,22 @@ func (m AdjacentStopTimeGrouper) Run(feed *gtfsparser.Feed) {
 	grouped,
 	100.0*float64(grouped)/(float64(total)))
 }
+
+// groupable checks whether two adjacent stop times are events at the same stop which are the same except for
+// time, pickup and drop off
+func (m AdjacentStopTimeGrouper) groupable(a *gtfs.StopTime, b *gtfs.StopTime) bool {
+	return a.Stop() == b.Stop() &&
+		a.Arrival_time().Equals(a.Departure_time()) && b.Arrival_time().Equals(b.Departure_time()) &&
+		a.Arrival_time().Empty() == b.Arrival_time().Empty() &&
+		a.Timepoint() == b.Timepoint() &&
+		((!a.HasDistanceTraveled() && !b.HasDistanceTraveled()) || a.Shape_dist_traveled() == b.Shape_dist_traveled()) &&
+		a.Headsign() == b.Headsign() &&
+		a.Continuous_pickup() == b.Continuous_pickup() && a.Continuous_drop_off() == b.Continuous_drop_off()
+}
+
+// losesService checks whether boarding or alighting is not as before if a keeps its drop off type, but takes
+// the pickup type of the next stop time b (1 means not possible)
+func losesService(a *gtfs.StopTime, b *gtfs.StopTime) bool {
+	return (a.Pickup_type() != 1 && a.Pickup_type() != b.Pickup_type()) ||
+		(b.Drop_off_type() != 1 && b.Drop_off_type() != a.Drop_off_type())
+}
-- 
2.43.0


From cedf3a0fb6d418b1b8e79cfd70dc8312e81a9201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:22 +0000
Subject: [PATCH 16/25] fix: average parent stations only, over stops with a
 position

---
 processors/parentaverager.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/processors/parentaverager.go b/processors/parentaverager.go
index a00ee93..40fe9c1 100644
--- a/processors/parentaverager.go
+++ b/processors/parentaverager.go
@@ -30,9 +30,9 @@ func (sdr StopParentAverager) Run(feed *gtfsparser.Feed) {
 	fixed := 0
 	remain := 0
 
-	// collect childs
+	// collect childs of stations, childs without a position tell nothing about it
 	for _, s := range feed.Stops {
-		if s.Parent_station != nil {
+		if s.Parent_station != nil && s.Parent_station.Location_type == 1 && s.HasLatLon() {
 			parentChilds[s.Parent_station] = append(parentChilds[s.Parent_station], s)
 		}
 	}
-- 
2.43.0


From e20af37071f6a3bbfa71166a110f9ad4d09baec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:28 +0000
Subject: [PATCH 17/25] fix: too fast trips around untimed stops, pathways and
 places of filtered stops

---
 processors/completegeotripsfilter.go | 18 +++++++++++++++---
 processors/toofasttripremover.go     | 21 ++++++++++++++++++++-
 2 files changed, 35 insertions(+), 4 deletions(-)

diff --git a/processors/completegeotripsfilter.go b/processors/completegeotripsfilter.go
index 2409b0d..f5a30bb 100755
--- a/processors/completegeotripsfilter.go
+++ b/processors/completegeotripsfilter.go
@@ -23,12 +23,15 @@ func (f CompleteTripsGeoFilter) Run(feed *gtfsparser.Feed) {
 	usedstops := make(map[*gtfs.Stop]bool, 0)
 
 	for _, s := range feed.Stops {
+		if !s.HasLatLon() {
+			continue
+		}
 		for _, poly := range f.Polygons {
 			if poly.PolyContains(float64(s.Lon), float64(s.Lat)) {
 				filterstops[s] = true
 				usedstops[s] = true
-				if s.Parent_station != nil {
-					usedstops[s.Parent_station] = true
+				for p := s.Parent_station; p != nil; p = p.Parent_station {
+					usedstops[p] = true
 				}
 				break
 			}
@@ -59,6 +62,10 @@ func (f CompleteTripsGeoFilter) Run(feed *gtfsparser.Feed) {
 	toDel := make([]*gtfs.Stop, 0)
 
 	for _, s := range feed.Stops {
+		if !s.HasLatLon() && usedstops[s.Parent_station] {
+			// without a position of its own, it stays with its station
+			continue
+		}
 		if _, ok := usedstops[s]; !ok {
 			toDel = append(toDel, s)
 		}
@@ -76,7 +83,12 @@ func (f CompleteTripsGeoFilter) Run(feed *gtfsparser.Feed) {
 
 	for _, s := range toDel {
 		for _, p := range pathways[s] {
-			feed.DeletePathway(p.Id)
+			delete(feed.Pathways, p.Id)
+
+			// delete additional fields from CSV
+			for k := range feed.PathwaysAddFlds {
+				delete(feed.PathwaysAddFlds[k], p.Id)
+			}
 		}
 
 		feed.DeleteStop(s.Id)
diff --git a/processors/toofasttripremover.go b/processors/toofasttripremover.go
index 13c0c78..78cc9b2 100644
--- a/processors/toofasttripremover.go
+++ b/processors/toofasttripremover.go
@@ -34,6 +34,17 @@ func (f TooFastTripRemover) Run(feed *gtfsparser.Feed) {
 		for i := 1; i < len(t.StopTimes); i++ {
 			dist += distSApprox(t.StopTimes[i-1].Stop(), t.StopTimes[i].Stop())
 
+			if t.StopTimes[i].Arrival_time().Empty() {
+				// nothing known about when this stop is reached
+				continue
+			}
+
+			if last.Departure_time().Empty() {
+				last = t.StopTimes[i]
+				dist = 0
+				continue
+			}
+
 			inter := t.StopTimes[i].Arrival_time().SecondsSinceMidnight() - last.Departure_time().SecondsSinceMidnight()
 
 			speed := 0.0
@@ -99,11 +110,19 @@ func (f TooFastTripRemover) Run(feed *gtfsparser.Feed) {
 			continue
 		}
 
-		for j := 1; j < len(t.StopTimes); j++ {
+		for j := 0; j < len(t.StopTimes); j++ {
+			if t.StopTimes[j].Departure_time().Empty() {
+				continue
+			}
+
 			dist := 0.0
 			for i := j + 1; i < len(t.StopTimes); i++ {
 				dist += distSApprox(t.StopTimes[i-1].Stop(), t.StopTimes[i].Stop())
 
+				if t.StopTimes[i].Arrival_time().Empty() {
+					continue
+				}
+
 				inter := t.StopTimes[i].Arrival_time().SecondsSinceMidnight() - t.StopTimes[j].Departure_time().SecondsSinceMidnight()
 
 				speed := 0.0
-- 
2.43.0


From 65d2acef530a3945768050a4cae325767a75517b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:07 +0000
Subject: [PATCH 18/25] fix: restore kept ids of merged feeds in a safe order
 and completely

---
 gtfstidy.go | 133 ++++++++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 113 insertions(+), 20 deletions(-)

diff --git a/gtfstidy.go b/gtfstidy.go
index ec0cce0..721c22e 100755
--- a/gtfstidy.go
+++ b/gtfstidy.go
@@ -18,6 +18,7 @@ import (
 	"io/ioutil"
 	"os"
 	"path"
+	"sort"
 	"strconv"
 	"strings"
 )
@@ -99,6 +100,22 @@ func parseCoords(s string) ([][2]float64, error) {
 	return ret, nil
 }
 
+// sortedIds returns the keys of m, shorter ones first. Ids that lose their prefix in this order never run into an
+// id that is going to lose its prefix later.
+func sortedIds[T any](m map[string]T) []string {
+	ids := make([]string, 0, len(m))
+	for id := range m {
+		ids = append(ids, id)
+	}
+	sort.Slice(ids, func(i, j int) bool {
+		if len(ids[i]) != len(ids[j]) {
+			return len(ids[i]) < len(ids[j])
+		}
+		return ids[i] < ids[j]
+	})
+	return ids
+}
+
 func main() {
 	flag.Usage = func() {
 		fmt.Fprintf(os.Stderr, "gtfstidy - (C) 2016-2023 by Patrick Brosi <info@patrickbrosi.de>\n\nUsage:\n\n  %s [<options>] [-o <outputfile>] <input GTFS>\n\nAllowed options:\n\n", os.Args[0])
@@ -483,6 +500,23 @@ func main() {
 			break
 		}
 
+		// the parser also prefixes empty zone references in fare rules
+		for prefix := range prefixes {
+			for _, fare := range feed.FareAttributes {
+				for _, rule := range fare.Rules {
+					if rule.Origin_id == prefix {
+						rule.Origin_id = ""
+					}
+					if rule.Destination_id == prefix {
+						rule.Destination_id = ""
+					}
+					if rule.Contains_id == prefix {
+						rule.Contains_id = ""
+					}
+				}
+			}
+		}
+
 		if opts.DropErroneous {
 			s := feed.ErrorStats
 			if opts.ShowWarnings {
@@ -678,7 +712,8 @@ func main() {
 
 		// restore stop IDs, if requested
 		if *keepStationIds && len(prefixes) > 0 {
-			for id, s := range feed.Stops {
+			for _, id := range sortedIds(feed.Stops) {
+				s := feed.Stops[id]
 				for prefix := range prefixes {
 					if strings.HasPrefix(id, prefix) {
 						oldId := strings.TrimPrefix(id, prefix)
@@ -711,31 +746,41 @@ func main() {
 				}
 			}
 
-			for _, s := range feed.Trips {
+			for _, id := range sortedIds(existingBlockIds) {
 				for prefix := range prefixes {
-					if s.Block_id != nil && strings.HasPrefix(*s.Block_id, prefix) {
-						oldId := strings.TrimPrefix(*s.Block_id, prefix)
-						if _, ok := existingBlockIds[oldId]; !ok {
-							oldToNewBlockIds[*s.Block_id] = oldId
-							*s.Block_id = oldId
-
-							existingBlockIds[*s.Block_id] = true
+					if strings.HasPrefix(id, prefix) {
+						oldId := strings.TrimPrefix(id, prefix)
+						if !existingBlockIds[oldId] {
+							oldToNewBlockIds[id] = oldId
 
-						} else if newId, ok := oldToNewBlockIds[*s.Block_id]; ok && newId == oldId {
-							*s.Block_id = oldId
+							existingBlockIds[oldId] = true
+							delete(existingBlockIds, id)
 						}
 						break
 					}
 				}
 			}
+
+			for _, t := range feed.Trips {
+				if t.Block_id != nil {
+					if oldId, ok := oldToNewBlockIds[*t.Block_id]; ok {
+						t.Block_id = &oldId
+					}
+				}
+			}
 		}
 
 		// restore agency IDs, if requested
 		if *keepAgencyIds && len(prefixes) > 0 {
-			for id, s := range feed.Agencies {
+			for _, id := range sortedIds(feed.Agencies) {
+				s := feed.Agencies[id]
 				for prefix := range prefixes {
 					if strings.HasPrefix(id, prefix) {
 						oldId := strings.TrimPrefix(id, prefix)
+						if len(oldId) == 0 && len(feed.Agencies) > 1 {
+							// an agency without an id has to be the only one
+							break
+						}
 						if _, ok := feed.Agencies[oldId]; !ok {
 							feed.Agencies[oldId] = s
 							feed.Agencies[oldId].Id = oldId
@@ -756,7 +801,8 @@ func main() {
 
 		// restore fare attribute IDs, if requested
 		if *keepFareIds && len(prefixes) > 0 {
-			for id, s := range feed.FareAttributes {
+			for _, id := range sortedIds(feed.FareAttributes) {
+				s := feed.FareAttributes[id]
 				for prefix := range prefixes {
 					if strings.HasPrefix(id, prefix) {
 						oldId := strings.TrimPrefix(id, prefix)
@@ -785,7 +831,8 @@ func main() {
 
 		// restore service IDs, if requested
 		if *keepServiceIds && len(prefixes) > 0 {
-			for id, s := range feed.Services {
+			for _, id := range sortedIds(feed.Services) {
+				s := feed.Services[id]
 				for prefix := range prefixes {
 					if strings.HasPrefix(id, prefix) {
 						oldId := strings.TrimPrefix(id, prefix)
@@ -803,7 +850,8 @@ func main() {
 
 		// restore route IDs, if requested
 		if *keepRouteIds && len(prefixes) > 0 {
-			for id, s := range feed.Routes {
+			for _, id := range sortedIds(feed.Routes) {
+				s := feed.Routes[id]
 				for prefix := range prefixes {
 					if strings.HasPrefix(id, prefix) {
 						oldId := strings.TrimPrefix(id, prefix)
@@ -827,7 +875,8 @@ func main() {
 
 		// restore shape IDs, if requested
 		if *keepShapeIds && len(prefixes) > 0 {
-			for id, s := range feed.Shapes {
+			for _, id := range sortedIds(feed.Shapes) {
+				s := feed.Shapes[id]
 				for prefix := range prefixes {
 					if strings.HasPrefix(id, prefix) {
 						oldId := strings.TrimPrefix(id, prefix)
@@ -851,7 +900,8 @@ func main() {
 
 		// restore trip IDs, if requested
 		if *keepTripIds && len(prefixes) > 0 {
-			for id, s := range feed.Trips {
+			for _, id := range sortedIds(feed.Trips) {
+				s := feed.Trips[id]
 				for prefix := range prefixes {
 					if strings.HasPrefix(id, prefix) {
 						oldId := strings.TrimPrefix(id, prefix)
@@ -885,7 +935,8 @@ func main() {
 
 		// restore level IDs, if requested
 		if *keepLevelIds && len(prefixes) > 0 {
-			for id, s := range feed.Levels {
+			for _, id := range sortedIds(feed.Levels) {
+				s := feed.Levels[id]
 				for prefix := range prefixes {
 					if strings.HasPrefix(id, prefix) {
 						oldId := strings.TrimPrefix(id, prefix)
@@ -909,7 +960,8 @@ func main() {
 
 		// restore pathway IDs, if requested
 		if *keepPathwayIds && len(prefixes) > 0 {
-			for id, s := range feed.Pathways {
+			for _, id := range sortedIds(feed.Pathways) {
+				s := feed.Pathways[id]
 				for prefix := range prefixes {
 					if strings.HasPrefix(id, prefix) {
 						oldId := strings.TrimPrefix(id, prefix)
@@ -923,7 +975,48 @@ func main() {
 								delete(feed.PathwaysAddFlds[k], id)
 							}
 
-							feed.DeletePathway(id)
+							delete(feed.Pathways, id)
+						}
+						break
+					}
+				}
+			}
+		}
+
+		// restore attribution IDs, if requested
+		if *keepAttributionIds && len(prefixes) > 0 {
+			attributions := make(map[string]*gtfs.Attribution)
+			collect := func(attrs []*gtfs.Attribution) {
+				for _, a := range attrs {
+					if len(a.Id) > 0 {
+						attributions[a.Id] = a
+					}
+				}
+			}
+
+			collect(feed.Attributions)
+			for _, a := range feed.Agencies {
+				collect(a.Attributions)
+			}
+			for _, r := range feed.Routes {
+				collect(r.Attributions)
+			}
+			for _, t := range feed.Trips {
+				if t.Attributions != nil {
+					collect(*t.Attributions)
+				}
+			}
+
+			for _, id := range sortedIds(attributions) {
+				a := attributions[id]
+				for prefix := range prefixes {
+					if strings.HasPrefix(id, prefix) {
+						oldId := strings.TrimPrefix(id, prefix)
+						if _, ok := attributions[oldId]; !ok {
+							attributions[oldId] = a
+							attributions[oldId].Id = oldId
+
+							delete(attributions, id)
 						}
 						break
 					}
-- 
2.43.0


From 9783a95989f6abc6b9ce96b4c6634d1055f67e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:55 +0000
Subject: [PATCH 19/25] fix: exit with an error code if gtfstidy panics

---
 gtfstidy.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gtfstidy.go b/gtfstidy.go
index 721c22e..6d57749 100755
--- a/gtfstidy.go
+++ b/gtfstidy.go
@@ -229,6 +229,7 @@ func main() {
 	defer func() {
 		if r := recover(); r != nil {
 			fmt.Fprintln(os.Stderr, "Error:", r)
+			os.Exit(1)
 		}
 	}()
 
-- 
2.43.0


From 8908de93ba6e77432e29cb57dcbff9eecbfc84dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:56 +0000
Subject: [PATCH 20/25] fix: reject start and end dates which are no dates

---
 gtfstidy.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/gtfstidy.go b/gtfstidy.go
index 6d57749..b875025 100755
--- a/gtfstidy.go
+++ b/gtfstidy.go
@@ -21,6 +21,7 @@ import (
 	"sort"
 	"strconv"
 	"strings"
+	"time"
 )
 
 func getGtfsPoly(poly [][][]float64) gtfsparser.Polygon {
@@ -42,7 +43,7 @@ func getGtfsPoly(poly [][][]float64) gtfsparser.Polygon {
 func parseDate(str string) gtfs.Date {
 	var day, month, year int
 	var e error
-	if len(str) < 8 {
+	if len(str) != 8 {
 		e = fmt.Errorf("only has %d characters, expected 8", len(str))
 	}
 	if e == nil {
@@ -55,18 +56,22 @@ func parseDate(str string) gtfs.Date {
 		year, e = strconv.Atoi(str[0:4])
 	}
 
-	if e == nil && day < 1 || day > 31 {
+	if e == nil && (day < 1 || day > 31) {
 		e = fmt.Errorf("day must be in the range [1, 31]")
 	}
 
-	if e == nil && month < 1 || month > 12 {
+	if e == nil && (month < 1 || month > 12) {
 		e = fmt.Errorf("month must be in the range [1, 12]")
 	}
 
-	if e == nil && year < 1900 || year > (1900+255) {
+	if e == nil && (year < 1900 || year > (1900+255)) {
 		e = fmt.Errorf("date must be in the range [19000101, 21551231]")
 	}
 
+	if e == nil && time.Date(year, time.Month(month), day, 12, 0, 0, 0, time.UTC).Day() != day {
+		e = fmt.Errorf("there is no such day")
+	}
+
 	if e != nil {
 		panic(fmt.Errorf("Expected YYYYMMDD date, found '%s' (%s)", str, e.Error()))
 	}
-- 
2.43.0


From 94cdf0b33db72bbd6b2096521ffa13d4822b9dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:58 +0000
Subject: [PATCH 21/25] fix: reject bounding boxes without exactly two corners

---
 gtfstidy.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/gtfstidy.go b/gtfstidy.go
index b875025..6e64d4e 100755
--- a/gtfstidy.go
+++ b/gtfstidy.go
@@ -415,6 +415,11 @@ func main() {
 				fmt.Fprintf(os.Stderr, err.Error()+".\n")
 				os.Exit(1)
 			}
+
+			if len(bbox) != 2 {
+				fmt.Fprintf(os.Stderr, "\nCould not parse bounding box filter: expected 2 latitude,longitude pairs, found %d.\n", len(bbox))
+				os.Exit(1)
+			}
 		}
 
 		if len(bbox) == 2 {
-- 
2.43.0


From 95d26177f68d6a04df13e6130d34938ba64d5f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:59 +0000
Subject: [PATCH 22/25] fix: --complete-filtered-trips without a geo filter
 must not delete everything

---
 gtfstidy.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gtfstidy.go b/gtfstidy.go
index 6e64d4e..1945890 100755
--- a/gtfstidy.go
+++ b/gtfstidy.go
@@ -581,7 +581,7 @@ func main() {
 			minzers = append(minzers, processors.TooFastTripRemover{})
 		}
 
-		if *polygonFilterCompleteTrips {
+		if *polygonFilterCompleteTrips && len(polys) > 0 {
 			minzers = append(minzers, processors.CompleteTripsGeoFilter{Polygons: polys})
 		}
 
-- 
2.43.0


From f3fc59c9460c63443954bb93df083f46191fcff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:00 +0000
Subject: [PATCH 23/25] fix: name all options the shorthands stand for

---
 gtfstidy.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/gtfstidy.go b/gtfstidy.go
index 1945890..88034e4 100755
--- a/gtfstidy.go
+++ b/gtfstidy.go
@@ -141,10 +141,10 @@ func main() {
 	endDateFilter := flag.StringP("date-end", "", "", "end date filter, as YYYYMMDD")
 
 	fixShortHand := flag.BoolP("fix", "", false, "shorthand for -eDnz -p '-'")
-	compressShortHand := flag.BoolP("compress", "", false, "shorthand for -OSRCcIAP")
-	minimizeShortHand := flag.BoolP("Compress", "", false, "shorthand for -OSRCcIAPdT --red-stops-fuzzy --red-trips-fuzzy, like --compress, but additionally compress stop times into frequencies, use fuzzy matching for redundant trip and stop removal and use dense character ids. The latter destroys any existing external references (like in GTFS realtime streams)")
-	mergeShortHand := flag.BoolP("merge", "", false, "shorthand for -ARPICO")
-	fuzzyMergeShortHand := flag.BoolP("Merge", "", false, "shorthand for -EARPICO --red-trips-fuzzy --red-stops-fuzzy")
+	compressShortHand := flag.BoolP("compress", "", false, "shorthand for -OsSRCcIAP")
+	minimizeShortHand := flag.BoolP("Compress", "", false, "shorthand for -OsSRCcIAPdT --red-stops-fuzzy --red-trips-fuzzy, like --compress, but additionally compress stop times into frequencies, use fuzzy matching for redundant trip and stop removal and use dense character ids. The latter destroys any existing external references (like in GTFS realtime streams)")
+	mergeShortHand := flag.BoolP("merge", "", false, "shorthand for -ARPICOc")
+	fuzzyMergeShortHand := flag.BoolP("Merge", "", false, "shorthand for -EARPICOc --red-trips-fuzzy --red-stops-fuzzy")
 
 	assumeCleanCsv := flag.BoolP("assume-clean-csv", "", false, "assume clean csv (no leading spaces, clean line breaks)")
 	useDefaultValuesOnError := flag.BoolP("default-on-errs", "e", false, "if non-required fields have errors, fall back to the default values")
-- 
2.43.0


From 85b34c733403a1e5c5acd8a57d00c1766f2619b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:01 +0000
Subject: [PATCH 24/25] fix: validate feeds exactly like they are loaded

---
 gtfstidy.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gtfstidy.go b/gtfstidy.go
index 88034e4..b0baecf 100755
--- a/gtfstidy.go
+++ b/gtfstidy.go
@@ -440,7 +440,7 @@ func main() {
 	}
 
 	feed := gtfsparser.NewFeed()
-	opts := gtfsparser.ParseOptions{UseDefValueOnError: false, DropErroneous: false, DryRun: *onlyValidate, CheckNullCoordinates: false, EmptyStringRepl: "", ZipFix: false, UseStandardRouteTypes: *useStandardRouteTypes, MOTFilter: motFilter, MOTFilterNeg: motFilterNeg, AssumeCleanCsv: *assumeCleanCsv, RemoveFillers: *removeFillers, UseGoogleSupportedRouteTypes: *useGoogleSupportedRouteTypes, DropSingleStopTrips: *dropSingleStopTrips}
+	opts := gtfsparser.ParseOptions{UseDefValueOnError: false, DropErroneous: false, CheckNullCoordinates: false, EmptyStringRepl: "", ZipFix: false, UseStandardRouteTypes: *useStandardRouteTypes, MOTFilter: motFilter, MOTFilterNeg: motFilterNeg, AssumeCleanCsv: *assumeCleanCsv, RemoveFillers: *removeFillers, UseGoogleSupportedRouteTypes: *useGoogleSupportedRouteTypes, DropSingleStopTrips: *dropSingleStopTrips}
 	opts.DropErroneous = *dropErroneousEntities && !*onlyValidate
 	opts.UseDefValueOnError = *useDefaultValuesOnError && !*onlyValidate
 	opts.CheckNullCoordinates = *checkNullCoords
-- 
2.43.0


From 999b5932164b40578ab31fb7aa159f2064385c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:33 +0000
Subject: [PATCH 25/25] fix: do not write transfers of filtered trips and
 services without dates

---
 gtfstidy.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/gtfstidy.go b/gtfstidy.go
index b0baecf..a4aec10 100755
--- a/gtfstidy.go
+++ b/gtfstidy.go
@@ -575,6 +575,16 @@ func main() {
 		fmt.Fprintln(os.Stdout, "\nYou may want to try running gtfstidy with --fix for error fixing / skipping. See --help for details.")
 		os.Exit(1)
 	} else {
+		if *dropSingleStopTrips || !startDate.IsEmpty() || !endDate.IsEmpty() {
+			// the parser keeps the transfers of trips it drops, and services that do not have any dates left
+			feed.CleanTransfers()
+			for id, s := range feed.Services {
+				if s.IsEmpty() && s.Start_date().IsEmpty() && s.End_date().IsEmpty() {
+					feed.DeleteService(id)
+				}
+			}
+		}
+
 		minzers := make([]processors.Processor, 0)
 
 		if *dropTooFast {
-- 
2.43.0

