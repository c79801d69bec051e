package main

import (
	"fmt"
	"sort"
	"strings"
)

func init() { checks["C04"] = checkC04 }

func station(s *Snap, id string) string {
	for s.Stops[id] != nil && s.Stops[id]["parent"] != "" {
		id = s.Stops[id]["parent"]
	}
	return id
}

var genericType = map[string]string{"700": "3", "704": "3", "900": "0", "100": "2", "109": "2"}

// journeyKey: what makes two trips the same journey. fuzzy: only vehicle type, stations and times count.
func journeyKey(s *Snap, id string, fuzzy bool) string {
	t := s.Trips[id]
	var l []string
	if fuzzy {
		ty := s.Routes[t["route"]]["type"]
		if g := genericType[ty]; g != "" {
			ty = g
		}
		l = append(l, "type "+ty)
	} else {
		n := t.clone()
		for _, k := range []string{"service", "shape", "dir"} {
			delete(n, k)
		}
		l = append(l, n.key())
	}
	sts := s.StopTimes[id]
	for i, st := range sts {
		a, d := st["arr"], st["dep"]
		if i == 0 && len(sts) > 1 {
			a = ""
		}
		if i == len(sts)-1 && len(sts) > 1 {
			d = ""
		}
		l = append(l, station(s, st["stop"])+" "+a+" "+d)
	}
	return strings.Join(l, "|")
}

func tripOracle(fuzzy bool) func(e *Exec) string {
	return func(e *Exec) string {
		if m := problems(e); m != "" {
			return m
		}
		a, b := NewView(e.In, "service"), NewView(e.Out, "service")
		if m := Same(a, b, "trip", "transfer", "service", "attrib"); m != "" {
			return m
		}
		group := map[string][]string{}
		key := map[string]string{}
		for id := range e.In.Trips {
			k := journeyKey(e.In, id, fuzzy)
			if len(e.In.Freqs[id]) > 0 || len(e.In.StopTimes[id]) == 0 {
				k = "own " + id
			}
			key[id] = k
			group[k] = append(group[k], id)
		}
		want, got := map[string]map[string]bool{}, map[string]map[string]bool{}
		for id, t := range e.In.Trips {
			k := key[id]
			if want[k] == nil {
				want[k] = map[string]bool{}
			}
			for _, d := range e.In.Services[t["service"]].Active {
				want[k][d] = true
			}
		}
		for id, t := range e.Out.Trips {
			if e.In.Trips[id] == nil {
				return "trip " + id + " is new"
			}
			k := key[id]
			if got[k] == nil {
				got[k] = map[string]bool{}
			}
			for _, d := range e.Out.Services[t["service"]].Active {
				if got[k][d] {
					return fmt.Sprintf("identical trips remain that run on the same date %s: %v", d, group[k])
				}
				got[k][d] = true
			}
			if len(group[k]) == 1 {
				if a.val("trip", id) != b.val("trip", id) {
					return fmt.Sprintf("trip %s without duplicate changed:\n- %s\n+ %s", id, a.val("trip", id), b.val("trip", id))
				}
				continue
			}
			// the surviving trip is what it was, but for its dates and possibly the shape of a duplicate
			o, n := e.In.Trips[id].clone(), t.clone()
			drop := []string{"service", "shape"}
			if fuzzy {
				drop = append(drop, "wa", "bikes", "headsign", "short")
			}
			for k := range n {
				if k[0] == '+' && o[k] == "" { // taken over from a duplicate
					drop = append(drop, k)
				}
			}
			if o.key(drop...) != n.key(drop...) {
				return fmt.Sprintf("attributes of trip %s changed:\n- %s\n+ %s", id, o.key(drop...), n.key(drop...))
			}
			shapes, heads := map[string]bool{}, map[string]bool{}
			for _, x := range group[k] {
				shapes[e.In.Trips[x]["shape"]] = true
				heads[e.In.Trips[x]["headsign"]] = true
			}
			if o["shape"] != "" && o["shape"] != n["shape"] || !shapes[n["shape"]] {
				return "shape of trip " + id + " changed from " + o["shape"] + " to " + n["shape"]
			}
			if fuzzy {
				for _, k := range []string{"wa", "bikes", "short"} {
					vals := map[string]bool{}
					for _, x := range group[key[id]] {
						vals[e.In.Trips[x][k]] = true
					}
					if !vals[n[k]] || o[k] != n[k] && (o[k] == "1" && k != "short" || k == "short" && o[k] != "" || n[k] == "0" || n[k] == "") {
						return fmt.Sprintf("%s of trip %s changed from %q to %q", k, id, o[k], n[k])
					}
				}
			}
			if !heads[n["headsign"]] {
				return "headsign of trip " + id + " is new: " + n["headsign"]
			}
			si, so := e.In.StopTimes[id], e.Out.StopTimes[id]
			if len(si) != len(so) {
				return "number of stop times of trip " + id + " changed"
			}
			var from M
			for i := range si {
				var sk []string
				if o["shape"] != n["shape"] {
					sk = append(sk, "dist")
				}
				if si[i].key(sk...) != so[i].key(sk...) {
					return fmt.Sprintf("stop time of trip %s changed:\n- %s\n+ %s", id, si[i].key(), so[i].key())
				}
				_ = from
			}
			if o["shape"] != n["shape"] { // measures come with the shape
				ok := false
				for _, x := range group[k] {
					if e.In.Trips[x]["shape"] != n["shape"] {
						continue
					}
					same := true
					for i := range so {
						same = same && so[i]["dist"] == e.In.StopTimes[x][i]["dist"]
					}
					ok = ok || same
				}
				if !ok {
					return "measures of trip " + id + " do not belong to its new shape"
				}
			}
		}
		ks := []string{}
		for k := range want {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			for d := range want[k] {
				if !got[k][d] {
					return fmt.Sprintf("departure lost: on %s none of %v runs any more", d, group[k])
				}
			}
			for d := range got[k] {
				if !want[k][d] {
					return fmt.Sprintf("departure invented: on %s one of %v runs that did not", d, group[k])
				}
			}
		}
		for _, tf := range e.In.Transfers {
			gone := tf["ftrip"] != "" && e.Out.Trips[tf["ftrip"]] == nil || tf["ttrip"] != "" && e.Out.Trips[tf["ttrip"]] == nil
			n := 0
			for _, x := range e.Out.Transfers {
				if x.key() == tf.key() {
					n++
				}
			}
			if !gone && n != 1 {
				return "transfer lost: " + tf.key()
			}
		}
		if len(e.Out.Transfers) > len(e.In.Transfers) {
			return "transfer invented"
		}
		// attributions stay with the trip or follow to a duplicate
		for _, x := range e.In.Attribs {
			if x["trip_id"] != "" && e.Out.Trips[x["trip_id"]] == nil {
				continue
			}
			n := 0
			for _, y := range e.Out.Attribs {
				if x.key() == y.key() {
					n++
				}
			}
			if n < 1 {
				return "attribution lost: " + x.key()
			}
		}
		for _, y := range e.Out.Attribs {
			ok := false
			for _, x := range e.In.Attribs {
				ok = ok || x.key("trip_id") == y.key("trip_id") && (x["trip_id"] == y["trip_id"] || key[x["trip_id"]] == key[y["trip_id"]])
			}
			if !ok {
				return "attribution invented: " + y.key()
			}
		}
		return ""
	}
}

// dupTrip adds a trip s1(P11) - s2 - s3.
func (t T) dupTrip(id, svc string, kv ...string) T {
	t.Add("trips", tripRow(id, "r1", svc, "trip_headsign", "H").With(kv...))
	t.Add("stop_times", stRow(id, 1, "s1", 36000, "shape_dist_traveled", ""), stRow(id, 2, "s2", 36300, "departure_time", hms(36360)), stRow(id, 3, "s3", 36900))
	return t
}

func dupBase() T {
	t := T{}
	t.Add("agency", agencyRow("a1"))
	t.Add("routes", routeRow("r1", "a1"), routeRow("r2", "a1"), routeRow("r3", "a1", "route_type", "700"), routeRow("r4", "a1", "route_type", "2"))
	t.Add("stops", stopRow("P1", 48, 7.8, "location_type", "1"), stopRow("s1", 48, 7.8, "parent_station", "P1"), stopRow("s1b", 48.0001, 7.8, "parent_station", "P1"), stopRow("s2", 48.01, 7.81), stopRow("s2b", 48.01, 7.81, "stop_name", "Stop s2"), stopRow("s3", 48.02, 7.82))
	for i, id := range []string{"p1", "p2"} {
		t.Add("shapes", R("shape_id", id, "shape_pt_sequence", "1", "shape_pt_lat", "48", "shape_pt_lon", "7.8", "shape_dist_traveled", "0"), R("shape_id", id, "shape_pt_sequence", "2", "shape_pt_lat", "48.02", "shape_pt_lon", "7.82", "shape_dist_traveled", fmt.Sprint(10+i)))
	}
	return t
}

// otherUser adds a trip of its own on a service: an ordinary one, one repeated by frequencies, or one without calls.
func (t T) otherUser(kind int, id, route, svc string, at int) {
	switch kind % 3 {
	case 0:
		t.simpleTrip(id, route, svc, at)
	case 1:
		t.simpleTrip(id, route, svc, at)
		t.A("frequencies", "trip_id", id, "start_time", hms(at), "end_time", hms(at+7200), "headway_secs", "900")
	case 2:
		t.Add("trips", tripRow(id, route, svc))
	}
}

func checkC04(c *Ctx) {
	ops := []string{"I", "Ia", "If", "Ifa"}
	run := func(nm string, t T, par int, os ...string) {
		if len(os) == 0 {
			os = ops
		}
		for _, o := range os {
			c.Run(Scn{Name: nm + " " + o, T: t, Ops: []string{o}, Par: par}, tripOracle(o[:mini(2, len(o))] == "If"))
		}
	}
	reps := svcReps()
	withSvcs := func(ss ...svcSpec) T {
		t := dupBase()
		for i, s := range ss {
			s.rows(t, fmt.Sprintf("v%d", i))
		}
		return t
	}
	// pairs of calendars; optionally other trips use the services too, or only one has a shape
	for i := range reps {
		for j := range reps {
			nm := fmt.Sprintf("cal-pair %d-%d", i, j)
			if !c.Mine(nm) {
				continue
			}
			for x := 0; x < 10; x++ {
				m, kind := (x+2)/3, (x+2)%3
				if c.Quick() && m > 0 && kind != (i+2*j+m)%3 {
					continue
				}
				t := withSvcs(reps[i], reps[j])
				t.dupTrip("t0", "v0")
				t.dupTrip("t1", "v1")
				if m&1 != 0 {
					t.otherUser(kind, "o0", "r1", "v0", 50000)
				}
				if m&2 != 0 {
					t.otherUser(kind+m/3, "o1", "r2", "v1", 50000)
					t.Set("trips", "trip_id", "t1", "shape_id", "p1")
					t.Set("stop_times", "trip_id", "t1", "shape_dist_traveled", "3")
					t.A("attributions", "attribution_id", "b1", "trip_id", "t0", "organization_name", "O", "is_producer", "1")
				}
				if m == 3 {
					t.Rev("trips", "calendar", "calendar_dates")
				}
				run(fmt.Sprintf("%s m%d", nm, x), t, 1+(i+j)%4)
			}
		}
	}
	tr := reps[:c.Pick(13, len(reps))]
	for i := range tr {
		for j := range tr {
			for k := range tr {
				nm := fmt.Sprintf("cal-triple %d-%d-%d", i, j, k)
				if !c.Mine(nm) {
					continue
				}
				t := withSvcs(tr[i], tr[j], tr[k])
				t.dupTrip("t0", "v0").dupTrip("t1", "v1").dupTrip("t2", "v2")
				if (i+j+k)%2 == 0 {
					t.otherUser(i+j, "o1", "r2", "v1", 50000)
				}
				run(nm, t, 1+(i+j+k)%3, "I", "If", "Ia")
			}
		}
	}
	// shared services, several groups of duplicates on the same services
	for i := range tr {
		for j := range tr {
			nm := fmt.Sprintf("cal-groups %d-%d", i, j)
			if !c.Mine(nm) {
				continue
			}
			t := withSvcs(tr[i], tr[j])
			for g, st := range []string{"a", "b", "c"} {
				for k := 0; k < 2; k++ {
					id := fmt.Sprintf("%s%d", st, k)
					t.Add("trips", tripRow(id, "r1", fmt.Sprintf("v%d", k), "trip_headsign", "H"))
					t.Add("stop_times", stRow(id, 1, "s1", 36000+g*600), stRow(id, 2, "s2", 37000+g*600))
				}
			}
			t.otherUser(i+2*j, "a0x", "r1", "v0", 60000)
			run(nm, t, 1+(i+j)%5)
		}
	}
	// histories of several rounds: duplicates on equal, contained, overlapping, and adjacent dates; any of the services may be used by another trip
	hist := []svcSpec{{62, d0, d0 + 11, nil}, {62, d0, d0 + 12, map[int]int{d0 + 12: 2}}, {62, d0, d0 + 6, nil}, {62, d0 + 7, d0 + 25, nil}, {62, d0 + 14, d0 + 25, nil}, {62, d0 + 28, d0 + 33, nil}}
	for n := 2; n <= c.Pick(3, 4); n++ {
		dims := make([]int, n+1)
		for i := range dims {
			dims[i] = len(hist)
		}
		dims[n] = 1 << uint(len(hist))
		product(dims, func(v []int) {
			used := 0
			for _, x := range v[:n] {
				used |= 1 << uint(x)
			}
			if v[n]&^used != 0 || n == 4 && v[n] != used && v[n]&(v[n]-1) != 0 {
				return
			}
			nm := fmt.Sprintf("history %v", v)
			if !c.Mine(nm) {
				return
			}
			t := withSvcs(hist...)
			for i, x := range v[:n] {
				t.dupTrip(fmt.Sprintf("t%d", i), fmt.Sprintf("v%d", x))
			}
			for i := range hist {
				if v[n]&(1<<uint(i)) != 0 {
					t.otherUser(v[0]+v[1]+i, fmt.Sprintf("o%d", i), "r1", fmt.Sprintf("v%d", i), 50000+600*i)
				}
			}
			if n < 4 {
				run(nm, t, 1+v[0]%3)
			} else {
				run(nm, t, 1+v[0]%3, "Ia", "If")
			}
		})
	}
	// one attribute differs
	fields := [][]string{{"route_id", "r1", "r2", "r3", "r4"}, {"trip_headsign", "", "H", "G"}, {"trip_short_name", "", "1", "2"}, {"direction_id", "", "0", "1"}, {"block_id", "", "k1", "k2"},
		{"shape_id", "", "p1", "p2"}, {"wheelchair_accessible", "", "1", "2"}, {"bikes_allowed", "", "1", "2"}, {"x_own", "", "q", "w"}}
	fields = withLong(fields, "trip_headsign", "trip_short_name", "block_id", "x_own")
	cals := []svcSpec{reps[0], reps[6], reps[12]} // equal / contained / disjoint with respect to rep 0
	over := reps[10]
	cals = append(cals, over, reps[17])
	for _, f := range fields {
		for i := 1; i < len(f); i++ {
			for j := 1; j < len(f); j++ {
				for k := range cals {
					nm := fmt.Sprintf("field-pair %s %d %d %d", f[0], i, j, k)
					if !c.Mine(nm) {
						continue
					}
					t := withSvcs(reps[0], cals[k])
					t.dupTrip("t0", "v0", f[0], f[i])
					t.dupTrip("t1", "v1", f[0], f[j])
					run(nm, t, 1+k)
					t2 := withSvcs(reps[0])
					t2.dupTrip("t0", "v0", f[0], f[i])
					t2.dupTrip("t1", "v0", f[0], f[j])
					run(nm+" same service", t2, 1+k)
				}
			}
		}
	}
	// measures known at some of the calls, with and without a shape
	for x := 0; x < 48; x++ {
		for y := 0; y < 48; y++ {
			for k := range cals {
				nm := fmt.Sprintf("measures %d %d %d", x, y, k)
				if c.Quick() && (x/3+2*(y/3)+k)%3 != 0 || !c.Mine(nm) {
					continue
				}
				t := withSvcs(reps[0], cals[k])
				for i, z := range []int{x, y} {
					id := fmt.Sprint("t", i)
					t.dupTrip(id, fmt.Sprint("v", i), "shape_id", []string{"", "p1", "p2"}[z%3])
					for q := 0; q < 3; q++ {
						if m := [][]int{{}, {0}, {2}, {0, 2}, {1}, {1, 2}, {0, 1}, {0, 1, 2}}[z/3%8]; len(m) > 0 {
							for _, p := range m {
								if p == q {
									r := t["stop_times"][len(t["stop_times"])-3+q]
									t["stop_times"][len(t["stop_times"])-3+q] = r.With("shape_dist_traveled", fmt.Sprint(1+3*i+q+z/24))
								}
							}
						}
					}
				}
				run(nm, t, 1+(x+y)%3)
			}
		}
	}
	// services of many weeks, which share some or many of their dates
	longs := []svcSpec{{127, d0, d0 + 69, nil}, {127, d0 + 20, d0 + 90, nil}, {127, d0 + 20, d0 + 69, nil}, {62, d0, d0 + 430, nil}, {62, d0 + 7, d0 + 430, map[int]int{d0 + 400: 1, d0 + 10: 2}}, {127, d0, d0 + 160, map[int]int{d0 + 33: 2, d0 + 300: 1}}, {127, d0 + 70, d0 + 120, nil}, {62, d0 + 433, d0 + 800, nil}, {127, d0 - 100, d0 - 1, map[int]int{d0 + 50: 1}}}
	for i := range longs {
		for j := range longs {
			for l := -1; l < len(longs); l++ {
				nm := fmt.Sprintf("long %d %d %d", i, j, l)
				if i == j && l >= 0 || l == i || l == j || c.Quick() && l >= 0 && (i+j+l)%4 != 0 || !c.Mine(nm) {
					continue
				}
				t := withSvcs(longs...)
				t.dupTrip("t0", fmt.Sprint("v", i)).dupTrip("t1", fmt.Sprint("v", j))
				if l >= 0 {
					t.dupTrip("t2", fmt.Sprint("v", l))
					t.otherUser(l, "o", "r1", fmt.Sprint("v", i), 60000)
				}
				run(nm, t, 1+(i+j)%3)
			}
		}
	}
	// one stop time differs
	for pos := 0; pos < 3; pos++ {
		for _, ch := range []string{"arr", "dep", "both", "stop", "sameStation", "equalStop", "pickup", "dropoff", "extra", "missing", "tp", "empty", "seq"} {
			for k := range cals {
				nm := fmt.Sprintf("stop-time %d %s %d", pos, ch, k)
				if !c.Mine(nm) {
					continue
				}
				t := withSvcs(reps[0], cals[k])
				t.dupTrip("t0", "v0").dupTrip("t1", "v1")
				ri := 3 + pos
				r := t["stop_times"][ri]
				switch ch {
				case "arr":
					r = r.With("arrival_time", hms([]int{35990, 36290, 36890}[pos]))
				case "dep":
					r = r.With("departure_time", hms([]int{36010, 36370, 36910}[pos]))
				case "both":
					b := []int{36001, 36361, 36901}[pos]
					r = r.With("arrival_time", hms(b), "departure_time", hms(b))
				case "stop":
					r = r.With("stop_id", []string{"s2", "s3", "s1"}[pos])
				case "sameStation":
					r = r.With("stop_id", "s1b")
					t["stop_times"][pos] = t["stop_times"][pos].With("stop_id", "s1")
				case "equalStop":
					r = r.With("stop_id", "s2b")
					t["stop_times"][pos] = t["stop_times"][pos].With("stop_id", "s2")
				case "pickup":
					r = r.With("pickup_type", "1")
				case "dropoff":
					r = r.With("drop_off_type", "3")
				case "tp":
					r = r.With("timepoint", "0")
				case "empty":
					if pos != 1 {
						continue
					}
					r = r.With("arrival_time", "", "departure_time", "", "timepoint", "0")
				case "seq":
					r = r.With("stop_sequence", []string{"0", "2", "9"}[pos])
				}
				t["stop_times"][ri] = r
				if ch == "extra" {
					t.Add("stop_times", stRow("t1", 4, "s2", 37000))
				}
				if ch == "missing" {
					t["stop_times"] = append(append([]Row{}, t["stop_times"][:ri]...), t["stop_times"][ri+1:]...)
				}
				run(nm, t, 2)
			}
		}
	}
	// frequencies, empty trips, transfers
	for m := 0; m < 64; m++ {
		for k := range cals {
			nm := fmt.Sprintf("extras %d %d", m, k)
			if !c.Mine(nm) {
				continue
			}
			t := withSvcs(reps[0], cals[k])
			t.dupTrip("t0", "v0").dupTrip("t1", "v1")
			if m&1 != 0 {
				t.A("frequencies", "trip_id", "t0", "start_time", "10:00:00", "end_time", "11:00:00", "headway_secs", "600", "exact_times", "0")
			}
			if m&2 != 0 {
				t.A("frequencies", "trip_id", "t1", "start_time", "10:00:00", "end_time", "11:00:00", "headway_secs", "600", "exact_times", "0")
			}
			if m&4 != 0 {
				t.Add("trips", tripRow("e1", "r1", "v0"), tripRow("e2", "r1", "v0"))
			}
			if m&8 != 0 {
				t.A("transfers", "from_stop_id", "s1", "to_stop_id", "s2", "from_trip_id", "t0", "to_trip_id", "", "transfer_type", "1")
				t.A("transfers", "from_stop_id", "s1", "to_stop_id", "s2", "from_trip_id", "", "to_trip_id", "t1", "transfer_type", "2", "min_transfer_time", "5")
				t.A("transfers", "from_stop_id", "s1", "to_stop_id", "s2", "from_trip_id", "", "to_trip_id", "", "transfer_type", "3")
			}
			if m&16 != 0 {
				t.A("attributions", "attribution_id", "b1", "trip_id", "t0", "organization_name", "O", "is_producer", "1")
				t.A("attributions", "attribution_id", "b2", "trip_id", "t1", "organization_name", "O2", "is_producer", "1")
			}
			if m&32 != 0 {
				t.dupTrip("t2", "v1", "shape_id", "p2", "x_own", "")
			}
			run(nm, t, 2)
		}
	}
	// groups over an alphabet of attribute variants and calendars
	type va struct {
		kv  []string
		svc int
	}
	var al []va
	for s := 0; s < 4; s++ {
		al = append(al, va{nil, s}, va{[]string{"trip_headsign", "G"}, s}, va{[]string{"route_id", "r2", "shape_id", "p1"}, s})
	}
	for n := 2; n <= c.Pick(3, 4); n++ {
		dims := make([]int, n)
		for i := range dims {
			dims[i] = len(al)
		}
		product(dims, func(v []int) {
			nm := fmt.Sprintf("multi %v", v)
			if !c.Mine(nm) {
				return
			}
			t := withSvcs(reps[0], reps[6], reps[7], reps[9])
			for i, x := range v {
				t.dupTrip(fmt.Sprintf("t%d", i), fmt.Sprintf("v%d", al[x].svc), al[x].kv...)
			}
			run(nm, t, 1+v[0]%3, "I", "If")
		})
	}
	// far dates, leap days, clock changes
	for i, y := range []int{dayNum(2023, 3, 24), dayNum(2023, 10, 27), dayNum(2024, 2, 27), dayNum(2023, 12, 29), dayNum(1999, 12, 30)} {
		for j := 0; j < 8; j++ {
			nm := fmt.Sprintf("boundary %d %d", i, j)
			if !c.Mine(nm) {
				continue
			}
			t := withSvcs(svcSpec{127, y, y + 6, map[int]int{y + j: 2}}, svcSpec{62, y + j - 3, y + j + 3, nil}, svcSpec{0, 1, 0, map[int]int{y - 400: 1, y + 3: 1, y + 800: 1}}, svcSpec{127, y + 7 + j, y + 20, nil})
			t.dupTrip("t0", "v0").dupTrip("t1", "v1").dupTrip("t2", "v2").dupTrip("t3", "v3")
			run(nm, t, 1+j%3)
		}
	}
	for i, ix := range [][]int{{0, 0}, {0, 6, 7}, {0, 9, 10}, {6, 7, 8, 12}, {24, 25, 26}} {
		nm := fmt.Sprintf("sched %d", i)
		if !c.Mine(nm) {
			continue
		}
		var ss []svcSpec
		for _, x := range ix {
			ss = append(ss, reps[x])
		}
		t := withSvcs(ss...)
		for k := range ix {
			t.dupTrip(fmt.Sprintf("t%d", k), fmt.Sprintf("v%d", k))
		}
		t.simpleTrip("o", "r1", "v0", 50000)
		for _, o := range ops {
			c.Explore(Scn{Name: nm + " " + o, T: t, Ops: []string{o}, Par: 2, Maps: true}, c.Pick(1, 2), c.Pick(800, 10000), tripOracle(o[:mini(2, len(o))] == "If"))
		}
	}
}
