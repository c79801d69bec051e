package main

import (
	"fmt"
	"strings"
)

func init() { checks["C09"] = checkC09 }

// orphanModel computes from the input which entities have to stay.
type orphanModel struct {
	trips, stops, routes, shapes, services, agencies map[string]bool
	transfers                                        map[string]string // row -> "keep", "drop" or "either"
}

func modelOrphans(s *Snap) *orphanModel {
	m := &orphanModel{map[string]bool{}, map[string]bool{}, map[string]bool{}, map[string]bool{}, map[string]bool{}, map[string]bool{}, map[string]string{}}
	for id, t := range s.Trips {
		pu, do := false, false
		for _, st := range s.StopTimes[id] {
			r := s.Routes[t["route"]]
			pu = pu || st["pu"] != "1" || st["cpu"] != "1" || r["cpu"] != "1"
			do = do || st["do"] != "1" || st["cdo"] != "1" || r["cdo"] != "1"
		}
		if pu && do {
			m.trips[id] = true
		}
	}
	used := map[string]bool{}   // called at
	usedUp := map[string]bool{} // or a parent of such
	routes := map[string]bool{}
	for id := range m.trips {
		t := s.Trips[id]
		routes[t["route"]] = true
		m.routes[t["route"]] = true
		m.services[t["service"]] = true
		if t["shape"] != "" {
			m.shapes[t["shape"]] = true
		}
		for _, st := range s.StopTimes[id] {
			used[st["stop"]] = true
			for x := st["stop"]; x != ""; x = s.Stops[x]["parent"] {
				usedUp[x] = true
			}
		}
	}
	for x := range used {
		m.stops[x] = true
	}
	for _, rs := range s.FareRules {
		for _, r := range rs {
			if r["route"] != "" {
				m.routes[r["route"]] = true
			}
		}
	}
	for _, tf := range s.Transfers {
		verdict := "keep"
		for _, k := range []string{"from", "to"} {
			if tf[k] != "" && !usedUp[tf[k]] {
				verdict = "drop"
			}
		}
		for _, k := range []string{"ftrip", "ttrip"} {
			if tf[k] != "" && !m.trips[tf[k]] {
				verdict = "drop"
			}
		}
		for _, k := range []string{"froute", "troute"} {
			if tf[k] != "" && !m.routes[tf[k]] {
				verdict = "drop"
			} else if tf[k] != "" && !routes[tf[k]] && verdict == "keep" {
				verdict = "either"
			}
		}
		m.transfers[tf.key()] = verdict
	}
	for _, p := range s.Pathways {
		m.stops[p["from"]], m.stops[p["to"]] = true, true
	}
	for id, st := range s.Stops {
		if st["lt"] == "2" { // entrances stay
			m.stops[id] = true
		}
	}
	for ch := true; ch; {
		ch = false
		for id := range m.stops {
			if p := s.Stops[id]["parent"]; p != "" && !m.stops[p] {
				m.stops[p] = true
				ch = true
			}
		}
	}
	for id := range m.routes {
		if a := s.Routes[id]["agency"]; a != "" {
			m.agencies[a] = true
		}
	}
	for _, f := range s.Fares {
		if f["agency"] != "" {
			m.agencies[f["agency"]] = true
		}
	}
	return m
}

func sameSet(kind string, want map[string]bool, got []string) string {
	g := map[string]bool{}
	for _, x := range got {
		g[x] = true
		if !want[x] {
			return fmt.Sprintf("%s %s is not needed by anything but was kept", kind, x)
		}
	}
	for x := range want {
		if !g[x] {
			return fmt.Sprintf("%s %s is needed but was removed", kind, x)
		}
	}
	return ""
}

func orphanOracle(e *Exec) string {
	if m := problems(e); m != "" {
		return m
	}
	m := modelOrphans(e.In)
	a, b := NewView(e.In), NewView(e.Out)
	for _, x := range []struct {
		k string
		w map[string]bool
	}{{"trip", m.trips}, {"stop", m.stops}, {"route", m.routes}, {"shape", m.shapes}, {"service", m.services}, {"agency", m.agencies}} {
		if r := sameSet(x.k, x.w, b.ids(x.k)); r != "" {
			return r
		}
		for _, id := range b.ids(x.k) {
			if a.val(x.k, id) != b.val(x.k, id) {
				return fmt.Sprintf("%s %s changed:\n- %s\n+ %s", x.k, id, a.val(x.k, id), b.val(x.k, id))
			}
		}
	}
	for id, s := range e.In.Services {
		if o := e.Out.Services[id]; o != nil && svcStr(s) != svcStr(o) {
			return "calendar of service " + id + " changed"
		}
	}
	got := map[string]int{}
	for _, t := range e.Out.Transfers {
		got[t.key()]++
		if m.transfers[t.key()] == "" {
			return "transfer is new or changed: " + t.key()
		}
	}
	for k, v := range m.transfers {
		if v == "keep" && got[k] != 1 {
			return "transfer between used places lost: " + k
		}
		if v == "drop" && got[k] != 0 {
			return "transfer of removed entities kept: " + k
		}
	}
	if r := Same(a, b, "trip", "stop", "route", "shape", "service", "agency", "transfer", "level", "attrib"); r != "" {
		return r
	}
	// levels: those in use stay (unused ones may)
	for id := range e.Out.Levels {
		if a.val("level", id) != b.val("level", id) {
			return "level " + id + " changed"
		}
	}
	// attributions stay with what they belong to
	want := []string{}
	for _, x := range e.In.Attribs {
		if (x["trip_id"] == "" || m.trips[x["trip_id"]]) && (x["route_id"] == "" || m.routes[x["route_id"]]) && (x["agency_id"] == "" || m.agencies[x["agency_id"]]) {
			want = append(want, x.key())
		}
	}
	have := []string{}
	for _, x := range e.Out.Attribs {
		have = append(have, x.key())
	}
	if d := diff(strings.Join(want, "\n"), strings.Join(have, "\n")); d != "" {
		return "attributions changed: " + d
	}
	return ""
}

func orphanBase() T {
	t := T{}
	t.Add("agency", agencyRow("a1", "agency_phone", "7"), agencyRow("a2"))
	t.Add("routes", routeRow("r1", "a1"), routeRow("r2", "a1", "route_short_name", "2"))
	t.Add("levels", R("level_id", "l1", "level_index", "0", "level_name", "G"))
	t.Add("stops", stopRow("st1", 48, 7.8, "location_type", "1", "level_id", "l1"), stopRow("s1", 48, 7.8, "parent_station", "st1", "x_note", "hello"), stopRow("s2", 48.01, 7.81), stopRow("s3", 48.02, 7.82),
		stopRow("st2", 48.02, 7.82, "location_type", "1"), stopRow("s4", 48.02, 7.82, "parent_station", "st2"))
	t.Add("calendar", calRow("v1", 127, d0, d0+6))
	t.Add("calendar_dates", cdRow("v2", d0+1, 1))
	t.Add("shapes", R("shape_id", "p1", "shape_pt_sequence", "1", "shape_pt_lat", "48", "shape_pt_lon", "7.8"), R("shape_id", "p1", "shape_pt_sequence", "2", "shape_pt_lat", "48.01", "shape_pt_lon", "7.81"))
	t.Add("trips", tripRow("t1", "r1", "v1", "shape_id", "p1"), tripRow("t2", "r2", "v2"), tripRow("t3", "r1", "v1"))
	t.Add("stop_times", stRow("t1", 1, "s1", 36000), stRow("t1", 2, "s2", 36600), stRow("t2", 1, "s2", 36000), stRow("t2", 2, "s3", 36600), stRow("t3", 1, "s4", 36000, "pickup_type", "0"), stRow("t3", 2, "s1", 36600))
	return t
}

type gadget struct {
	name string
	f    func(T)
}

func orphanGadgets() []gadget {
	st := func(id string, kv ...string) Row { return stopRow(id, 48.03, 7.83, kv...) }
	shp := func(t T, id string) {
		t.Add("shapes", R("shape_id", id, "shape_pt_sequence", "1", "shape_pt_lat", "48", "shape_pt_lon", "7.8"), R("shape_id", id, "shape_pt_sequence", "2", "shape_pt_lat", "48.1", "shape_pt_lon", "7.81"))
	}
	tf := func(kv ...string) Row {
		return R("from_stop_id", "", "to_stop_id", "").With(kv...).With("transfer_type", "2", "min_transfer_time", "60")
	}
	pw := func(id, a, b string) Row {
		return R("pathway_id", id, "from_stop_id", a, "to_stop_id", b, "pathway_mode", "1", "is_bidirectional", "1", "length", "5")
	}
	fare := func(t T, id string, kv ...string) {
		t.Add("fare_attributes", R("fare_id", id, "price", "1", "currency_type", "EUR", "payment_method", "0", "transfers", "").With(kv...))
	}
	rule := func(id, route string) Row {
		return R("fare_id", id, "route_id", route, "origin_id", "", "destination_id", "", "contains_id", "")
	}
	// a trip that cannot be used
	dead := func(t T, id, route, service string, a, b string, kv ...string) {
		t.Add("trips", tripRow(id, route, service, kv...))
		t.Add("stop_times", stRow(id, 1, a, 36000, "pickup_type", "1"), stRow(id, 2, b, 36600, "pickup_type", "1"))
	}
	return []gadget{
		{"unused-stop", func(t T) { t.Add("stops", st("u1", "zone_id", "z")) }},
		{"unused-station", func(t T) { t.Add("stops", st("u2", "location_type", "1")) }},
		{"unused-platform", func(t T) { t.Add("stops", st("u3s", "location_type", "1"), st("u3", "parent_station", "u3s")) }},
		{"unused-boarding", func(t T) {
			t.Add("stops", st("u4s", "location_type", "1"), st("u4p", "parent_station", "u4s"), st("u4b", "parent_station", "u4p", "location_type", "4"))
		}},
		{"boarding-used", func(t T) { t.Add("stops", st("u5", "parent_station", "s1", "location_type", "4")) }},
		{"entrance-unused", func(t T) {
			t.Add("stops", st("u6s", "location_type", "1"), st("u6", "parent_station", "u6s", "location_type", "2"))
		}},
		{"entrance-used", func(t T) { t.Add("stops", st("u7", "parent_station", "st1", "location_type", "2")) }},
		{"node", func(t T) { t.Add("stops", st("u8", "parent_station", "st1", "location_type", "3")) }},
		{"unused-platform-used-station", func(t T) { t.Add("stops", st("u9", "parent_station", "st1")) }},
		{"pathway-node", func(t T) {
			t.Add("stops", st("n1", "parent_station", "st1", "location_type", "3"))
			t.Add("pathways", pw("w1", "s1", "n1"))
		}},
		{"pathway-unused", func(t T) {
			t.Add("stops", st("n2s", "location_type", "1"), st("n2", "parent_station", "n2s", "location_type", "3"), st("n3", "parent_station", "n2s", "location_type", "3"))
			t.Add("pathways", pw("w2", "n2", "n3"))
		}},
		{"pathway-boarding", func(t T) {
			t.Add("stops", st("n4s", "location_type", "1"), st("n4p", "parent_station", "n4s"), st("n4b", "parent_station", "n4p", "location_type", "4"))
			t.Add("pathways", pw("w3", "n4b", "s2"))
		}},
		{"tf-used", func(t T) { t.Add("transfers", tf("from_stop_id", "s1", "to_stop_id", "s2", "x_tf", "q")) }},
		{"tf-unused", func(t T) {
			t.Add("stops", st("u10"))
			t.Add("transfers", tf("from_stop_id", "s1", "to_stop_id", "u10"))
		}},
		{"tf-unused2", func(t T) {
			t.Add("stops", st("u11"), st("u12s", "location_type", "1"), st("u12", "parent_station", "u12s"))
			t.Add("transfers", tf("from_stop_id", "u11", "to_stop_id", "u12"))
		}},
		{"tf-station", func(t T) { t.Add("transfers", tf("from_stop_id", "st1", "to_stop_id", "st2")) }},
		{"tf-station-platform", func(t T) { t.Add("transfers", tf("from_stop_id", "st1", "to_stop_id", "s2")) }},
		{"tf-station-unused", func(t T) {
			t.Add("stops", st("u13", "location_type", "1"), st("u13p", "parent_station", "u13"))
			t.Add("transfers", tf("from_stop_id", "u13", "to_stop_id", "s2"))
		}},
		{"tf-route", func(t T) {
			t.Add("transfers", tf("from_stop_id", "s2", "to_stop_id", "s2", "from_route_id", "r1", "to_route_id", "r2"))
		}},
		{"tf-route-unused", func(t T) {
			t.Add("routes", routeRow("r3", "a1"))
			t.Add("transfers", tf("from_stop_id", "s2", "to_stop_id", "s3", "from_route_id", "r3", "to_route_id", "r2"), tf("from_stop_id", "s3", "to_stop_id", "s2", "from_route_id", "r1", "to_route_id", "r3"))
		}},
		{"tf-trip", func(t T) {
			t.Add("transfers", tf("from_stop_id", "s2", "to_stop_id", "s2", "from_trip_id", "t1", "to_trip_id", "t2"))
		}},
		{"tf-dead-trip", func(t T) {
			dead(t, "d1", "r1", "v1", "s1", "s2")
			t.Add("transfers", tf("from_stop_id", "s2", "to_stop_id", "s2", "from_trip_id", "d1", "to_trip_id", "t2"))
		}},
		{"tf-trip-only", func(t T) {
			t.Add("transfers", tf("from_trip_id", "t1", "to_trip_id", "t2").With("transfer_type", "4", "min_transfer_time", ""))
		}},
		{"trip-empty", func(t T) { t.Add("trips", tripRow("d2", "r1", "v1")) }},
		{"trip-empty-own", func(t T) {
			t.Add("routes", routeRow("r4", "a1"))
			t.Add("calendar", calRow("v4", 1, d0, d0))
			shp(t, "p4")
			t.Add("trips", tripRow("d3", "r4", "v4", "shape_id", "p4"))
		}},
		{"trip-nopickup-own", func(t T) {
			t.Add("agency", agencyRow("a5"))
			t.Add("routes", routeRow("r5", "a5"))
			t.Add("calendar", calRow("v5", 1, d0, d0))
			shp(t, "p5")
			t.Add("stops", st("u14s", "location_type", "1"), st("u14", "parent_station", "u14s"))
			dead(t, "d5", "r5", "v5", "u14", "s1", "shape_id", "p5")
		}},
		{"trip-nodropoff", func(t T) {
			t.Add("trips", tripRow("d6", "r1", "v1"))
			t.Add("stop_times", stRow("d6", 1, "s1", 36000, "drop_off_type", "1"), stRow("d6", 2, "s2", 36600, "drop_off_type", "1"))
		}},
		{"trip-last-pickup", func(t T) {
			t.Add("trips", tripRow("k1", "r1", "v1"))
			t.Add("stop_times", stRow("k1", 1, "s1", 36000, "pickup_type", "1", "drop_off_type", "3"), stRow("k1", 2, "s2", 36600, "drop_off_type", "1", "pickup_type", "2"))
		}},
		{"trip-continuous", func(t T) {
			t.Add("trips", tripRow("k2", "r1", "v1"))
			t.Add("stop_times", stRow("k2", 1, "s1", 36000, "pickup_type", "1", "continuous_pickup", "0"), stRow("k2", 2, "s2", 36600, "pickup_type", "1"))
		}},
		{"route-continuous", func(t T) {
			t.Add("routes", routeRow("r7", "a1", "continuous_pickup", "2", "continuous_drop_off", "3"))
			t.Add("trips", tripRow("k3", "r7", "v1"))
			t.Add("stop_times", stRow("k3", 1, "s1", 36000, "pickup_type", "1", "drop_off_type", "1", "continuous_pickup", "1", "continuous_drop_off", "1"), stRow("k3", 2, "s2", 36600, "pickup_type", "1", "drop_off_type", "1"))
		}},
		{"route-continuous-drop", func(t T) {
			t.Add("routes", routeRow("r8", "a1", "continuous_drop_off", "0"))
			dead(t, "d8", "r8", "v1", "s1", "s2")
		}},
		{"route-and-calls", func(t T) {
			// every way a route or a call can allow boarding and alighting
			for v := 0; v < 64; v++ {
				o := func(i int, a, b string) string {
					if v>>uint(i)&1 == 1 {
						return b
					}
					return a
				}
				r, id := fmt.Sprint("rc", v), fmt.Sprint("tc", v)
				t.Add("routes", routeRow(r, "a1", "continuous_pickup", o(0, "1", "0"), "continuous_drop_off", o(1, "1", "2")))
				t.Add("trips", tripRow(id, r, "v1"))
				for i := 1; i <= 2; i++ {
					t.Add("stop_times", stRow(id, i, fmt.Sprint("s", i), 36000+600*i, "pickup_type", o(2, "1", "0"), "drop_off_type", o(3, "1", "3"),
						"continuous_pickup", o(4, "1", "3"), "continuous_drop_off", o(5, "1", "0")))
				}
			}
		}},
		{"trip-one-stop", func(t T) {
			t.Add("trips", tripRow("k4", "r1", "v1"))
			t.Add("stops", st("u15"))
			t.Add("stop_times", stRow("k4", 1, "u15", 36000))
		}},
		{"trip-freq", func(t T) {
			t.Add("frequencies", R("trip_id", "t1", "start_time", "10:00:00", "end_time", "11:00:00", "headway_secs", "600"))
		}},
		{"trip-freq-empty", func(t T) {
			t.Add("trips", tripRow("d9", "r1", "v1"))
			t.Add("frequencies", R("trip_id", "d9", "start_time", "10:00:00", "end_time", "11:00:00", "headway_secs", "600"))
		}},
		{"route-unused", func(t T) { t.Add("routes", routeRow("r9", "a2")) }},
		{"route-fare", func(t T) {
			t.Add("agency", agencyRow("a10"))
			t.Add("routes", routeRow("r10", "a10"))
			fare(t, "f10", "agency_id", "a1")
			t.Add("fare_rules", rule("f10", "r10"), rule("f10", "r1"))
		}},
		{"route-fare-one", func(t T) {
			t.Add("agency", agencyRow("a13"))
			t.Add("routes", routeRow("r13", "a13"), routeRow("r14", "a13"), routeRow("r15", "a13"))
			fare(t, "f13", "agency_id", "a1")
			fare(t, "f14", "agency_id", "a1")
			t.Add("fare_rules", rule("f13", "r13"), rule("f14", "r14").With("origin_id", "y"), rule("f14", "r15"), rule("f14", ""))
			t.Set("stops", "stop_id", "s2", "zone_id", "y")
		}},
		{"fare-agency", func(t T) { fare(t, "f11", "agency_id", "a2") }},
		{"fare-zone", func(t T) {
			fare(t, "f12", "agency_id", "a1")
			t.Add("fare_rules", rule("f12", "").With("origin_id", "z"))
			t.Set("stops", "stop_id", "s1", "zone_id", "z")
		}},
		{"agency-unused", func(t T) { t.Add("agency", agencyRow("a12", "agency_lang", "de")) }},
		{"agency-2-used", func(t T) { t.Set("routes", "route_id", "r2", "agency_id", "a2") }},
		{"shape-unused", func(t T) { shp(t, "p9") }},
		{"service-unused", func(t T) {
			t.Add("calendar", calRow("v9", 3, d0, d0+9))
			t.Add("calendar_dates", cdRow("v9", d0, 2), cdRow("v10", d0+3, 1))
		}},
		{"level-unused", func(t T) { t.Add("levels", R("level_id", "l2", "level_index", "1", "level_name", "U")) }},
		{"level-of-unused", func(t T) {
			t.Add("levels", R("level_id", "l3", "level_index", "2", "level_name", "U"))
			t.Add("stops", st("u16", "level_id", "l3"))
		}},
		{"attribs", func(t T) {
			t.Add("attributions", R("attribution_id", "b1", "organization_name", "O", "is_producer", "1"), R("attribution_id", "b2", "trip_id", "t1", "organization_name", "O", "is_producer", "1"),
				R("attribution_id", "b3", "route_id", "r2", "organization_name", "O", "is_operator", "1"), R("attribution_id", "b4", "agency_id", "a2", "organization_name", "O", "is_authority", "1"))
		}},
		{"service-shared", func(t T) { dead(t, "d12", "r1", "v2", "s1", "s2") }},
	}
}

func checkC09(c *Ctx) {
	g := orphanGadgets()
	build := func(ix []int) (T, string) {
		t := orphanBase()
		var ns []string
		for _, i := range ix {
			g[i].f(t)
			ns = append(ns, g[i].name)
		}
		return t, strings.Join(ns, "+")
	}
	subsets(len(g), c.Pick(3, 4), func(ix []int) {
		nm := fmt.Sprintf("gadgets %v", ix)
		if !c.Mine(nm) {
			return
		}
		t, ns := build(ix)
		c.Run(Scn{Name: nm + " " + ns, T: t, Ops: []string{"O"}, Par: 2}, orphanOracle)
		if len(ix) <= 2 {
			c.Run(Scn{Name: nm + " " + ns + " twice", T: t, Ops: []string{"O", "O"}, Par: 2}, orphanOracle)
			c.Run(Scn{Name: nm + " " + ns + " reversed", T: t.Clone().Rev("stops", "trips", "routes", "transfers", "shapes", "agency"), Ops: []string{"O"}, Par: 1}, orphanOracle)
		}
	})
	// everything at once, and everything but a few
	all := make([]int, len(g))
	for i := range g {
		all[i] = i
	}
	subsets(len(g), 2, func(ix []int) {
		nm := fmt.Sprintf("all-but %v", ix)
		if !c.Mine(nm) {
			return
		}
		var keep []int
		for _, i := range all {
			x := true
			for _, j := range ix {
				x = x && i != j
			}
			if x {
				keep = append(keep, i)
			}
		}
		t, _ := build(keep)
		c.Run(Scn{Name: nm, T: t, Ops: []string{"O", "O"}, Par: 3}, orphanOracle)
	})
	// base parts removed: which of the three trips exist
	for m := 0; m < 8; m++ {
		for i := range g {
			nm := fmt.Sprintf("fewer-trips %d %s", m, g[i].name)
			if !c.Mine(nm) {
				continue
			}
			t := orphanBase()
			g[i].f(t)
			for k, id := range []string{"t1", "t2", "t3"} {
				if m&(1<<uint(k)) != 0 {
					t.Set("stop_times", "trip_id", id, "pickup_type", "1")
				}
			}
			c.Run(Scn{Name: nm, T: t, Ops: []string{"O"}, Par: 2}, orphanOracle)
		}
	}
	// on the command line: what other options leave unused goes, too
	after := func() T {
		t := base()
		t.Add("agency", agencyRow("a2"))
		t.Set("agency", "agency_id", "a2", "agency_name", "Other")
		t.Add("routes", routeRow("r2", "a2", "route_color", "112233"), routeRow("r3", "a2", "route_type", "0"))
		t.Add("calendar", calRow("v", 127, d0, d0+13), calRow("w", 127, d0, d0+13), calRow("x", 1, d0, d0+20))
		t.Add("stops", stopRow("p", 48, 7.8, "location_type", "1"), stopRow("p2", 48.01, 7.81, "location_type", "1"), stopRow("s3", 48.0002, 7.8, "parent_station", "p", "platform_code", "3"), stopRow("s4", 48.0102, 7.81, "parent_station", "p2", "platform_code", "4"), stopRow("far", 48.4, 7.8), stopRow("q", 48.4, 7.8, "location_type", "1"))
		t.Set("stops", "stop_id", "s1", "parent_station", "p")
		t.Set("stops", "stop_id", "s2", "parent_station", "p2")
		t.Set("stops", "stop_id", "far", "parent_station", "q")
		t.Add("shapes", shpRow("h", 1, 48, 7.8), shpRow("h", 2, 48.01, 7.81), shpRow("h2", 1, 48.01, 7.8), shpRow("h2", 2, 48.02, 7.81), shpRow("h3", 1, 48.4, 7.8), shpRow("h3", 2, 48.01, 7.81))
		for i, r := range []string{"r1", "r2", "r1"} {
			id := fmt.Sprint("t", i)
			t.Add("trips", tripRow(id, r, []string{"v", "w", "v"}[i], "shape_id", []string{"h", "h", "h2"}[i]))
			a, b := "s1", "s2"
			if i == 1 {
				a, b = "s3", "s4"
			}
			t.Add("stop_times", stRow(id, 1, a, 36000+i/2*7000), stRow(id, 2, b, 36600+i/2*7000))
		}
		t.Add("trips", tripRow("fast", "r3", "x", "shape_id", "h3"))
		t.Add("stop_times", stRow("fast", 1, "far", 50000), stRow("fast", 2, "s2", 50060))
		return t
	}
	for _, a := range []string{"-I", "-I --red-trips-fuzzy", "-I --red-trips-aggressive", "-I --red-trips-fuzzy --red-trips-aggressive", "--snap-stops", "--drop-too-fast-trips", "--complete-filtered-trips --bounding-box=47,7,48.1,8", "--bounding-box=47,7,48.1,8", "--drop-shapes"} {
		for _, b := range []string{"", "-P", "-R", "-C", "-c", "-S", "-A", "-I --red-trips-fuzzy", "--snap-stops", "--drop-too-fast-trips", "-i", "-P --snap-stops -I --red-trips-fuzzy"} {
			nm := "after " + a + " " + b
			if !c.Mine(nm) {
				continue
			}
			args := append([]string{"-O"}, strings.Fields(a+" "+b)...)
			t := after()
			c.cliCheck(Scn{Name: nm, T: t, Args: args}, func() (string, string) {
				r := cliRun([]T{t}, args...)
				if m := r.ok(); m != "" {
					return "", m
				}
				e, err := Do(&Scn{T: r.T, Ops: []string{"O"}, Par: 1})
				if err != nil {
					return "", err.Error()
				}
				if x, y := e.In.Canon(), e.Out.Canon(); x != y {
					return "", fmt.Sprintf("%v leaves unused things:\n%s", args, diff(x, y))
				}
				return r.Snap.Canon(), ""
			})
		}
	}
	// map orders
	for i := range g {
		nm := "maps " + g[i].name
		if !c.Mine(nm) {
			continue
		}
		t, _ := build([]int{i, (i + 7) % len(g), (i + 19) % len(g)})
		c.Explore(Scn{Name: nm, T: t, Ops: []string{"O"}, Par: 2, Maps: true}, c.Pick(1, 2), c.Pick(300, 3000), orphanOracle)
	}
}
