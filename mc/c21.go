package main

import (
	"fmt"
	"math"
	"strings"

	"github.com/patrickbr/gtfsparser"
	"github.com/patrickbr/gtfstidy/processors"
)

func init() { checks["C21"] = checkC21 }

// geoProc reads "geo:x,y,x,y,...;x,y,..." (one ring per polygon).
func geoProc(op string) processors.Processor {
	var ps []gtfsparser.Polygon
	for _, s := range strings.Split(strings.TrimPrefix(op, "geo:"), ";") {
		var ring [][2]float64
		f := strings.Split(s, ",")
		for i := 0; i+1 < len(f); i += 2 {
			ring = append(ring, [2]float64{pf(f[i]), pf(f[i+1])})
		}
		if len(ring) > 0 {
			ps = append(ps, gtfsparser.NewPolygon(ring, nil))
		}
	}
	return processors.CompleteTripsGeoFilter{Polygons: ps}
}

// km/h above which a trip is not believed
var maxSpeed = map[string]float64{"0": 100, "1": 150, "2": 500, "3": 150, "4": 80, "5": 30, "6": 50, "7": 50, "11": 50, "12": 150,
	"900": 100, "400": 150, "100": 500, "109": 500, "700": 150, "200": 150, "1000": 80, "1300": 50, "1400": 50, "800": 50, "405": 150}

// onlyTrips: the trips in gone are gone and with them what belongs to them, all else is as before.
func onlyTrips(e *Exec, gone map[string]bool, stops map[string]bool) string {
	if m := problems(e); m != "" {
		return m
	}
	for _, id := range keys(e.In.Trips) {
		if _, ok := e.Out.Trips[id]; ok == gone[id] {
			if gone[id] {
				return "trip " + id + " was kept"
			}
			return "trip " + id + " was dropped"
		}
	}
	for _, id := range keys(e.Out.Trips) {
		if e.In.Trips[id] == nil {
			return "trip " + id + " is new"
		}
		if a, b := NewView(e.In).val("trip", id), NewView(e.Out).val("trip", id); a != b {
			return fmt.Sprintf("trip %s changed:\n- %s\n+ %s", id, a, b)
		}
	}
	skip := []string{"trip", "transfer", "attrib"}
	here := func(id string) bool { return id == "" || stops == nil || stops[id] }
	if stops != nil {
		skip = append(skip, "stop", "pathway")
		for _, id := range keys(e.In.Stops) {
			o := e.Out.Stops[id]
			if o == nil && stops[id] {
				return "stop " + id + " was dropped"
			}
			if o != nil && !stops[id] {
				return "stop " + id + " was kept"
			}
			if o != nil && o.key() != e.In.Stops[id].key() {
				return fmt.Sprintf("stop %s changed:\n- %s\n+ %s", id, e.In.Stops[id].key(), o.key())
			}
		}
		for _, id := range keys(e.In.Pathways) {
			m, o := e.In.Pathways[id], e.Out.Pathways[id]
			if keep := stops[m["from"]] && stops[m["to"]]; keep != (o != nil) {
				return fmt.Sprintf("pathway %s from %s to %s: kept %v, expected %v", id, m["from"], m["to"], o != nil, keep)
			}
			if o != nil && o.key() != m.key() {
				return "pathway " + id + " changed"
			}
		}
		for _, id := range keys(e.Out.Stops) {
			if e.In.Stops[id] == nil {
				return "stop " + id + " is new"
			}
		}
	}
	if m := Same(NewView(e.In), NewView(e.Out), skip...); m != "" {
		return m
	}
	cmp := func(what string, a, b []M, keep func(M) bool) string {
		var x, y []string
		for _, m := range a {
			if keep(m) {
				x = append(x, m.key())
			}
		}
		for _, m := range b {
			y = append(y, m.key())
		}
		s, t := strings.Join(sorted(x), "\n"), strings.Join(sorted(y), "\n")
		if s != t {
			return what + " changed:\n" + diff(s, t)
		}
		return ""
	}
	if m := cmp("transfers", e.In.Transfers, e.Out.Transfers, func(m M) bool {
		return !gone[m["ftrip"]] && !gone[m["ttrip"]] && here(m["from"]) && here(m["to"])
	}); m != "" {
		return m
	}
	return cmp("attributions", e.In.Attribs, e.Out.Attribs, func(m M) bool { return !gone[m["trip_id"]] })
}

func sorted(l []string) []string {
	r := append([]string(nil), l...)
	for i := range r {
		for j := i; j > 0 && r[j] < r[j-1]; j-- {
			r[j], r[j-1] = r[j-1], r[j]
		}
	}
	return r
}

func tooFastOracle(e *Exec) string {
	gone := map[string]bool{}
	for _, id := range keys(e.In.Trips) {
		var l []M
		var pos []float64
		d := 0.
		for i, m := range e.In.StopTimes[id] {
			if i > 0 {
				d += stopMeters(e.In.Stops[e.In.StopTimes[id][i-1]["stop"]], e.In.Stops[m["stop"]])
			}
			if m["arr"] != "" {
				l = append(l, m)
				pos = append(pos, d)
			}
		}
		lim := maxSpeed[e.In.Routes[e.In.Trips[id]["route"]]["type"]]
		fast := func(i, k int, min float64) bool {
			t := pf(l[k]["arr"]) - pf(l[i]["dep"])
			if t == 0 {
				t = 60
			}
			return pos[k]-pos[i] >= min && (pos[k]-pos[i])/t*3.6 > lim
		}
		last := 0
		for k := range l {
			for i := 0; i < k; i++ {
				gone[id] = gone[id] || fast(i, k, 10000)
			}
			if k > 0 {
				gone[id] = gone[id] || fast(last, k, 7000)
				if l[k]["arr"] != l[last]["dep"] {
					last = k
				}
			}
		}
	}
	return onlyTrips(e, gone, nil)
}

// inPoly is the even-odd rule.
func inPoly(op string, la, lo float64) bool {
	for _, s := range strings.Split(strings.TrimPrefix(op, "geo:"), ";") {
		var p [][2]float64
		f := strings.Split(s, ",")
		for i := 0; i+1 < len(f); i += 2 {
			p = append(p, [2]float64{pf(f[i]), pf(f[i+1])})
		}
		in := false
		for i := range p {
			a, b := p[i], p[(i+1)%len(p)]
			if (a[1] > la) != (b[1] > la) && lo < a[0]+(la-a[1])/(b[1]-a[1])*(b[0]-a[0]) {
				in = !in
			}
		}
		if in {
			return true
		}
	}
	return false
}

func geoOracle(e *Exec) string {
	op := e.Scn.Ops[0]
	in, keep, gone := map[string]bool{}, map[string]bool{}, map[string]bool{}
	mark := func(id string) {
		for ; id != ""; id = e.In.Stops[id]["parent"] {
			keep[id] = true
		}
	}
	for _, id := range keys(e.In.Stops) {
		if inPoly(op, pf(e.In.Stops[id]["lat"]), pf(e.In.Stops[id]["lon"])) {
			in[id] = true
			mark(id)
		}
	}
	for _, id := range keys(e.In.Trips) {
		gone[id] = true
		for _, m := range e.In.StopTimes[id] {
			if in[m["stop"]] {
				gone[id] = false
			}
		}
		if !gone[id] {
			for _, m := range e.In.StopTimes[id] {
				mark(m["stop"])
			}
		}
	}
	// places without a position stay with their station
	for _, id := range keys(e.In.Stops) {
		if m := e.In.Stops[id]; math.IsNaN(pf(m["lat"])) && keep[m["parent"]] {
			keep[id] = true
		}
	}
	return onlyTrips(e, gone, keep)
}

func checkC21(c *Ctx) {
	types := []string{"3", "0", "1", "2", "4", "5", "6", "7", "11", "12", "900", "400", "100", "109", "700", "200", "1000", "1300", "1400", "800", "405"}
	// trips along a line: distances in km and speeds as parts of the limit
	ds := []float64{0, 3, 6, 6.8, 7.2, 9.8, 10.3, 25}
	fs := []float64{0.85, 1.15, 0, -1, 3} // 0: no time passes, -1: not timed
	var t T
	k, num := 0, 0
	fam := ""
	var ty string
	flush := func() {
		if k > 0 {
			nm := fmt.Sprintf("%s %d", fam, num)
			if c.Mine(nm) {
				c.Run(Scn{Name: nm, T: t, Ops: []string{"toofast"}, Par: 1}, tooFastOracle)
			}
			num++
			k = 0
		}
	}
	add := func(legs [][2]float64, wait int) {
		if k == 0 {
			t = base()
			t.Add("calendar", calRow("v", 127, d0, d0+6))
			t.Add("routes", routeRow("q", "a1", "route_type", ty))
			t.Add("fare_attributes", R("fare_id", "p", "price", "1", "currency_type", "EUR", "payment_method", "0", "transfers", "0"))
		}
		id := fmt.Sprint("t", k)
		x, clock := 0., 30000.
		t.Add("trips", tripRow(id, "q", "v", "x_t", id))
		for i := 0; i <= len(legs); i++ {
			if i > 0 {
				l := legs[i-1]
				x += l[0]
				if l[1] > 0 {
					clock += l[0] / (l[1] * maxSpeed[ty]) * 3600
				}
			}
			at := [][4]float64{{10, 20, 0.6, 0.8}, {-33, -70, -0.6, 0.8}, {60, 10, 0.8, -0.6}, {-0.05, 0.05, 0.6, 0.8}, {48, 7.8, 0, 1}}[(k+num)%5]
			la, lo := move(at[0], at[1], x*1000*at[2], x*1000*at[3])
			s := fmt.Sprintf("p%d_%d", k, i)
			t.Add("stops", stopRow(s, la, lo))
			r := stRow(id, i+1, s, int(clock), "x_st", "z")
			if i > 0 && legs[i-1][1] < 0 || i == 0 && wait == 2 {
				r = R("trip_id", id, "stop_sequence", fmt.Sprint(i+1), "stop_id", s, "arrival_time", "", "departure_time", "", "timepoint", "0", "x_st", "z")
			} else if wait == 1 {
				clock += 300
				r = r.With("departure_time", hms(int(clock)))
			}
			t.Add("stop_times", r)
		}
		if k > 0 && k%5 == 0 {
			t.Add("transfers", R("from_stop_id", "s1", "to_stop_id", "s2", "from_trip_id", id, "to_trip_id", fmt.Sprint("t", k-1), "transfer_type", "1"), R("from_stop_id", "s1", "to_stop_id", fmt.Sprintf("p%d_0", k), "transfer_type", "0"))
			t.Add("attributions", R("attribution_id", "at"+id, "trip_id", id, "organization_name", "O", "is_operator", "1"))
			t.Add("frequencies", R("trip_id", id, "start_time", "06:00:00", "end_time", "07:00:00", "headway_secs", "600", "x_f", "f"))
		}
		if k++; k == 30 {
			flush()
		}
	}
	for _, y := range types {
		ty = y
		fam = "type" + ty
		num = 0
		n := len(ds) * len(fs)
		leg := func(v int) [2]float64 { return [2]float64{ds[v/len(fs)], fs[v%len(fs)]} }
		for a := 0; a < n; a++ {
			add([][2]float64{leg(a)}, a%3)
			for b := 0; b < n; b++ {
				add([][2]float64{leg(a), leg(b)}, (a+b)%3)
			}
		}
		if y == "3" || !c.Quick() {
			for v := 0; v < n*n*n; v++ {
				if v%c.Pick(5, 8) == 0 {
					add([][2]float64{leg(v % n), leg(v / n % n), leg(v / n / n)}, v%3)
				}
			}
			for v := 0; v < 5*5*5*5*4*4; v++ {
				f := func(i int) float64 { return []float64{3, 6.8, 7.2, 10.3}[(v/(i*7+1)+i)%4] }
				add([][2]float64{{f(0), fs[v%5]}, {f(1), fs[v/5%5]}, {f(2), fs[v/25%5]}, {f(3), fs[v/125%5]}}, v/625%3)
			}
		}
		flush()
	}
	polys := []string{"7.5,47.5,8.5,47.5,8.5,48.5,7.5,48.5", "7.5,47.5,8.5,47.5,8.5,48.5,7.5,48.5,7.5,47.5", "7.5,47.5,8.5,47.5,8,49", "7.9,47.9,7.9,48.1,8.1,48.1,8.1,47.9;7.4,47.4,7.6,47.4,7.6,47.6,7.4,47.6", "7,47,9,47,9,49,8,48.05,7,49"}
	// many short legs, one of which differs
	for _, y := range []string{"3", "2", "7", "0", "5", "12"} {
		ty = y
		fam = "legs type" + ty
		num = 0
		for _, n := range []int{7, 9, 12, 20, 40, 70} {
			for _, l := range []float64{0.43, 1.27, 1.83, 3.1} {
				for bi, b := range []float64{0.5, 0.85, 1.15} {
					for fi, f := range []float64{0.2, 1.15, 3, 0, -1} {
						for at := 0; at < 4; at++ {
							legs := make([][2]float64, n)
							for i := range legs {
								legs[i] = [2]float64{l, b}
								if i == (n-1)*at/3 || at == 3 && i == n-2 {
									legs[i][1] = f
								}
							}
							add(legs, (bi+fi+at)%3)
						}
					}
				}
			}
		}
		flush()
	}
	// trips of many calls, one of which lies inside
	for _, n := range []int{2, 3, 17, 33, 65, 100, 257} {
		for at := 0; at < 6; at++ {
			for v := 0; v < 4; v++ {
				nm := fmt.Sprintf("calls %d %d %d", n, at, v)
				if !c.Mine(nm) {
					continue
				}
				t := base()
				t["stops"] = nil
				t.Add("calendar", calRow("v", 127, d0, d0+6))
				for _, id := range []string{"a", "b", "c"} {
					t.Add("trips", tripRow(id, "r1", "v"))
				}
				for i := 0; i < n; i++ {
					la := 30 + float64(i)*0.01
					if i == []int{0, 1, n / 2, n - 2, n - 1, -1}[at] {
						la = 48
					}
					kv := []string{}
					if v&1 != 0 {
						t.Add("stops", stopRow(fmt.Sprint("S", i), 60, 8, "location_type", "1"))
						kv = []string{"parent_station", fmt.Sprint("S", i)}
					}
					t.Add("stops", stopRow(fmt.Sprint("p", i), la, 8, kv...), stopRow(fmt.Sprint("q", i), 20, 8))
					t.Add("stop_times", stRow("a", i+1, fmt.Sprint("p", i), 3600+60*i), stRow("b", i+1, fmt.Sprint("q", i), 3600+60*i))
					if v&2 != 0 && i%2 == 0 {
						t.Add("stop_times", stRow("c", i+1, fmt.Sprint("p", n-1-i), 7200+60*i))
					}
				}
				c.Run(Scn{Name: nm, T: t, Ops: []string{"geo:" + polys[0]}, Par: 1}, geoOracle)
			}
		}
	}
	// polygons: every pattern of places inside and outside
	for m := 0; m < 1<<10; m++ {
		for r := 0; r < 8; r++ {
			for p := range polys {
				nm := fmt.Sprintf("poly %d %d %d", m, r, p)
				if !c.Mine(nm) || c.Quick() && (m+r+p)%4 != 0 {
					continue
				}
				t := base()
				t.Set("stops", "stop_id", "s1", "stop_lat", "10")
				t.Set("stops", "stop_id", "s2", "stop_lat", "11")
				i := 0
				place := func(id string, kv ...string) {
					la, lo := 48.+float64(i)*0.001, 8.+float64(i)*0.001
					if m>>uint(i)&1 == 0 {
						la, lo = 30+float64(i)*0.01, 8.
						if i%2 == 1 {
							la, lo = 48, 12.
						}
					}
					i++
					t.Add("stops", stopRow(id, la, lo, kv...).With("x_s", "v"+id))
				}
				place("S", "location_type", "1")
				place("p1", "parent_station", "S")
				place("p2", "parent_station", "S")
				place("e", "location_type", "2", "parent_station", "S")
				place("b", "location_type", "4", "parent_station", "p2")
				place("q")
				place("S2", "location_type", "1")
				place("p3", "parent_station", "S2")
				place("u")
				place("qb", "location_type", "4", "parent_station", "q")
				t.Add("stops", R("stop_id", "n", "stop_name", "", "location_type", "3", "parent_station", "S"))
				t.Add("calendar", calRow("v", 127, d0, d0+6), calRow("w", 127, d0, d0+6))
				t.Add("shapes", shpRow("h", 1, 48, 7.8), shpRow("h", 2, 48.01, 7.81))
				trips := map[string][]string{"a": {"p1", "p3"}, "b": {"q", "s1"}, "c": {"s1", "s2"}, "d": {"p2", "q", "s2"}, "z": nil}
				for _, id := range []string{"a", "b", "c", "d", "z"} {
					t.Add("trips", tripRow(id, "r1", "v", "shape_id", "h", "x_t", id))
					for j, s := range trips[id] {
						t.Add("stop_times", stRow(id, j+1, s, 3600+600*j, "x_st", "k"))
					}
				}
				if r&1 != 0 {
					t.Add("fare_attributes", R("fare_id", "w1", "price", "1", "currency_type", "EUR", "payment_method", "0", "transfers", "0"), R("fare_id", "w2", "price", "2", "currency_type", "EUR", "payment_method", "0", "transfers", "0"))
					t.Add("fare_rules", R("fare_id", "w1", "route_id", "r1"))
					for j, w := range [][2]string{{"e", "n"}, {"n", "p1"}, {"e", "p1"}, {"p2", "p1"}, {"b", "e"}, {"q", "p3"}, {"qb", "qb"}} {
						t.Add("pathways", R("pathway_id", fmt.Sprint("w", j), "from_stop_id", w[0], "to_stop_id", w[1], "pathway_mode", "1", "is_bidirectional", "1", "x_w", "o"))
					}
				}
				if r&2 != 0 {
					for j, w := range [][2]string{{"S", "S2"}, {"p1", "q"}, {"q", "u"}, {"s1", "s2"}, {"p3", "S"}} {
						t.Add("transfers", R("from_stop_id", w[0], "to_stop_id", w[1], "transfer_type", "2", "min_transfer_time", fmt.Sprint(j), "x_tf", "i"))
					}
					t.Add("transfers", R("from_stop_id", "q", "to_stop_id", "q", "from_trip_id", "b", "to_trip_id", "d", "transfer_type", "1"))
				}
				if r&4 != 0 {
					t.Add("frequencies", R("trip_id", "b", "start_time", "06:00:00", "end_time", "07:00:00", "headway_secs", "600"))
					for _, id := range []string{"a", "b", "c"} {
						t.Add("attributions", R("attribution_id", "at"+id, "trip_id", id, "organization_name", "O", "is_operator", "1", "x_at", "l"))
					}
				}
				s := Scn{Name: nm, T: t, Ops: []string{"geo:" + polys[p]}, Par: 1}
				if m%16 == 0 {
					s.Maps = true
					c.Explore(s, 1, 20, geoOracle)
				} else {
					c.Run(s, geoOracle)
				}
			}
		}
	}
}
