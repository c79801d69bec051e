package main

import (
	"fmt"
	"math"
	"strconv"
	"strings"
)

func init() { checks["C08"] = checkC08 }

func pf(s string) float64 {
	f, err := strconv.ParseFloat(s, 64)
	if err != nil {
		return math.NaN()
	}
	return f
}

// meters is the great-circle distance.
func meters(aLat, aLon, bLat, bLon float64) float64 {
	r := math.Pi / 180
	x := math.Sin((bLat-aLat)*r/2)*math.Sin((bLat-aLat)*r/2) + math.Cos(aLat*r)*math.Cos(bLat*r)*math.Sin((bLon-aLon)*r/2)*math.Sin((bLon-aLon)*r/2)
	return 2 * 6378137 * math.Asin(math.Min(1, math.Sqrt(x)))
}

func stopMeters(a, b M) float64 {
	return meters(pf(a["lat"]), pf(a["lon"]), pf(b["lat"]), pf(b["lon"]))
}

// uf is a small union-find over ids.
type uf map[string]string

func (u uf) find(x string) string {
	for u[x] != "" && u[x] != x {
		x = u[x]
	}
	return x
}

func (u uf) join(a, b string) {
	a, b = u.find(a), u.find(b)
	if a == b {
		return
	}
	if b < a {
		a, b = b, a
	}
	u[b] = a
}

// stopClasses: which stops and levels may take each other's place.
func stopClasses(s *Snap, fuzzy bool, tol, tolStation float64) (stops, levels uf) {
	stops, levels = uf{}, uf{}
	ks := keys(s.Levels)
	own := func(m M, drop ...string) string {
		n := m.clone()
		for _, d := range drop {
			delete(n, d)
		}
		if fuzzy {
			for k := range n {
				if k[0] == '+' {
					delete(n, k)
				}
			}
		}
		return n.key()
	}
	for _, a := range ks {
		for _, b := range ks {
			if a < b && own(s.Levels[a]) == own(s.Levels[b]) {
				levels.join(a, b)
			}
		}
	}
	for _, lts := range []string{"1", "0", "2", "3", "4"} {
		var l []string
		for _, id := range keys(s.Stops) {
			if s.Stops[id]["lt"] == lts {
				l = append(l, id)
			}
		}
		for i, a := range l {
			for _, b := range l[i+1:] {
				x, y := s.Stops[a], s.Stops[b]
				if stops.find(x["parent"]) != stops.find(y["parent"]) {
					continue
				}
				d := stopMeters(x, y)
				max := tol
				if lts == "1" && tolStation > tol {
					max = tolStation
				}
				if !(d <= max+0.05) {
					continue
				}
				skip := []string{"lat", "lon", "parent", "level"}
				lx, ly := x["level"], y["level"]
				ok := lx == ly || (lx != "" && ly != "" && levels.find(lx) == levels.find(ly))
				if fuzzy {
					near := d <= tol/2+0.05 && x["parent"] != ""
					ok = ok || lx == "" || ly == ""
					skip = append(skip, "code", "name", "url", "platform")
					ok = ok && (near || x["code"] == y["code"] || x["code"] == "" || y["code"] == "")
					ok = ok && (near || x["name"] == y["name"])
					ok = ok && (x["url"] == y["url"] || x["url"] == "" || y["url"] == "")
					ok = ok && (x["platform"] == y["platform"] || near && (x["platform"] == "" || y["platform"] == ""))
				}
				if ok && own(x, skip...) == own(y, skip...) {
					stops.join(a, b)
				}
			}
		}
	}
	return
}

func stopOracle(fuzzy bool) func(e *Exec) string {
	return func(e *Exec) string {
		if m := problems(e); m != "" {
			return m
		}
		sc, lc := stopClasses(e.In, fuzzy, 5, 50)
		ren := func(kind, id string) string {
			switch kind {
			case "stop":
				return sc.find(id)
			case "level":
				return lc.find(id)
			}
			return id
		}
		a, b := NewView(e.In), NewView(e.Out)
		a.rename, b.rename = ren, ren
		if m := Same(a, b, "stop", "level", "transfer"); m != "" {
			return m
		}
		if m := transfersFollow(a, b); m != "" {
			return m
		}
		left := map[string]bool{}
		for id := range e.Out.Stops {
			if e.In.Stops[id] == nil {
				return "stop " + id + " is new"
			}
			left["s"+sc.find(id)] = true
			if a.val("stop", id) != b.val("stop", id) {
				return fmt.Sprintf("stop %s changed:\n- %s\n+ %s", id, a.val("stop", id), b.val("stop", id))
			}
		}
		for id := range e.Out.Levels {
			if e.In.Levels[id] == nil {
				return "level " + id + " is new"
			}
			left["l"+lc.find(id)] = true
			if a.val("level", id) != b.val("level", id) {
				return "level " + id + " changed"
			}
		}
		for id := range e.In.Stops {
			if !left["s"+sc.find(id)] {
				return "stop " + id + " is gone without an equal one left"
			}
		}
		for id := range e.In.Levels {
			if !left["l"+lc.find(id)] {
				return "level " + id + " is gone without an equal one left"
			}
		}
		p := NewView(e.Out)
		if m := p.Dups("level"); m != "" {
			return m
		}
		seen := map[string]string{}
		for _, id := range p.ids("stop") {
			if e.Out.Stops[id]["lat"] == "" {
				continue
			}
			x := p.val("stop", id)
			if o, ok := seen[x]; ok {
				return "identical stops remain: " + o + " and " + id
			}
			seen[x] = id
		}
		return ""
	}
}

const latM = 1 / 111319.5 // degrees of latitude per meter

// stopFeed: trips calling at all given platforms (location type 0), in order.
func stopFeed(l []Row) T {
	t := T{}
	t.Add("agency", agencyRow("a1"))
	t.Add("routes", routeRow("r1", "a1"))
	t.Add("stops", l...)
	t.Add("stops", stopRow("x1", 49, 8), stopRow("x2", 49.1, 8))
	t.Add("calendar", calRow("v", 127, d0, d0+6))
	t.Add("trips", tripRow("tx", "r1", "v"))
	t.Add("stop_times", stRow("tx", 1, "x1", 30000), stRow("tx", 2, "x2", 30600))
	n := 0
	for i, r := range l {
		if lt := r.Get("location_type"); lt == "" || lt == "0" {
			id := fmt.Sprintf("t%d", i)
			t.Add("trips", tripRow(id, "r1", "v"))
			t.Add("stop_times", stRow(id, 1, "x1", 36000+n), stRow(id, 2, r.Get("stop_id"), 36600+n, "pickup_type", fmt.Sprint(i%3), "shape_dist_traveled", "", "x_st", fmt.Sprint("q", i)), stRow(id, 3, "x2", 37000+n))
			n += 60
		}
	}
	return t
}

func checkC08(c *Ctx) {
	run := func(nm string, t T, par int, ops ...string) {
		for _, o := range ops {
			c.Run(Scn{Name: nm + " " + o, T: t, Ops: []string{o}, Par: par}, stopOracle(o == "Pf"))
		}
	}
	lv := func(t T) T {
		return t.Add("levels", R("level_id", "l1", "level_index", "0", "level_name", "G", "x_l", ""), R("level_id", "l2", "level_index", "1", "level_name", "G"), R("level_id", "level3", "level_index", "0", "level_name", "G"), R("level_id", "l4", "level_index", "0", "level_name", "H"))
	}
	st := func(id string, north float64, kv ...string) Row {
		return stopRow(id, 48+north*latM, 7.8, "stop_name", "Same").With(kv...)
	}
	stations := func(t T) T {
		return t.Add("stops", stopRow("P1", 48, 7.8, "location_type", "1"), stopRow("P2", 48, 7.8, "location_type", "1", "stop_name", "Other"), stopRow("P11", 48, 7.8, "location_type", "1", "stop_name", "Stop P1"))
	}
	fields := [][]string{
		{"stop_code", "", "c", "d"}, {"stop_name", "Same", "same", "Different"}, {"stop_desc", "", "d1", "d2"}, {"zone_id", "", "z1", "z2"}, {"stop_url", "", "http://a.b", "http://a.c", "http://a.b/x?s=1", "http://a.b/x?s=2", "https://a.b"},
		{"stop_timezone", "", "UTC", "Europe/Berlin"}, {"wheelchair_boarding", "", "0", "1", "2"}, {"platform_code", "", "1", "2"}, {"level_id", "", "l1", "l2", "level3", "l4"},
		{"parent_station", "", "P1", "P2", "P11"}, {"x_own", "", "o1", "o2"}}
	fields = withLong(fields, "stop_code", "stop_name", "stop_desc", "zone_id", "stop_url", "platform_code", "x_own")
	tfAll := func(t T, a, b string) T {
		t.Add("transfers", R("from_stop_id", a, "to_stop_id", "x1", "transfer_type", "2", "min_transfer_time", "60"), R("from_stop_id", "x1", "to_stop_id", b, "transfer_type", "3"), R("from_stop_id", b, "to_stop_id", "x1", "transfer_type", "2", "min_transfer_time", "90"))
		t.Add("pathways", R("pathway_id", "w1", "from_stop_id", a, "to_stop_id", b, "pathway_mode", "1", "is_bidirectional", "1", "length", "5"), R("pathway_id", "w2", "from_stop_id", b, "to_stop_id", "x1", "pathway_mode", "2", "is_bidirectional", "0", "length", "7"))
		return t
	}
	// pairs of values of every field, at different distances and ids
	for _, f := range fields {
		for i := 1; i < len(f); i++ {
			for j := 1; j < len(f); j++ {
				for k, d := range []float64{0, 2, 4, 6} {
					nm := fmt.Sprintf("field-pair %s %d %d %d", f[0], i, j, k)
					if !c.Mine(nm) {
						continue
					}
					ids := [][]string{{"b1", "b2"}, {"de:1:2", "b2"}, {"b", "de:1"}, {"long1", "b"}}[k]
					run(nm, stations(lv(tfAll(stopFeed([]Row{st(ids[0], 0, f[0], f[i]), st(ids[1], d, f[0], f[j])}), ids[0], ids[1]))), 1+k, "P", "Pf")
					full := []string{"stop_code", "C", "stop_desc", "D", "zone_id", "Z", "stop_timezone", "Europe/Berlin", "wheelchair_boarding", "1", "platform_code", "7", "level_id", "l1", "parent_station", "P1", "x_own", "v"}
					run(nm+" full", stations(lv(tfAll(stopFeed([]Row{st(ids[0], 0, full...).With(f[0], f[i]), st(ids[1], d, full...).With(f[0], f[j])}), ids[0], ids[1]))), 1+k, "P", "Pf")
				}
			}
		}
	}
	// distances, stations and platforms, in both axes
	for _, lt := range []string{"0", "1", "3", "2"} {
		for i, d := range []float64{0, 0.5, 1, 4.9, 5.2, 7, 10, 30, 49, 51, 100, 5000} {
			for _, ax := range []bool{false, true} {
				nm := fmt.Sprintf("distance %s %d %v", lt, i, ax)
				if !c.Mine(nm) {
					continue
				}
				b := st("b2", d)
				if ax {
					b = stopRow("b2", 48, 7.8+d*latM/math.Cos(48*math.Pi/180), "stop_name", "Same")
				}
				l := []Row{st("b1", 0, "location_type", lt), b.With("location_type", lt)}
				if lt == "3" || lt == "2" {
					l[0], l[1] = l[0].With("parent_station", "P1"), l[1].With("parent_station", "P1")
				}
				run(nm, stations(stopFeed(l)), 2, "P", "Pf")
			}
		}
	}
	// places that differ in the sign of a coordinate, or have the two exchanged
	mir := [][2]float64{{48, 7.8}, {-48, 7.8}, {48, -7.8}, {-48, -7.8}, {7.8, 48}, {0, 0}, {0.00002, 0.00002}, {-0.00002, 0.00002}, {0, 180}, {0, -180}, {0, 90}, {48, 97.8}, {48, 172.2}}
	for i := range mir {
		for j := 0; j < i; j++ {
			for _, lt := range []string{"0", "1"} {
				nm := fmt.Sprintf("mirrored %d %d %s", i, j, lt)
				if !c.Mine(nm) {
					continue
				}
				at := func(id string, k int) Row {
					return stopRow(id, mir[k][0], mir[k][1], "stop_name", "Same", "location_type", lt)
				}
				run(nm, stopFeed([]Row{at("b1", i), at("b2", j)}), 1+i%3, "P", "Pf")
			}
		}
	}
	// two fields swapped
	for a := range fields {
		for b := range fields {
			if a >= b {
				continue
			}
			fa, fb := fields[a], fields[b]
			nm := fmt.Sprintf("field-swap %s %s", fa[0], fb[0])
			if !c.Mine(nm) {
				continue
			}
			run(nm, stations(lv(stopFeed([]Row{st("b1", 0, fa[0], fa[1], fb[0], fb[2]), st("b2", 0, fa[0], fa[2], fb[0], fb[1]), st("b3", 0, fa[0], fa[1], fb[0], fb[1]), st("b4", 0, fa[0], fa[2], fb[0], fb[2]), st("b5", 0, fa[0], fa[1], fb[0], fb[2])}))), 2, "P", "Pf")
		}
	}
	if c.Mine("concat") {
		run("concat", stopFeed([]Row{st("b1", 0, "stop_code", "ab", "stop_name", "c"), st("b2", 0, "stop_code", "a", "stop_name", "bc"), st("b3", 0, "stop_code", "abc", "stop_name", "x"), st("b4", 0, "stop_name", "c", "stop_desc", "ab"), st("b5", 0, "stop_name", "ca", "stop_desc", "b")}), 2, "P", "Pf")
	}
	// duplicates at every level of the hierarchy: two/three equal stations with equal platforms with equal boarding areas
	for m := 0; m < 1<<7; m++ {
		nm := fmt.Sprintf("hierarchy %d", m)
		if !c.Mine(nm) {
			continue
		}
		bit := func(i int) bool { return m&(1<<uint(i)) != 0 }
		var l []Row
		for s := 0; s < 2; s++ {
			S := fmt.Sprintf("S%d", s)
			kv := []string{"location_type", "1", "stop_name", "Station"}
			if bit(0) && s == 1 {
				kv = append(kv, "zone_id", "other")
			}
			if !(bit(1) && s == 1) {
				l = append(l, st(S, float64(s)*20, kv...))
			} else {
				S = "S0"
			}
			for p := 0; p < 2; p++ {
				P := fmt.Sprintf("%sp%d%d", S, s, p)
				pk := []string{"parent_station", S, "stop_name", "Platform"}
				if bit(2) && p == 1 {
					pk = append(pk, "platform_code", "9")
				}
				if bit(3) && s == 1 {
					pk = append(pk, "stop_code", "cc")
				}
				l = append(l, st(P, 0, pk...))
				if bit(4) {
					l = append(l, st(P+"b", 0, "parent_station", P, "location_type", "4", "stop_name", "B"))
				}
				if bit(5) {
					l = append(l, st(P+"n", 0, "parent_station", S, "location_type", "3", "stop_name", ""), st(P+"e", 0, "parent_station", S, "location_type", "2", "stop_name", "E"))
				}
			}
		}
		t := stopFeed(l)
		if bit(6) {
			t.Add("transfers", R("from_stop_id", l[0].Get("stop_id"), "to_stop_id", l[1].Get("stop_id"), "transfer_type", "0"), R("from_stop_id", l[1].Get("stop_id"), "to_stop_id", l[len(l)-1].Get("stop_id"), "transfer_type", "2", "min_transfer_time", "7"))
			t.Add("pathways", R("pathway_id", "w1", "from_stop_id", l[1].Get("stop_id"), "to_stop_id", l[len(l)-1].Get("stop_id"), "pathway_mode", "1", "is_bidirectional", "1", "length", "5"))
		}
		run(nm, t, 1+m%3, "P", "Pf")
		run(nm+" rev", t.Clone().Rev("stops"), 1+m%3, "P")
	}
	// transfers and pathways between the members of two groups of duplicates and an outsider
	var tfs []Row
	names := []string{"b1", "b2", "c1", "c2", "x1"}
	for i, a := range names {
		for j, b := range names {
			tfs = append(tfs, R("from_stop_id", a, "to_stop_id", b, "transfer_type", "2", "min_transfer_time", fmt.Sprint(100+10*i+j), "x_tf", fmt.Sprint("n", i, j)))
		}
	}
	subsets(len(tfs), c.Pick(2, 3), func(ix []int) {
		nm := fmt.Sprintf("transfers %v", ix)
		if !c.Mine(nm) {
			return
		}
		t := stopFeed([]Row{st("b1", 0), st("b2", 1), st("c1", 500, "stop_name", "C"), st("c2", 500, "stop_name", "C")})
		for k, i := range ix {
			t.Add("transfers", tfs[i])
			t.A("pathways", "pathway_id", fmt.Sprint("w", k), "from_stop_id", tfs[i].Get("from_stop_id"), "to_stop_id", tfs[i].Get("to_stop_id"), "pathway_mode", "1", "is_bidirectional", "1", "length", fmt.Sprint(k))
		}
		run(nm, t, 1, "P")
		if len(ix) > 0 {
			t2 := t.Clone()
			t2.Set("transfers", "from_stop_id", tfs[ix[0]].Get("from_stop_id"), "from_trip_id", "t0", "to_trip_id", "t1")
			run(nm+" trips", t2, 2, "P")
		}
	})
	// transfers that become the same
	subsets(8, 8, func(ix []int) {
		nm := fmt.Sprintf("transfer-collisions %v", ix)
		if !c.Mine(nm) {
			return
		}
		t := stopFeed([]Row{st("b1", 0), st("b2", 0), st("b3", 0), st("c1", 500, "stop_name", "C"), st("c2", 500, "stop_name", "C")})
		for _, i := range ix {
			t.Add("transfers", R("from_stop_id", []string{"b1", "b2", "b3", "x1"}[i%4], "to_stop_id", []string{"c1", "c2"}[i/4], "transfer_type", "2", "min_transfer_time", fmt.Sprint(60+i)))
		}
		run(nm, t, 2, "P")
	})
	// small feeds over an alphabet of colliding stops
	alpha := []Row{st("", 0), st("", 3), st("", 6), st("", 0, "platform_code", "1"), st("", 0, "parent_station", "P1"), st("", 0, "stop_name", "Different", "parent_station", "P1"), st("", 2, "parent_station", "P11")}
	for n := 1; n <= c.Pick(3, 4); n++ {
		dims := make([]int, n)
		for i := range dims {
			dims[i] = len(alpha)
		}
		product(dims, func(v []int) {
			nm := fmt.Sprintf("multi %v", v)
			if !c.Mine(nm) {
				return
			}
			var l []Row
			for i, x := range v {
				l = append(l, alpha[x].With("stop_id", []string{"b", "de:1", "c2", "a:b", "zz"}[i]))
			}
			t := stations(stopFeed(l))
			t.A("transfers", "from_stop_id", "b", "to_stop_id", "x2", "transfer_type", "1")
			run(nm, t, 1+v[0]%3, "P", "Pf")
		})
	}
	// levels
	lvl := []Row{R("level_index", "0", "level_name", "G"), R("level_index", "0", "level_name", ""), R("level_index", "-1", "level_name", "G"), R("level_index", "0.5", "level_name", "G"), R("level_index", "0", "level_name", "G", "x_l", "q"),
		R("level_index", "0", "level_name", longText+"1"), R("level_index", "0", "level_name", longText+"2"), R("level_index", "0.04", "level_name", "G"), R("level_index", "-0.01", "level_name", "G")}
	product([]int{9, 9, 9}, func(v []int) {
		nm := fmt.Sprintf("levels %v", v)
		if !c.Mine(nm) {
			return
		}
		t := T{}
		var l []Row
		for i, x := range v {
			id := []string{"k1", "level2", "k3"}[i]
			t.Add("levels", lvl[x].With("level_id", id))
			l = append(l, st(fmt.Sprint("b", i), 100*float64(i), "level_id", id, "stop_name", fmt.Sprint(i)), st(fmt.Sprint("c", i), 0, "level_id", id))
		}
		f := stopFeed(l)
		f["levels"] = t["levels"]
		run(nm, f, 2, "P", "Pf")
	})
	cid := func(i int) string { return fmt.Sprintf("%c", 'b'+i) + strings.Repeat(":", i) } // the later ones are preferred
	// chains of stops (or stations with their platforms) near to the next only, in every order, with every kind of reference
	for n := 2; n <= c.Pick(4, 5); n++ {
		for _, pm := range perms(n) {
			for m := 1; m < 128; m++ {
				nm := fmt.Sprintf("chain %v %d", pm, m)
				if n > 3 && c.Quick() && m%5 != 0 || !c.Mine(nm) {
					continue
				}
				bit := func(i int) bool { return m&(1<<uint(i)) != 0 }
				var l []Row
				for i, x := range pm {
					id := cid(i)
					if bit(6) {
						l = append(l, st(id, 35*float64(x), "location_type", "1"), st(id+"p", 35*float64(x), "parent_station", id, "stop_name", fmt.Sprint("Platform ", x)))
					} else {
						l = append(l, st(id, 3.5*float64(x)))
					}
				}
				t := stopFeed(l)
				for i := range pm {
					id := cid(i)
					if bit(0) {
						t.A("transfers", "from_stop_id", id, "to_stop_id", "x1", "transfer_type", "2", "min_transfer_time", fmt.Sprint(60+pm[i]))
					}
					if bit(1) {
						t.A("transfers", "from_stop_id", "x2", "to_stop_id", id, "transfer_type", "2", "min_transfer_time", fmt.Sprint(80+pm[i]))
					}
					if bit(2) && i == m%n {
						t.A("transfers", "from_stop_id", id, "to_stop_id", id, "transfer_type", "3")
					}
					if bit(6) { // stations have no pathways
						continue
					}
					if bit(3) {
						t.A("pathways", "pathway_id", "f"+id, "from_stop_id", id, "to_stop_id", "x1", "pathway_mode", "1", "is_bidirectional", "1", "length", fmt.Sprint(i))
					}
					if bit(4) {
						t.A("pathways", "pathway_id", "t"+id, "from_stop_id", "x1", "to_stop_id", id, "pathway_mode", "1", "is_bidirectional", "0", "length", fmt.Sprint(i))
					}
					if bit(5) && i > 0 {
						t.A("pathways", "pathway_id", "n"+id, "from_stop_id", cid(0), "to_stop_id", id, "pathway_mode", "3", "is_bidirectional", "1", "length", fmt.Sprint(i))
					}
				}
				run(nm, t, 1+m%3, "P")
			}
		}
	}
	// identical stops in numbers, all map orders and schedules within bounds
	for n := 2; n <= 7; n++ {
		nm := fmt.Sprintf("many %d", n)
		if !c.Mine(nm) {
			continue
		}
		var l []Row
		for i := 0; i < n; i++ {
			l = append(l, st(fmt.Sprint("b", i), 0))
		}
		for par := 1; par <= 8; par++ {
			run(fmt.Sprint(nm, " p", par), stopFeed(l), par, "P", "Pf")
		}
	}
	for i, l := range [][]Row{{st("b1", 0), st("b2", 0)}, {st("b1", 0), st("b2", 3), st("b3", 6)}, {st("b1", 0), st("b2", 0), st("c1", 500, "stop_name", "C"), st("c2", 500, "stop_name", "C")},
		{stopRow("P1", 48, 7.8, "location_type", "1"), stopRow("P2", 48, 7.8, "location_type", "1", "stop_name", "Stop P1"), st("b1", 0, "parent_station", "P1"), st("b2", 0, "parent_station", "P2")}} {
		nm := fmt.Sprintf("sched %d", i)
		if !c.Mine(nm) {
			continue
		}
		t := stopFeed(l)
		a, b := l[len(l)-1].Get("stop_id"), l[len(l)-2].Get("stop_id")
		t.Add("transfers", R("from_stop_id", a, "to_stop_id", b, "transfer_type", "0"), R("from_stop_id", a, "to_stop_id", "x1", "transfer_type", "2", "min_transfer_time", "7"))
		for _, o := range []string{"P", "Pf"} {
			c.Explore(Scn{Name: nm + " " + o, T: t, Ops: []string{o}, Par: 2, Maps: true}, c.Pick(1, 2), c.Pick(1500, 20000), stopOracle(o == "Pf"))
		}
	}
}
