package main

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
)

func init() { checks["C10"] = checkC10 }

// idMarks: every entity is recognised by a value of its own that has nothing to do with its id.
func idMarks(s *Snap) map[string]map[string]string {
	r := map[string]map[string]string{}
	for kind, x := range map[string]struct {
		m map[string]M
		f string
	}{"agency": {s.Agencies, "name"}, "stop": {s.Stops, "name"}, "route": {s.Routes, "long"}, "trip": {s.Trips, "short"}, "fare": {s.Fares, "price"}, "level": {s.Levels, "name"}, "pathway": {s.Pathways, "sign"}} {
		r[kind] = map[string]string{}
		for id, m := range x.m {
			r[kind][id] = m[x.f]
		}
	}
	r["service"], r["shape"] = map[string]string{}, map[string]string{}
	for id, v := range s.Services {
		r["service"][id] = v.key()
	}
	for id, v := range s.Shapes {
		r["shape"][id] = ""
		if len(v) > 0 {
			r["shape"][id] = fmt.Sprint(v[0].Lat)
		}
	}
	r["attrib"] = map[string]string{}
	for _, a := range s.Attribs {
		if _, ok := r["attrib"][a["id"]]; ok {
			r["attrib"][a["id"]] += "+" + a["org"]
		} else {
			r["attrib"][a["id"]] = a["org"]
		}
	}
	return r
}

var keepBit = map[string]uint{"stop": 0, "trip": 2, "route": 3, "fare": 4, "shape": 5, "level": 6, "service": 7, "agency": 8, "pathway": 9, "attrib": 10}

func idOracle(base, mask int, prefix string) func(e *Exec) string {
	return func(e *Exec) string {
		if m := problems(e); m != "" {
			return m
		}
		mi, mo := idMarks(e.In), idMarks(e.Out)
		back := map[string]map[string]string{}
		for kind := range mi {
			back[kind] = map[string]string{}
			old := map[string]string{}
			for id, v := range mi[kind] {
				old[v] = id
			}
			if len(mi[kind]) != len(mo[kind]) {
				return fmt.Sprintf("%d instead of %d entities of kind %s", len(mo[kind]), len(mi[kind]), kind)
			}
			want := map[string]bool{}
			for i := 1; i <= len(mi[kind]); i++ {
				want[prefix+strconv.FormatInt(int64(i), base)] = true
			}
			for id, v := range mo[kind] {
				o, ok := old[v]
				if !ok {
					return fmt.Sprintf("%s %s: no such entity before (%s)", kind, id, v)
				}
				back[kind][id] = o
				if mask&(1<<keepBit[kind]) != 0 {
					if id != o {
						return fmt.Sprintf("%s %s is now %s although its id was to be kept", kind, o, id)
					}
				} else if !want[id] {
					return fmt.Sprintf("%s %s got id %s: ids are not dense numbers to base %d", kind, o, id, base)
				}
			}
		}
		a, b := NewView(e.In), NewView(e.Out)
		b.rename = func(kind, id string) string {
			if x, ok := back[kind][id]; ok {
				return x
			}
			return "?" + id
		}
		for _, m := range b.s.Attribs {
			m["id"] = b.rename("attrib", m["id"])
		}
		return Same(a, b)
	}
}

// idFeed: n entities of every kind, everything referring to something; ids come from the alphabet.
func idFeed(n int, ids []string, rot int, flds bool) T {
	t := T{}
	id := func(kind, i int) string { return ids[(i%n+kind*rot)%len(ids)] }
	x := func(r Row, kind, i int) Row {
		if flds && (i+kind)%3 != 0 {
			return r.With(fmt.Sprintf("x_%d", kind), fmt.Sprintf("val%d", i))
		} else if flds {
			return r.With(fmt.Sprintf("x_%d", kind), "")
		}
		return r
	}
	for i := 0; i < n; i++ {
		t.Add("agency", x(agencyRow(id(0, i), "agency_name", fmt.Sprint("Agency", i)), 0, i))
		t.Add("routes", x(routeRow(id(1, i), id(0, i+1), "route_long_name", fmt.Sprint("Route", i)), 1, i))
		t.Add("levels", x(R("level_id", id(2, i), "level_index", fmt.Sprint(i), "level_name", fmt.Sprint("Level", i)), 2, i))
		kv := []string{"stop_name", fmt.Sprint("Stop", i), "level_id", id(2, i+1)}
		if i%2 == 1 && n > 2 {
			kv = append(kv, "parent_station", id(3, 0))
		}
		if i == 0 && n > 2 {
			kv = append(kv, "location_type", "1")
		}
		t.Add("stops", x(stopRow(id(3, i), 48+0.01*float64(i), 7.8, kv...), 3, i))
		t.Add("calendar_dates", cdRow(id(4, i), d0+i, 1))
		for q := 0; q < 2; q++ {
			t.Add("shapes", x(R("shape_id", id(5, i), "shape_pt_sequence", fmt.Sprint(q), "shape_pt_lat", f2s(48+0.01*float64(i)), "shape_pt_lon", fmt.Sprint(q)), 5, i+q))
		}
		t.Add("trips", x(tripRow(id(6, i), id(1, i+1), id(4, i), "trip_short_name", fmt.Sprint("Trip", i), "shape_id", id(5, i), "block_id", fmt.Sprint(i%2+1)), 6, i))
		for q := 0; q < 2; q++ {
			k := i + q + 1
			if n > 2 && k%n == 0 {
				k++
			}
			t.Add("stop_times", x(stRow(id(6, i), q+1, id(3, k), 36000+600*q), 7, i+q))
		}
		t.Add("frequencies", x(R("trip_id", id(6, i), "start_time", "10:00:00", "end_time", "12:00:00", "headway_secs", fmt.Sprint(600+i), "exact_times", "1"), 8, i))
		t.Add("fare_attributes", x(R("fare_id", id(9, i), "price", fmt.Sprintf("%d.50", i+1), "currency_type", "EUR", "payment_method", "1", "transfers", "", "agency_id", id(0, i)), 9, i))
		t.Add("fare_rules", x(R("fare_id", id(9, i), "route_id", id(1, i), "origin_id", "z1"), 10, i))
		pa, pb := i, i+1
		if n > 2 && pa%n == 0 {
			pa = 1
		}
		if n > 2 && pb%n == 0 {
			pb = 2
		}
		t.Add("pathways", x(R("pathway_id", id(11, i), "from_stop_id", id(3, pa), "to_stop_id", id(3, pb), "pathway_mode", "1", "is_bidirectional", "1", "signposted_as", fmt.Sprint("Way", i)), 11, i))
		t.Add("transfers", x(R("from_stop_id", id(3, i), "to_stop_id", id(3, i+1), "from_route_id", id(1, i), "to_route_id", "", "from_trip_id", "", "to_trip_id", id(6, i), "transfer_type", "1"), 12, i))
		suf := []string{"", "b", "c", "d"}
		if n > 9 {
			suf = []string{"", "-b", "-c", "-d"} // "1b" is a number to base 36
		}
		for q, k := range []string{"agency_id", "route_id", "trip_id", ""} {
			r := R("attribution_id", fmt.Sprintf("%s%s", ids[(i+rot)%len(ids)], suf[q]), "organization_name", fmt.Sprintf("Org%d%d", i, q), "is_producer", "1", "agency_id", "", "route_id", "", "trip_id", "")
			if k != "" {
				r = r.With(k, id([]int{0, 1, 6}[q], i))
			}
			t.Add("attributions", x(r, 13, i))
		}
	}
	return t
}

func checkC10(c *Ctx) {
	run := func(nm string, t T, base, mask int, prefix string) {
		c.Run(Scn{Name: nm, T: t, Ops: []string{fmt.Sprintf("id:%d:%d:%s", base, mask, prefix)}, Par: 2}, idOracle(base, mask, prefix))
	}
	alph := [][]string{{"1", "2", "3", "4"}, {"4", "3", "2", "1"}, {"x", "y", "z", "w"}, {"p#1", "1", "p#2", "2"}, {"3", "1", "4", "2"}, {"p#3", "p#1", "p#2", "a"}, {"A", "a", "2", "1"}}
	// all sets of kinds to keep
	for mask := 0; mask < 2048; mask++ {
		for k := 0; k < c.Pick(3, len(alph)); k++ {
			nm := fmt.Sprintf("keep %d %d", mask, k)
			if !c.Mine(nm) {
				continue
			}
			run(nm, idFeed(3, alph[k], mask%4, true), []int{10, 36}[(mask+k)%2], mask, []string{"", "p#"}[k%2])
		}
	}
	// ids of one to four entities per kind, colliding with the new ones or not, in any rotation
	for n := 1; n <= 4; n++ {
		for k, a := range alph {
			for rot := 0; rot < 4; rot++ {
				for _, base := range []int{10, 36} {
					for _, px := range []string{"", "p#", "1"} {
						for fl := 0; fl < 2; fl++ {
							nm := fmt.Sprintf("ids %d %d %d %d %q %d", n, k, rot, base, px, fl)
							if !c.Mine(nm) {
								continue
							}
							run(nm, idFeed(n, a, rot, fl == 1), base, 0, px)
						}
					}
				}
			}
		}
	}
	// every order of ids
	for _, p := range perms(4) {
		for _, base := range []int{10, 36} {
			nm := fmt.Sprintf("perm %v %d", p, base)
			if !c.Mine(nm) {
				continue
			}
			var a []string
			for _, i := range p {
				a = append(a, fmt.Sprint(i+1))
			}
			for n := 3; n <= 4; n++ {
				t := idFeed(n, a, 0, true)
				run(fmt.Sprintf("%s n%d", nm, n), t, base, 0, "")
				c.Explore(Scn{Name: fmt.Sprintf("%s n%d maps", nm, n), T: t, Ops: []string{fmt.Sprintf("id:%d:0:", base)}, Par: 2, Maps: true}, 1, c.Pick(40, 400), idOracle(base, 0, ""))
			}
		}
	}
	// more entities than digits
	for _, n := range []int{9, 10, 11, 35, 36, 37, 100, 1297} {
		for _, base := range []int{10, 36} {
			for rev := 0; rev < 2; rev++ {
				nm := fmt.Sprintf("many %d %d %d", n, base, rev)
				if !c.Mine(nm) {
					continue
				}
				var a []string
				for i := 1; i <= n; i++ {
					a = append(a, strconv.FormatInt(int64(i), base))
				}
				if rev == 1 {
					sort.Sort(sort.Reverse(sort.StringSlice(a)))
				}
				run(nm, idFeed(n, a, rev, true), base, 0, "")
			}
		}
	}
	// empty kinds
	for m := 0; m < 64; m++ {
		nm := fmt.Sprintf("missing %d", m)
		if !c.Mine(nm) {
			continue
		}
		t := idFeed(2, []string{"2", "1"}, 0, true)
		for i, f := range []string{"frequencies", "fare_rules", "pathways", "transfers", "attributions"} {
			if m&(1<<uint(i)) != 0 {
				delete(t, f)
			}
		}
		if m&2 != 0 && m&32 != 0 {
			delete(t, "fare_attributes")
		}
		run(nm, t, 10, m, "")
	}
	// the renaming steps run concurrently
	masks := []int{0, 1, 4, 8, 256, 1024, 2047 &^ 1025, 2047 &^ 1036, 2047}
	for i, mask := range masks {
		for k := 0; k < 2; k++ {
			nm := fmt.Sprintf("sched %d %d", i, k)
			if !c.Mine(nm) {
				continue
			}
			op := []string{fmt.Sprintf("id:10:%d:", mask)}
			c.Explore(Scn{Name: nm, T: idFeed(1+k, []string{"2", "1"}, 0, true), Ops: op, Par: 2}, c.Pick(2, 3), c.Pick(3000, 40000), idOracle(10, mask, ""))
			c.Explore(Scn{Name: nm + " maps", T: idFeed(1+k, []string{"2", "1"}, 0, true), Ops: op, Par: 2, Maps: true}, 1, c.Pick(600, 5000), idOracle(10, mask, ""))
		}
	}
	_ = strings.Join
}
