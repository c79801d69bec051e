package main

import (
	"fmt"
	"sort"
	"strings"
)

func init() { checks["C06"] = checkC06 }

// routeFares lists the fare rules that name a route: one string per rule.
func routeFares(s *Snap) map[string][]string {
	r := map[string][]string{}
	for f, l := range s.FareRules {
		for _, q := range l {
			if q["route"] != "" {
				r[q["route"]] = append(r[q["route"]], f+":"+q["orig"]+">"+q["dest"]+"/"+q["cont"])
			}
		}
	}
	for _, l := range r {
		sort.Strings(l)
	}
	return r
}

// transfersFollow: the places, routes and trips connected by transfers stay the same, every remaining
// transfer is one that existed.
func transfersFollow(a, b *View) string {
	ka, kb := map[string]bool{}, map[string]bool{}
	full := map[string]bool{}
	short := func(v *View, m M) string {
		n := m.clone()
		for k := range n {
			if k == "type" || k == "min" || k[0] == '+' {
				delete(n, k)
			}
		}
		return v.row("transfer", n)
	}
	for _, m := range a.s.Transfers {
		ka[short(a, m)] = true
		full[a.row("transfer", m)] = true
	}
	for _, m := range b.s.Transfers {
		kb[short(b, m)] = true
		if x := b.row("transfer", m); !full[x] {
			return "transfer is new or changed: " + x
		}
	}
	for k := range ka {
		if !kb[k] {
			return "transfer lost: " + k
		}
	}
	return ""
}

func routeOracle(e *Exec) string {
	if m := problems(e); m != "" {
		return m
	}
	a, b := NewView(e.In, "route", "rule").Skip("route.sort"), NewView(e.Out, "route", "rule").Skip("route.sort")
	if m := Same(a, b, "transfer"); m != "" {
		return m
	}
	if m := transfersFollow(a, b); m != "" {
		return m
	}
	fi, fo := routeFares(e.In), routeFares(e.Out)
	for id := range e.Out.Routes {
		if e.In.Routes[id] == nil {
			return "route " + id + " is new"
		}
		if a.val("route", id) != b.val("route", id) {
			return "attributes of route " + id + " changed"
		}
		if strings.Join(uniqS(fi[id]), " ") != strings.Join(uniqS(fo[id]), " ") {
			return fmt.Sprintf("fare rules of route %s changed from %v to %v", id, fi[id], fo[id])
		}
	}
	for id, t := range e.In.Trips {
		x, y := strings.Join(uniqS(fi[t["route"]]), " "), strings.Join(uniqS(fo[e.Out.Trips[id]["route"]]), " ")
		if x != y {
			return fmt.Sprintf("fare rules applying to a trip changed from %s to %s", x, y)
		}
	}
	cls := map[string]string{}
	for id := range e.Out.Routes {
		k := b.val("route", id) + " | " + strings.Join(fo[id], " ")
		cls[k] = id
	}
	have := map[string]string{}
	for id := range e.In.Routes {
		k := a.val("route", id) + " | " + strings.Join(uniqS(append([]string{}, fi[id]...)), " ")
		have[k] = id
	}
	got := map[string]bool{}
	for id := range e.Out.Routes {
		got[b.val("route", id)+" | "+strings.Join(uniqS(append([]string{}, fo[id]...)), " ")] = true
	}
	for k, id := range have {
		if !got[k] {
			return "route " + id + " has no counterpart with the same attributes and fares: " + k
		}
	}
	if len(cls) != len(e.Out.Routes) {
		return "identical routes remain"
	}
	return ""
}

func routeFeed(l []Row) T {
	t := T{}
	t.Add("agency", agencyRow("a1"), agencyRow("a2", "agency_name", "Bg"))
	t.Add("stops", stopRow("s1", 48, 7.8), stopRow("s2", 48.01, 7.81))
	t.Add("calendar", calRow("v", 127, d0, d0+6))
	for i, r := range l {
		id := r.Get("route_id")
		t.Add("routes", r)
		t.simpleTrip(fmt.Sprintf("t%d", i), id, "v", 36000+60*i)
	}
	return t
}

var routeFields = [][]string{
	{"route_short_name", "1", "2", "", "1 "},
	{"route_long_name", "L", "M", "", "l"},
	{"route_desc", "", "d", "e"},
	{"route_type", "3", "0", "2", "700", "704", "106", "107"},
	{"route_url", "", "http://r.de", "http://r.de/2", "https://r.de/2", "http://r.de/2?line=1", "http://r.de/2?line=2", "http://r.de/2#a"},
	{"route_color", "", "FFFFFF", "00FF00", "00ff00"},
	{"route_text_color", "", "000000", "0000FF", "FFFFFF"},
	{"continuous_pickup", "", "0", "1", "2", "3"},
	{"continuous_drop_off", "", "0", "1", "2", "3"},
	{"agency_id", "a1", "a2"},
	{"x_own", "", "o1", "o2"},
}

func checkC06(c *Ctx) {
	routeFields := withLong(routeFields, "route_short_name", "route_long_name", "route_desc", "route_url", "x_own")
	ids := [][]string{{"r1", "r2"}, {"long", "b"}, {"b", "long"}}
	mk := func(id string, kv ...string) Row { return routeRow(id, "a1").With(kv...) }
	run := func(nm string, t T, par int) {
		c.Run(Scn{Name: nm, T: t, Ops: []string{"R"}, Par: par}, routeOracle)
	}
	for _, f := range routeFields {
		for i := 1; i < len(f); i++ {
			for j := 1; j < len(f); j++ {
				for k, id := range ids {
					nm := fmt.Sprintf("field-pair %s %d %d %d", f[0], i, j, k)
					if !c.Mine(nm) {
						continue
					}
					run(nm, routeFeed([]Row{mk(id[0], f[0], f[i]), mk(id[1], f[0], f[j])}), 1+k)
					kv := []string{"route_desc", "x", "route_url", "http://x", "route_color", "123456", "route_text_color", "654321", "continuous_pickup", "0", "continuous_drop_off", "2", "x_own", "v"}
					run(nm+" full", routeFeed([]Row{mk(id[0], kv...).With(f[0], f[i]), mk(id[1], kv...).With(f[0], f[j])}), 1+k)
				}
			}
		}
	}
	for a := range routeFields {
		for b := range routeFields {
			if a >= b || a == 9 || b == 9 {
				continue
			}
			fa, fb := routeFields[a], routeFields[b]
			nm := fmt.Sprintf("field-swap %s %s", fa[0], fb[0])
			if !c.Mine(nm) {
				continue
			}
			run(nm, routeFeed([]Row{mk("r1", fa[0], fa[1], fb[0], fb[2]), mk("r2", fa[0], fa[2], fb[0], fb[1]), mk("r3", fa[0], fa[1], fb[0], fb[1]), mk("r4", fa[0], fa[2], fb[0], fb[2]), mk("r5", fa[0], fa[1], fb[0], fb[2])}), 2)
		}
	}
	// texts that concatenate alike
	if c.Mine("concat") {
		run("concat", routeFeed([]Row{mk("r1", "route_short_name", "ab", "route_long_name", "c"), mk("r2", "route_short_name", "a", "route_long_name", "bc"), mk("r3", "route_short_name", "abc", "route_long_name", ""),
			mk("r4", "route_short_name", "", "route_long_name", "abc"), mk("r5", "route_short_name", "a", "route_long_name", "b", "route_desc", "c")}), 2)
	}
	alpha := []Row{mk(""), mk("", "agency_id", "a2"), mk("", "route_url", "http://b"), mk("", "route_short_name", "7"), mk("", "continuous_pickup", "0")}
	for n := 1; n <= c.Pick(4, 5); n++ {
		dims := make([]int, n)
		for i := range dims {
			dims[i] = len(alpha)
		}
		product(dims, func(v []int) {
			nm := fmt.Sprintf("multi %v", v)
			if !c.Mine(nm) {
				return
			}
			var l []Row
			for i, x := range v {
				id := fmt.Sprintf("r%d", i)
				if i == 1 {
					id = "route1"
				}
				l = append(l, alpha[x].With("route_id", id))
			}
			t := routeFeed(l)
			t.A("attributions", "attribution_id", "b1", "route_id", "r0", "organization_name", "Org", "is_producer", "1")
			if n > 1 {
				t.A("attributions", "attribution_id", "b2", "route_id", "route1", "organization_name", "Org2", "is_operator", "1")
			}
			run(nm, t, 1+len(v)%3)
		})
	}
	// fares: all sets of rules over two equal routes and no route, two fares, two zones
	type rl struct{ f, r, o, d, c string }
	fareT := func(t T, rules []rl) T {
		t.A("fare_attributes", "fare_id", "f1", "price", "1", "currency_type", "EUR", "payment_method", "0", "transfers", "", "agency_id", "a1", "x_f", "q")
		t.A("fare_attributes", "fare_id", "f2", "price", "2", "currency_type", "EUR", "payment_method", "1", "transfers", "2", "agency_id", "a1")
		for _, x := range rules {
			t.A("fare_rules", "fare_id", x.f, "route_id", x.r, "origin_id", x.o, "destination_id", x.d, "contains_id", x.c)
		}
		t.Set("stops", "stop_id", "s1", "zone_id", "z1")
		t.Set("stops", "stop_id", "s2", "zone_id", "z2")
		return t
	}
	two := func() T { return routeFeed([]Row{mk("r1"), mk("r2")}) }
	var al []rl
	for _, f := range []string{"f1", "f2"} {
		for _, r := range []string{"r1", "r2"} {
			al = append(al, rl{f, r, "", "", ""}, rl{f, r, "z1", "", ""}, rl{f, r, "z1", "z2", ""})
		}
		al = append(al, rl{f, "", "z1", "", ""})
	}
	subsets(len(al), c.Pick(5, 8), func(ix []int) {
		nm := fmt.Sprintf("fares %v", ix)
		if !c.Mine(nm) {
			return
		}
		var l []rl
		for _, i := range ix {
			l = append(l, al[i])
		}
		run(nm, fareT(two(), l), 1)
	})
	// order and repetition of rules, all rule fields
	al2 := []rl{{"f1", "r1", "z1", "", ""}, {"f1", "r2", "z1", "", ""}, {"f1", "r1", "", "z1", ""}, {"f1", "r2", "", "z1", ""}, {"f1", "r1", "", "", "z1"}, {"f1", "r2", "", "", "z1"}}
	for n := 1; n <= c.Pick(4, 5); n++ {
		dims := make([]int, n)
		for i := range dims {
			dims[i] = len(al2)
		}
		product(dims, func(v []int) {
			nm := fmt.Sprintf("fare-seq %v", v)
			if !c.Mine(nm) {
				return
			}
			var l []rl
			for _, i := range v {
				l = append(l, al2[i])
			}
			run(nm, fareT(two(), l), 2)
		})
	}
	// one rule (or two) per route, all combinations of zones
	zn := []string{"", "z1", "z2"}
	zr := func(r string, v int) rl { return rl{"f1", r, zn[v%3], zn[v/3%3], zn[v/9]} }
	for x := 0; x < 27; x++ {
		for y := 0; y < 27; y++ {
			for m := 0; m < 8; m++ {
				nm := fmt.Sprintf("fare-zones %d %d %d", x, y, m)
				if !c.Mine(nm) {
					continue
				}
				l := []rl{zr("r1", x), zr("r2", y)}
				if m&1 != 0 {
					l[0], l[1] = l[1], l[0]
				}
				com := (x + 13) % 27 // a rule both have
				if m&2 != 0 {
					l = append([]rl{zr("r2", com), zr("r1", com)}, l...)
				}
				if m&4 != 0 {
					l = append([]rl{zr("r1", com), l[0], zr("r2", com)}, l[1:]...)
				}
				run(nm, fareT(two(), l), 1)
			}
		}
	}
	// many rules, in different orders
	for n := 3; n <= 9; n++ {
		for k := 0; k < 3*n*n; k++ {
			for d := 0; d < 4; d++ {
				nm := fmt.Sprintf("fare-many %d %d %d", n, k, d)
				if !c.Mine(nm) {
					continue
				}
				var a, b []rl
				for i := 0; i < n; i++ {
					j, m := (i+k/3)%n, i
					if k%3 == 1 {
						j = n - 1 - j
					} else if k%3 == 2 {
						j = (i + k/3/n) % n
						m = n - 1 - i
					}
					a = append(a, rl{"f1", "r1", fmt.Sprint("z", m), zn[m%3], ""})
					b = append(b, rl{"f1", "r2", fmt.Sprint("z", j), zn[j%3], ""})
				}
				if d&1 != 0 { // one is there twice for one route and another for the other
					x, y := a[0], a[n-1]
					a = append(a, x)
					y.r = "r2"
					b = append(b, y)
				}
				if d&2 != 0 {
					a, b = append(a, b...), nil
				} else {
					a = append(append([]rl{}, b[:k%n]...), append(a, b[k%n:]...)...)
					b = nil
				}
				run(nm, fareT(two(), a), 1)
			}
		}
	}
	// three equal routes of which two share fares
	three := []rl{}
	for _, r := range []string{"r1", "r2", "r3"} {
		three = append(three, rl{"f1", r, "", "", ""}, rl{"f1", r, "z1", "", ""}, rl{"f2", r, "", "", ""})
	}
	subsets(len(three), 9, func(ix []int) {
		nm := fmt.Sprintf("fares-three %v", ix)
		if !c.Mine(nm) {
			return
		}
		var l []rl
		for _, i := range ix {
			l = append(l, three[i])
		}
		run(nm, fareT(routeFeed([]Row{mk("r1"), mk("r2"), mk("r3")}), l), 2)
	})
	// transfers between routes
	var tfs []Row
	for i, p := range [][]string{{"r1", ""}, {"r2", ""}, {"", "r1"}, {"", "r2"}, {"r1", "r2"}, {"r2", "r1"}, {"r1", "r1"}, {"r1", "r3"}, {"r2", "r3"}, {"r3", "r2"}, {"r3", "r3"}} {
		tfs = append(tfs, R("from_stop_id", "s1", "to_stop_id", "s2", "from_route_id", p[0], "to_route_id", p[1], "transfer_type", "2", "min_transfer_time", fmt.Sprint(60+i), "x_t", fmt.Sprint("n", i)))
	}
	tfs = append(tfs, R("from_stop_id", "s1", "to_stop_id", "s2", "from_route_id", "", "to_route_id", "", "transfer_type", "3"), R("from_stop_id", "s2", "to_stop_id", "s1", "from_route_id", "r2", "to_route_id", "", "transfer_type", "0"),
		R("from_stop_id", "s1", "to_stop_id", "s2", "from_trip_id", "t0", "to_trip_id", "t1", "transfer_type", "1"))
	subsets(len(tfs), c.Pick(3, 4), func(ix []int) {
		nm := fmt.Sprintf("transfers %v", ix)
		if !c.Mine(nm) {
			return
		}
		t := routeFeed([]Row{mk("r1"), mk("r2"), mk("r3", "route_desc", "other")})
		for _, i := range ix {
			t.Add("transfers", tfs[i])
		}
		run(nm, t, 1)
	})
	for i, v := range [][]int{{0, 0}, {0, 0, 0}, {0, 1, 0, 1}, {0, 0, 0, 2}} {
		nm := fmt.Sprintf("sched %v", v)
		if !c.Mine(nm) {
			continue
		}
		var l []Row
		for i, x := range v {
			l = append(l, alpha[x].With("route_id", fmt.Sprintf("r%d", i)))
		}
		t := fareT(routeFeed(l), []rl{{"f1", "r0", "z1", "", ""}, {"f1", "r1", "z1", "", ""}})
		t.Add("transfers", tfs[0], tfs[3].With("to_route_id", "r1", "from_route_id", "r0"))
		if len(v) < 3 {
			t["transfers"] = t["transfers"][1:]
			t.Set("transfers", "from_route_id", "r2", "from_route_id", "r0")
		}
		c.Explore(Scn{Name: nm, T: t, Ops: []string{"R"}, Par: 1 + i%3, Maps: true}, c.Pick(2, 3), c.Pick(3000, 30000), routeOracle)
	}
}
