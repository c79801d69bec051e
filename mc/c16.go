package main

import (
	"fmt"
	"sort"
	"strings"
	"time"
)

func init() { checks["C16"] = checkC16 }

// dayTrips lists for every date the journeys offered, with everything that belongs to them.
type dayTrips struct {
	s    *Snap
	val  map[string]string          // trip -> value
	days map[string]map[string]int  // date -> value -> number
	on   map[string]map[string]bool // trip -> dates
}

func newDayTrips(s *Snap) *dayTrips {
	r := &dayTrips{s, map[string]string{}, map[string]map[string]int{}, map[string]map[string]bool{}}
	v := NewView(s).Skip("trip.service")
	att := map[string][]string{}
	for _, a := range s.Attribs {
		if a["trip_id"] != "" {
			att[a["trip_id"]] = append(att[a["trip_id"]], a.key("trip_id", "id", "attribution_id"))
		}
	}
	for id, t := range s.Trips {
		al := att[id]
		sort.Strings(al)
		r.val[id] = v.val("trip", id) + " attributions " + strings.Join(al, ",")
		r.on[id] = map[string]bool{}
		if sv := s.Services[t["service"]]; sv != nil {
			for _, d := range sv.Active {
				r.on[id][d] = true
				if r.days[d] == nil {
					r.days[d] = map[string]int{}
				}
				r.days[d][r.val[id]]++
			}
		}
	}
	return r
}

func sameDays(a, b *dayTrips) string {
	var ds []string
	seen := map[string]bool{}
	for _, x := range []*dayTrips{a, b} {
		for d := range x.days {
			if !seen[d] {
				ds = append(ds, d)
			}
			seen[d] = true
		}
	}
	sort.Strings(ds)
	for _, d := range ds {
		for v, n := range a.days[d] {
			if m := b.days[d][v]; m != n {
				return fmt.Sprintf("on %s %d journeys became %d: %s", d, n, m, v)
			}
		}
		for v, n := range b.days[d] {
			if m := a.days[d][v]; m != n {
				return fmt.Sprintf("on %s %d journeys became %d: %s", d, m, n, v)
			}
		}
	}
	return ""
}

// sameTransfers: transfers of trips are kept by the trips that stand for them.
func sameTransfers(a, b *dayTrips) string {
	kind := func(x *dayTrips, m M) string {
		n := m.clone()
		for _, k := range []string{"ftrip", "ttrip"} {
			if n[k] != "" {
				n[k] = "{" + x.val[n[k]] + "}"
			}
		}
		return n.key()
	}
	in, out := map[string]bool{}, map[string]bool{}
	for _, m := range a.s.Transfers {
		in[kind(a, m)] = true
	}
	for _, m := range b.s.Transfers {
		out[kind(b, m)] = true
		if !in[kind(b, m)] {
			return "invented transfer " + kind(b, m)
		}
	}
	for k := range in {
		if !out[k] {
			// gone with a trip that never runs
			for _, m := range a.s.Transfers {
				if kind(a, m) != k {
					continue
				}
				dead := false
				for _, f := range []string{"ftrip", "ttrip"} {
					dead = dead || m[f] != "" && len(a.on[m[f]]) == 0
				}
				if !dead {
					return "lost transfer " + k
				}
			}
		}
	}
	// on every date on which all trips of a transfer run, so do trips with that transfer
	dates := func(x *dayTrips) map[string]bool {
		r := map[string]bool{}
		for _, m := range x.s.Transfers {
			f, t := m["ftrip"], m["ttrip"]
			if f == "" {
				f = t
			}
			if t == "" {
				t = f
			}
			for d := range x.on[f] {
				if x.on[t][d] {
					r[d+" "+kind(x, m)] = true
				}
			}
		}
		return r
	}
	x, y := dates(a), dates(b)
	for k := range x {
		if !y[k] {
			return "transfer lost on a date: " + k
		}
	}
	return ""
}

func svcSplitOracle(l []svcSpec, nonov bool) func(e *Exec) string {
	return func(e *Exec) string {
		if m := problems(e); m != "" {
			return m
		}
		a, b := newDayTrips(e.In), newDayTrips(e.Out)
		if d := sameDays(a, b); d != "" {
			return d
		}
		va, vb := NewView(e.In), NewView(e.Out)
		if d := Same(va, vb, "trip", "service", "transfer", "attrib"); d != "" {
			return d
		}
		if d := sameTransfers(a, b); d != "" {
			return d
		}
		// attributions not of trips stay, ids are unique
		rest := func(s *Snap) string {
			var r []string
			for _, m := range s.Attribs {
				if m["trip_id"] == "" {
					r = append(r, m.key())
				}
			}
			sort.Strings(r)
			return strings.Join(r, "\n")
		}
		if x, y := rest(e.In), rest(e.Out); x != y {
			return "attributions changed:\n" + diff(x, y)
		}
		seen := map[string]bool{}
		for _, m := range e.Out.Attribs {
			if id := m["id"]; id != "" {
				if seen[id] {
					return "two attributions with id " + id
				}
				seen[id] = true
			}
		}
		if nonov {
			day := map[string]string{}
			for id, s := range e.Out.Services {
				for _, d := range s.Active {
					if o, ok := day[d]; ok {
						return fmt.Sprintf("services %s and %s are both active on %s", o, id, d)
					}
					day[d] = id
					t, err := time.Parse("20060102", d)
					if err != nil || !strings.HasPrefix(id, t.Weekday().String()) {
						return fmt.Sprintf("service %q is active on %s, which is a %s", id, d, t.Weekday())
					}
				}
			}
			return ""
		}
		for id, s := range e.Out.Services {
			if len(s.Exc) > 0 {
				return fmt.Sprintf("service %s still has exceptions %v", id, s.Exc)
			}
		}
		for id := range a.val {
			if a.val[id] != b.val[id] && len(a.on[id]) > 0 {
				return fmt.Sprintf("trip %s changed:\n- %s\n+ %s", id, a.val[id], b.val[id])
			}
		}
		return ""
	}
}

// splitFeed gives trips everything that can hang on a trip.
func splitFeed(l []svcSpec, ids []string, trips func(i int) []string, rich int) T {
	t := base()
	t.Add("shapes", shpRow("h", 1, 48, 7.8), shpRow("h", 2, 48.01, 7.81))
	var all []string
	for i, s := range l {
		s.rows(t, ids[i])
		for _, id := range trips(i) {
			all = append(all, id)
			if rich&8 != 0 && len(all)%2 == 1 {
				// a bare trip: without stop times, shape or anything optional
				t.Add("trips", tripRow(id, "r1", ids[i]))
				continue
			}
			t.Add("trips", tripRow(id, "r1", ids[i], "trip_headsign", "to "+id, "trip_short_name", "n", "block_id", "b"+fmt.Sprint(i%2), "direction_id", "1", "wheelchair_accessible", "1", "bikes_allowed", "2", "shape_id", "h", "x_trip", "v"+id))
			t.Add("stop_times", stRow(id, 3, "s1", 36000+60*i, "x_st", "a"+id, "pickup_type", "2", "shape_dist_traveled", "1"), stRow(id, 5, "s2", 36600+60*i, "x_st", "b"+id, "timepoint", "1"))
			if rich&1 != 0 {
				t.Add("frequencies", R("trip_id", id, "start_time", "06:00:00", "end_time", "07:00:00", "headway_secs", "600", "exact_times", fmt.Sprint(i%2), "x_f", "f"+id), R("trip_id", id, "start_time", "08:00:00", "end_time", "09:00:00", "headway_secs", "900", "x_f", "g"+id))
			}
			if rich&2 != 0 {
				t.Add("attributions", R("attribution_id", "at"+id, "trip_id", id, "organization_name", "O"+id, "is_operator", "1", "x_at", "z"+id), R("attribution_id", "", "trip_id", id, "organization_name", "P"+id, "is_producer", "1"))
			}
		}
	}
	if rich&2 != 0 {
		t.Add("attributions", R("attribution_id", "atx", "route_id", "r1", "organization_name", "R", "is_operator", "1"), R("attribution_id", "at1", "agency_id", "a1", "organization_name", "R", "is_operator", "1"))
	}
	if rich&4 != 0 {
		t.Add("transfers", R("from_stop_id", "s1", "to_stop_id", "s2", "transfer_type", "2", "min_transfer_time", "120"))
		for i, x := range all {
			y := all[(i+1)%len(all)]
			t.Add("transfers", R("from_stop_id", "s2", "to_stop_id", "s1", "from_trip_id", x, "to_trip_id", y, "transfer_type", "1", "x_tf", "q"+x))
			if i%2 == 0 {
				t.Add("transfers", R("from_stop_id", "s2", "to_stop_id", "s2", "from_trip_id", x, "to_route_id", "r1", "transfer_type", "3"))
			} else {
				t.Add("transfers", R("from_stop_id", "s1", "to_stop_id", "s1", "from_route_id", "r1", "to_trip_id", x, "transfer_type", "0"))
			}
		}
	}
	return t
}

func splitChecks(c *Ctx, op string, nonov bool) {
	ids := []string{"v", "v1", "w", "v11", "v2", "w1", "v3", "x"}
	one := func(i int) []string { return []string{fmt.Sprint("t", i)} }
	ops := []string{op}
	// every single service over a short window
	W := c.Pick(9, 10)
	for _, dm := range []int{0, 127, 1, 2, 65, 42, 126} {
		for _, rg := range [][2]int{{1, 0}, {0, 6}, {2, 3}, {0, 0}, {1, 8}, {-5, 12}} {
			for sh := 0; sh < 2; sh++ {
				k := 3
				if rg[0] <= rg[1] && c.Quick() {
					k = 3
				}
				if !c.Quick() {
					k = 4
				}
				var specs []svcSpec
				subsets(W, k, func(sub []int) {
					ex := map[int]int{}
					for i, d := range sub {
						ex[d0+d] = 1 + (i+sh)%2
						if rg[0] > rg[1] && sh == 0 {
							ex[d0+d] = 1
						}
					}
					if rg[0] > rg[1] && len(ex) == 0 {
						return
					}
					specs = append(specs, svcSpec{dm, d0 + rg[0], d0 + rg[1], ex})
				})
				for i := 0; i < len(specs); i += 12 {
					nm := fmt.Sprintf("single %d %v sh%d %d", dm, rg, sh, i)
					if !c.Mine(nm) {
						continue
					}
					l := specs[i:mini(i+12, len(specs))]
					var n []string
					for j := range l {
						n = append(n, fmt.Sprint("v", j))
					}
					c.Run(Scn{Name: nm, T: splitFeed(l, n, one, 0), Ops: ops, Par: 1 + i/12%3}, svcSplitOracle(l, nonov))
				}
			}
		}
	}
	// dates long apart, over year ends, leap days and daylight saving changes
	for _, st := range []int{dayNum(2023, 12, 28), dayNum(2024, 2, 27), dayNum(2023, 3, 25), dayNum(2023, 10, 28), dayNum(2020, 12, 30), dayNum(2026, 12, 27)} {
		for dm := 0; dm < 128; dm++ {
			nm := fmt.Sprintf("border %s %d", ymd(st), dm)
			if !c.Mine(nm) {
				continue
			}
			l := []svcSpec{{dm, st, st + 8, map[int]int{st + 3: 2, st + 5: 1}}, {dm, st - 2, st + 20, map[int]int{st: 2, st + 1: 2, st + 40: 1, st - 20: 1}}, {0, 1, 0, map[int]int{st: 1, st + 1: 1, st + 371: 1, st + 364: 1, st + 7: 1}}, {127 - dm, st + 300, st + 370, map[int]int{st + 340: 2}}}
			c.Run(Scn{Name: nm, T: splitFeed(l, ids, one, 7), Ops: ops, Par: 1}, svcSplitOracle(l, nonov))
		}
	}
	// pairs and triples of services with everything that hangs on trips
	reps := svcReps()
	for i := range reps {
		for j := range reps {
			for rich := 0; rich < 16; rich++ {
				nm := fmt.Sprintf("pair %d %d rich %d", i, j, rich)
				if !c.Mine(nm) || c.Quick() && (i+j+rich)%5 != 0 {
					continue
				}
				l := []svcSpec{reps[i], reps[j], reps[(i*5+j+rich)%len(reps)]}
				tr := func(k int) []string {
					return [][]string{{"t", "t1"}, {"t11"}, {"t2", "t:Sunday"}}[k]
				}
				c.Run(Scn{Name: nm, T: splitFeed(l, ids, tr, rich), Ops: ops, Par: 1 + rich%3}, svcSplitOracle(l, nonov))
			}
		}
	}
	// ids that look like generated ones
	alpha := []string{"a", "a1", "a2", "a11", "a12", "a1:Monday", "a:Sunday"}
	many := map[int]int{}
	for k := 0; k < 14; k++ {
		many[d0+2*k] = 1
	}
	for k := 0; k < c.Pick(300, 1500); k++ {
		nm := fmt.Sprintf("ids %d", k)
		if !c.Mine(nm) {
			continue
		}
		p := perms(4)[k%24]
		l := []svcSpec{{0, 1, 0, many}, {127, d0, d0 + 12, map[int]int{d0 + 3: 2, d0 + 8: 2}}, {0, 1, 0, many}, {3, d0, d0 + 70, map[int]int{d0 + 14: 2}}}
		sv := []string{alpha[(k+p[0])%7], alpha[(k+p[1]+1)%7], "", ""}
		for i := range sv {
			for q := range alpha {
				x := alpha[(q+p[i]*2+k/7)%7]
				if !in(sv[:i], x) {
					sv[i] = x
					break
				}
			}
		}
		tr := func(i int) []string {
			x := alpha[(i*2+k/24)%7]
			y := alpha[(i*2+1+k/24)%7]
			if i == 3 {
				return []string{x}
			}
			return []string{x, y}
		}
		t := splitFeed(l, sv, tr, k%8)
		// spread the numbers that have been used up by other names
		c.Explore(Scn{Name: nm, T: t, Ops: ops, Par: 1, Maps: true}, 1, c.Pick(40, 100), svcSplitOracle(l, nonov))
	}
	// which trips run on which of several days of the same weekday: all relations
	product([]int{8, 8, 8, 8}, func(v []int) {
		if c.Quick() && v[3] > 1 || v[0]+v[1]+v[2]+v[3] == 0 {
			return
		}
		nm := fmt.Sprintf("days %v", v)
		if !c.Mine(nm) {
			return
		}
		var l []svcSpec
		var sv []string
		for i, m := range v {
			ex := map[int]int{d0 - 7: 1}
			if m > 0 {
				ex = map[int]int{}
			}
			for b := 0; b < 3; b++ {
				if m>>b&1 != 0 {
					ex[d0+7*b] = 1
				}
			}
			l = append(l, svcSpec{0, 1, 0, ex})
			sv = append(sv, fmt.Sprint("v", i))
		}
		c.Run(Scn{Name: nm, T: splitFeed(l, sv, one, 0), Ops: ops, Par: 1}, svcSplitOracle(l, nonov))
	})
	for i := 0; i < 8; i++ {
		nm := fmt.Sprintf("sched %d", i)
		if !c.Mine(nm) {
			continue
		}
		l := []svcSpec{reps[i], reps[(i+9)%len(reps)], {0, 1, 0, many}}
		c.Explore(Scn{Name: nm, T: splitFeed(l[:1+i%3], ids, one, i), Ops: ops, Par: 1 + i%3, Maps: true}, c.Pick(1, 2), c.Pick(4000, 30000), svcSplitOracle(l, nonov))
	}
}

func checkC16(c *Ctx) { splitChecks(c, "nocd", false) }
