package main

import (
	"fmt"
	"math"
	"sort"
	"strings"
)

func init() { checks["C02"] = checkC02 }

// timetable lists what passengers are offered on each date, after operations as far as these have to keep it.
func timetable(s *Snap, ops []string, several bool) map[string]int {
	skip := []string{"trip.service", "trip.block", "shape.seq", "st.seq", "route.sort", "st.dist", "st.arr", "st.dep"}
	if several {
		skip = append(skip, "stop.zone") // zones of several feeds get prefixes
	}
	use := func(o string) bool { return in(ops, o) }
	if use("P") { // stops within 5 m
		skip = append(skip, "stop.lat", "stop.lon")
	}
	if use("m") {
		skip = append(skip, "shape.dist")
	}
	if use("S") || use("I") { // nearly equal shapes, or that of a duplicate
		skip = append(skip, "trip.shape")
	}
	if use("I") {
		skip = append(skip, "trip.dir")
	}
	v := NewView(s, everyKind...).Skip(skip...)
	used := modelOrphans(s).trips
	l := map[string]int{}
	for id, t := range s.Trips {
		if !used[id] && !use("I") { // of no use to anyone
			continue
		}
		k := "route {" + v.val("route", t["route"]) + "} "
		n := M{}
		for f, x := range t {
			if !(f[0] == '+' && (use("I") || use("T"))) && f != "route" {
				n[f] = x
			}
		}
		k += v.row("trip", n)
		if use("S") && !use("I") && t["shape"] != "" {
			k += " with shape"
		}
		sts := s.StopTimes[id]
		d0 := 0
		timed := len(sts) > 0 && sts[0]["dep"] != ""
		if timed {
			d0 = atoi(sts[0]["dep"])
		}
		for i, st := range sts {
			a, d := st["arr"], st["dep"]
			if a != "" {
				a, d = fmt.Sprint(atoi(a)-d0), fmt.Sprint(atoi(d)-d0)
			}
			if use("I") && len(sts) > 1 {
				if i == 0 {
					a = ""
				}
				if i == len(sts)-1 {
					d = ""
				}
			}
			if use("I") {
				k += " <" + a + " " + d + " " + v.val("stop", station(s, st["stop"])) + ">"
				continue
			}
			x := ""
			if st["dist"] != "" && !use("m") { // see C13
				x = fmt.Sprint(math.Round(pf(st["dist"]) * 10))
			}
			k += " <" + a + " " + d + " " + x + " " + v.row("st", st) + ">"
		}
		starts := []string{"untimed"}
		if timed {
			starts = []string{hms(d0)}
		}
		if fs := s.Freqs[id]; len(fs) > 0 {
			starts = nil
			for _, f := range fs {
				about := ""
				if f["exact"] != "1" {
					about = " about"
				}
				for x := atoi(f["start"]); x < atoi(f["end"]) && atoi(f["headway"]) > 0; x += atoi(f["headway"]) {
					starts = append(starts, hms(x)+about)
				}
			}
		}
		for _, d := range s.Services[t["service"]].Active {
			for _, x := range starts {
				if !used[id] {
					l["-"+d+" "+x+" "+k]++ // it may stay instead of one that is of use (see C04)
				} else {
					l[d+" "+x+" "+k]++
				}
			}
		}
	}
	return l
}

// sameTimetable compares what is offered.
func sameTimetable(x, y map[string]int, ops []string) string {
	var l []string
	for k, n := range x {
		if k[0] == '-' || x["-"+k] > 0 {
			continue
		}
		if m := y[k]; m == 0 || m != n && !in(ops, "I") {
			l = append(l, fmt.Sprintf("%d instead of %d departures: %s", m, n, k))
		}
	}
	for k, n := range y {
		if k[0] != '-' && x[k] == 0 {
			l = append(l, fmt.Sprintf("%d departures invented: %s", n, k))
		}
	}
	sort.Slice(l, func(i, j int) bool { // by date and time
		return l[i][strings.Index(l[i], ": ")+1:] < l[j][strings.Index(l[j], ": ")+1:]
	})
	if len(l) > 6 {
		l = l[:6]
	}
	if len(l) > 0 {
		return "the timetable changed\n" + strings.Join(l, "\n")
	}
	return ""
}

// related compares transfers, pathways between stops in use and fare rules of routes in use.
func related(x, y *Snap, ops []string) string {
	use := func(s *Snap, all bool) (full, short []string) {
		v := NewView(s, everyKind...).Skip("stop.lat", "stop.lon", "stop.zone", "route.sort")
		m := modelOrphans(s)
		add := func(l *[]string, kind string, t M, drop ...string) {
			n := t.clone()
			for k := range n {
				if in(drop, k) || k[0] == '+' && len(drop) > 0 {
					delete(n, k)
				}
			}
			*l = append(*l, kind+" "+v.row(kind, n))
		}
		for _, t := range s.Transfers {
			ok := all || t["ftrip"] == "" && t["ttrip"] == "" && m.transfers[t.key()] == "keep"
			if ok {
				add(&full, "transfer", t)
				add(&short, "transfer", t, "type", "min")
			}
		}
		for id, f := range s.Fares {
			for _, r := range s.FareRules[id] {
				if x := r["route"]; all || x == "" || m.routes[x] {
					add(&short, "fare", f, "x")
					add(&short, "rule", r, "x")
				}
			}
		}
		for _, p := range s.Pathways {
			if all || m.stops[p["from"]] && m.stops[p["to"]] {
				add(&full, "pathway", p)
				add(&short, "pathway", p, "x")
			}
		}
		return uniqS(full), uniqS(short)
	}
	ax, _ := use(x, true)
	_, bx := use(x, false)
	ay, _ := use(y, false)
	_, by := use(y, true) // stops of trips which have been joined with others may not be used any more
	for _, r := range ay {
		if !in(ax, r) {
			return "invented: " + r
		}
	}
	if in(ops, "I") && in(ops, "O") { // platforms of removed duplicates may be gone
		return ""
	}
	for _, r := range bx {
		if !in(by, r) {
			return "lost: " + r
		}
	}
	return ""
}

var lossless = []string{"O", "A", "P", "S", "R", "C", "c", "I", "T", "i"}

// pipeline is what the command line tool makes of a set of lossless options (bits of mask).
func pipeline(mask int) (ops, flags []string) {
	on := map[string]bool{}
	for i, o := range lossless {
		if mask&(1<<uint(i)) != 0 {
			on[o] = true
			flags = append(flags, "-"+o)
		}
	}
	add := func(c bool, l ...string) {
		if c {
			ops = append(ops, l...)
		}
	}
	add(on["O"], "O")
	add(on["A"], "A")
	add(on["P"], "P")
	add(on["S"], "m", "S")
	add(on["R"], "R")
	add(on["C"], "C")
	add(on["I"] && on["c"], "c")
	add(on["I"], "I")
	add(on["I"] && on["O"], "O")
	add(on["I"] && on["C"], "C")
	add(on["c"], "c")
	add(on["T"], "T")
	add(on["i"], "i")
	return
}

func checkC02(c *Ctx) {
	oracle := func(e *Exec) string {
		if m := problems(e); m != "" {
			return m
		}
		ops := e.Scn.Ops
		if m := sameTimetable(timetable(e.In, ops, false), timetable(e.Out, ops, false), ops); m != "" {
			return m
		}
		return related(e.In, e.Out, ops)
	}
	world := worldFeeds()
	var names []string
	for k := range world {
		names = append(names, k)
	}
	for i, nm := range sorted(names) {
		if c.Quick() && i%3 != 0 {
			continue
		}
		for m := 1; m < 1<<uint(len(lossless)); m++ {
			ops, _ := pipeline(m)
			x := fmt.Sprintf("set %s %d", nm, m)
			if c.Mine(x) {
				c.Run(Scn{Name: x, T: world[nm], Ops: ops}, oracle)
			}
		}
	}
	// --- trips that are duplicates, or a headway apart, on related dates, of duplicate routes and at duplicate stops ---
	hist := []svcSpec{{62, d0, d0 + 11, nil}, {62, d0, d0 + 12, map[int]int{d0 + 12: 2}}, {62, d0, d0 + 6, nil}, {62, d0 + 7, d0 + 25, nil}, {62, d0 + 14, d0 + 25, nil}, {62, d0 + 28, d0 + 33, nil}}
	if c.Quick() {
		hist = hist[1:]
	}
	nk := 0
	for n := 2; n <= c.Pick(3, 4); n++ {
		dims := make([]int, n+3)
		for i := 0; i < n; i++ {
			dims[i] = len(hist)
		}
		dims[n], dims[n+1], dims[n+2] = 3, 4, 4
		product(dims, func(v []int) {
			nm := fmt.Sprintf("trips %v", v)
			nk++
			if !c.Mine(nm) || n == 4 && nk%5 != 0 {
				return
			}
			t := dupBase()
			t.Add("routes", routeRow("r5", "a1", "route_short_name", "r1", "route_long_name", t["routes"][0].Get("route_long_name")))
			t["routes"][0] = t["routes"][0].With("route_short_name", "r1")
			for i, s := range hist {
				s.rows(t, fmt.Sprintf("v%d", i))
			}
			for i := 0; i < n; i++ {
				dep := 36000
				if v[n] == 1 || v[n] == 2 && i > 0 {
					dep += 600 * i
				}
				id := fmt.Sprintf("t%d", i)
				route, mid := "r1", "s2"
				if v[n+1]&1 != 0 && i == 1 {
					route = "r5"
				}
				if v[n+1]&2 != 0 && i != 1 {
					mid = "s2b"
				}
				t.Add("trips", tripRow(id, route, fmt.Sprintf("v%d", v[i]), "shape_id", []string{"", "p1", "p2"}[(i+v[n+1])%3]))
				t.Add("stop_times", stRow(id, 1, "s1", dep), stRow(id, 2, mid, dep+300), stRow(id, 3, "s3", dep+900))
			}
			for i := range hist { // others use the services as well
				if v[n+2] == 1 || v[n+2] == 2 && i == v[0] || v[n+2] == 3 && i == v[1] {
					t.simpleTrip(fmt.Sprintf("o%d", i), "r1", fmt.Sprintf("v%d", i), 50000+660*i)
				}
			}
			full := 1<<uint(len(lossless)) - 1
			for _, m := range []int{1 << 7, full, nk * 389 % full} {
				ops, _ := pipeline(m)
				c.Run(Scn{Name: fmt.Sprintf("%s %d", nm, m), T: t, Ops: ops, Par: 1 + nk%3}, oracle)
			}
		})
	}
	// --- the scenarios of the other checks ---
	n := 0
	c.harvestAll(c.Pick(40, 7), func(nm string, s Scn) {
		if len(s.Extra) > 0 {
			return
		}
		for k := 0; k < 2; k++ {
			m := 1<<uint(len(lossless)) - 1
			if k == 1 {
				n++
				m = n * 389 % m
			}
			ops, _ := pipeline(m)
			c.Run(Scn{Name: fmt.Sprintf("after %s %d", nm, m), T: s.T, Ops: ops}, oracle)
		}
	})
	// --- the command line, with one feed and with several ---
	type in2 struct {
		nm string
		l  []T
	}
	ma, mb := mergeable()
	sets := []in2{{"two", []T{ma, mb}}, {"equal", []T{ma, ma}}, {"rich", []T{richFeed()}}, {"crowd", []T{crowd(4, 2, 27)}}, {"three", []T{richFeed(), richFeed().distinct(1), ma}}}
	run := func(nm string, feeds []T, ops, flags []string) {
		if !c.Mine(nm) {
			return
		}
		c.cliCheck(Scn{Name: nm, T: feeds[0], Extra: feeds[1:], Args: flags}, func() (string, string) {
			want := feeds[0]
			if len(feeds) > 1 {
				var m string
				if want, m = mergeFeeds(feeds, "", map[string]bool{}, nil); m != "" {
					return "", m
				}
			}
			f, err := want.Load()
			if err != nil {
				return "", "the feeds cannot be joined: " + err.Error()
			}
			r := cliRun(feeds, flags...)
			if m := r.ok(); m != "" {
				return "", m
			}
			x := TakeSnap(f)
			if m := sameTimetable(timetable(x, ops, len(feeds) > 1), timetable(r.Snap, ops, len(feeds) > 1), ops); m != "" {
				return "", m
			}
			return r.Snap.Canon(), related(x, r.Snap, ops)
		})
	}
	for i, s := range sets {
		for m := 0; m < 1<<uint(len(lossless)); m++ {
			if c.Quick() && (m+i)%9 != 0 {
				continue
			}
			ops, flags := pipeline(m)
			run(fmt.Sprintf("cli %s %s", s.nm, strings.Join(flags, " ")), s.l, ops, flags)
		}
		all := append([]string{"s"}, lossless...)
		run(fmt.Sprintf("cli %s --compress", s.nm), s.l, append([]string{"m"}, all...), []string{"--compress"})
		run(fmt.Sprintf("cli %s --merge", s.nm), s.l, []string{"A", "R", "P", "I", "C", "O", "c"}, []string{"--merge"})
	}
}
