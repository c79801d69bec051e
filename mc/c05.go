package main

import (
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"
)

func init() { checks["C05"] = checkC05 }

func atoi(s string) int { n, _ := strconv.Atoi(s); return n }

// departures expands all trips: one entry per departure, with everything a passenger sees of it.
func departures(s *Snap) map[string]int {
	r := map[string]int{}
	att := map[string][]string{}
	for _, a := range s.Attribs {
		if a["trip_id"] != "" {
			att[a["trip_id"]] = append(att[a["trip_id"]], a.key("trip_id"))
		}
	}
	for id, t := range s.Trips {
		k := t.key()
		al := att[id]
		sort.Strings(al)
		k += " attributions " + strings.Join(al, ",")
		sts := s.StopTimes[id]
		if len(sts) == 0 || sts[0]["dep"] == "" {
			for i, st := range sts {
				k += fmt.Sprintf(" <%d %s>", i, st.key())
			}
			for _, f := range s.Freqs[id] {
				k += " f<" + f.key() + ">"
			}
			r["untimed "+k]++
			continue
		}
		d0 := atoi(sts[0]["dep"])
		for _, st := range sts {
			n := st.clone()
			delete(n, "seq")
			for _, x := range []string{"arr", "dep"} {
				if n[x] != "" {
					n[x] = fmt.Sprint(atoi(n[x]) - d0)
				}
			}
			if n["dist"] != "" { // measures are compared with a tolerance of 0.01
				n["dist"] = fmt.Sprint(math.Round(pf(n["dist"]) * 10))
			}
			k += " <" + n.key() + ">"
		}
		if len(s.Freqs[id]) == 0 {
			r[fmt.Sprintf("%s exact %s", hms(d0), k)]++
		}
		for _, f := range s.Freqs[id] {
			w := "exact"
			if f["exact"] != "1" {
				w = "not exact"
			}
			for x := atoi(f["start"]); x < atoi(f["end"]) && atoi(f["headway"]) > 0; x += atoi(f["headway"]) {
				r[fmt.Sprintf("%s %s %s", hms(x), w, k)]++
			}
		}
	}
	return r
}

func freqOracle(min, max int) func(e *Exec) string {
	return func(e *Exec) string {
		if m := problems(e); m != "" {
			return m
		}
		a, b := NewView(e.In), NewView(e.Out)
		if m := Same(a, b, "trip", "transfer", "attrib"); m != "" {
			return m
		}
		x, y := departures(e.In), departures(e.Out)
		var l []string
		for k, n := range x {
			if y[k] != n {
				l = append(l, fmt.Sprintf("%d instead of %d departures: %s", y[k], n, k))
			}
		}
		for k, n := range y {
			if x[k] == 0 {
				l = append(l, fmt.Sprintf("%d departures invented: %s", n, k))
			}
		}
		sort.Strings(l)
		if len(l) > 6 {
			l = l[:6]
		}
		if len(l) > 0 {
			return "departures changed\n" + strings.Join(l, "\n")
		}
		if len(e.Out.Trips) > len(e.In.Trips) {
			return "there are more trips than before"
		}
		old := map[string]bool{}
		for _, fs := range e.In.Freqs {
			for _, f := range fs {
				old[f["headway"]] = true
			}
		}
		for id, fs := range e.Out.Freqs {
			for _, f := range fs {
				if h := atoi(f["headway"]); (h < min || h > max) && !old[f["headway"]] {
					return fmt.Sprintf("frequency of trip %s has headway %d, outside of %d-%d", id, h, min, max)
				}
			}
		}
		for _, tf := range e.In.Transfers {
			gone := tf["ftrip"] != "" && e.Out.Trips[tf["ftrip"]] == nil || tf["ttrip"] != "" && e.Out.Trips[tf["ttrip"]] == nil
			n := 0
			for _, x := range e.Out.Transfers {
				if x.key() == tf.key() {
					n++
				}
			}
			if !gone && n != 1 {
				return "transfer lost: " + tf.key()
			}
		}
		if len(e.Out.Transfers) > len(e.In.Transfers) {
			return "transfer invented"
		}
		var p, q []string
		for _, m := range e.In.Attribs {
			if m["trip_id"] == "" {
				p = append(p, m.key())
			}
		}
		for _, m := range e.Out.Attribs {
			if m["trip_id"] == "" {
				q = append(q, m.key())
			}
		}
		if strings.Join(p, "\n") != strings.Join(q, "\n") {
			return "attributions changed"
		}
		return ""
	}
}

// freqTrip adds a trip s1 - s2 - s3 departing at dep, waiting dwell seconds at the first stop before.
func (t T) freqTrip(id string, dep, dwell int, kv ...string) T {
	t.Add("trips", tripRow(id, "r1", "v0", "trip_headsign", "H").With(kv...))
	t.Add("stop_times", stRow(id, 1, "s1", dep-dwell, "departure_time", hms(dep), "shape_dist_traveled", ""), stRow(id, 2, "s2", dep+300, "departure_time", hms(dep+360)), stRow(id, 3, "s3", dep+900))
	return t
}

func (t T) freq(id string, start, end, headway int, exact int, kv ...string) T {
	return t.Add("frequencies", R("trip_id", id, "start_time", hms(start), "end_time", hms(end), "headway_secs", fmt.Sprint(headway), "exact_times", fmt.Sprint(exact)).With(kv...))
}

func freqBase() T {
	t := dupBase()
	t.Add("calendar", calRow("v0", 62, d0, d0+20), calRow("v1", 65, d0, d0+20))
	return t
}

func checkC05(c *Ctx) {
	run := func(nm string, t T, par int) {
		c.Run(Scn{Name: nm + " T", T: t, Ops: []string{"T"}, Par: par}, freqOracle(1, 86400))
		c.Run(Scn{Name: nm + " T600", T: t, Ops: []string{"T600"}, Par: par}, freqOracle(120, 600))
	}
	// multisets of departures on a grid
	slots := []int{0, 300, 600, 900, 1200, 1500, 1800, 2100, 2700}[:c.Pick(8, 9)]
	var ms func(k, from int, cur []int)
	ms = func(k, from int, cur []int) {
		if k == 0 {
			nm := fmt.Sprintf("grid %v", cur)
			if !c.Mine(nm) {
				return
			}
			t := freqBase()
			for i, x := range cur {
				t.freqTrip(fmt.Sprintf("t%d", i), 36000+slots[x], 60*(len(cur)%2))
			}
			if len(cur)%3 == 0 {
				t.Rev("trips")
			}
			run(nm, t, 1+len(cur)%4)
			return
		}
		for i := from; i < len(slots); i++ {
			ms(k-1, i, append(append([]int{}, cur...), i))
		}
	}
	for k := 1; k <= c.Pick(6, 8); k++ {
		ms(k, 0, nil)
	}
	// off-grid departures
	offs := []int{0, 1, 60, 61, 121, 300, 601, 3600, 7200}
	subsets(len(offs), len(offs), func(v []int) {
		nm := fmt.Sprintf("odd %v", v)
		if len(v) < 2 || !c.Mine(nm) {
			return
		}
		t := freqBase()
		for i, x := range v {
			t.freqTrip(fmt.Sprintf("t%d", i), 80000+offs[x], 0)
		}
		run(nm, t, 2)
	})
	// existing frequencies
	type fr struct{ start, end, head, exact int }
	var frs []fr
	for _, st := range []int{0, 300, 900} {
		for _, ln := range []int{0, 300, 301, 1200} {
			for _, h := range []int{300, 600} {
				for ex := 0; ex < 2; ex++ {
					frs = append(frs, fr{36000 + st, 36000 + st + ln, h, ex})
				}
			}
		}
	}
	for i := range frs {
		for j := -1; j < len(frs); j++ {
			if j >= 0 && j < i {
				continue
			}
			for m := 0; m < 16; m++ {
				nm := fmt.Sprintf("freq %d %d %d", i, j, m)
				if !c.Mine(nm) {
					continue
				}
				t := freqBase()
				f := frs[i]
				t.freqTrip("f0", 50000, 30*(m&1)).freq("f0", f.start, f.end, f.head, f.exact)
				if j >= 0 {
					f = frs[j]
					if m&2 != 0 && i != j {
						t.freq("f0", f.start+3600, f.end+3600, f.head, f.exact)
					}
					t.freqTrip("f1", 30000, 30*(m&1)).freq("f1", f.start, f.end, f.head, f.exact)
				}
				for k := 0; k < 4; k++ {
					if m&(1<<uint(k)) != 0 {
						t.freqTrip(fmt.Sprintf("t%d", k), 36000+300*k, 30*(m&1))
					}
				}
				run(nm, t, 1+m%3)
			}
		}
	}
	// a few departures, with headways within and outside of the bounds
	heads := []int{30, 300, 3600, 7200, 90000}
	for hi := range heads {
		for hj := range heads {
			for m := 0; m < 128; m++ {
				nm := fmt.Sprintf("few %d %d %d", hi, hj, m)
				if !c.Mine(nm) {
					continue
				}
				t := freqBase()
				n := 1 + m>>2&1
				t.freqTrip("f0", 50000, 30*(m>>6&1)).freq("f0", 36000, 36000+n*heads[hi], heads[hi], m&1)
				t.freqTrip("f1", 30000, 30*(m>>6&1)).freq("f1", 43200, 43200+(m>>3&1)*heads[hj]+1, heads[hj], m>>1&1)
				for k := 0; k < m>>4&3; k++ {
					t.freqTrip(fmt.Sprintf("t%d", k), 36000+300*(k+1), 30*(m>>6&1))
				}
				run(nm, t, 1+m%3)
			}
		}
	}
	// departures at the start of the day and after midnight
	for dwell := 0; dwell <= 120; dwell += 40 {
		for st := 0; st <= 120; st += 30 {
			for ex := 0; ex < 2; ex++ {
				for m := 0; m < 4; m++ {
					nm := fmt.Sprintf("midnight %d %d %d %d", dwell, st, ex, m)
					if !c.Mine(nm) {
						continue
					}
					t := freqBase()
					t.freqTrip("f0", 3600, dwell).freq("f0", st, st+600, 600, ex)
					t.freqTrip("f1", 86400*(m&1)+7200, dwell).freq("f1", st+200, st+900, 600, ex)
					t.freqTrip("f2", 90000, dwell)
					if m&2 != 0 {
						t.freqTrip("f3", 93600, dwell)
					}
					run(nm, t, 2)
				}
			}
		}
	}
	// departures on one of the following days
	for _, at := range []int{24, 30, 36, 47, 48, 60, 71, 72, 96, 99, 100, 120} {
		for m := 0; m < 32; m++ {
			nm := fmt.Sprintf("late %d %d", at, m)
			if !c.Mine(nm) {
				continue
			}
			t := freqBase()
			for i, o := range []int{-3600, -1800, 0, 1800, 3600} {
				if m&(1<<uint(i)) == 0 || i != 2 {
					t.freqTrip(fmt.Sprintf("t%d", i), 3600*at+o, 60*(m&1))
				}
			}
			if m&4 != 0 {
				t.freqTrip("f", 36000, 30*(m&1)).freq("f", 3600*at-900*(m&1), 3600*at+3600, 900+900*(m>>1&1), m>>3&1)
			}
			if m&16 != 0 {
				t.freqTrip("e", 3600*(at%24)+120, 60*(m&1))
			}
			run(nm, t, 1+m%3)
		}
	}
	es := []int{0, 1, 30, 60, 600, 630, 1200, 1230, 7000}
	subsets(len(es), c.Pick(5, 9), func(v []int) {
		for dw := 0; dw <= 30; dw += 15 {
			nm := fmt.Sprintf("early %v %d", v, dw)
			if len(v) < 2 || es[v[0]] < dw || !c.Mine(nm) {
				continue
			}
			t := freqBase()
			for i, x := range v {
				t.freqTrip(fmt.Sprintf("t%d", i), es[x], dw)
			}
			run(nm, t, 2)
			run(nm+" reversed", t.Clone().Rev("trips"), 2)
		}
	})
	// one trip of a progression differs in one attribute
	fields := [][]string{{"route_id", "r2"}, {"service_id", "v1"}, {"trip_headsign", ""}, {"trip_headsign", "G"}, {"trip_short_name", "1"}, {"direction_id", "0"}, {"direction_id", "1"}, {"block_id", "k"}, {"shape_id", "p1"},
		{"wheelchair_accessible", "1"}, {"bikes_allowed", "2"}, {"x_own", "q"}}
	for _, f := range fields {
		for m := 1; m < 31; m++ {
			nm := fmt.Sprintf("attr %v %d", f, m)
			if !c.Mine(nm) {
				continue
			}
			t := freqBase()
			for i := 0; i < 5; i++ {
				var kv []string
				if m&(1<<uint(i)) != 0 {
					kv = f
				} else if f[0] == "shape_id" {
					kv = []string{"shape_id", "p2"}
				} else if f[0] == "x_own" {
					kv = []string{"x_own", "w"}
				}
				t.freqTrip(fmt.Sprintf("t%d", i), 36000+600*i, 0, kv...)
			}
			run(nm, t, 2)
			t.Rev("trips")
			run(nm+" reversed", t, 1)
		}
	}
	// two values of one attribute
	vals := [][]string{{"route_id", "r1", "r2"}, {"trip_headsign", "", "H", "h", "G"}, {"trip_short_name", "", "1", "2"}, {"direction_id", "", "0", "1"}, {"block_id", "", "k", "l"}, {"shape_id", "", "p1", "p2"},
		{"wheelchair_accessible", "", "0", "1", "2"}, {"bikes_allowed", "", "0", "1", "2"}, {"x_own", "", "q", "w"}}
	vals = withLong(vals, "trip_headsign", "trip_short_name", "block_id", "x_own")
	svals := [][]string{{"pickup_type", "", "0", "1", "2", "3"}, {"drop_off_type", "", "0", "1", "2", "3"}, {"continuous_pickup", "", "0", "1", "2", "3"}, {"continuous_drop_off", "", "0", "1", "2", "3"}, {"timepoint", "", "0", "1"}, {"x_st", "", "q", "w"}}
	for k, f := range append(append([][]string{}, vals...), svals...) {
		for i := 1; i < len(f); i++ {
			for j := 1; j < len(f); j++ {
				for m := 1; m < 8; m++ {
					nm := fmt.Sprintf("value-pair %s %d %d %d", f[0], i, j, m)
					if !c.Mine(nm) {
						continue
					}
					t := freqBase()
					for q := 0; q < 4; q++ {
						v := f[i]
						if m>>uint(q)&1 == 1 {
							v = f[j]
						}
						id := fmt.Sprintf("t%d", q)
						if k < len(vals) {
							t.freqTrip(id, 36000+600*q, 0, f[0], v)
						} else {
							t.freqTrip(id, 36000+600*q, 0)
							n := len(t["stop_times"])
							t["stop_times"][n-1-m%3] = t["stop_times"][n-1-m%3].With(f[0], v)
						}
					}
					run(nm, t, 1+m%3)
				}
			}
		}
	}
	// stop times of one trip of a progression differ
	sf := [][]string{{"stop_id", "s2b"}, {"pickup_type", "1"}, {"drop_off_type", "2"}, {"continuous_pickup", "0"}, {"continuous_drop_off", "2"}, {"timepoint", "0"}, {"shape_dist_traveled", "5"}, {"shape_dist_traveled", "5.004"}, {"x_st", "q"},
		{"arrival_time", ""}, {"departure_time", ""}, {"empty", ""}, {"stop_sequence", "", "x_st", "a"}}
	for _, f := range sf {
		for pos := 0; pos < 3; pos++ {
			for m := 1; m < 16; m++ {
				nm := fmt.Sprintf("st-attr %v %d %d", f, pos, m)
				if !c.Mine(nm) {
					continue
				}
				t := freqBase()
				for i := 0; i < 4; i++ {
					id := fmt.Sprintf("t%d", i)
					t.freqTrip(id, 36000+600*i, 0)
					ri := 3*i + pos
					r := t["stop_times"][ri]
					if f[0] == "shape_dist_traveled" {
						for q := 0; q < 3; q++ {
							t["stop_times"][3*i+q] = t["stop_times"][3*i+q].With("shape_dist_traveled", "5")
						}
						r = t["stop_times"][ri]
						if f[1] == "5" && m&(1<<uint(i)) != 0 {
							for q := 0; q < 3; q++ {
								x := fmt.Sprint(5 + q)
								if q >= pos {
									x = fmt.Sprint(8 + q)
								}
								t["stop_times"][3*i+q] = t["stop_times"][3*i+q].With("shape_dist_traveled", x)
							}
							continue
						}
					}
					if m&(1<<uint(i)) == 0 {
						if f[0] == "x_st" {
							t["stop_times"][ri] = r.With("x_st", "w")
						}
						continue
					}
					d := 36000 + 600*i + []int{0, 300, 900}[pos]
					switch f[0] {
					case "arrival_time":
						r = r.With("arrival_time", hms(d-20))
					case "departure_time":
						r = r.With("departure_time", hms(d+90))
					case "empty":
						r = r.With("arrival_time", "", "departure_time", "", "timepoint", "0")
					case "stop_sequence":
						for q := 0; q < 3; q++ {
							t["stop_times"][3*i+q] = t["stop_times"][3*i+q].With("stop_sequence", fmt.Sprint(3+q*2), "x_st", fmt.Sprint("a", (q+pos)%3))
						}
						continue
					case "shape_dist_traveled":
						for q := pos; q < 3; q++ {
							t["stop_times"][3*i+q] = t["stop_times"][3*i+q].With(f...)
						}
						continue
					default:
						r = r.With(f...)
					}
					t["stop_times"][ri] = r
				}
				if f[0] == "stop_sequence" {
					for i := 0; i < 4; i++ {
						if m&(1<<uint(i)) == 0 {
							for q := 0; q < 3; q++ {
								t["stop_times"][3*i+q] = t["stop_times"][3*i+q].With("x_st", fmt.Sprint("a", q))
							}
						}
					}
				}
				run(nm, t, 2)
			}
		}
	}
	// all trips lack some times
	for m := 1; m < 8; m++ {
		for n := 2; n < 5; n++ {
			nm := fmt.Sprintf("untimed %d %d", m, n)
			if !c.Mine(nm) {
				continue
			}
			t := freqBase()
			for i := 0; i < n; i++ {
				t.freqTrip(fmt.Sprintf("t%d", i), 36000+600*i, 60)
				for q := 0; q < 3; q++ {
					if m&(1<<uint(q)) != 0 {
						t["stop_times"][3*i+q] = t["stop_times"][3*i+q].With("arrival_time", "", "departure_time", "", "timepoint", "0")
					}
				}
			}
			run(nm, t, 2)
		}
	}
	// measures that differ by less than the tolerance, but not pairwise
	ds := []string{"5", "5.008", "5.016", "5.3", "8"}
	for n := 2; n <= 4; n++ {
		dims := make([]int, n)
		for i := range dims {
			dims[i] = len(ds)
		}
		product(dims, func(v []int) {
			nm := fmt.Sprintf("measures %v", v)
			if !c.Mine(nm) {
				return
			}
			t := freqBase()
			for i, x := range v {
				t.freqTrip(fmt.Sprintf("t%d", i), 36000+600*i, 0)
				t["stop_times"][3*i+2] = t["stop_times"][3*i+2].With("shape_dist_traveled", ds[x])
			}
			run(nm, t, 2)
			t.Rev("trips")
			run(nm+" reversed", t, 2)
		})
	}
	// ids that collide with generated ones, attributions, transfers, additional fields, several groups, empty trips
	for m := 0; m < 128; m++ {
		for v := 0; v < 4; v++ {
			nm := fmt.Sprintf("extras %d %d", m, v)
			if !c.Mine(nm) {
				continue
			}
			t := freqBase()
			ts := [][]int{{0, 600, 1200}, {0, 300, 600, 1000, 1300, 1600}, {0, 60, 600, 660, 1200, 1260, 1500}, {0, 600, 1300, 2100, 2200}}[v]
			for i, x := range ts {
				id := fmt.Sprintf("t%d", i)
				if m&1 != 0 {
					id = []string{"t", "t_2", "t_3", "t_2_2", "t_3_2", "t_4", "t_5"}[i]
				}
				t.freqTrip(id, 36000+x, 0)
				if m&2 != 0 {
					t["trips"][i] = t["trips"][i].With("x_own", "w")
					for q := 0; q < 3; q++ {
						t["stop_times"][3*i+q] = t["stop_times"][3*i+q].With("x_st", fmt.Sprint("q", q))
					}
				}
				if m&4 != 0 && (i == v || i == v+1) {
					t.A("attributions", "attribution_id", fmt.Sprintf("b%d", i), "trip_id", id, "organization_name", fmt.Sprintf("O%d", i%2), "is_producer", "1")
				}
				if m&8 != 0 && i%2 == v%2 {
					t.A("transfers", "from_stop_id", "s1", "to_stop_id", "s2", "from_trip_id", id, "to_trip_id", "", "transfer_type", "1")
				}
				if m&16 != 0 && i == 1 {
					t.freq(id, 36000+x, 36000+x+1200, 600, 1, "x_fr", "z").freq(id, 37000+x, 36000+x+1200, 600, 1, "x_fr", "y")
				}
			}
			if m&32 != 0 {
				for i := 0; i < 4; i++ {
					t.simpleTrip(fmt.Sprintf("o%d", i), "r2", "v1", 50000+i*100*(v+1))
				}
			}
			if m&64 != 0 {
				t.Add("trips", tripRow("e1", "r1", "v0", "trip_headsign", "H"), tripRow("e2", "r1", "v0", "trip_headsign", "H"))
				t.A("transfers", "from_stop_id", "s1", "to_stop_id", "s2", "from_trip_id", "", "to_trip_id", "", "transfer_type", "3")
				t.A("attributions", "attribution_id", "br", "route_id", "r1", "organization_name", "R", "is_producer", "1")
			}
			run(nm, t, 1+m%4)
		}
	}
	// ids like generated ones taken by unrelated trips
	for v := 0; v < 64; v++ {
		for m := 0; m < 6; m++ {
			nm := fmt.Sprintf("taken %d %d", v, m)
			if !c.Mine(nm) {
				continue
			}
			t := freqBase()
			ts := []int{0, 180, 600, 780, 1200, 1380, 1500, 2750}[:4+m%3*2]
			for i, x := range ts {
				t.freqTrip(fmt.Sprintf("t%d", i), 36000+x, 0)
			}
			for i := range ts {
				for k := 0; k < 6; k++ {
					if v&(1<<uint(k)) == 0 {
						continue
					}
					id := fmt.Sprintf("t%d_%d", i, 2+k%3)
					if k >= 3 {
						id += "_2"
					}
					switch (k + m) % 3 {
					case 0:
						t.simpleTrip(id, "r2", "v0", 50000+100*i+k)
					case 1:
						t.freqTrip(id, 50000+777*i*i+k, 0, "service_id", "v1")
					default:
						t.freqTrip(id, 36000+300*i, 0, "trip_headsign", "G")
					}
				}
			}
			run(nm, t, 1+m%3)
		}
	}
	for i, ts := range [][]int{{0, 600, 1200}, {0, 300, 600, 1000, 1300, 1600}, {0, 60, 600, 660, 1200}} {
		nm := fmt.Sprintf("sched %d", i)
		if !c.Mine(nm) {
			continue
		}
		t := freqBase()
		for k, x := range ts {
			t.freqTrip(fmt.Sprintf("t%d", k), 36000+x, 0)
		}
		t.freqTrip("f", 40000, 0).freq("f", 36000, 37000, 400, i%2)
		for _, par := range []int{2, 3} {
			c.Explore(Scn{Name: fmt.Sprint(nm, " p", par), T: t, Ops: []string{"T"}, Par: par, Maps: true}, c.Pick(2, 3), c.Pick(2500, 30000), freqOracle(1, 86400))
		}
	}
}
