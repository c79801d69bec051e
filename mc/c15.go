package main

import (
	"fmt"
	"math"
)

func init() { checks["C15"] = checkC15 }

// plane maps positions to metres around a reference point.
func plane(ref Pt, lat, lon float64) xy {
	const m = 111319.49079327357
	return xy{(lon - float64(ref.Lon)) * m * math.Cos(float64(ref.Lat)*math.Pi/180), (lat - float64(ref.Lat)) * m}
}

// measuredPlaces lists the positions on a shape that carry a measure.
func measuredPlaces(line []xy, pts []Pt, m float64) []xy {
	var r []xy
	for i := 0; i+1 < len(pts); i++ {
		a, b := pts[i].Dist, pts[i+1].Dist
		if math.IsNaN(a) || math.IsNaN(b) || m < a || m > b {
			continue
		}
		if a == b {
			r = append(r, line[i], line[i+1])
			continue
		}
		f := (m - a) / (b - a)
		r = append(r, xy{line[i].x + f*(line[i+1].x-line[i].x), line[i].y + f*(line[i+1].y-line[i].y)})
	}
	return r
}

func lineDist(p xy, line []xy) float64 {
	if len(line) == 1 {
		return math.Hypot(p.x-line[0].x, p.y-line[0].y)
	}
	d := math.Inf(1)
	for i := 1; i < len(line); i++ {
		d = math.Min(d, segDist(p, line[i-1], line[i]))
	}
	return d
}

const snapTol = 4.0

func snapOracle(e *Exec) string {
	if m := problems(e); m != "" {
		return m
	}
	a, b := NewView(e.In).Skip("st.stop"), NewView(e.Out).Skip("st.stop")
	if d := Same(a, b, "stop"); d != "" {
		return d
	}
	for id := range e.In.Stops {
		if _, ok := e.Out.Stops[id]; !ok {
			return "stop " + id + " is gone"
		}
		if a.val("stop", id) != b.val("stop", id) {
			return fmt.Sprintf("stop %s changed:\n- %s\n+ %s", id, a.val("stop", id), b.val("stop", id))
		}
	}
	va, vb := NewView(e.In).Skip("stop.lat", "stop.lon"), NewView(e.Out).Skip("stop.lat", "stop.lon")
	used := map[string]bool{}
	for tid, t := range e.In.Trips {
		pts := e.In.Shapes[t["shape"]]
		for i, st := range e.In.StopTimes[tid] {
			x, y := st["stop"], e.Out.StopTimes[tid][i]["stop"]
			used[y] = true
			what := fmt.Sprintf("trip %s call %d at %s", tid, i, x)
			if x != y {
				if e.In.Stops[y] != nil {
					return what + " moved to the existing stop " + y
				}
				if va.val("stop", x) != vb.val("stop", y) {
					return fmt.Sprintf("%s: the moved stop has other attributes:\n- %s\n+ %s", what, va.val("stop", x), vb.val("stop", y))
				}
			}
			if len(pts) == 0 {
				if x != y {
					return what + " moved although the trip has no shape"
				}
				continue
			}
			var line []xy
			for _, p := range pts {
				line = append(line, plane(pts[0], float64(p.Lat), float64(p.Lon)))
			}
			s := plane(pts[0], pf(e.In.Stops[x]["lat"]), pf(e.In.Stops[x]["lon"]))
			// the place served is where the shape has the call's measure, or the nearest one
			lo := lineDist(s, line)
			hi := lo
			var places []xy
			if st["dist"] != "" {
				places = measuredPlaces(line, pts, pf(st["dist"]))
				for _, c := range places {
					hi = math.Max(hi, math.Hypot(c.x-s.x, c.y-s.y))
				}
			}
			if x == y && lo > 100+snapTol {
				return fmt.Sprintf("%s is %.1f m off the shape but was not moved", what, lo)
			}
			if x != y && hi < 100-snapTol {
				return fmt.Sprintf("%s is only %.1f m off the shape but was moved", what, hi)
			}
			if x == y {
				continue
			}
			q := plane(pts[0], pf(e.Out.Stops[y]["lat"]), pf(e.Out.Stops[y]["lon"]))
			if d := lineDist(q, line); !(d <= snapTol) {
				return fmt.Sprintf("%s was moved to a place %.1f m off the shape", what, d)
			}
			ok := math.Hypot(q.x-s.x, q.y-s.y) <= lo+snapTol
			for _, c := range places {
				ok = ok || math.Hypot(c.x-q.x, c.y-q.y) <= snapTol
			}
			if !ok {
				return fmt.Sprintf("%s was moved to %v, which is neither the nearest point nor one with measure %s: %v", what, q, st["dist"], places)
			}
		}
	}
	for id := range e.Out.Stops {
		if e.In.Stops[id] == nil && !used[id] {
			return "new stop " + id + " is not used"
		}
	}
	return ""
}

func checkC15(c *Ctx) {
	lines := [][][2]float64{
		straight(0, 0, 2000, 0),
		straight(0, 0, 1000, 0, 1000, 800, 0, 800),
		straight(0, 0, 600, 300, 1200, -200, 600, -500, 0, 0),
		straight(0, 0, 900, 0, 900, 0, 1800, 0),
		straight(0, 0),
		straight(0, 0, 700, 0, 0, 0, -500, 400),
	}
	offs := [][2]float64{{0, 0}, {700, 60}, {300, -94}, {300, 108}, {1000, 400}, {-150, 0}, {900, 150}, {500, 399}}
	places := [][3]float64{{0.01, 0.01, 0}, {48, 7.8, 0.5}, {-54, 170, 2}}
	meas := []func(int) string{
		func(int) string { return "" },
		func(i int) string { return fmt.Sprint([]int{0, 250, 500, 500, 900}[i]) },
		func(i int) string { return []string{"0", "", "500", "700", ""}[i] },
		func(i int) string { return fmt.Sprint([]int{0, 500, 500, 500, 900}[i]) },
	}
	pos := func(p [3]float64, x, y float64) (float64, float64) {
		rx, ry := x*math.Cos(p[2])-y*math.Sin(p[2]), x*math.Sin(p[2])+y*math.Cos(p[2])
		return move(p[0], p[1], rx, ry)
	}
	feed := func(p [3]float64) T {
		t := T{}
		t.Add("agency", agencyRow("a1"))
		t.Add("routes", routeRow("r1", "a1"))
		t.Add("calendar", calRow("v", 127, d0, d0+6))
		t.Add("levels", R("level_id", "L", "level_index", "0", "level_name", "x"))
		la, lo := pos(p, 0, 50)
		t.Add("stops", stopRow("st", la, lo, "location_type", "1"))
		for i, o := range offs {
			la, lo := pos(p, o[0], o[1])
			id := fmt.Sprint("s", i)
			if i == 4 {
				id = "1#s5" // the id a moved s5 would get
			}
			full := []string{"parent_station", "st", "level_id", "L", "platform_code", "7", "stop_code", "c" + id, "stop_desc", "D", "zone_id", "z", "stop_url", "http://u.v/", "wheelchair_boarding", "1", "stop_timezone", "Europe/Berlin", "x_stop", "a" + id}
			if i%2 == 0 {
				full = []string{"x_stop", "b" + id}
			}
			t.Add("stops", stopRow(id, la, lo, full...))
		}
		t.Add("transfers", R("from_stop_id", "s3", "to_stop_id", "s5", "transfer_type", "2", "min_transfer_time", "60"))
		t.Add("pathways", R("pathway_id", "p", "from_stop_id", "s3", "to_stop_id", "s5", "pathway_mode", "1", "is_bidirectional", "1"))
		return t
	}
	stop := func(i int) string {
		if i == 4 {
			return "1#s5"
		}
		return fmt.Sprint("s", i)
	}
	sm := []string{"", "0", "125", "500", "690", "900", "5000"}
	type job struct {
		stops, ms []int
		shape     string
	}
	for li, l := range lines {
		for mi, m := range meas {
			for pi, p := range places {
				k, num := 0, 0
				var t T
				flush := func() {
					if k == 0 {
						return
					}
					nm := fmt.Sprintf("calls line %d meas %d place %d %d", li, mi, pi, num)
					num++
					k = 0
					if c.Mine(nm) {
						c.Run(Scn{Name: nm, T: t, Ops: []string{"snap"}, Par: 1 + num%3}, snapOracle)
					}
				}
				add := func(j job) {
					if k == 0 {
						t = feed(p)
						for q, x := range l {
							la, lo := pos(p, x[0], x[1])
							t.Add("shapes", shpRow("h", q+1, la, lo, "shape_dist_traveled", m(q)))
						}
						la, lo := pos(p, 0, 0)
						t.Add("shapes", shpRow("g", 1, la, lo))
						la, lo = pos(p, 1500, 900)
						t.Add("shapes", shpRow("g", 2, la, lo))
					}
					id := fmt.Sprint("t", k)
					t.Add("trips", tripRow(id, "r1", "v", "shape_id", j.shape))
					for i, s := range j.stops {
						t.Add("stop_times", stRow(id, i+1, stop(s), 1000*i+100, "shape_dist_traveled", sm[j.ms[i]], "pickup_type", fmt.Sprint(i%2), "timepoint", "1"))
					}
					if k++; k == 40 {
						flush()
					}
				}
				N := c.Pick(2, 3)
				for n := 1; n <= N; n++ {
					dims := []int{}
					for i := 0; i < n; i++ {
						dims = append(dims, len(offs), len(sm))
					}
					cnt := 0
					product(dims, func(v []int) {
						cnt++
						if n == 3 && cnt%23 != 0 {
							return
						}
						j := job{shape: []string{"h", "h", "", "g"}[cnt%4]}
						last := 0
						for i := 0; i < n; i++ {
							j.stops = append(j.stops, v[2*i])
							j.ms = append(j.ms, v[2*i+1])
							if v[2*i+1] > 0 && v[2*i+1] < last {
								return
							}
							last = imx(last, v[2*i+1])
						}
						add(j)
					})
				}
				flush()
			}
		}
	}
	// distances around the limit
	for pi, p := range places {
		for d := 60; d <= 140; d += 1 {
			for side := 0; side < 3; side++ {
				nm := fmt.Sprintf("limit %d side %d place %d", d, side, pi)
				if !c.Mine(nm) {
					continue
				}
				t := feed(p)
				for q, x := range lines[0] {
					la, lo := pos(p, x[0], x[1])
					t.Add("shapes", shpRow("h", q+1, la, lo))
				}
				x, y := 900.0, float64(d)
				if side == 1 {
					x, y = -float64(d)*0.6, -float64(d)*0.8
				}
				if side == 2 {
					x, y = 2000+float64(d)*0.8, float64(d)*0.6
				}
				la, lo := pos(p, x, y)
				t.Add("stops", stopRow("q", la, lo))
				t.Add("trips", tripRow("t", "r1", "v", "shape_id", "h"), tripRow("u", "r1", "v"))
				t.Add("stop_times", stRow("t", 1, "q", 0), stRow("t", 2, "s0", 900), stRow("u", 1, "q", 0), stRow("u", 2, "s0", 900))
				c.Run(Scn{Name: nm, T: t, Ops: []string{"snap"}, Par: 1}, snapOracle)
			}
		}
	}
	// ids a moved stop could get which are taken, by each kind of stop
	subsets(3, 3, func(sub []int) {
		for kind := 0; kind < 5; kind++ {
			for n := 1; n <= 3; n++ {
				nm := fmt.Sprintf("taken %v kind %d n %d", sub, kind, n)
				if !c.Mine(nm) {
					continue
				}
				t := T{}
				t.Add("agency", agencyRow("a1"))
				t.Add("routes", routeRow("r1", "a1"))
				t.Add("calendar", calRow("v", 127, d0, d0+6))
				la, lo := pos(places[0], 500, 400)
				t.Add("stops", stopRow("st", la, lo, "location_type", "1"), stopRow("s", la, lo, "parent_station", "st"))
				la, lo = pos(places[0], 0, 0)
				t.Add("stops", stopRow("s0", la, lo))
				for _, i := range sub {
					la, lo = pos(places[0], float64(i)*200, 700)
					x := []string{"location_type", fmt.Sprint(kind)}
					if kind > 1 {
						x = append(x, "parent_station", map[bool]string{true: "s", false: "st"}[kind == 4])
					}
					t.Add("stops", stopRow(fmt.Sprint(i+1, "#s"), la, lo, x...))
				}
				for k := 0; k < n; k++ {
					h, id := fmt.Sprint("h", k), fmt.Sprint("t", k)
					for q, x := range lines[k] {
						la, lo = pos(places[0], x[0], x[1]-float64(k)*40)
						t.Add("shapes", shpRow(h, q+1, la, lo))
					}
					t.Add("trips", tripRow(id, "r1", "v", "shape_id", h))
					t.Add("stop_times", stRow(id, 1, "s0", 0), stRow(id, 2, "s", 900), stRow(id, 3, "s", 1200))
				}
				c.Run(Scn{Name: nm, T: t, Ops: []string{"snap"}, Par: n}, snapOracle)
			}
		}
	})
	// shapes of many points, with and without measures, and many moved calls of one stop
	for n := 2; n <= c.Pick(700, 2500); n += 1 + n/3 {
		for at := 0; at < 3; at++ {
			for m := 0; m < 8; m++ {
				nm := fmt.Sprintf("long %d at %d %d", n, at, m)
				if !c.Mine(nm) {
					continue
				}
				p := places[m%len(places)]
				t := feed(p)
				k := 1
				if m&4 != 0 {
					k = 14
				}
				for j := 0; j < k; j++ {
					h, id := fmt.Sprint("h", j), fmt.Sprint("t", j)
					if n > 100 && j > 2 {
						h = "h1"
					} else {
						for i := 0; i < n; i++ {
							la, lo := pos(p, float64(i)*20, float64(i*i%7)+float64(10*j))
							kv := []string{}
							if m&1 != 0 {
								kv = []string{"shape_dist_traveled", fmt.Sprint(i * 3)}
							}
							t.Add("shapes", shpRow(h, i+1, la, lo, kv...))
						}
					}
					t.Add("trips", tripRow(id, "r1", "v", "shape_id", h))
				}
				x := float64(n-1) * 10 * float64(at)
				la, lo := pos(p, x, 400)
				t.Add("stops", stopRow("q", la, lo))
				for j := 0; j < k; j++ {
					kv := []string{}
					if m&2 != 0 {
						kv = []string{"shape_dist_traveled", fmt.Sprint((n - 1) * 3 * at / 2)}
					}
					t.Add("stop_times", stRow(fmt.Sprint("t", j), 1, "q", 0, kv...), stRow(fmt.Sprint("t", j), 2, "s0", 900))
				}
				c.Run(Scn{Name: nm, T: t, Ops: []string{"snap"}, Par: 1}, snapOracle)
			}
		}
	}
	for i := 0; i < 4; i++ {
		nm := fmt.Sprintf("sched %d", i)
		if !c.Mine(nm) {
			continue
		}
		t := feed(places[0])
		for h := 0; h < 2; h++ {
			for q, x := range lines[h] {
				la, lo := pos(places[0], x[0], x[1])
				t.Add("shapes", shpRow(fmt.Sprint("h", h), q+1, la, lo))
			}
		}
		for k := 0; k <= i; k++ {
			id := fmt.Sprint("t", k)
			t.Add("trips", tripRow(id, "r1", "v", "shape_id", fmt.Sprint("h", k%2)))
			t.Add("stop_times", stRow(id, 1, stop(k), 0), stRow(id, 2, "s5", 900))
		}
		c.Explore(Scn{Name: nm, T: t, Ops: []string{"snap"}, Par: 1 + i%3, Maps: true}, c.Pick(1, 2), c.Pick(3000, 30000), snapOracle)
	}
}
