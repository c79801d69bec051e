package main

import (
	"fmt"
	"math"
	"strings"
)

func init() { checks["C14"] = checkC14 }

type cand struct {
	seg  int
	prog float64
	d    float64
}

func lineCands(line []xy, p xy, max float64) []cand {
	var r []cand
	for i := 0; i+1 < len(line); i++ {
		a, b := line[i], line[i+1]
		dx, dy := b.x-a.x, b.y-a.y
		d := dx*dx + dy*dy
		t := 0.0
		if d > 0 {
			t = math.Max(0, math.Min(1, ((p.x-a.x)*dx+(p.y-a.y)*dy)/d))
		}
		if q := math.Hypot(p.x-a.x-t*dx, p.y-a.y-t*dy); q <= max {
			r = append(r, cand{i, t, q})
		}
	}
	return r
}

// bestFit is the least total distance of an arrangement of the stops along the line.
func bestFit(line []xy, stops []xy, max, eps float64) float64 {
	var prev []cand
	var cost []float64
	for i, s := range stops {
		cs := lineCands(line, s, max)
		nc := make([]float64, len(cs))
		for j, c := range cs {
			nc[j] = math.Inf(1)
			if i == 0 {
				nc[j] = c.d
			}
			for k, q := range prev {
				if q.seg < c.seg || q.seg == c.seg && q.prog <= c.prog+eps {
					nc[j] = math.Min(nc[j], cost[k]+c.d)
				}
			}
		}
		prev, cost = cs, nc
	}
	r := math.Inf(1)
	for _, x := range cost {
		r = math.Min(r, x)
	}
	return r
}

func remStopOracle(e *Exec) string {
	if m := problems(e); m != "" {
		return m
	}
	a, b := NewView(e.In).Skip("st.dist"), NewView(e.Out).Skip("st.dist")
	if in(e.Scn.Ops, "mf") {
		a.Skip("shape.dist")
		b.Skip("shape.dist")
	}
	if d := Same(a, b); d != "" {
		return d
	}
	groups := map[string]string{}
	for tid, t := range e.In.Trips {
		x, y := e.In.StopTimes[tid], e.Out.StopTimes[tid]
		pts := e.Out.Shapes[t["shape"]]
		same, complete := true, true
		for i := range x {
			same = same && x[i]["dist"] == y[i]["dist"]
			complete = complete && x[i]["dist"] != ""
		}
		if len(pts) == 0 || complete {
			if !same && !in(e.Scn.Ops, "mf") {
				return fmt.Sprintf("measures of trip %s, which has no shape or all measures, changed: %v -> %v", tid, x, y)
			}
			continue
		}
		var line, stops []xy
		for _, p := range pts {
			line = append(line, plane(pts[0], float64(p.Lat), float64(p.Lon)))
		}
		var ids, out []string
		for i := range x {
			s := e.In.Stops[x[i]["stop"]]
			stops = append(stops, plane(pts[0], pf(s["lat"]), pf(s["lon"])))
			ids = append(ids, x[i]["stop"])
			out = append(out, y[i]["dist"])
		}
		key := t["shape"] + ": " + strings.Join(ids, ",")
		what := fmt.Sprintf("trip %s on shape %s: measures %v", tid, key, out)
		all := true
		for i := range y {
			all = all && y[i]["dist"] != ""
		}
		n := float64(len(stops))
		if !all {
			if !same && !in(e.Scn.Ops, "mf") {
				return what + " are partly replaced"
			}
			if f := bestFit(line, stops, 246, -1e-4); !math.IsInf(f, 1) {
				return fmt.Sprintf("%s are left out although the stops fit the shape in order (distance sum %.1f m)", what, f)
			}
			continue
		}
		if same && !complete {
			return what + ": unexpected"
		}
		key2 := strings.Join(out, ",")
		if o, ok := groups[key]; ok && o != key2 {
			return fmt.Sprintf("%s, but another trip with the same shape and stops has %s", what, o)
		}
		groups[key] = key2
		sum := 0.0
		for i := range y {
			m := f32(y[i]["dist"])
			if i > 0 && m < f32(y[i-1]["dist"]) {
				return fmt.Sprintf("%s decrease at call %d", what, i)
			}
			if !(m >= pts[0].Dist && m <= pts[len(pts)-1].Dist) {
				return fmt.Sprintf("%s outside of the shape's %v to %v", what, pts[0].Dist, pts[len(pts)-1].Dist)
			}
			d := math.Inf(1)
			for _, p := range measuredPlaces(line, pts, m) {
				d = math.Min(d, math.Hypot(p.x-stops[i].x, p.y-stops[i].y))
			}
			for k := 0; k+1 < len(pts); k++ {
				if pts[k].Dist == m && pts[k+1].Dist == m {
					d = math.Min(d, segDist(stops[i], line[k], line[k+1]))
				}
			}
			if d > 254 {
				return fmt.Sprintf("%s: call %d is measured at a place %.1f m away from its stop", what, i, d)
			}
			sum += d
		}
		if f := bestFit(line, stops, 246, -1e-4); sum > f+2*n {
			return fmt.Sprintf("%s: distance sum %.1f m, but the stops fit the shape with %.1f m", what, sum, f)
		}
	}
	return ""
}

func checkC14(c *Ctx) {
	type ln struct {
		p     [][2]float64
		axis  bool
		dense float64
	}
	lines := []ln{
		{straight(0, 0, 500, 0, 1000, 0), true, 0},
		{straight(0, 0, 1000, 0, 1000, 800, 0, 800), true, 0},
		{straight(0, 0, 600, 300, 1200, -200, 600, -500, 0, 0), false, 0},
		{straight(0, 0, 900, 0, 900, 0, 0, 0, -500, 0), true, 0},
		{straight(0, 0), true, 0},
		{straight(0, 0, 700, 0, 350, 600, 0, 0, 700, 0), false, 0},
		{straight(1000, 800, 1000, 0, 0, 0, 0, 800, 1000, 800), true, 0},
		{straight(0, 0, 200, 0, 400, 0, 600, 0, 800, 0, 1000, 0, 1000, 200, 1000, 400, 1000, 600, 1000, 800, 800, 800, 600, 800), true, 0},
		// densely sampled: many segments are near to each stop
		{straight(0, 0, 1000, 0, 1000, -150, 0, -150), true, 5},
		{straight(0, 0, 900, 0, 900, 0, 0, 0, -500, 0), true, 12},
		{straight(0, 0, 700, 0, 350, 600, 0, 0, 700, 0), false, 7},
	}
	places := [][3]float64{{0.01, 0.01, 0}, {-0.02, 0.03, 2.2}, {48, 7.8, 0}, {-60, -170, 0}}
	offs := [][2]float64{{0, 0}, {500, 30}, {1000, -40}, {700, 20}, {1010, 800}, {-120, 0}, {300, 600}, {3000, 3000}, {200, 230}}
	units := []func(d float64, i int) string{
		func(d float64, i int) string { return fmt.Sprintf("%.3f", d) },
		func(d float64, i int) string { return fmt.Sprintf("%.6f", 7.3+d*0.00062137) },
		func(d float64, i int) string { return fmt.Sprintf("%d", 5*(i/2)) },
		func(d float64, i int) string { return fmt.Sprintf("%.7f", 0.1234567+float64(i)*0.3333333+d/3) },
		func(d float64, i int) string { return "" },
	}
	for i, l := range lines {
		if l.dense > 0 {
			q := l.p[:1:1]
			for k := 1; k < len(l.p); k++ {
				a, b := l.p[k-1], l.p[k]
				n := imx(1, int(math.Hypot(b[0]-a[0], b[1]-a[1])/l.dense))
				for m := 1; m <= n; m++ {
					f := float64(m) / float64(n)
					q = append(q, [2]float64{a[0] + f*(b[0]-a[0]), a[1] + f*(b[1]-a[1])})
				}
			}
			lines[i].p = q
		}
	}
	feed := func(p [3]float64, l [][2]float64, u int) T {
		t := T{}
		t.Add("agency", agencyRow("a1"))
		t.Add("routes", routeRow("r1", "a1"))
		t.Add("calendar", calRow("v", 127, d0, d0+6))
		pos := func(q [2]float64) (float64, float64) {
			return move(p[0], p[1], q[0]*math.Cos(p[2])-q[1]*math.Sin(p[2]), q[0]*math.Sin(p[2])+q[1]*math.Cos(p[2]))
		}
		for i, o := range offs {
			la, lo := pos(o)
			t.Add("stops", stopRow(fmt.Sprint("s", i), la, lo))
		}
		d := 0.0
		for i, q := range l {
			if i > 0 {
				d += math.Hypot(q[0]-l[i-1][0], q[1]-l[i-1][1])
			}
			la, lo := pos(q)
			t.Add("shapes", shpRow("h", i+1, la, lo, "shape_dist_traveled", units[u](d, i)))
		}
		la, lo := pos([2]float64{-900, 0})
		t.Add("shapes", shpRow("g", 1, la, lo, "shape_dist_traveled", "0"))
		la, lo = pos([2]float64{1500, 0})
		t.Add("shapes", shpRow("g", 2, la, lo, "shape_dist_traveled", "2400"))
		return t
	}
	for li, l := range lines {
		for pi, p := range places {
			if pi > 1 && !l.axis {
				continue
			}
			for u := range units {
				op := []string{"r"}
				if u == 4 {
					op = []string{"mf", "r"}
				}
				N := c.Pick(3, 4)
				if l.dense > 0 {
					N = 3
					if pi%2 == 1 || u%2 == 1 {
						continue
					}
				}
				k, num := 0, 0
				var t T
				flush := func() {
					if k > 0 {
						nm := fmt.Sprintf("calls line %d place %d unit %d %d", li, pi, u, num)
						if num++; c.Mine(nm) {
							c.Run(Scn{Name: nm, T: t, Ops: op, Par: 1 + num%5}, remStopOracle)
						}
					}
					k = 0
				}
				for n := 1; n <= N; n++ {
					dims := []int{}
					for i := 0; i < n; i++ {
						dims = append(dims, len(offs))
					}
					cnt := 0
					product(dims, func(v []int) {
						cnt++
						if k == 0 {
							t = feed(p, l.p, u)
						}
						for q := 0; q <= cnt%9/8; q++ {
							id := fmt.Sprintf("t%d_%d", k, q)
							t.Add("trips", tripRow(id, "r1", "v", "shape_id", []string{"h", "h", "h", "g", "h", ""}[cnt%6]))
							for i, s := range v {
								m := ""
								if cnt%5 == 1 && i != cnt%n {
									m = fmt.Sprint(i * 100)
								}
								if cnt%25 == 3 {
									m = fmt.Sprint(i * 7)
								}
								t.Add("stop_times", stRow(id, i+1, fmt.Sprint("s", s), 1000*i+100*k, "shape_dist_traveled", m, "pickup_type", fmt.Sprint(i%2)))
							}
						}
						if k++; k == 60 {
							flush()
						}
					})
				}
				flush()
			}
		}
	}
	// long shapes and long trips: stops at each vertex of a winding line
	for n := 5; n <= c.Pick(40, 120); n += 5 {
		for u := range units {
			for step := 1; step <= 3; step++ {
				nm := fmt.Sprintf("long %d unit %d step %d", n, u, step)
				if !c.Mine(nm) {
					continue
				}
				t := T{}
				t.Add("agency", agencyRow("a1"))
				t.Add("routes", routeRow("r1", "a1"))
				t.Add("calendar", calRow("v", 127, d0, d0+6))
				t.Add("trips", tripRow("t", "r1", "v", "shape_id", "h"))
				d := 0.0
				for i := 0; i < n; i++ {
					x, y := float64(i%4)*300, float64(i/4)*40
					if i > 0 {
						px, py := float64((i-1)%4)*300, float64((i-1)/4)*40
						d += math.Hypot(x-px, y-py)
					}
					la, lo := move(0.02, 0.02, x, y)
					t.Add("shapes", shpRow("h", i+1, la, lo, "shape_dist_traveled", units[u](d, i)))
					if i%step == 0 {
						la, lo = move(0.02, 0.02, x+3, y-8)
						t.Add("stops", stopRow(fmt.Sprint("s", i), la, lo))
						t.Add("stop_times", stRow("t", i, fmt.Sprint("s", i), 60*i))
					}
				}
				op := []string{"r"}
				if u == 4 {
					op = []string{"mf", "r"}
				}
				c.Run(Scn{Name: nm, T: t, Ops: op, Par: step}, remStopOracle)
			}
		}
	}
	// stops at and near the vertices of shapes with awkward measures: nothing may be rounded past a neighbour
	for i := 0; i < c.Pick(400, 4000); i++ {
		nm := fmt.Sprintf("round %d", i)
		if !c.Mine(nm) {
			continue
		}
		t := T{}
		t.Add("agency", agencyRow("a1"))
		t.Add("routes", routeRow("r1", "a1"))
		t.Add("calendar", calRow("v", 127, d0, d0+6))
		m := 0.013 * float64(i)
		for k := 0; k < 12; k++ {
			la, lo := move(0.02, 0.02, float64(k)*300, float64(k%2)*4)
			t.Add("shapes", shpRow("h", k+1, la, lo, "shape_dist_traveled", fmt.Sprintf("%.7f", m)))
			for q, dx := range []float64{-40, 0, 40} {
				la, lo = move(0.02, 0.02, float64(k)*300+dx, float64(k%2)*4-30*float64(q%2)*float64(2*(k%2)-1))
				t.Add("stops", stopRow(fmt.Sprint("s", k, "_", q), la, lo))
			}
			m += 0.1 + math.Mod(float64(i*7+k*13)*0.7713, 1.9)*float64(1+i%11)
		}
		for q := 0; q < 4; q++ {
			id := fmt.Sprint("t", q)
			t.Add("trips", tripRow(id, "r1", "v", "shape_id", "h"))
			for k := 0; k < 12; k++ {
				for w := 0; w < 3; w++ {
					if q < 3 && w != q {
						continue
					}
					t.Add("stop_times", stRow(id, 3*k+w, fmt.Sprint("s", k, "_", w), 60*k+w))
				}
			}
		}
		c.Run(Scn{Name: nm, T: t, Ops: []string{"r"}, Par: 1 + i%3}, remStopOracle)
	}
	for i := 0; i < c.Pick(60, 600); i++ {
		nm := fmt.Sprintf("ends %d", i)
		if !c.Mine(nm) {
			continue
		}
		t := T{}
		t.Add("agency", agencyRow("a1"))
		t.Add("routes", routeRow("r1", "a1"))
		t.Add("calendar", calRow("v", 127, d0, d0+6))
		for q, x := range [][2]float64{{20, 5}, {995, 20}, {1040, 10}, {1000, 30}, {2050, 10}} {
			la, lo := move(0.02, 0.02, x[0], x[1])
			t.Add("stops", stopRow(fmt.Sprint("s", q), la, lo))
		}
		for k := 0; k < 40; k++ {
			m := []float64{0.0137 * float64(i), 0.3 + 0.1*float64(k), 1.7 + 0.77*float64(k+i)}
			id := fmt.Sprint("h", k)
			n := 2 + k%2
			for q := 0; q < n; q++ {
				la, lo := move(0.02, 0.02, float64(q)*1000, 0)
				t.Add("shapes", shpRow(id, q+1, la, lo, "shape_dist_traveled", fmt.Sprintf("%.7f", m[0]+m[q]*float64(mini(q, 1)))))
			}
			t.Add("trips", tripRow("t"+id, "r1", "v", "shape_id", id))
			for w := 0; w < 3+n; w++ {
				if w < 5 {
					t.Add("stop_times", stRow("t"+id, w, fmt.Sprint("s", []int{0, 1, 2, 3, 4}[w]), 60*w))
				}
			}
		}
		c.Run(Scn{Name: nm, T: t, Ops: []string{"r"}, Par: 1 + i%3}, remStopOracle)
	}
	for i := 0; i < 12; i++ {
		nm := fmt.Sprintf("sched %d", i)
		if !c.Mine(nm) {
			continue
		}
		t := feed(places[0], lines[i%3].p, i%4)
		for k := 0; k <= i/3; k++ {
			id := fmt.Sprint("t", k)
			t.Add("trips", tripRow(id, "r1", "v", "shape_id", []string{"h", "g"}[k/2%2]))
			for q := 0; q < 3; q++ {
				t.Add("stop_times", stRow(id, q, fmt.Sprint("s", (q+k)%4), 900*q))
			}
		}
		c.Explore(Scn{Name: nm, T: t, Ops: []string{"r"}, Par: 1 + i%3, Maps: true}, c.Pick(1, 2), c.Pick(4000, 30000), remStopOracle)
	}
}

func f32(s string) float64 { return float64(float32(pf(s))) }
