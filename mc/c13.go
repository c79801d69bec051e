package main

import (
	"fmt"
	"math"
)

func init() { checks["C13"] = checkC13 }

func ptMeters(a, b Pt) float64 {
	return meters(float64(a.Lat), float64(a.Lon), float64(b.Lat), float64(b.Lon))
}

// remeasured says whether out is a proper remeasuring of in.
func remeasured(in, out []Pt, force bool) string {
	if len(in) != len(out) {
		return fmt.Sprintf("number of points changed: %v -> %v", in, out)
	}
	n := len(in)
	cum := make([]float64, n)
	var known []int
	unit := false // two measures with different values and places
	for i := range in {
		if i > 0 {
			cum[i] = cum[i-1] + ptMeters(in[i-1], in[i])
		}
		if in[i].Lat != out[i].Lat || in[i].Lon != out[i].Lon || in[i].Seq != out[i].Seq || in[i].Add != out[i].Add {
			return fmt.Sprintf("point %d changed: %v -> %v", i, in[i], out[i])
		}
		if !math.IsNaN(in[i].Dist) {
			if k := len(known); k > 0 && in[known[k-1]].Dist != in[i].Dist && cum[known[k-1]] != cum[i] {
				unit = true
			}
			known = append(known, i)
		}
	}
	none := true
	for i := range out {
		none = none && math.IsNaN(out[i].Dist)
	}
	if none && len(known) > 0 && !force && !unit {
		return "" // no unit known, measures are given up
	}
	for i := range out {
		if math.IsNaN(out[i].Dist) || math.IsInf(out[i].Dist, 0) {
			return fmt.Sprintf("point %d has no measure: %v -> %v", i, in, out)
		}
		if out[i].Dist < 0 {
			return fmt.Sprintf("negative measure: %v -> %v", in, out)
		}
		if i > 0 && out[i].Dist < out[i-1].Dist {
			return fmt.Sprintf("measures decrease at point %d: %v -> %v", i, in, out)
		}
	}
	for _, i := range known {
		if in[i].Dist != out[i].Dist {
			return fmt.Sprintf("measure of point %d changed: %v -> %v", i, in, out)
		}
	}
	near := func(x, y float64) bool { return math.Abs(x-y) <= 1e-3*math.Max(1e-3, math.Abs(y))+1e-5 }
	if len(known) == 0 {
		for i := range out {
			if !near(out[i].Dist, cum[i]) {
				return fmt.Sprintf("point %d of a shape without measures is not measured in meters (%v): %v", i, cum[i], out)
			}
		}
		return ""
	}
	// gaps between known measures
	for k := 1; k < len(known); k++ {
		a, b := known[k-1], known[k]
		for i := a + 1; i < b; i++ {
			if cum[b] > cum[a] {
				w := in[a].Dist + (in[b].Dist-in[a].Dist)*(cum[i]-cum[a])/(cum[b]-cum[a])
				if !near(out[i].Dist, w) {
					return fmt.Sprintf("point %d is not measured in proportion between %d and %d (%v): %v -> %v", i, a, b, w, in, out)
				}
			}
		}
	}
	// before the first and after the last known measure: in proportion, whatever the unit
	prop := func(from, to int, zero int) string {
		u := -1.0
		for i := from; i < to; i++ {
			if d := math.Abs(cum[i] - cum[zero]); d > 5 {
				if x := math.Abs(out[i].Dist-out[zero].Dist) / d; u < 0 {
					u = x
				} else if math.Abs(u-x) > 0.01*u+1e-3*math.Abs(out[i].Dist)/d {
					return fmt.Sprintf("points %d to %d are not measured in proportion to distance: %v -> %v", from, to, in, out)
				}
			}
		}
		return ""
	}
	if r := prop(0, known[0], 0); r != "" {
		return r
	}
	return prop(known[len(known)-1]+1, n, known[len(known)-1])
}

func remShapeOracle(e *Exec) string {
	if m := problems(e); m != "" {
		return m
	}
	a, b := NewView(e.In).Skip("st.dist"), NewView(e.Out).Skip("st.dist")
	if d := Same(a, b, "shape"); d != "" {
		return d
	}
	for id, in := range e.In.Shapes {
		out, ok := e.Out.Shapes[id]
		if !ok {
			return "shape " + id + " is gone"
		}
		if r := remeasured(in, out, in2(e.Scn.Ops, "mf")); r != "" {
			return fmt.Sprintf("shape %s: %s", id, r)
		}
	}
	if len(e.Out.Shapes) != len(e.In.Shapes) {
		return "shapes added"
	}
	for id, sts := range e.In.StopTimes {
		for i, st := range sts {
			w := st["dist"]
			if sh := e.Out.Shapes[e.In.Trips[id]["shape"]]; w != "" && len(sh) > 0 {
				if l := sh[len(sh)-1].Dist; !math.IsNaN(l) && pf(w) > l {
					if g := e.Out.StopTimes[id][i]["dist"]; g == "" || math.Abs(pf(g)-l) > 1e-4*l+1e-6 {
						return fmt.Sprintf("trip %s call %d: measure %s beyond the end of the shape (%v) became %q", id, i, w, l, g)
					}
					continue
				}
			}
			if g := e.Out.StopTimes[id][i]["dist"]; g != w {
				return fmt.Sprintf("trip %s call %d: measure %q became %q", id, i, w, g)
			}
		}
	}
	return ""
}

func in2(l []string, x string) bool { return in(l, x) }

func checkC13(c *Ctx) {
	// every placement of measures (none, or a step from the last one) on every line over a set of steps
	steps := [][2]float64{{0, 0}, {100, 0}, {7, 60}, {-30, 0}}
	incs := []float64{-1, 0, 3, 250, 0.333}
	places := [][2]float64{{48, 7.8}, {-33.5, 151}}
	for pi, p := range places {
		for _, op := range []string{"m", "mf"} {
			N := c.Pick(5, 6)
			if pi > 0 || op == "mf" {
				N = c.Pick(4, 5)
			}
			for n := 1; n <= N; n++ {
				dims := []int{}
				for i := 0; i < n; i++ {
					dims = append(dims, len(incs))
				}
				lines := len(steps) // per shape one pattern of steps, all of them in turn up to three steps
				pw := 1
				for i := 1; i < n && i < 4; i++ {
					pw *= lines
				}
				dims = append(dims, pw)
				b := &batch{c: c, name: fmt.Sprintf("gaps place %d %s n %d", pi, op, n), op: []string{op}, n: 97, oracle: remShapeOracle}
				product(dims, func(v []int) {
					if n >= 5 && c.Quick() && v[n]%5 != (v[0]+v[2]+v[3])%5 {
						return
					}
					b.add(func(id string) []Row {
						x, y, m, pat := 0.0, 0.0, 0.0, v[n]
						var rows []Row
						for i := 0; i < n; i++ {
							if i > 0 {
								s := steps[pat%lines]
								if pat /= lines; i > 3 {
									s = steps[(v[n]+i)%lines]
								}
								x, y = x+s[0], y+s[1]
							}
							d := ""
							if inc := incs[v[i]]; inc >= 0 {
								m += inc
								d = fmt.Sprint(m)
							}
							la, lo := move(p[0], p[1], x, y)
							rows = append(rows, shpRow(id, 5*i+2, la, lo, "shape_dist_traveled", d, "x_pt", fmt.Sprint(i)))
						}
						return rows
					})
				})
				b.flush()
			}
		}
	}
	// long lines with one or two gaps (leading, inner, trailing) of each length, in different units
	L := c.Pick(30, 90)
	for ui, u := range []float64{1, 0.001, 3.2808399, 0.0006213712} {
		for _, op := range []string{"m", "mf"} {
			b := &batch{c: c, name: fmt.Sprintf("long %d %s", ui, op), op: []string{op}, n: 60, oracle: remShapeOracle}
			for i := 0; i < L; i++ {
				for j := i; j <= L; j += 1 + (j-i)/2 {
					for _, off := range []float64{0, 17, 1000} {
						b.add(func(id string) []Row {
							var rows []Row
							for k := 0; k < L; k++ {
								x, y := float64(k)*120, float64(k%3)*40
								d := f9(off + u*120*float64(k)*1.05)
								if k >= i && k < j {
									d = ""
								}
								if off == 17 && k%7 == 3 {
									d = ""
								}
								la, lo := move(52, 13, x, y)
								rows = append(rows, shpRow(id, k+1, la, lo, "shape_dist_traveled", d))
							}
							return rows
						})
					}
				}
			}
			b.flush()
		}
	}
	// stop times with measures below, at and beyond the end of the shape
	for k := 0; k < 27; k++ {
		for sh := 0; sh < 4; sh++ {
			for _, op := range []string{"m", "mf"} {
				nm := fmt.Sprintf("calls %d shape %d %s", k, sh, op)
				if !c.Mine(nm) {
					continue
				}
				t := shapeFeed()
				md := [][]string{{"0", "", "10"}, {"", "", ""}, {"2", "", ""}, {"", "4", "8"}}[sh]
				for i := 0; i < 3; i++ {
					t.Add("shapes", shpRow("h", i, 48+0.01*float64(i), 7.8+0.01*float64(i), "shape_dist_traveled", md[i]))
					t.Add("shapes", shpRow("g", i, 48+0.01*float64(i), 7.8+0.01*float64(i), "shape_dist_traveled", fmt.Sprint(i)))
				}
				t.Add("shapes", shpRow("p", 1, 48, 7.8, "shape_dist_traveled", []string{"", "5", "0"}[k%3]))
				mv := [][]string{{"", "0", "1"}, {"", "5", "9.9"}, {"", "10", "11000000"}}
				for ti, shp := range []string{"h", "", "g", "p"} {
					id := fmt.Sprint("t", ti)
					t.Add("trips", tripRow(id, "r1", "v", "shape_id", shp))
					t.Add("stop_times", stRow(id, 1, "s1", 100, "shape_dist_traveled", mv[0][k%3]), stRow(id, 2, "s2", 200, "shape_dist_traveled", mv[1][k/3%3]), stRow(id, 3, "s3", 300, "shape_dist_traveled", mv[2][k/9], "pickup_type", "1", "stop_headsign", "x"))
				}
				t.Add("trips", tripRow("t9", "r1", "v", "shape_id", "h"))
				c.Run(Scn{Name: nm, T: t, Ops: []string{op}, Par: 1 + k%4}, remShapeOracle)
			}
		}
	}
	for n := 0; n <= 4; n++ {
		for par := 1; par <= 3; par++ {
			nm := fmt.Sprintf("sched %d p%d", n, par)
			if !c.Mine(nm) {
				continue
			}
			t := shapeFeed()
			for i := 0; i < n; i++ {
				for k := 0; k < 4; k++ {
					t.Add("shapes", shpRow(fmt.Sprint("h", i), k*2, 0.01+0.001*float64(k), 0.01+0.00001*float64(k%2*i), "x_pt", fmt.Sprint(i, k), "shape_dist_traveled", []string{"", fmt.Sprint(100 * k)}[(k+i)%2]))
				}
			}
			t.simpleTrip("t1", "r1", "v", 3600)
			c.Explore(Scn{Name: nm, T: t, Ops: []string{"m"}, Par: par, Maps: true}, c.Pick(2, 3), c.Pick(2000, 20000), remShapeOracle)
		}
	}
}
