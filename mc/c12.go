package main

import (
	"fmt"
	"math"
)

func init() { checks["C12"] = checkC12 }

func shapeKey(p []Pt) string {
	s := ""
	for _, x := range p {
		s += fmt.Sprintf("%v %v %v,", x.Lat, x.Lon, x.Dist)
	}
	return s
}

func resample(p []xy, step float64) []xy {
	r := []xy{p[0]}
	for i := 1; i < len(p); i++ {
		d := math.Hypot(p[i].x-p[i-1].x, p[i].y-p[i-1].y)
		n := int(math.Ceil(d / step))
		for k := 1; k <= n; k++ {
			f := float64(k) / float64(n)
			r = append(r, xy{p[i-1].x + f*(p[i].x-p[i-1].x), p[i-1].y + f*(p[i].y-p[i-1].y)})
		}
	}
	return r
}

// frechet says whether two lines run within d of each other, in the same direction.
func frechet(a, b []xy, d float64) bool {
	reach := make([]bool, len(b))
	for i := range a {
		diag := false
		for j := range b {
			up := reach[j]
			ok := i == 0 && j == 0 || i > 0 && up || j > 0 && reach[j-1] || diag
			if i == 0 && j == 0 {
				ok = true
			}
			diag = i > 0 && up
			reach[j] = ok && math.Hypot(a[i].x-b[j].x, a[i].y-b[j].y) <= d
		}
	}
	return reach[len(b)-1]
}

func allNaN(p []Pt) bool {
	for _, x := range p {
		if !math.IsNaN(x.Dist) {
			return false
		}
	}
	return true
}

var shapeEqMemo = map[string]bool{}

// mayMerge says whether two shapes are the same within the tolerance (1 m in the projection, measures
// within those of the neighbouring points).
func mayMerge(a, b []Pt) bool {
	k := shapeKey(a) + "|" + shapeKey(b)
	if r, ok := shapeEqMemo[k]; ok {
		return r
	}
	if shapeKey(a) == shapeKey(b) {
		return true
	}
	var pa, pb []xy
	for _, p := range a {
		pa = append(pa, mercP(p))
	}
	for _, p := range b {
		pb = append(pb, mercP(p))
	}
	tol := 1 + 2*mercTol(pa[0])
	L := 0.0
	for i := 1; i < len(pa); i++ {
		L += math.Hypot(pa[i].x-pa[i-1].x, pa[i].y-pa[i-1].y)
	}
	ends := func(x, y xy) bool { return math.Hypot(x.x-y.x, x.y-y.y) <= tol }
	step := math.Max(1, L/500)
	r := allNaN(a) == allNaN(b) && ends(pa[0], pb[0]) && ends(pa[len(pa)-1], pb[len(pb)-1]) && frechet(resample(pa, step), resample(pb, step), tol+1.5*step)
	if r && !allNaN(a) {
		side := func(a, b []Pt, pa, pb []xy) bool {
			for i := range a {
				ok := len(b) == 1
				for j := 1; j < len(b) && !ok; j++ {
					lo, hi := b[imx(0, j-2)].Dist, b[mini(len(b)-1, j+1)].Dist
					sl := 0.02*math.Abs(hi-lo) + 1e-3*math.Abs(hi)
					if i == len(a)-1 {
						sl += 12 * math.Abs(hi-lo) / math.Max(1, math.Hypot(pb[j].x-pb[j-1].x, pb[j].y-pb[j-1].y))
					}
					ok = segDist(pa[i], pb[j-1], pb[j]) <= tol && a[i].Dist >= lo-sl && a[i].Dist <= hi+sl
				}
				if !ok {
					return false
				}
			}
			return true
		}
		r = side(a, b, pa, pb) && side(b, a, pb, pa)
	}
	if len(shapeEqMemo) < 200000 {
		shapeEqMemo[k] = r
	}
	return r
}

func imx(a, b int) int {
	if a > b {
		return a
	}
	return b
}

// normShape is the shape as the remeasuring that precedes duplicate removal leaves it.
func normShape(p []Pt, remeasure bool) []Pt {
	if !remeasure || !allNaN(p) {
		return p
	}
	q := append([]Pt{}, p...)
	d := 0.0
	for i := range q {
		if i > 0 {
			d += ptMeters(q[i-1], q[i])
		}
		q[i].Dist = float64(float32(d))
	}
	return q
}

func shapeDupOracle(e *Exec) string {
	if m := problems(e); m != "" {
		return m
	}
	a, b := NewView(e.In).Skip("trip.shape"), NewView(e.Out).Skip("trip.shape")
	if d := Same(a, b, "shape"); d != "" {
		return d
	}
	rem := in(e.Scn.Ops, "m")
	norm := map[string][]Pt{}
	for id, p := range e.In.Shapes {
		norm[id] = normShape(p, rem)
	}
	var ids []string
	u := uf{}
	for id := range norm {
		for _, o := range ids {
			if u.find(id) != u.find(o) && mayMerge(norm[id], norm[o]) {
				u.join(id, o)
			}
		}
		ids = append(ids, id)
	}
	kept := map[string]bool{}
	seen := map[string]string{}
	for id, p := range e.Out.Shapes {
		q, ok := norm[id]
		if !ok {
			return "shape " + id + " was invented"
		}
		if len(p) != len(q) {
			return fmt.Sprintf("shape %s changed: %v -> %v", id, q, p)
		}
		for i := range p {
			if p[i].Lat != q[i].Lat || p[i].Lon != q[i].Lon || p[i].Add != q[i].Add || p[i].Seq != q[i].Seq || math.Abs(p[i].Dist-q[i].Dist) > 1e-4*math.Abs(q[i].Dist) || math.IsNaN(p[i].Dist) != math.IsNaN(q[i].Dist) {
				return fmt.Sprintf("shape %s changed: %v -> %v", id, q, p)
			}
		}
		kept[u.find(id)] = true
		if k := shapeKey(q); len(q) > 1 {
			if o, ok := seen[k]; ok {
				return fmt.Sprintf("identical shapes remain: %s and %s: %v", o, id, q)
			}
			seen[k] = id
		}
	}
	for id := range norm {
		if !kept[u.find(id)] {
			return fmt.Sprintf("no shape like %s is left: %v", id, norm[id])
		}
	}
	for id, t := range e.In.Trips {
		x, y := t["shape"], e.Out.Trips[id]["shape"]
		if (x == "") != (y == "") {
			return fmt.Sprintf("trip %s had shape %q and has %q", id, x, y)
		}
		if x != "" && u.find(x) != u.find(y) {
			return fmt.Sprintf("trip %s had shape %s and has %s, which runs or measures differently: %v / %v", id, x, y, norm[x], norm[y])
		}
	}
	return ""
}

// a line is a list of positions (metres) with measures
type mline struct {
	name string
	p    [][2]float64
	m    []float64 // nil: none
}

func straight(p ...float64) [][2]float64 {
	var r [][2]float64
	for i := 0; i+1 < len(p); i += 2 {
		r = append(r, [2]float64{p[i], p[i+1]})
	}
	return r
}

// metric measures a line.
func metric(p [][2]float64, unit, off float64) []float64 {
	var r []float64
	d := 0.0
	for i := range p {
		if i > 0 {
			d += math.Hypot(p[i][0]-p[i-1][0], p[i][1]-p[i-1][1])
		}
		r = append(r, off+unit*d)
	}
	return r
}

func (l mline) rows(id string, lat, lon, rot float64) []Row {
	var rows []Row
	for i, q := range l.p {
		rx, ry := q[0]*math.Cos(rot)-q[1]*math.Sin(rot), q[0]*math.Sin(rot)+q[1]*math.Cos(rot)
		if rot == 0 {
			rx, ry = q[0], q[1]
		}
		la, lo := move(lat, lon, rx, ry)
		d := ""
		if l.m != nil {
			d = fmt.Sprintf("%.4f", l.m[i])
		}
		rows = append(rows, shpRow(id, i+1, la, lo, "shape_dist_traveled", d, "x_pt", id))
	}
	return rows
}

// lineAlphabet lists lines which run alike or not, measured alike or not.
func lineAlphabet() []mline {
	g := straight(0, 0, 100, 0, 200, 20, 200, 150)
	shift := func(p [][2]float64, dx, dy float64) [][2]float64 {
		var r [][2]float64
		for _, q := range p {
			r = append(r, [2]float64{q[0] + dx, q[1] + dy})
		}
		return r
	}
	var l []mline
	add := func(n string, p [][2]float64, m []float64) { l = append(l, mline{n, p, m}) }
	add("base", g, metric(g, 1, 0))
	add("unmeasured", g, nil)
	add("shifted", shift(g, 0.4, -0.3), metric(g, 1, 0))
	s := straight(0, 0, 50, 0, 100, 0, 200, 20, 200, 80, 200, 150)
	add("resampled", s, metric(s, 1, 0))
	add("km", g, metric(g, 0.001, 0))
	add("double", g, metric(g, 2, 0))
	add("offset", g, metric(g, 1, 700))
	add("nearly", g, metric(g, 1.0004, 0))
	s = straight(200, 150, 200, 20, 100, 0, 0, 0)
	add("reversed", s, metric(s, 1, 0))
	s = straight(0, 0, 100, 0, 200, 20, 200, 120)
	add("truncated", s, metric(s, 1, 0))
	s = straight(-30, 0, 100, 0, 200, 20, 200, 150)
	add("longer", s, metric(s, 1, 0))
	s = straight(0, 0, 100, 0, 230, 20, 200, 150)
	add("detour", s, metric(s, 1, 0))
	add("far", shift(g, 6, 6), metric(g, 1, 0))
	s = straight(0, 0, 100, 0, 150, 10, 150, 60, 150, 10, 200, 20, 200, 150)
	add("stub", s, metric(s, 1, 0))
	s = straight(0, 0, 100, 0, 200, 20)
	add("half", s, metric(s, 1, 0))
	s = straight(0, 0)
	add("point", s, nil)
	s = straight(0, 0, 100, 0, 100, 80, 0, 80, 0, 0)
	add("ring", s, metric(s, 1, 0))
	s = straight(0, 0, 0, 80, 100, 80, 100, 0, 0, 0)
	add("ring back", s, metric(s, 1, 0))
	add("shifted km", shift(g, 0.4, -0.3), metric(g, 0.001, 0))
	s = straight(0, 0, 100, 0, 200, 20, 200, 150, 200, 20, 100, 0, 0, 0)
	add("out and back", s, metric(s, 1, 0))
	return l
}

func shapeSet(ls []mline, idx []int, lat, lon, rot float64, trips int) T {
	t := shapeFeed()
	for i, x := range idx {
		id := fmt.Sprintf("h%d", i)
		t.Add("shapes", ls[x].rows(id, lat, lon, rot)...)
		for k := 0; k < (trips+i)%3; k++ {
			t.simpleTrip(fmt.Sprintf("t%d_%d", i, k), "r1", "v", 3600, "shape_id", id, "trip_headsign", id)
		}
	}
	t.simpleTrip("tnone", "r1", "v", 3600)
	return t
}

func checkC12(c *Ctx) {
	al := lineAlphabet()
	places := [][3]float64{{0.01, 0.01, 0}, {48, 7.8, 0.4}, {-20, -50, math.Pi}, {0.02, 30, math.Pi / 2}, {60, 10, -2}}
	// all tuples of lines
	for n := 1; n <= 3; n++ {
		dims := make([]int, n)
		for i := range dims {
			dims[i] = len(al)
		}
		product(dims, func(v []int) {
			for pi, p := range places {
				if n == 3 && pi > 0 && (c.Quick() || pi > 2) {
					continue
				}
				for _, op := range [][]string{{"S"}, {"m", "S"}} {
					if n == 3 && len(op) == 2 && c.Quick() {
						continue
					}
					for par := 1; par <= 4; par++ {
						nm := fmt.Sprintf("tuple %v place %d %v p%d", v, pi, op, par)
						if !c.Mine(nm) {
							continue
						}
						// without remeasuring before, unmeasured shapes do not occur
						skip := false
						for _, x := range v {
							skip = skip || len(op) == 1 && al[x].m == nil && len(al[x].p) > 1
						}
						if skip {
							continue
						}
						c.Run(Scn{Name: nm, T: shapeSet(al, v, p[0], p[1], p[2], 1+par), Ops: op, Par: par}, shapeDupOracle)
					}
				}
			}
		})
	}
	// identical copies of long lines of many forms, at many places relative to the index cells
	form := func(f, n int, L float64) [][2]float64 {
		var r [][2]float64
		for i := 0; i <= n; i++ {
			x := L * float64(i) / float64(n)
			switch f {
			case 0:
				r = append(r, [2]float64{x, 0})
			case 1:
				r = append(r, [2]float64{0, x})
			case 2:
				r = append(r, [2]float64{-x, 0})
			case 3:
				r = append(r, [2]float64{0, -x})
			case 4:
				r = append(r, [2]float64{x, 0.7 * x})
			case 5:
				r = append(r, [2]float64{x, -2 * x})
			case 6:
				r = append(r, [2]float64{L * math.Cos(6*x/L), L * math.Sin(6*x/L)})
			case 7:
				r = append(r, [2]float64{x, float64(i%2) * 300})
			case 8: // out and back
				if i > n/2 {
					x = L - x
				}
				r = append(r, [2]float64{x, 0.1 * x})
			case 9:
				r = append(r, [2]float64{0, 0})
			}
		}
		return r
	}
	for f := 0; f < 10; f++ {
		for _, n := range []int{1, 2, 5, 30} {
			for _, L := range []float64{4, 900, 5000, 12000, 70000} {
				for copies := 2; copies <= 3; copies++ {
					for par := 1; par <= 4; par++ {
						for other := 0; other < 3; other++ {
							nm := fmt.Sprintf("copies %d form %d n%d L%v p%d other %d", copies, f, n, L, par, other)
							if !c.Mine(nm) || c.Quick() && (n+par+other+copies+int(L)/100)%3 != f%3 {
								continue
							}
							pts := form(f, n, L)
							ls := []mline{{"x", pts, metric(pts, 1, 0)}}
							q := form((f+1)%9, 3, 20000)
							ls = append(ls, mline{"o", q, metric(q, 1, 0)}, mline{"w", [][2]float64{{9e4, 9e4}, {91e3, 9e4}}, []float64{0, 1}})
							idx := []int{0, 0, 0}[:copies]
							if other > 0 {
								idx = append(idx, 1)
							}
							if other > 1 {
								idx = append(idx, 2, 2)
							}
							c.Run(Scn{Name: nm, T: shapeSet(ls, idx, 1, 1, 0, 1), Ops: []string{"S"}, Par: par}, shapeDupOracle)
						}
					}
				}
			}
		}
	}
	// one vertex of one copy displaced, or one measure changed, at each place
	for n := 3; n <= c.Pick(8, 14); n++ {
		for i := 0; i < n; i++ {
			for _, off := range []float64{0.5, 8, 60} {
				for _, mode := range []int{0, 1, 2} {
					nm := fmt.Sprintf("vertex %d of %d by %v mode %d", i, n, off, mode)
					if !c.Mine(nm) {
						continue
					}
					a := straight()
					for k := 0; k < n; k++ {
						a = append(a, [2]float64{float64(k) * 120, float64(k*k) * 3})
					}
					b := append([][2]float64{}, a...)
					ma := metric(a, 1, 0)
					mb := ma
					switch mode {
					case 0:
						b[i][1] += off
						mb = metric(b, 1, 0)
					case 1: // everything from here on is measured further
						mb = append([]float64{}, ma...)
						for k := i; k < n; k++ {
							mb[k] += off * 20
						}
					case 2: // a vertex is missing
						b = append(append([][2]float64{}, a[:i]...), a[i+1:]...)
						b[mini(i, len(b)-1)][1] += off - 0.5
						mb = metric(b, 1, 0)
					}
					ls := []mline{{"a", a, ma}, {"b", b, mb}}
					for par := 1; par <= 3; par++ {
						c.Run(Scn{Name: nm + fmt.Sprint(" p", par), T: shapeSet(ls, []int{0, 1, 0, 1}[par-1:], 0.01, 0.01, 0, 1), Ops: []string{"S"}, Par: par}, shapeDupOracle)
					}
				}
			}
		}
	}
	// one line begins or ends a little before or after the other, with points at other places
	for _, cut := range []float64{0.3, 1.5, 3, 6, 9, 14, 40} {
		for _, end := range []int{1, 2, 3} {
			for more := -1; more <= 3; more++ {
				for _, unit := range []float64{0, 1, 0.001} {
					for pi, p := range places {
						nm := fmt.Sprintf("ends %v at %d more %d unit %v place %d", cut, end, more, unit, pi)
						if !c.Mine(nm) {
							continue
						}
						a := straight(0, 0, 100, 0, 200, 20, 200, 150)
						b := append([][2]float64{}, a...)
						if more < 0 { // fewer points
							a = straight(0, 0, 50, 0, 100, 0, 200, 20, 200, 60, 200, 150)
						}
						if end&1 != 0 {
							b[0][0] += cut
						}
						if end&2 != 0 {
							b[3][1] -= cut
						}
						for k := 1; k <= more; k++ {
							b = append(b[:1], append([][2]float64{{b[0][0] + float64(more+1-k)*8, 0}}, b[1:]...)...)
						}
						ma, mb := metric(a, 1, 0), metric(b, 1, 0)
						for k := range mb { // as far from the same start
							if end&1 != 0 {
								mb[k] += cut
							}
						}
						for k := range ma {
							ma[k] *= unit
						}
						for k := range mb {
							mb[k] *= unit
						}
						ops := []string{"S"}
						if unit == 0 {
							ma, mb = nil, nil
							ops = []string{"m", "S"}
						}
						ls := []mline{{"a", a, ma}, {"b", b, mb}}
						for par := 1; par <= 3; par++ {
							c.Run(Scn{Name: nm + fmt.Sprint(" p", par), T: shapeSet(ls, []int{0, 1, 0, 1}[par-1:], p[0], p[1], p[2], 1), Ops: ops, Par: par}, shapeDupOracle)
						}
					}
				}
			}
		}
	}
	// long lines with many points of which one is measured with an offset or in another unit, from the start or from
	// some point on, and rings run once or twice
	for _, n := range []int{30, 80} {
		for _, off := range []float64{3, 35, 70, 120, -35} {
			for mode := 0; mode < 4; mode++ {
				for _, fr := range []int{0, n / 3, n - 5} {
					nm := fmt.Sprintf("dense %d off %v mode %d from %d", n, off, mode, fr)
					if !c.Mine(nm) {
						continue
					}
					a := straight()
					for k := 0; k <= n; k++ {
						a = append(a, [2]float64{float64(k) * 10, 40 * math.Sin(float64(k)/9)})
					}
					b := append([][2]float64{}, a...)
					if mode == 2 { // points at other places
						for k := 1; k < n; k++ {
							b[k] = [2]float64{(a[k][0] + a[k+1][0]) / 2, (a[k][1] + a[k+1][1]) / 2}
						}
					}
					if mode == 3 { // round and round
						for k := range a {
							al := 2 * math.Pi * float64(k) / float64(n)
							a[k] = [2]float64{200 * math.Sin(al), 200 * math.Cos(al)}
							b[k] = [2]float64{200 * math.Sin(2*al), 200 * math.Cos(2*al)}
						}
					}
					ma, mb := metric(a, 1, 200), metric(b, 1, 200)
					for k := range mb {
						if k < fr {
							continue
						}
						if mode == 1 {
							mb[k] += off * float64(k-fr) / float64(n-fr)
						} else {
							mb[k] += off
						}
						if mb[k] < mb[imx(k-1, 0)] {
							mb[k] = mb[k-1]
						}
					}
					ls := []mline{{"a", a, ma}, {"b", b, mb}}
					for par := 1; par <= 2; par++ {
						c.Run(Scn{Name: nm + fmt.Sprint(" p", par), T: shapeSet(ls, []int{0, 1}, 0.01, 0.01, 0, 1), Ops: []string{"S"}, Par: par}, shapeDupOracle)
						c.Run(Scn{Name: nm + fmt.Sprint(" swapped p", par), T: shapeSet(ls, []int{1, 0, 1}, 48, 7.8, 0.3, 1), Ops: []string{"S"}, Par: par}, shapeDupOracle)
					}
				}
			}
		}
	}
	// lines at places that differ in the sign of a coordinate
	for i := 1; i < 4; i++ {
		for par := 1; par <= 3; par++ {
			nm := fmt.Sprintf("mirrored %d p%d", i, par)
			if !c.Mine(nm) {
				continue
			}
			t := shapeFeed()
			for k, g := range [][4]float64{{48, 7.8, 48.01, 7.81}, {48, 7.8, 48.01, 7.81}} {
				for q := 0; q < 2; q++ {
					la, lo := g[2*q], g[2*q+1]
					if k == 1 && i&1 != 0 {
						la = -la
					}
					if k == 1 && i&2 != 0 {
						lo = -lo
					}
					t.Add("shapes", shpRow(fmt.Sprint("h", k), q+1, la, lo, "shape_dist_traveled", fmt.Sprint(q*1500)))
				}
				t.simpleTrip(fmt.Sprint("t", k), "r1", "v", 3600, "shape_id", fmt.Sprint("h", k))
			}
			c.Run(Scn{Name: nm, T: t, Ops: []string{"S"}, Par: par}, shapeDupOracle)
		}
	}
	// a shape whose measures give no unit between shapes in different units
	for par := 1; par <= 3; par++ {
		for k := 0; k < 6; k++ {
			nm := fmt.Sprintf("no unit %d p%d", k, par)
			if !c.Mine(nm) {
				continue
			}
			t := shapeSet(al, []int{0, 4, 5}[:2+k%2], 48, 7.8, 0, 1)
			rows := al[1].rows("z", 48, 7.8, 0)
			t.Add("shapes", rows...)
			t.simpleTrip("tz", "r1", "v", 3600, "shape_id", "z")
			c.Explore(Scn{Name: nm, T: t, Ops: []string{"S"}, Par: par, Maps: true}, c.Pick(1, 2), c.Pick(3000, 20000), shapeDupOracle)
		}
	}
	// chains of shapes near to the next, in every order, with and without trips
	for n := 2; n <= c.Pick(4, 5); n++ {
		for _, pm := range perms(n) {
			for use := 1; use < 1<<uint(n); use++ {
				for mode := 0; mode < 3; mode++ {
					nm := fmt.Sprintf("chain %v use %d mode %d", pm, use, mode)
					if !c.Mine(nm) {
						continue
					}
					t := shapeFeed()
					for i, x := range pm {
						id := fmt.Sprintf("h%d", i)
						off := 0.8 * float64(x)
						p := [][2]float64{{off, 0}, {off, 150}, {off, 400}}
						m := metric(p, 1, 0)
						if mode == 1 { // the middle one is the longest
							m[2] += []float64{0.1, 0.3, 0.2, 0.15, 0}[x]
						} else if mode == 2 {
							m[2] += 0.1 * float64(x)
						}
						t.Add("shapes", mline{id, p, m}.rows(id, 0.01, 0.01, 0)...)
						if use&(1<<uint(i)) != 0 {
							t.simpleTrip("t"+id, "r1", "v", 3600, "shape_id", id)
						}
					}
					c.Run(Scn{Name: nm, T: t, Ops: []string{"S"}, Par: 1 + use%3}, shapeDupOracle)
				}
			}
		}
	}
	// schedules and map orders
	for i, v := range [][]int{{}, {0}, {0, 0}, {0, 0, 0}, {0, 2, 3, 7}, {0, 4, 0, 4}, {16, 16}, {0, 8, 0}, {8, 8, 8, 0}, {2, 3, 18, 4}} {
		for par := 1; par <= 3; par++ {
			nm := fmt.Sprintf("sched %d p%d", i, par)
			if c.Mine(nm) {
				c.Explore(Scn{Name: nm, T: shapeSet(al, v, 0.01, 0.01, 0, 2), Ops: []string{"S"}, Par: par, Maps: true}, c.Pick(1, 2), c.Pick(4000, 20000), shapeDupOracle)
			}
		}
	}
}
