package main

import (
	"fmt"
	"math"
)

func init() { checks["C11"] = checkC11 }

// --- geometry shared by the shape checks ---

type xy struct{ x, y float64 }

// merc is the exact web mercator projection.
func merc(lat, lon float64) xy {
	const R = 6378137.0
	a := lat * math.Pi / 180
	return xy{R * lon * math.Pi / 180, R * math.Log(math.Tan(math.Pi/4+a/2))}
}

func mercP(p Pt) xy { return merc(float64(p.Lat), float64(p.Lon)) }

// mercTol is the error the repository's single precision projection may add to a distance.
func mercTol(p xy) float64 {
	m := math.Max(math.Abs(p.x), math.Abs(p.y))
	return 0.01 + 4*m*6e-8
}

func segDist(p, a, b xy) float64 {
	dx, dy := b.x-a.x, b.y-a.y
	d := dx*dx + dy*dy
	t := 0.0
	if d > 0 {
		t = math.Max(0, math.Min(1, ((p.x-a.x)*dx+(p.y-a.y)*dy)/d))
	}
	return math.Hypot(p.x-a.x-t*dx, p.y-a.y-t*dy)
}

// move is the point x metres east and y metres north of an origin.
func move(lat, lon, x, y float64) (float64, float64) {
	const m = 111319.49079327357
	return lat + y/m, lon + x/(m*math.Cos(lat*math.Pi/180))
}

func f9(f float64) string { return fmt.Sprintf("%.9f", f) }

func shpRow(id string, seq int, lat, lon float64, kv ...string) Row {
	return R("shape_id", id, "shape_pt_sequence", fmt.Sprint(seq), "shape_pt_lat", f9(lat), "shape_pt_lon", f9(lon)).With(kv...)
}

func samePt(a, b Pt) bool {
	return a.Lat == b.Lat && a.Lon == b.Lon && a.Add == b.Add && (a.Dist == b.Dist || math.IsNaN(a.Dist) && math.IsNaN(b.Dist))
}

// simplified says whether out is an allowed simplification of in.
func simplified(in, out []Pt) string {
	if len(out) == 0 {
		return "no points left"
	}
	for i := 1; i < len(out); i++ {
		if out[i].Seq <= out[i-1].Seq {
			return fmt.Sprintf("sequence numbers not increasing: %v", out)
		}
	}
	if len(out) > len(in) {
		return fmt.Sprintf("points added: %v -> %v", in, out)
	}
	if !samePt(in[0], out[0]) || !samePt(in[len(in)-1], out[len(out)-1]) {
		return fmt.Sprintf("first or last point not kept: %v -> %v", in, out)
	}
	// reach[j]: out[j] may stem from in[i]
	reach := map[int]bool{0: true}
	sub := map[int]bool{0: true}
	for j := 1; j < len(out); j++ {
		next, nsub := map[int]bool{}, map[int]bool{}
		for i := j; i < len(in); i++ {
			if !samePt(in[i], out[j]) {
				continue
			}
			for k := range sub {
				nsub[i] = nsub[i] || k < i
			}
			if !nsub[i] {
				delete(nsub, i)
			}
			for k := range reach {
				if k >= i {
					continue
				}
				ok := true
				for q := k + 1; q < i && ok; q++ {
					p := mercP(in[q])
					ok = segDist(p, mercP(in[k]), mercP(in[i])) <= 1+mercTol(p)
				}
				if ok {
					next[i] = true
				}
			}
		}
		reach, sub = next, nsub
	}
	if !sub[len(in)-1] {
		return fmt.Sprintf("not a subsequence of the points, with their measures: %v -> %v", in, out)
	}
	if !reach[len(in)-1] {
		return fmt.Sprintf("a dropped point is farther than 1 m from the simplified line: %v -> %v", in, out)
	}
	return ""
}

func minShapeOracle(e *Exec) string {
	if m := problems(e); m != "" {
		return m
	}
	if d := Same(NewView(e.In), NewView(e.Out), "shape"); d != "" {
		return d
	}
	for id, in := range e.In.Shapes {
		out, ok := e.Out.Shapes[id]
		if !ok {
			return "shape " + id + " is gone"
		}
		if r := simplified(in, out); r != "" {
			return fmt.Sprintf("shape %s: %s", id, r)
		}
	}
	if len(e.Out.Shapes) != len(e.In.Shapes) {
		return "shapes added"
	}
	return ""
}

// shapeFeed is a base feed whose trips use every shape.
func shapeFeed() T {
	t := base()
	t.Add("calendar", calRow("v", 127, d0, d0+6))
	t.Add("stops", stopRow("s3", 48.02, 7.82))
	return t
}

// batches collects shapes and runs them through op, n per feed.
type batch struct {
	c      *Ctx
	name   string
	op     []string
	n      int
	t      T
	k, num int
	oracle func(*Exec) string
	trips  bool
}

func (b *batch) add(pts func(id string) []Row) {
	if b.t == nil {
		b.t = shapeFeed()
	}
	id := fmt.Sprintf("h%d", b.k)
	b.t.Add("shapes", pts(id)...)
	if b.trips {
		b.t.simpleTrip("t"+id, "r1", "v", 3600, "shape_id", id)
	}
	if b.k++; b.k == b.n {
		b.flush()
	}
}

func (b *batch) flush() {
	if b.k == 0 {
		return
	}
	if !b.trips {
		b.t.simpleTrip("t", "r1", "v", 3600, "shape_id", "h0")
	}
	nm := fmt.Sprintf("%s %d", b.name, b.num)
	if b.c.Mine(nm) {
		b.c.Run(Scn{Name: nm, T: b.t, Ops: b.op, Par: 1 + b.num%5}, b.oracle)
	}
	b.num++
	b.t, b.k = nil, 0
}

func checkC11(c *Ctx) {
	// all polylines over a grid of steps, near the equator (where the projection is exact) and elsewhere
	type step struct{ dx, dy float64 }
	alpha := []step{{40, 0}, {40, 0.8}, {40, -0.8}, {40, 1.3}, {40, -6}, {-15, 0.3}, {0, 0}, {0.6, 30}}
	if !c.Quick() {
		alpha = append(alpha, step{0.5, 0.5}, step{-40, -2.2})
	}
	type place struct{ lat, lon, rot float64 }
	places := []place{{0.01, 0.02, 0}, {-0.05, -0.03, 0.7}, {0.02, 0.01, 1.5707963}, {48, 7.8, 0.3}, {-71, -160, 0.9}}
	meas := []func(i int) string{
		func(i int) string { return "" },
		func(i int) string { return fmt.Sprint(i * i) },
		func(i int) string { return []string{"0", "", "0", "7", "", "7", "9"}[mini(i, 6)] },
	}
	for pi, p := range places {
		N := c.Pick(6, 7)
		if pi > 0 {
			N = c.Pick(5, 6)
		}
		for n := 2; n <= N; n++ {
			dims := make([]int, n-1)
			for i := range dims {
				dims[i] = len(alpha)
			}
			b := &batch{c: c, name: fmt.Sprintf("lines place %d n %d", pi, n), op: []string{"s"}, n: 97, oracle: minShapeOracle}
			cnt := 0
			product(dims, func(v []int) {
				cnt++
				m := meas[cnt%len(meas)]
				b.add(func(id string) []Row {
					x, y := 0.0, 0.0
					var rows []Row
					for i := 0; i <= len(v); i++ {
						if i > 0 {
							x += alpha[v[i-1]].dx
							y += alpha[v[i-1]].dy
						}
						rx, ry := x*math.Cos(p.rot)-y*math.Sin(p.rot), x*math.Sin(p.rot)+y*math.Cos(p.rot)
						la, lo := move(p.lat, p.lon, rx, ry)
						rows = append(rows, shpRow(id, 3*i+cnt%4, la, lo, "shape_dist_traveled", m(i), "x_pt", []string{"", fmt.Sprintf("%s-%d", id, i)}[cnt/2%2]))
					}
					return rows
				})
			})
			b.flush()
		}
	}
	// long lines: a bump (or a loop back) of each height at each pair of places in a long straight or curved line
	L := c.Pick(40, 120)
	for curve := 0; curve < 3; curve++ {
		b := &batch{c: c, name: fmt.Sprintf("bump %d", curve), op: []string{"s"}, n: 50, oracle: minShapeOracle}
		for i := 1; i < L-1; i++ {
			for j := i; j < L-1; j += 1 + (j-i)/3 {
				for _, h := range []float64{0.7, 1.2, 2, 25} {
					b.add(func(id string) []Row {
						var rows []Row
						for k := 0; k < L; k++ {
							x, y := float64(k)*10, 0.0
							if curve == 1 {
								y = 0.002 * x * x
							}
							if curve == 2 && k >= L/2 {
								x = float64(L-k) * 10
							}
							if k == i || k == j {
								y += h
							}
							la, lo := move(0.01, 0.01, x, y)
							rows = append(rows, shpRow(id, k+1, la, lo, "shape_dist_traveled", []string{fmt.Sprint(k * 10), ""}[k%2*(j%2)]))
						}
						return rows
					})
				}
			}
		}
		b.flush()
	}
	// closed rings of many points, alone or within a line, run once or twice
	b := &batch{c: c, name: "rings", op: []string{"s"}, n: 20, oracle: minShapeOracle}
	for _, n := range []int{3, 4, 5, 6, 7, 8, 9, 10, 12, 16, 17, 31, 33, 60, 64, 65, 66, 100, 129, 257} {
		for _, r := range []float64{0.4, 0.7, 1.6, 8, 300} {
			for mode := 0; mode < 8; mode++ {
				for pi, p := range places[:c.Pick(2, 5)] {
					b.add(func(id string) []Row {
						var l [][2]float64
						if mode&1 != 0 {
							l = append(l, [2]float64{-500, 0}, [2]float64{-250, 0.2})
						}
						for i := 0; i <= n<<uint(mode>>2); i++ {
							a := 2 * math.Pi * float64(i%n) / float64(n)
							l = append(l, [2]float64{r * math.Sin(a), r - r*math.Cos(a)})
						}
						if mode&2 != 0 {
							l = append(l, [2]float64{250, -0.2}, [2]float64{500, 0})
						}
						var rows []Row
						for i, q := range l {
							la, lo := move(p.lat, p.lon, q[0]*math.Cos(p.rot)-q[1]*math.Sin(p.rot), q[0]*math.Sin(p.rot)+q[1]*math.Cos(p.rot))
							rows = append(rows, shpRow(id, i+1, la, lo, "shape_dist_traveled", []string{"", fmt.Sprint(i)}[(n+mode+pi)%2]))
						}
						return rows
					})
				}
			}
		}
	}
	b.flush()
	// small and odd shapes: one point, coincident points, closed lines, huge sequence numbers
	for k := 0; k < 4; k++ {
		for par := 1; par <= 4; par++ {
			nm := fmt.Sprintf("odd %d p%d", k, par)
			if !c.Mine(nm) {
				continue
			}
			t := shapeFeed()
			t.Add("shapes", shpRow("one", 7, 48, 7.8, "shape_dist_traveled", []string{"3", ""}[k%2], "x_pt", "q"))
			for i := 0; i < 2+k; i++ {
				t.Add("shapes", shpRow("coin", 10-i, 48, 7.8, "shape_dist_traveled", fmt.Sprint(10-i)))
				a := float64(i) * 2 * math.Pi / float64(1+k)
				la, lo := move(1, 1, 300*math.Cos(a), 300*math.Sin(a))
				t.Add("shapes", shpRow("ring", 4294967290+i, la, lo, "x_pt", fmt.Sprint("r", i)))
				t.Add("shapes", shpRow("pole", i, 90, float64(i)))
				t.Add("shapes", shpRow("anti", i, 0.001*float64(i*i), 179.99-0.005*float64(i)))
			}
			t.simpleTrip("t1", "r1", "v", 3600, "shape_id", "one")
			t.simpleTrip("t2", "r1", "v", 3600, "shape_id", "ring")
			t.simpleTrip("t3", "r1", "v", 3600, "shape_id", "coin")
			c.Run(Scn{Name: nm, T: t, Ops: []string{"s"}, Par: par}, minShapeOracle)
		}
	}
	// schedules
	for n := 0; n <= 4; n++ {
		for par := 1; par <= 3; par++ {
			nm := fmt.Sprintf("sched %d p%d", n, par)
			if !c.Mine(nm) {
				continue
			}
			t := shapeFeed()
			for i := 0; i < n; i++ {
				for k := 0; k < 4; k++ {
					t.Add("shapes", shpRow(fmt.Sprint("h", i), k*2, 0.01+0.001*float64(k), 0.01+0.00001*float64(k%2*i), "x_pt", fmt.Sprint(i, k)))
				}
			}
			t.simpleTrip("t1", "r1", "v", 3600)
			c.Explore(Scn{Name: nm, T: t, Ops: []string{"s"}, Par: par, Maps: true}, c.Pick(2, 3), c.Pick(2000, 20000), minShapeOracle)
		}
	}
}
