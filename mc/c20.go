package main

import (
	"fmt"
	"math"
)

func init() { checks["C20"] = checkC20 }

func unchangedBut(a, b M, drop ...string) bool {
	x, y := a.clone(), b.clone()
	for _, k := range drop {
		delete(x, k)
		delete(y, k)
	}
	return x.key() == y.key()
}

// stationOracle follows one option at a time.
func stationOracle(op string) func(e *Exec) string {
	return func(e *Exec) string {
		if m := problems(e); m != "" {
			return m
		}
		if m := Same(NewView(e.In), NewView(e.Out), "stop"); m != "" {
			return m
		}
		in, out := e.In.Stops, e.Out.Stops
		for _, id := range keys(in) {
			if out[id] == nil {
				return "stop lost: " + id
			}
		}
		owner := map[string]string{}
		for _, id := range keys(in) {
			a, b := in[id], out[id]
			switch op {
			case "parents":
				if a["lt"] != "0" || a["parent"] != "" {
					break
				}
				p := b["parent"]
				if p == "" {
					return fmt.Sprintf("stop %s still has no station", id)
				}
				if in[p] != nil {
					return fmt.Sprintf("stop %s was put into the existing place %s", id, p)
				}
				if owner[p] != "" {
					return fmt.Sprintf("stops %s and %s share the new station %s", id, owner[p], p)
				}
				owner[p] = id
				s := out[p]
				if s["lt"] != "1" || s["parent"] != "" {
					return fmt.Sprintf("new station %s is none: %s", p, s.key())
				}
				for _, k := range []string{"name", "lat", "lon"} {
					if s[k] != a[k] {
						return fmt.Sprintf("new station %s has %s %q, its stop %q", p, k, s[k], a[k])
					}
				}
				for k, v := range s {
					if k != "lt" && k != "parent" && v != a[k] && v != "" && !(k == "wb" && v == "0") {
						return fmt.Sprintf("new station %s has %s %q, its stop %q", p, k, v, a[k])
					}
				}
				if !unchangedBut(a, b, "parent") {
					return fmt.Sprintf("stop %s changed:\n- %s\n+ %s", id, a.key(), b.key())
				}
				continue
			case "plat":
				if a["parent"] != "" {
					break
				}
				if b["platform"] != "" {
					return fmt.Sprintf("stop %s has no station but still platform %s", id, b["platform"])
				}
				if !unchangedBut(a, b, "platform") {
					return fmt.Sprintf("stop %s changed:\n- %s\n+ %s", id, a.key(), b.key())
				}
				continue
			case "avg":
				if a["lt"] != "1" || a.key() == b.key() {
					break
				}
				if !unchangedBut(a, b, "lat", "lon") {
					return fmt.Sprintf("station %s changed:\n- %s\n+ %s", id, a.key(), b.key())
				}
				la, lo, n, far := 0., 0., 0., 0.
				for _, c := range keys(in) {
					if s := in[c]; s["parent"] == id && !math.IsNaN(pf(s["lat"])) {
						la, lo, n = la+pf(s["lat"]), lo+pf(s["lon"]), n+1
						far = math.Max(far, stopMeters(a, s))
					}
				}
				for _, c := range keys(in) {
					if s := in[c]; s["parent"] == id && !math.IsNaN(pf(s["lat"])) {
						if d := meters(la/n, lo/n, pf(s["lat"]), pf(s["lon"])); d > 101 {
							return fmt.Sprintf("station %s moved although %s is %.1f m away from the middle of its stops", id, c, d)
						}
					}
				}
				if n == 0 || far < 99.9 {
					return fmt.Sprintf("station %s moved although its farthest stop was %.1f m away", id, far)
				}
				if !(math.Abs(pf(b["lat"])-la/n) < 2e-5 && math.Abs(pf(b["lon"])-lo/n) < 2e-5) {
					return fmt.Sprintf("station %s moved to %s/%s, the middle of its stops is %f/%f", id, b["lat"], b["lon"], la/n, lo/n)
				}
				continue
			}
			if a.key() != b.key() {
				return fmt.Sprintf("stop %s changed:\n- %s\n+ %s", id, a.key(), b.key())
			}
		}
		for _, id := range keys(out) {
			if in[id] == nil && owner[id] == "" {
				return fmt.Sprintf("invented stop %s: %s", id, out[id].key())
			}
		}
		if op != "avg" {
			return ""
		}
		// stations whose stops are all near the middle do not stay far away
		for _, id := range keys(in) {
			a := in[id]
			if a["lt"] != "1" {
				continue
			}
			la, lo, n, far, near := 0., 0., 0., 0., true
			for _, c := range keys(in) {
				if s := in[c]; s["parent"] == id && !math.IsNaN(pf(s["lat"])) {
					la, lo, n = la+pf(s["lat"]), lo+pf(s["lon"]), n+1
					far = math.Max(far, stopMeters(a, s))
				}
			}
			for _, c := range keys(in) {
				if s := in[c]; s["parent"] == id && !math.IsNaN(pf(s["lat"])) {
					near = near && meters(la/n, lo/n, pf(s["lat"]), pf(s["lon"])) < 99
				}
			}
			if n > 0 && far > 101 && near && a.key() == out[id].key() {
				return fmt.Sprintf("station %s stays %.1f m from its stop", id, far)
			}
		}
		return ""
	}
}

func checkC20(c *Ctx) {
	svc := func(t T, stops ...string) {
		t.Add("calendar", calRow("v", 127, d0, d0+6))
		t.simpleTrip("t", "r1", "v", 3600)
		for i, s := range stops {
			t.Add("trips", tripRow("t"+s, "r1", "v"))
			t.Add("stop_times", stRow("t"+s, 1, s, 3600*i), stRow("t"+s, 2, "s1", 3600*i+900))
		}
	}
	// stations for stops with ids that look generated
	ids := []string{"x", "par::x", "par1::x", "par::par::x", "par2::x", "", "par::"}
	for m := 1; m < 1<<7; m++ {
		for k := 0; k < 243; k++ {
			nm := fmt.Sprintf("ids %d %d", m, k)
			if !c.Mine(nm) || c.Quick() && (m+k)%4 != 0 {
				continue
			}
			t := base()
			v := k
			st := ""
			var l []string
			for i, id := range ids {
				if m>>uint(i)&1 == 0 || id == "" {
					continue
				}
				la, lo := move(48, 7.8, float64(i)*300*float64(imx(0, k%5-1)), 0)
				kind := v % 3
				v /= 3
				r := stopRow(id, la, lo, "stop_name", "Same", "platform_code", "p", "stop_code", "c"+id, "zone_id", "z", "wheelchair_boarding", fmt.Sprint(i%3), "x_s", "v"+id, "stop_desc", "d", "stop_timezone", "Europe/Berlin", "stop_url", "http://"+fmt.Sprint(i)+".de")
				switch {
				case kind == 1:
					r = r.With("location_type", "1", "platform_code", "")
					st = id
				case kind == 2 && st != "":
					r = r.With("parent_station", st)
				}
				if kind != 1 {
					l = append(l, id)
				}
				t.Add("stops", r)
			}
			svc(t, l...)
			for _, op := range []string{"parents", "plat"} {
				s := Scn{Name: nm + op, T: t, Ops: []string{op}, Par: 1, Maps: true}
				c.Explore(s, 1, c.Pick(12, 40), stationOracle(op))
			}
		}
	}
	// all kinds of places
	for m := 0; m < 1<<10; m++ {
		for _, op := range []string{"parents", "plat", "avg"} {
			nm := fmt.Sprintf("kinds %s %d", op, m)
			if !c.Mine(nm) {
				continue
			}
			t := base()
			has := func(i int) bool { return m>>uint(i)&1 == 1 }
			at := func(d float64) (string, string) { la, lo := move(48, 7.8, d, d/2); return f2s(la), f2s(lo) }
			add := func(id string, lt int, parent string, d float64) {
				la, lo := at(d)
				t.Add("stops", R("stop_id", id, "stop_name", "N"+id, "location_type", fmt.Sprint(lt), "parent_station", parent, "stop_lat", la, "stop_lon", lo, "platform_code", "q"+id, "x_s", "y"+id))
			}
			far := 30.
			if has(0) {
				far = 160
			}
			add("S", 1, "", far)
			add("p1", 0, "S", 0)
			var l = []string{"p1"}
			if has(1) {
				add("p2", 0, "S", 20)
				l = append(l, "p2")
			}
			if has(2) {
				add("e", 2, "S", 40)
			}
			if has(3) {
				t.Add("stops", R("stop_id", "n", "stop_name", "", "location_type", "3", "parent_station", "S"))
			}
			if has(4) {
				add("b", 4, "p1", 10)
			}
			if has(5) {
				add("b2", 4, "p1", 200)
			}
			if has(6) {
				t.Add("stops", R("stop_id", "b3", "stop_name", "", "location_type", "4", "parent_station", "p1"))
			}
			if has(7) {
				add("q", 0, "", 1000)
				l = append(l, "q")
				add("qb", 4, "q", 1000+far)
			}
			if has(8) {
				add("S2", 1, "", 2000)
			}
			if has(9) {
				t.Add("transfers", R("from_stop_id", "S", "to_stop_id", "p1", "transfer_type", "2", "min_transfer_time", "60"))
				t.Add("pathways", R("pathway_id", "w", "from_stop_id", l[len(l)-1], "to_stop_id", "p1", "pathway_mode", "1", "is_bidirectional", "1"))
			}
			svc(t, l...)
			c.Run(Scn{Name: nm, T: t, Ops: []string{op}, Par: 1}, stationOracle(op))
		}
	}
	// many stops at a station, one or two of them far from the others
	for n := 2; n <= 9; n++ {
		for k := 0; k < n*n; k++ {
			for i, d := range []float64{90, 120, 150, 240, 900} {
				nm := fmt.Sprintf("many %d %d %d", n, k, i)
				if !c.Mine(nm) {
					continue
				}
				t := base()
				la, lo := move(48, 7.8, 0, -200)
				t.Add("stops", stopRow("S", la, lo, "location_type", "1"))
				for j := 0; j < n; j++ {
					x := 0.
					if j == k%n {
						x = d
					}
					if j == k/n && k/n != k%n {
						x = -d
					}
					la, lo := move(48, 7.8, x, float64(3*j))
					lt := "0"
					if j%4 == 3 {
						lt = "2"
					}
					t.Add("stops", stopRow(fmt.Sprint("p", j), la, lo, "parent_station", "S", "location_type", lt))
				}
				svc(t, "p0")
				c.Explore(Scn{Name: nm, T: t, Ops: []string{"avg"}, Par: 1, Maps: true}, 1, c.Pick(4, 12), stationOracle("avg"))
			}
		}
	}
	// stations around the limit
	ds := []float64{0, 50, 95, 98, 102, 105, 150, 195, 205, 400}
	for i := range ds {
		for j := range ds {
			for q := range ds {
				for dir := 0; dir < 8; dir++ {
					nm := fmt.Sprintf("far %d %d %d %d", i, j, q, dir)
					if !c.Mine(nm) {
						continue
					}
					la0, lo0 := []float64{48, -33, 0.0005, 60}[dir%4], []float64{7.8, 151, -0.0005, -20}[dir/2]
					t := base()
					p := func(d float64, k int) (float64, float64) {
						v := [][2]float64{{1, 0}, {0, 1}, {-1, 0}, {0.6, 0.8}, {0, -1}}[(dir+k)%5]
						return move(la0, lo0, d*v[0], d*v[1])
					}
					t.Add("stops", stopRow("S", la0, lo0, "location_type", "1"))
					for k, d := range []float64{ds[i], ds[j], ds[q]} {
						a, b := p(d, k*(dir%2))
						t.Add("stops", stopRow(fmt.Sprint("p", k), a, b, "parent_station", "S"))
						if k == dir%3 {
							break
						}
					}
					svc(t, "p0")
					c.Run(Scn{Name: nm, T: t, Ops: []string{"avg"}, Par: 1}, stationOracle("avg"))
				}
			}
		}
	}
}
