package main

import "fmt"

func init() { checks["C19"] = checkC19 }

const noService = "1" // pickup_type or drop_off_type: not possible here

func groupOracle(e *Exec) string {
	if m := problems(e); m != "" {
		return m
	}
	if m := Same(NewView(e.In), NewView(e.Out), "trip"); m != "" {
		return m
	}
	for _, id := range keys(e.In.Trips) {
		if e.Out.Trips[id] == nil {
			return "trip lost: " + id
		}
		if a, b := NewView(e.In).row("trip", e.In.Trips[id]), NewView(e.Out).row("trip", e.Out.Trips[id]); a != b {
			return fmt.Sprintf("trip %s changed:\n- %s\n+ %s", id, a, b)
		}
		fa, fb := "", ""
		for _, f := range e.In.Freqs[id] {
			fa += f.key() + "\n"
		}
		for _, f := range e.Out.Freqs[id] {
			fb += f.key() + "\n"
		}
		if fa != fb {
			return fmt.Sprintf("frequencies of trip %s changed:\n%s", id, diff(fa, fb))
		}
		l, o := e.In.StopTimes[id], e.Out.StopTimes[id]
		show := func(x []M) string {
			s := ""
			for _, m := range x {
				s += "\n  " + m.key()
			}
			return s
		}
		j := 0
		var runs [][]M
		for _, m := range l {
			if j < len(o) && o[j]["seq"] == m["seq"] {
				runs = append(runs, nil)
				j++
			}
			if len(runs) == 0 {
				return fmt.Sprintf("first call of trip %s is gone:%s\ninto%s", id, show(l), show(o))
			}
			runs[len(runs)-1] = append(runs[len(runs)-1], m)
		}
		if j != len(o) {
			return fmt.Sprintf("calls of trip %s were renumbered or invented:%s\ninto%s", id, show(l), show(o))
		}
		for i, r := range runs {
			x := o[i]
			bad := func(s string) string {
				return fmt.Sprintf("trip %s: %s:%s\ninto%s", id, s, show(r), show([]M{x}))
			}
			if len(r) == 1 {
				if x.key() != r[0].key() {
					return bad("call changed")
				}
				continue
			}
			a, b := x.clone(), r[0].clone()
			for _, k := range []string{"dep", "pu", "do"} {
				delete(a, k)
				delete(b, k)
			}
			if a.key() != b.key() {
				return bad("grouped call is unlike the first")
			}
			if x["dep"] != r[len(r)-1]["dep"] {
				return bad("grouped call does not depart like the last")
			}
			pu, do := map[string]bool{}, map[string]bool{}
			for _, m := range r {
				for _, k := range []string{"stop", "dist", "cpu", "cdo", "headsign"} {
					if m[k] != r[0][k] {
						return bad("grouped calls differ in " + k)
					}
				}
				if m["tp"] != r[0]["tp"] && (m["dep"] != r[0]["dep"] || m["arr"] != r[0]["arr"]) {
					return bad("grouped an exact and an approximate time")
				}
				pu[m["pu"]], do[m["do"]] = true, true
			}
			for v := range pu {
				if v != noService && v != x["pu"] {
					return bad("boarding is not as before")
				}
			}
			for v := range do {
				if v != noService && v != x["do"] {
					return bad("alighting is not as before")
				}
			}
			if !pu[x["pu"]] || !do[x["do"]] {
				return bad("boarding or alighting is new")
			}
			if (x["arr"] == "") != (x["dep"] == "") {
				return bad("only one time is left")
			}
			if i == 0 && len(e.In.Freqs[id]) > 0 && x["dep"] != r[0]["dep"] {
				return bad("first departure of a repeated trip moved")
			}
		}
		// equal calls do not stay apart
		for i := 1; i < len(runs); i++ {
			if len(e.In.Freqs[id]) > 0 && i == 1 {
				continue
			}
			p, q := runs[i-1][len(runs[i-1])-1], runs[i][0]
			a, b := p.clone(), q.clone()
			for _, m := range []M{a, b} {
				for _, k := range []string{"seq", "arr", "dep"} {
					delete(m, k)
				}
				for k := range m {
					if k[0] == '+' {
						delete(m, k)
					}
				}
			}
			alone := true
			for _, m := range runs[i-1] {
				alone = alone && m["pu"] == p["pu"] && m["do"] == p["do"]
			}
			if alone && a.key() == b.key() && p["arr"] == p["dep"] && q["arr"] == q["dep"] && (p["arr"] == "") == (q["arr"] == "") {
				return fmt.Sprintf("trip %s still has two adjacent equal calls:%s", id, show([]M{p, q}))
			}
		}
	}
	return ""
}

// call is one call of an enumerated trip.
type call struct {
	stop, wait, pu, do, tp, dist, cpu, cdo int
}

func (t T) calls(id string, l []call, freq bool) {
	t.Add("trips", tripRow(id, "r1", "v", "x_t", id))
	if freq {
		t.Add("frequencies", R("trip_id", id, "start_time", "06:00:00", "end_time", "07:00:00", "headway_secs", "600", "exact_times", "1"))
	}
	clock, d := 36000, 0
	for i, c := range l {
		r := R("trip_id", id, "stop_sequence", fmt.Sprint(3*i+2), "stop_id", []string{"s1", "s2"}[c.stop], "x_st", fmt.Sprint("c", i))
		if c.tp < 2 {
			r = append(r, KV{"arrival_time", hms(clock)}, KV{"departure_time", hms(clock + c.wait*30)}, KV{"timepoint", fmt.Sprint(1 - c.tp)})
			clock += c.wait * 30
		} else {
			r = append(r, KV{"arrival_time", ""}, KV{"departure_time", ""}, KV{"timepoint", "0"})
		}
		clock += 60
		d += c.dist * 5
		if c.dist < 3 {
			r = append(r, KV{"shape_dist_traveled", fmt.Sprint(d)})
		}
		r = append(r, KV{"pickup_type", fmt.Sprint(c.pu)}, KV{"drop_off_type", fmt.Sprint(c.do)}, KV{"continuous_pickup", fmt.Sprint(c.cpu)}, KV{"continuous_drop_off", fmt.Sprint(c.cdo)})
		t.Add("stop_times", r)
	}
}

func checkC19(c *Ctx) {
	ops := []string{"group"}
	var t T
	k, num := 0, 0
	fam := ""
	flush := func() {
		if k == 0 {
			return
		}
		nm := fmt.Sprintf("%s %d", fam, num)
		if c.Mine(nm) {
			c.Run(Scn{Name: nm, T: t, Ops: ops, Par: 1}, groupOracle)
		}
		num++
		k = 0
	}
	add := func(l []call, freq bool) {
		if k == 0 {
			t = base()
			t.Add("calendar", calRow("v", 127, d0, d0+6))
		}
		t.calls(fmt.Sprint("t", k), l, freq)
		if k++; k == 60 {
			flush()
		}
	}
	decode := func(v int, sizes []int) []int {
		r := make([]int, len(sizes))
		for i, s := range sizes {
			r[i] = v % s
			v /= s
		}
		return r
	}
	// two calls in full, at the start, in the middle and at the end
	fam = "two"
	sz := []int{2, 4, 4, 3, 2, 2, 2}
	n := 2 * 4 * 4 * 3 * 2 * 2 * 2
	for x := 0; x < n; x++ {
		for y := 0; y < n; y++ {
			if c.Quick() && (x+y*3)%5 != 0 {
				continue
			}
			a, b := decode(x, sz), decode(y, sz)
			l := []call{{0, a[0], a[1], a[2], a[3], a[6], a[4], a[5]}, {0, b[0], b[1], b[2], b[3], b[6], b[4], b[5]}}
			p := call{1, 0, 0, 0, 0, 1, 1, 1}
			switch (x + y) % 4 {
			case 1:
				l = append([]call{p}, l...)
			case 2:
				l = append(l, p)
			case 3:
				l = append(append([]call{p}, l...), p)
			}
			add(l, (x/3+y)%5 == 0)
		}
	}
	flush()
	// unmeasured calls
	fam = "measure"
	for v := 0; v < 4*4*4*8; v++ {
		q := decode(v, []int{4, 4, 4, 2, 2, 2})
		add([]call{{q[3], 0, 0, 0, 0, q[0], 1, 1}, {q[4], 0, 0, 0, 0, q[1], 1, 1}, {q[5], 0, 0, 0, 0, q[2], 1, 1}}, v%3 == 0)
	}
	flush()
	// longer runs
	fam = "runs"
	alpha := []call{{0, 0, 0, 0, 0, 0, 1, 1}, {0, 0, 1, 0, 0, 0, 1, 1}, {0, 0, 0, 1, 0, 0, 1, 1}, {0, 1, 0, 0, 0, 0, 1, 1}, {0, 0, 2, 3, 0, 0, 1, 1}, {0, 0, 1, 1, 0, 0, 1, 1},
		{0, 0, 0, 0, 2, 0, 1, 1}, {1, 0, 0, 0, 0, 1, 1, 1}, {0, 0, 0, 0, 0, 1, 1, 1}, {0, 0, 3, 0, 1, 0, 1, 1}, {0, 0, 0, 0, 0, 0, 0, 1}, {0, 0, 0, 0, 0, 0, 1, 2}}
	m := c.Pick(7, len(alpha))
	for ln := 1; ln <= 5; ln++ {
		p := 1
		for i := 0; i < ln; i++ {
			p *= m
		}
		for v := 0; v < p; v++ {
			if ln == 5 && v%c.Pick(3, 2) != 0 {
				continue
			}
			var l []call
			for x, i := v, 0; i < ln; i++ {
				l = append(l, alpha[x%m])
				x /= m
			}
			add(l, v%7 == 0)
		}
	}
	flush()
	// trips of very different lengths next to each other
	lens := []int{1, 2, 3, 5, 6, 7, 8, 9, 12, 13, 17, 24, 33, 50}
	for a := range lens {
		for b := range lens {
			for v := 0; v < 4; v++ {
				nm := fmt.Sprintf("long %d %d %d", a, b, v)
				if !c.Mine(nm) {
					continue
				}
				t := base()
				t.Add("calendar", calRow("v", 127, d0, d0+6))
				for i, ln := range []int{lens[a], lens[b], lens[(a+b)%len(lens)], lens[(a+2*b+3)%len(lens)]}[:3+v%2] {
					var l []call
					for j := 0; j < ln; j++ {
						q := alpha[0]
						switch v {
						case 0: // nothing to group
							q.stop = (i + j) % 2
						case 1: // pairs
							q.stop = (i + j/2) % 2
						case 2: // runs of three, waiting
							q.stop, q.wait = (j/3)%2, j%2
						case 3: // one long stop in the middle
							if q.stop = j % 2; j > ln/3 && j < 2*ln/3 {
								q.stop = 0
							}
						}
						l = append(l, q)
					}
					t.calls(fmt.Sprint("t", i), l, (i+v)%5 == 4)
				}
				c.Explore(Scn{Name: nm, T: t, Ops: ops, Par: 1, Maps: true}, 1, c.Pick(6, 30), groupOracle)
			}
		}
	}
}
