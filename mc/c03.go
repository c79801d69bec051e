package main

import (
	"fmt"
	"sort"
	"strings"
)

func init() { checks["C03"] = checkC03 }

// svcSpec is one service of the alphabet: a weekly pattern over a range plus exceptions.
type svcSpec struct {
	daymap   int
	from, to int // absolute day numbers; from > to: no calendar.txt entry
	exc      map[int]int
}

func (s svcSpec) rows(t T, id string) {
	if s.from <= s.to {
		t.Add("calendar", calRow(id, s.daymap, s.from, s.to))
	}
	var ds []int
	for d := range s.exc {
		ds = append(ds, d)
	}
	sort.Ints(ds)
	for _, d := range ds {
		t.Add("calendar_dates", cdRow(id, d, s.exc[d]))
	}
}

func (s svcSpec) String() string {
	x := ""
	if s.from <= s.to {
		x = fmt.Sprintf("%07b %s-%s", s.daymap, ymd(s.from), ymd(s.to))
	}
	var ds []int
	for d := range s.exc {
		ds = append(ds, d)
	}
	sort.Ints(ds)
	for _, d := range ds {
		x += fmt.Sprintf(" %s:%d", ymd(d), s.exc[d])
	}
	return x
}

func (s svcSpec) active() map[int]bool {
	m := map[int]bool{}
	for d := s.from; d <= s.to; d++ {
		if s.daymap&(1<<uint(weekday(d))) != 0 {
			m[d] = true
		}
	}
	for d, t := range s.exc {
		if t == 1 {
			m[d] = true
		} else {
			delete(m, d)
		}
	}
	return m
}

// svcFeed packs services into one feed, one trip each.
func svcFeed(l []svcSpec) T {
	t := base()
	for i, s := range l {
		id := fmt.Sprintf("v%d", i)
		s.rows(t, id)
		t.simpleTrip("t"+id, "r1", id, 36000+i*60)
	}
	return t
}

// datesKept: every trip still runs on exactly the dates the specification says.
func datesKept(l []svcSpec, e *Exec) string {
	for i, s := range l {
		id := fmt.Sprintf("tv%d", i)
		tr, ok := e.Out.Trips[id]
		if !ok {
			return "trip " + id + " is gone"
		}
		v := e.Out.Services[tr["service"]]
		if v == nil {
			return "trip " + id + " has no service any more"
		}
		var want []string
		for d := range s.active() {
			want = append(want, ymd(d))
		}
		sort.Strings(want)
		if strings.Join(want, ",") != v.key() {
			return fmt.Sprintf("dates of a trip changed: service (%s) should be active on %v but is on %v", s, want, v.Active)
		}
	}
	if len(e.Out.Problems) > 0 {
		return "inconsistent feed: " + e.Out.Problems[0]
	}
	return ""
}

func checkC03(c *Ctx) {
	const pack = 48
	var cur []svcSpec
	name := ""
	n := 0
	flush := func() {
		if len(cur) == 0 {
			return
		}
		l := cur
		cur = nil
		nm := fmt.Sprintf("%s %d", name, n)
		n++
		if !c.Mine(nm) {
			return
		}
		c.Run(Scn{Name: nm, T: svcFeed(l), Ops: []string{"c"}, Par: 1 + n%4}, func(e *Exec) string {
			if m := datesKept(l, e); m != "" {
				return m
			}
			for i, s := range l {
				id := fmt.Sprintf("v%d", i)
				if e.Out.Services[id] == nil {
					return "service " + id + " is gone"
				}
				if a, b := e.In.Services[id].Entries(), e.Out.Services[id].Entries(); b > a {
					return fmt.Sprintf("more calendar entries than before (%d > %d) for service %s: now %s", b, a, s, svcStr(e.Out.Services[id]))
				}
			}
			return ""
		})
	}
	add := func(fam string, s svcSpec) {
		if fam != name {
			flush()
			name = fam
		}
		cur = append(cur, s)
		if len(cur) == pack {
			flush()
		}
	}

	// 1. every set of active days in a window, given by dates only
	w := c.Pick(11, 16)
	for wd := 0; wd < 7; wd++ {
		for m := 1; m < 1<<uint(w); m++ {
			s := svcSpec{from: 1, exc: map[int]int{}}
			for i := 0; i < w; i++ {
				if m&(1<<uint(i)) != 0 {
					s.exc[d0+wd+i] = 1
				}
			}
			add("dates-only", s)
		}
	}
	// 2. ranges with up to k exceptions inside and around, both types
	dms := []int{127, 62, 65, 1, 64, 2, 32, 42, 63, 126, 3, 85, 0}
	lens := []int{1, 2, 6, 7, 8, 13, 14, 15, 21, 22}
	if !c.Quick() {
		dms = nil
		for i := 0; i < 128; i++ {
			dms = append(dms, i)
		}
	}
	for wd := 0; wd < 7; wd++ {
		for _, L := range lens {
			from := d0 + wd
			to := from + L - 1
			pos := []int{from - 8, from - 1, from, from + 1, to - 7, to - 1, to, to + 1, to + 9}
			pos = uniq(pos)
			for _, dm := range dms {
				subsets(len(pos), 2, func(ix []int) {
					if len(ix) == 0 {
						add("range", svcSpec{dm, from, to, nil})
						return
					}
					for ty := 0; ty < 1<<uint(len(ix)); ty++ {
						ex := map[int]int{}
						for k, i := range ix {
							ex[pos[i]] = 1 + ty>>uint(k)&1
						}
						add("range", svcSpec{dm, from, to, ex})
					}
				})
			}
		}
	}
	// 3. removed/added runs inside a range of several weeks (holidays, weekend extras)
	for wd := 0; wd < 7; wd++ {
		for _, dm := range []int{127, 62, 65, 42, 1} {
			for _, L := range []int{28, 35, 40} {
				for a := 0; a < L; a += c.Pick(3, 1) {
					for _, b := range []int{1, 2, 5, 7, 9, 14} {
						for _, ty := range []int{1, 2} {
							from := d0 + wd
							ex := map[int]int{}
							for k := a; k < a+b && k < L+3; k++ {
								ex[from+k] = ty
							}
							add("runs", svcSpec{dm, from, from + L - 1, ex})
						}
					}
				}
			}
		}
	}
	// 4. calendar boundaries: leap day, year end, century ISO weeks, daylight saving
	for _, an := range []int{dayNum(2024, 2, 26), dayNum(2023, 2, 25), dayNum(2023, 12, 26), dayNum(2020, 12, 27), dayNum(2024, 3, 27), dayNum(2024, 10, 24), dayNum(2000, 2, 26), dayNum(1999, 12, 28), dayNum(2100, 2, 25)} {
		for off := 0; off < 7; off++ {
			for _, L := range []int{3, 9, 16} {
				for _, dm := range []int{127, 62, 65, 4} {
					for x := -1; x <= L; x++ {
						for _, ty := range []int{1, 2} {
							add("boundary", svcSpec{dm, an + off, an + off + L - 1, map[int]int{an + off + x: ty}})
						}
					}
				}
			}
			for m := 1; m < 256; m++ {
				s := svcSpec{from: 1, exc: map[int]int{}}
				for i := 0; i < 8; i++ {
					if m&(1<<uint(i)) != 0 {
						s.exc[an+off+i] = 1
					}
				}
				add("boundary", s)
			}
		}
	}
	// 5. long ranges
	for _, L := range []int{60, 120, 200} {
		for wd := 0; wd < 7; wd += 3 {
			for _, dm := range []int{127, 62} {
				for x := 0; x < L; x += 17 {
					add("long", svcSpec{dm, d0 + wd, d0 + wd + L - 1, map[int]int{d0 + wd + x: 2, d0 + wd + L + 30: 1}})
				}
			}
		}
	}
	flush()

	// 6. duplicate removal: representations of equal and nearly equal date sets
	reps := svcReps()
	dupOracle := func(l []svcSpec) func(e *Exec) string {
		return func(e *Exec) string {
			if m := datesKept(l, e); m != "" {
				return m
			}
			seen := map[string]string{}
			for id, s := range e.Out.Services {
				if o, ok := seen[s.key()]; ok && s.key() != "" {
					return "two services active on the same dates remain"
				} else {
					_ = o
				}
				seen[s.key()] = id
			}
			want := map[string]bool{}
			for _, s := range e.In.Services {
				want[s.key()] = true
			}
			got := map[string]bool{}
			for _, s := range e.Out.Services {
				got[s.key()] = true
			}
			for k := range want {
				if !got[k] {
					return "a service's date set is gone: " + k
				}
			}
			return ""
		}
	}
	for i := range reps {
		for j := range reps {
			nm := fmt.Sprintf("dup-pair %d-%d", i, j)
			if !c.Mine(nm) {
				continue
			}
			l := []svcSpec{reps[i], reps[j]}
			for _, ops := range [][]string{{"C"}, {"c", "C"}, {"C", "c"}} {
				c.Run(Scn{Name: nm + " " + strings.Join(ops, ""), T: svcFeed(l), Ops: ops, Par: 1 + (i+j)%3}, dupOracle(l))
			}
		}
	}
	tr := reps
	if c.Quick() {
		tr = reps[:14]
	}
	for i := range tr {
		for j := range tr {
			for k := range tr {
				nm := fmt.Sprintf("dup-triple %d-%d-%d", i, j, k)
				if !c.Mine(nm) {
					continue
				}
				l := []svcSpec{tr[i], tr[j], tr[k]}
				c.Run(Scn{Name: nm, T: svcFeed(l), Ops: []string{"C"}, Par: 1 + (i+j+k)%4}, dupOracle(l))
			}
		}
	}
	// long services which differ in few days
	for _, n := range []int{100, 200, 364, 371, 450} {
		for k := 0; k < n; k++ {
			nm := fmt.Sprintf("dup-long %d %d", n, k)
			if (k*7+n)%c.Pick(5, 1) != 0 && k > 3 && k < n-3 || !c.Mine(nm) {
				continue
			}
			out := func(ds ...int) svcSpec {
				m := map[int]int{}
				for _, d := range ds {
					m[d0+d] = 2
				}
				return svcSpec{127, d0, d0 + n, m}
			}
			for i, l := range [][]svcSpec{{out(), out(k)}, {out(k), out(n/2, k)}, {out(k), out((k + 1) % n)}, {out(k), out(k), out((k + n/2) % n)}} {
				c.Run(Scn{Name: fmt.Sprint(nm, " ", i), T: svcFeed(l), Ops: []string{"C"}, Par: 1 + k%3}, dupOracle(l))
			}
		}
	}
	// all schedules / map orders (bounded) for colliding services
	for _, ix := range [][]int{{0, 1, 2}, {0, 6, 1}, {13, 12, 0, 1}, {3, 4, 5, 8}, {20, 21, 0, 2}} {
		nm := fmt.Sprintf("dup-sched %v", ix)
		if !c.Mine(nm) {
			continue
		}
		var l []svcSpec
		for _, i := range ix {
			l = append(l, reps[i])
		}
		c.Explore(Scn{Name: nm, T: svcFeed(l), Ops: []string{"C"}, Par: 2, Maps: true}, c.Pick(1, 2), c.Pick(400, 6000), dupOracle(l))
		c.Explore(Scn{Name: nm + " c", T: svcFeed(l), Ops: []string{"c"}, Par: 2, Maps: true}, c.Pick(1, 2), c.Pick(400, 6000), func(e *Exec) string { return datesKept(l, e) })
	}
}

// svcReps: calendars that are equal, nearly equal, contained, overlapping, adjacent, empty, far apart.
func svcReps() []svcSpec {
	var reps []svcSpec
	ran := func(dm, a, b int, ex ...int) svcSpec {
		m := map[int]int{}
		for i := 0; i+1 < len(ex); i += 2 {
			m[d0+ex[i]] = ex[i+1]
		}
		return svcSpec{dm, d0 + a, d0 + b, m}
	}
	dates := func(ds ...int) svcSpec {
		m := map[int]int{}
		for _, d := range ds {
			m[d0+d] = 1
		}
		return svcSpec{0, 1, 0, m}
	}
	reps = append(reps,
		ran(127, 0, 2), dates(0, 1, 2), ran(7, 0, 6), ran(6, 0, 6, 0, 1), ran(127, 0, 3, 3, 2), ran(127, -1, 2, -1, 2), // equal
		dates(0, 1), dates(1, 2), dates(0, 2), dates(0, 1, 2, 3), dates(-1, 0, 1, 2), ran(127, 0, 2, 1, 2), // near misses
		dates(7, 8, 9), ran(127, 7, 9), dates(365, 366, 367), dates(0), ran(1, 0, 6), ran(1, 0, 0), ran(1, 0, 7, 7, 2), dates(7),
		ran(127, 0, 0, 0, 2), ran(0, 0, 5), ran(0, 1, 9), ran(2, 0, 0), // never active
		ran(127, 0, 8), ran(127, 0, 8, 1, 2), ran(127, 0, 8, 8, 2), ran(127, 0, 7), ran(127, 0, 7, 8, 1),
		dates(366, 367, 368), dates(30, 31, 32), ran(127, 366, 368), dates(364, 365, 366), dates(28, 29, 30), dates(1461, 1462, 1463), dates(0, 8), dates(0, 9), dates(0, 16), ran(1, 0, 14), ran(1, 0, 14, 7, 2), dates(0, 14), dates(0, 7, 14), dates(0, 1, 8, 9), dates(0, 1, 7, 8))
	return reps
}

func svcStr(s *Svc) string {
	var e []string
	for d, t := range s.Exc {
		e = append(e, d+":"+bo(t))
	}
	sort.Strings(e)
	return fmt.Sprintf("%07b %s-%s %v", s.Daymap, s.Start, s.End, e)
}

func uniq(l []int) []int {
	sort.Ints(l)
	var r []int
	for i, x := range l {
		if i == 0 || x != l[i-1] {
			r = append(r, x)
		}
	}
	return r
}
