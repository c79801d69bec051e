package main

import (
	"fmt"
	"math"
	"strings"
	"unicode"
)

func init() { checks["C18"] = checkC18 }

// names compares stop names by their words, weighted by how rare a word is among all stops.
type names struct {
	df map[string]float64
	n  float64
}

func words(s string) map[string]float64 {
	r := map[string]float64{}
	for _, w := range strings.FieldsFunc(strings.ToUpper(s), func(c rune) bool { return !unicode.IsLetter(c) }) {
		r[w]++
	}
	return r
}

func newNames(s *Snap) *names {
	r := &names{map[string]float64{}, float64(len(s.Stops))}
	for _, m := range s.Stops {
		for w := range words(m["name"]) {
			r.df[w]++
		}
	}
	return r
}

// like is the similarity of two places in [0, 1], with the distance scaled by f.
func (q *names) like(a, b M, f float64) float64 {
	g := 0.5 - 0.5*math.Tanh((stopMeters(a, b)*f-75)/(75*0.25))
	x, y := words(a["name"]), words(b["name"])
	if len(x) == 0 || len(y) == 0 {
		return g
	}
	xy, xx, yy := 0.0, 0.0, 0.0
	same := len(x) == len(y)
	for w, n := range x {
		i := math.Log(q.n / q.df[w])
		xx += n * n * i * i
		xy += n * y[w] * i * i
		same = same && y[w] == n
	}
	for w, n := range y {
		i := math.Log(q.n / q.df[w])
		yy += n * n * i * i
	}
	s := 0.0
	if xx > 0 && yy > 0 {
		s = xy / math.Sqrt(xx*yy)
	} else if same {
		s = 1
	}
	if s > 0.55 {
		s = 0.5 + (s-0.55)/(2*0.45)
	} else {
		s = s / 1.1
	}
	return g * s
}

// complexes lists the stops that belong together from the start.
func complexes(s *Snap) (of map[string]int, all [][]string) {
	of = map[string]int{}
	root := func(id string) string {
		for s.Stops[id]["parent"] != "" {
			id = s.Stops[id]["parent"]
		}
		return id
	}
	ix := map[string]int{}
	for _, id := range keys(s.Stops) {
		r := root(id)
		if _, ok := ix[r]; !ok {
			ix[r] = len(all)
			all = append(all, nil)
		}
		of[id] = ix[r]
		all[ix[r]] = append(all[ix[r]], id)
	}
	return
}

func reclusterOracle(e *Exec) string {
	if m := problems(e); m != "" {
		return m
	}
	in, out := e.In, e.Out
	of, all := complexes(in)
	// stops and stations
	for _, id := range keys(in.Stops) {
		o := out.Stops[id]
		if o == nil {
			if in.Stops[id]["lt"] != "1" {
				return fmt.Sprintf("stop %s is gone", id)
			}
			continue
		}
		a, b := in.Stops[id].clone(), o.clone()
		if a["lt"] == "4" && a["parent"] != b["parent"] {
			return fmt.Sprintf("boarding area %s moved from %s to %s", id, a["parent"], b["parent"])
		}
		if a["parent"] != "" && b["parent"] == "" {
			return fmt.Sprintf("stop %s lost its station", id)
		}
		delete(a, "parent")
		delete(b, "parent")
		if a.key() != b.key() {
			return fmt.Sprintf("stop %s changed:\n- %s\n+ %s", id, a.key(), b.key())
		}
	}
	for _, id := range keys(out.Stops) {
		b := out.Stops[id]
		if p := b["parent"]; p != "" && b["lt"] != "4" && out.Stops[p]["lt"] != "1" {
			return fmt.Sprintf("%s has %s as its station, which is none", id, p)
		}
		if b["lt"] == "1" && b["parent"] != "" {
			return fmt.Sprintf("station %s is part of %s", id, b["parent"])
		}
		if in.Stops[id] != nil {
			continue
		}
		if b["lt"] != "1" {
			return fmt.Sprintf("invented stop %s: %s", id, b.key())
		}
		// a new station says what all its stops say
		val := func(k string, m M, ks string, blank bool) (string, bool) {
			v, first := "", true
			for _, x := range keys(out.Stops) {
				s := out.Stops[x]
				if s["parent"] != id || s["lt"] == "4" || s[k] == "" && blank {
					continue
				}
				if !first && s[k] != v {
					return "", false
				}
				v, first = s[k], false
			}
			return v, true
		}
		n, minA, maxA, minB, maxB := 0, 99., -99., 999., -999.
		nm := false
		for _, x := range keys(out.Stops) {
			s := out.Stops[x]
			if s["parent"] != id {
				continue
			}
			n++
			nm = nm || s["name"] == b["name"]
			if la, lo := pf(s["lat"]), pf(s["lon"]); !math.IsNaN(la) {
				minA, maxA, minB, maxB = math.Min(minA, la), math.Max(maxA, la), math.Min(minB, lo), math.Max(maxB, lo)
			}
		}
		if n == 0 {
			return fmt.Sprintf("new station %s has no stops", id)
		}
		if !nm {
			return fmt.Sprintf("new station %s is named %q unlike its stops", id, b["name"])
		}
		const ep = 1e-4
		if la, lo := pf(b["lat"]), pf(b["lon"]); !(la >= minA-ep && la <= maxA+ep && lo >= minB-ep && lo <= maxB+ep) {
			return fmt.Sprintf("new station %s lies at %s/%s away from its stops", id, b["lat"], b["lon"])
		}
		for _, k := range []string{"wb", "tz", "url"} {
			v, ok := val(k, b, "", k == "url")
			none := ""
			if k == "wb" {
				none = it(0)
			}
			if !ok && b[k] != none || ok && b[k] != v && b[k] != none {
				return fmt.Sprintf("new station %s has %s=%q, which its stops do not agree on", id, k, b[k])
			}
		}
	}
	// groups of what belonged together before
	root := func(s *Snap, id string) string {
		for s.Stops[id]["parent"] != "" {
			id = s.Stops[id]["parent"]
		}
		return id
	}
	group := map[string]map[int]bool{}
	got := make([]string, len(all))
	var lost []int
	for i, l := range all {
		r := ""
		for _, id := range l {
			if out.Stops[id] == nil {
				continue
			}
			x := root(out, id)
			if r != "" && r != x {
				return fmt.Sprintf("stops %v were in one station and now are in several (%s, %s)", l, r, x)
			}
			r = x
		}
		if r == "" {
			lost = append(lost, i)
			continue
		}
		got[i] = r
		if group[r] == nil {
			group[r] = map[int]bool{}
		}
		group[r][i] = true
	}
	q := newNames(in)
	// group i with group j on average
	avg := func(a, b []int, f float64) float64 {
		s, n := 0., 0
		for _, i := range a {
			for _, j := range b {
				for _, x := range all[i] {
					for _, y := range all[j] {
						mx, my := in.Stops[x], in.Stops[y]
						if math.IsNaN(pf(mx["lat"])) || math.IsNaN(pf(my["lat"])) {
							continue
						}
						s += q.like(mx, my, f)
						n++
					}
				}
			}
		}
		if n == 0 {
			return 0
		}
		return s / float64(n)
	}
	memo := map[string]bool{}
	var may func(l []int) bool
	may = func(l []int) bool {
		if len(l) < 2 {
			return true
		}
		if v, ok := memo[fmt.Sprint(l)]; ok {
			return v
		}
		ok := false
		for m := 1; m < 1<<uint(len(l))-1 && !ok; m += 2 {
			var a, b []int
			for i, x := range l {
				if m>>uint(i)&1 == 1 {
					a = append(a, x)
				} else {
					b = append(b, x)
				}
			}
			ok = avg(a, b, 0.99) >= 0.495 && may(a) && may(b)
		}
		memo[fmt.Sprint(l)] = ok
		return ok
	}
	list := func(g map[int]bool) (l []int) {
		for i := range all {
			if g[i] {
				l = append(l, i)
			}
		}
		return
	}
	for _, r := range keysB(group) {
		if l := list(group[r]); !may(l) && len(lost) == 0 {
			var t []string
			for _, i := range l {
				t = append(t, strings.Join(all[i], "+"))
			}
			return fmt.Sprintf("%s are now one station (%s), but are not near and alike", strings.Join(t, " and "), r)
		}
	}
	// stations without stops may be dropped only in favour of a station alike; those that are alike
	// at least through others are decided together
	assign := make([]string, len(lost))
	reach := make([]int, len(all))
	for i := range all {
		reach[i] = -1
	}
	spread := func(i, no int) {
		todo := []int{i}
		reach[i] = no
		for len(todo) > 0 {
			x := todo[0]
			todo = todo[1:]
			for y := range all {
				if reach[y] < 0 && (maxLike(q, in, all[x], all[y]) > 0.48 || got[x] != "" && got[x] == got[y]) {
					reach[y] = no
					todo = append(todo, y)
				}
			}
		}
	}
	for k, i := range lost {
		if reach[i] < 0 {
			spread(i, k)
		}
	}
	near := func(r string, no int) bool {
		for i := range group[r] {
			if reach[i] == no {
				return true
			}
		}
		return false
	}
	var try func(k, no int) bool
	try = func(k, no int) bool {
		for k < len(lost) && reach[lost[k]] != no {
			k++
		}
		if k == len(lost) {
			for r := range group {
				if near(r, no) && (out.Stops[r]["lt"] != "1" && len(group[r]) > 1 || !may(list(group[r]))) {
					return false
				}
			}
			return true
		}
		for _, r := range keysB(group) {
			if out.Stops[r]["lt"] != "1" || !near(r, no) {
				continue
			}
			group[r][lost[k]] = true
			assign[k] = r
			if try(k+1, no) {
				return true
			}
			delete(group[r], lost[k])
		}
		return false
	}
	for k, i := range lost {
		if reach[i] == k && !try(0, k) {
			return fmt.Sprintf("station %s is gone", all[i][0])
		}
	}
	if len(lost) > 0 {
		for _, r := range keysB(group) {
			if !may(list(group[r])) {
				return fmt.Sprintf("the parts of station %s are not near and alike", r)
			}
		}
	}
	for k, i := range lost {
		got[i] = assign[k]
	}
	// two that are alike and like nothing else belong together
	for i := range all {
		for j := range all[:i] {
			if got[i] == got[j] || avg([]int{i}, []int{j}, 1.01) < 0.505 {
				continue
			}
			alone := true
			for k := range all {
				if k != i && k != j && (maxLike(q, in, all[i], all[k]) > 0.05 || maxLike(q, in, all[j], all[k]) > 0.05) {
					alone = false
				}
			}
			if alone {
				return fmt.Sprintf("%v and %v are near and alike but were not grouped", all[j], all[i])
			}
		}
	}
	// everything else stays, with references following to the station
	move := func(s *Snap) func(kind, id string) string {
		return func(kind, id string) string {
			if kind != "stop" || s.Stops[id]["lt"] != "1" {
				return id
			}
			if i, ok := of[id]; ok {
				return got[i]
			}
			return id
		}
	}
	a, b := NewView(in).Skip("stop.parent"), NewView(out).Skip("stop.parent")
	if m := Same(a, b, "stop", "transfer"); m != "" {
		return m
	}
	a, b = NewView(in), NewView(out)
	a.rename, b.rename = move(in), move(out)
	if m := transfersFollow(a, b); m != "" {
		return m
	}
	// a transfer between places that did not change stays as it is
	full := map[string]bool{}
	for _, m := range out.Transfers {
		full[NewView(out).row("transfer", m)] = true
	}
	for _, m := range in.Transfers {
		if out.Stops[m["from"]] != nil && out.Stops[m["to"]] != nil {
			if x := NewView(in).row("transfer", m); !full[x] {
				return "transfer between unchanged places changed or lost: " + x
			}
		}
	}
	return ""
}

func maxLike(q *names, s *Snap, a, b []string) float64 {
	r := 0.
	for _, x := range a {
		for _, y := range b {
			if v := q.like(s.Stops[x], s.Stops[y], 0.99); v > r {
				r = v
			}
		}
	}
	return r
}

func keysB(m map[string]map[int]bool) []string {
	n := map[string]M{}
	for k := range m {
		n[k] = nil
	}
	return keys(n)
}

// where the places of a scenario are
var here = [2]float64{48, 7.8}

// place adds one platform or station complex.
func (t T) place(id string, kind int, name string, x, y float64) (stop string) {
	la, lo := move(here[0], here[1], x, y)
	at := func(dx float64) (float64, float64) { return move(here[0], here[1], x+dx, y) }
	switch kind {
	case 0:
		t.Add("stops", stopRow(id, la, lo, "stop_name", name, "platform_code", "p"+id, "x_s", "v"+id))
		return id
	case 1: // station with a platform
		t.Add("stops", stopRow(id+"S", la, lo, "stop_name", name, "location_type", "1", "x_s", "w"+id), stopRow(id, la, lo, "stop_name", name, "parent_station", id+"S"))
		return id
	case 2: // station alone
		t.Add("stops", stopRow(id+"S", la, lo, "stop_name", name, "location_type", "1"))
		return id + "S"
	case 3: // platform with boarding areas
		t.Add("stops", stopRow(id, la, lo, "stop_name", name), R("stop_id", id+"B", "stop_name", "", "location_type", "4", "parent_station", id))
		return id
	case 4: // station with everything
		a, b := at(10)
		t.Add("stops", stopRow(id+"S", la, lo, "stop_name", name, "location_type", "1"), stopRow(id, a, b, "stop_name", name, "parent_station", id+"S"),
			stopRow(id+"E", la, lo, "stop_name", "Entrance", "location_type", "2", "parent_station", id+"S"),
			R("stop_id", id+"N", "stop_name", "", "location_type", "3", "parent_station", id+"S"),
			stopRow(id+"B", a, b, "stop_name", name, "location_type", "4", "parent_station", id))
		t.Add("pathways", R("pathway_id", "p"+id, "from_stop_id", id+"E", "to_stop_id", id+"N", "pathway_mode", "1", "is_bidirectional", "1"), R("pathway_id", "q"+id, "from_stop_id", id+"N", "to_stop_id", id+"B", "pathway_mode", "1", "is_bidirectional", "1"))
		return id
	case 5: // station with two platforms apart
		a, b := at(60)
		t.Add("stops", stopRow(id+"S", la, lo, "stop_name", name, "location_type", "1"), stopRow(id, la, lo, "stop_name", name, "parent_station", id+"S"), stopRow(id+"2", a, b, "stop_name", name+" Süd", "parent_station", id+"S"))
		return id
	}
	return ""
}

func (t T) serve(stops ...string) {
	t.Add("calendar", calRow("v", 127, d0, d0+6))
	t.Add("trips", tripRow("t", "r1", "v"))
	t.Add("stop_times", stRow("t", 1, "s1", 100), stRow("t", 2, "s2", 900))
	for i, s := range stops {
		for k, n := range []string{"", "2", "B"} {
			if k == 2 {
				continue
			}
			id := strings.TrimSuffix(s, "S") + n
			ok := false
			for _, r := range t["stops"] {
				ok = ok || r.Get("stop_id") == id && (r.Get("location_type") == "" || r.Get("location_type") == "0")
			}
			if ok {
				t.Add("trips", tripRow("t"+id, "r1", "v"))
				t.Add("stop_times", stRow("t"+id, 1, id, 3600*i+100), stRow("t"+id, 2, "s1", 3600*i+900))
			}
		}
	}
}

func checkC18(c *Ctx) {
	ops := []string{"E"}
	nms := []string{"Markt", "Markt 1", "MARKT", "Bahnhof", "Bahnhof Markt", "7", "Markt am Markt"}
	// frame puts other stops around: none, far away in all directions, with the same words, nearby
	frame := func(t T, k int) {
		switch k {
		case 1:
			t.place("f1", 0, "Anger", -30000, -30000)
			t.place("f2", 0, "Burg", 30000, 30000)
			t.place("f3", 1, "Celle", -30000, 30000)
		case 2:
			t.place("f1", 0, "Markt", -30000, 10000)
			t.place("f2", 1, "Bahnhof am See", 30000, 30000)
		case 3:
			for i := 0; i < 6; i++ {
				t.place(fmt.Sprint("f", i), i%2, []string{"Ulm", "Ost", "Ufer"}[i/2], float64(i*3000), float64(i%3*9000))
			}
		}
	}
	where := func(v int) {
		here = [][2]float64{{48, 7.8}, {-33.5, 151.1}, {-0.004, -0.003}, {40.7, -74}, {64, 26}}[v%5]
	}
	mk := func(k int) T {
		t := base()
		for i, id := range []string{"s1", "s2"} {
			la, lo := move(here[0], here[1], float64(i)*745, float64(i)*1113)
			t.Set("stops", "stop_id", id, "stop_name", []string{"Zoo", "Hafen"}[i])
			t.Set("stops", "stop_id", id, "stop_lat", f2s(la))
			t.Set("stops", "stop_id", id, "stop_lon", f2s(lo))
		}
		frame(t, k)
		return t
	}
	// pairs
	ds := []float64{0, 30, 70, 80, 120, 700, 900}
	for a := 0; a < 6; a++ {
		for b := 0; b <= a; b++ {
			for n := 0; n < 49; n++ {
				for d := range ds {
					for k := 0; k < 4; k++ {
						nm := fmt.Sprintf("pair %d %d names %d dist %d frame %d", a, b, n, d, k)
						if !c.Mine(nm) || c.Quick() && (a*3+b+n+d*5+k)%5 != 0 {
							continue
						}
						where((a+n)/2 + d + k)
						t := mk(k)
						dir := [][2]float64{{1, 0}, {0, 1}, {-1, 0}, {0, -1}, {0.7, 0.7}}[(n+d)%5]
						x := t.place("a", a, nms[n%7], 400, 300)
						y := t.place("b", b, nms[n/7], 400+ds[d]*dir[0], 300+ds[d]*dir[1])
						t.serve(x, y)
						t.Add("transfers", R("from_stop_id", x, "to_stop_id", y, "transfer_type", "2", "min_transfer_time", "100", "x_tf", "1"), R("from_stop_id", y, "to_stop_id", "s1", "transfer_type", "1"))
						c.Run(Scn{Name: nm, T: t, Ops: ops, Par: 1}, reclusterOracle)
					}
				}
			}
		}
	}
	where(0)
	// no stops, one stop, all the same name
	for i := 0; i < 64; i++ {
		nm := fmt.Sprintf("few %d", i)
		if !c.Mine(nm) {
			continue
		}
		t := base()
		t["stops"] = []Row{}
		t["stop_times"] = []Row{}
		t.Add("trips", tripRow("t", "r1", "v"))
		t.Add("calendar", calRow("v", 127, d0, d0+6))
		for j := 0; j < i%4; j++ {
			t.place(fmt.Sprint("a", j), (i/4+j)%6, "Markt", 400+float64(j*(i/16)*40), 300)
		}
		c.Explore(Scn{Name: nm, T: t, Ops: ops, Par: 1, Maps: true}, 2, 60, reclusterOracle)
	}
	// three and four in a row or around a corner
	gaps := []float64{0, 40, 65, 90, 130}
	for i := 0; i < c.Pick(6000, 60000); i++ {
		nm := fmt.Sprintf("row %d", i)
		if !c.Mine(nm) {
			continue
		}
		where(i / 3)
		t := mk(1 + i%3)
		x, y := 500., 500.
		var l []string
		v := i
		cnt := 3 + i%2
		for j := 0; j < cnt; j++ {
			l = append(l, t.place(string(rune('a'+j)), []int{0, 1, 0, 2, 4, 5}[v%6], nms[(v/6+v/210)%5], x, y))
			g := gaps[v/30%5]
			if v/7%3 == 0 {
				y += g
			} else {
				x += g
			}
			v = v/5 + j*7 + i/11
		}
		t.serve(l...)
		c.Run(Scn{Name: nm, T: t, Ops: ops, Par: 1}, reclusterOracle)
	}
	where(0)
	// transfers and other references to stations that are merged
	for m := 0; m < 1<<9; m++ {
		for k := 0; k < 3; k++ {
			nm := fmt.Sprintf("refs %d %d", m, k)
			if !c.Mine(nm) {
				continue
			}
			t := mk(1)
			t.place("a", 1, "Markt", 500, 500)
			t.place("b", []int{1, 2, 4}[k], "Markt", 520, 500)
			t.place("c", 0, "Markt", 540, 500)
			t.place("d", 1, "Bahnhof", 3000, 500)
			t.serve("a", "b", "c", "d")
			tb := "ta"
			i := 0
			for _, p := range [][2]string{{"aS", "dS"}, {"bS", "dS"}, {"dS", "aS"}, {"dS", "bS"}, {"aS", "bS"}, {"bS", "aS"}, {"aS", "aS"}, {"c", "bS"}, {"c", "aS"}} {
				if m>>uint(i)&1 == 1 {
					t.Add("transfers", R("from_stop_id", p[0], "to_stop_id", p[1], "transfer_type", "2", "min_transfer_time", fmt.Sprint(60+i), "x_tf", fmt.Sprint("q", i)))
					if (m+i)%4 == 0 {
						t.Add("transfers", R("from_stop_id", p[0], "to_stop_id", p[1], "from_trip_id", tb, "to_trip_id", "td", "transfer_type", "1", "x_tf", fmt.Sprint("r", i)))
					}
				}
				i++
			}
			s := Scn{Name: nm, T: t, Ops: ops, Par: 1, Maps: true}
			c.Explore(s, 1, c.Pick(25, 200), reclusterOracle)
		}
	}
	// alike stops on both sides of the borders of the 10 km cells (of the web mercator plane) in which neighbours are looked for
	const R6 = 6378137.
	unmerc := func(x, y float64) (float64, float64) {
		return (2*math.Atan(math.Exp(y/R6)) - math.Pi/2) * 180 / math.Pi, x / R6 * 180 / math.Pi
	}
	for _, size := range [][2]int{{0, 0}, {1, 0}, {0, 1}, {1, 1}, {3, 0}, {0, 3}, {2, 3}, {3, 2}} {
		for _, lat := range []float64{-40, 0.003, 48, 60} {
			for di, dir := range [][2]float64{{1, 0}, {0, 1}, {1, 1}, {1, -1}} {
				for k := 0; k < 36; k++ {
					nm := fmt.Sprintf("grid %v lat %v dir %d %d", size, lat, di, k)
					if !c.Mine(nm) || c.Quick() && (k+di+size[0])%4 != 0 {
						continue
					}
					t := base()
					t["stops"] = nil
					x0, y0 := R6*7*math.Pi/180, R6*math.Log(math.Tan(math.Pi/4+lat*math.Pi/360))
					put := func(id, name string, kind int, x, y float64) {
						la, lo := unmerc(x0+x, y0+y)
						la, lo = math.Round(la*1e6)/1e6, math.Round(lo*1e6)/1e6
						if kind == 0 {
							t.Add("stops", stopRow(id, la, lo, "stop_name", name))
						} else {
							t.Add("stops", stopRow(id+"S", la, lo, "stop_name", name, "location_type", "1"), stopRow(id, la, lo, "stop_name", name, "parent_station", id+"S"))
						}
					}
					put("s1", "Zoo", 0, 0, 0)
					put("s2", "Hafen", 0, float64(size[0])*10000+70, float64(size[1])*10000+70)
					sh := []float64{-20, 0, 20}[k/4%3] * float64(1+k/12)
					for gx := 0; gx <= size[0]; gx++ {
						for gy := 0; gy <= size[1]; gy++ {
							if gx+gy == 0 {
								continue
							}
							name := "Markt" + string(rune('A'+gx)) + string(rune('A'+gy))
							x, y := float64(gx)*10000+sh/2*dir[0], float64(gy)*10000+sh/2*dir[1]
							id := fmt.Sprint(gx, "_", gy)
							put("a"+id, name, k&1, math.Max(0, x-12*dir[0]), math.Max(0, y-12*dir[1]))
							put("b"+id, name, k>>1&1, math.Max(0, x+12*dir[0]), math.Max(0, y+12*dir[1]))
						}
					}
					t.serve()
					c.Run(Scn{Name: nm, T: t, Ops: ops, Par: 1}, reclusterOracle)
				}
			}
		}
	}
	// what a new station says
	said := [][]string{{"wheelchair_boarding", "", "1", "2"}, {"stop_timezone", "", "UTC", "Europe/Berlin", "Europe/Paris"}, {"stop_url", "", "http://x.de", "http://y.de", "http://x.de/1", "http://x.de/1?a=2", "https://x.de/1"}, {"wheelchair_boarding", "0", "2", "1"}}
	for i := 0; i < 8*216; i++ {
		w := said[i/432]
		v, n := i%216, len(w)-1
		if v >= n*n*n {
			continue
		}
		nm := fmt.Sprintf("attrs %d", i)
		if !c.Mine(nm) {
			continue
		}
		t := mk(1)
		for j := 0; j < 3; j++ {
			id := string(rune('a' + j))
			t.place(id, (i/216)%2*3*((j+1)%2), "Markt", 500+float64(5*j), 500)
			t.Set("stops", "stop_id", id, w[0], w[1+v%n])
			v /= n
		}
		t.serve("a", "b", "c")
		// ids of new stations that are taken
		if i%2 == 0 {
			t.place("par::a", 0, "Weit", 9000, 9000)
			t.place("par::b", 0, "Weg", 9000, 7000)
			t.place("par1::a", 0, "Da", 8000, 9000)
		}
		c.Explore(Scn{Name: nm, T: t, Ops: ops, Par: 1, Maps: true}, c.Pick(1, 2), c.Pick(60, 400), reclusterOracle)
	}
	for i := 0; i < 12; i++ {
		nm := fmt.Sprintf("maps %d", i)
		if !c.Mine(nm) {
			continue
		}
		t := mk(i % 4)
		for j := 0; j < 4; j++ {
			t.place(string(rune('a'+j)), (i*j+i+j)%6, nms[(i+j*i/3)%5], 500+float64(j*[]int{30, 50, 70}[i%3]), 500)
		}
		t.serve("a", "b", "c", "d")
		c.Explore(Scn{Name: nm, T: t, Ops: ops, Par: 1, Maps: true}, 2, c.Pick(500, 8000), reclusterOracle)
	}
}
