package main

import (
	"encoding/json"
	"fmt"
	"math"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"github.com/patrickbr/gtfstidy/verifsched"
)

func init() { checks["C22"] = checkC22 }

var everyKind = []string{"agency", "route", "stop", "level", "service", "shape", "trip", "fare", "pathway", "rule"}

// anon renders a feed without the ids of its entities.
func anon(s *Snap) string {
	v := NewView(s, everyKind...).Skip("attrib.id", "trip.block", "st.seq", "shape.seq")
	var l []string
	for _, k := range allKinds {
		for _, x := range v.Rows(k) {
			l = append(l, k+" "+x)
		}
	}
	blocks := map[string][]string{}
	for id, t := range s.Trips {
		if t["block"] != "" {
			blocks[t["block"]] = append(blocks[t["block"]], v.val("trip", id))
		}
	}
	var bl []string
	for _, x := range blocks {
		sort.Strings(x)
		bl = append(bl, "block "+strings.Join(x, "+"))
	}
	sort.Strings(bl)
	return strings.Join(append(l, bl...), "\n")
}

// crowd: n copies of everything; copies refer to copies. Variant bits make groups of copies differ.
func crowd(n, groups int, v int) T {
	t := T{}
	g := func(i int) int { return i % groups }
	no := func(p string, i int) string { return fmt.Sprint(p, i) }
	for i := 0; i < n; i++ {
		j := (i + groups) % n // another one
		if g(j) != g(i) {
			j = i
		}
		if v&8 != 0 { // all refer to the first of their group
			j = g(i)
		}
		t.Add("agency", agencyRow(no("a", i), "agency_name", no("Ag", g(i))))
		t.Add("routes", routeRow(no("r", i), no("a", j), "route_long_name", no("L", g(i))))
		t.Add("levels", R("level_id", no("l", i), "level_index", fmt.Sprint(g(i)), "level_name", no("Level", g(i))))
		lat, lon := 48+0.03*float64(g(i)), 7.8
		t.Add("stops", stopRow(no("P", i), lat, lon, "stop_name", no("Station", g(i)), "location_type", "1"))
		t.Add("stops", stopRow(no("s", i), lat, lon, "stop_name", no("Stop", g(i)), "parent_station", no("P", j), "level_id", no("l", j)))
		t.Add("stops", stopRow(no("u", i), lat+0.01, lon, "stop_name", no("Upper", g(i))))
		if v&1 == 0 {
			t.Add("calendar", calRow(no("v", i), 127, d0, d0+6+g(i)))
		} else {
			for d := 0; d < 4; d++ {
				t.Add("calendar_dates", cdRow(no("v", i), d0+d*(1+g(i)), 1))
			}
		}
		for q := 0; q < 5; q++ {
			m := ""
			if v&2 == 0 && (q == 0 || q == 4) || v&2 != 0 && q != 2 {
				m = fmt.Sprint(q * 10)
			}
			t.Add("shapes", R("shape_id", no("p", i), "shape_pt_sequence", fmt.Sprint(q), "shape_pt_lat", f2s(lat+0.0025*float64(q)), "shape_pt_lon", f2s(lon+0.0000001*float64(q%2)), "shape_dist_traveled", m))
		}
		t.Add("trips", tripRow(no("t", i), no("r", j), no("v", j), "shape_id", no("p", j), "trip_headsign", "H"))
		if v&1 != 0 {
			t.Set("trips", "trip_id", no("t", i), "block_id", no("b", g(i)))
		}
		dep := 36000 + 600*(i/groups)
		if v&4 != 0 {
			dep = 36000
		}
		t.Add("stop_times", stRow(no("t", i), 1, no("s", j), dep), stRow(no("t", i), 2, no("u", j), dep+900))
		t.Add("fare_attributes", R("fare_id", no("f", i), "price", "1", "currency_type", "EUR", "payment_method", "0", "transfers", "1", "agency_id", no("a", j)))
		t.Add("fare_rules", R("fare_id", no("f", i), "route_id", no("r", j)))
		t.Add("transfers", R("from_stop_id", no("s", i), "to_stop_id", no("u", j), "transfer_type", "2", "min_transfer_time", fmt.Sprint(60*(1+g(i)))))
		t.Add("pathways", R("pathway_id", no("w", i), "from_stop_id", no("s", i), "to_stop_id", no("s", j), "pathway_mode", "1", "is_bidirectional", "1"))
		t.Add("attributions", R("attribution_id", no("x", i), "organization_name", no("Org", g(i)), "route_id", no("r", i), "is_producer", "1"))
		if v&16 != 0 { // more references between everything
			t.Add("transfers", R("from_stop_id", no("s", i), "to_stop_id", no("u", i), "from_route_id", no("r", i), "to_route_id", no("r", j), "transfer_type", "2", "min_transfer_time", "100"))
			t.Add("transfers", R("from_stop_id", no("P", i), "to_stop_id", no("s", j), "from_trip_id", no("t", i), "transfer_type", "2", "min_transfer_time", "110"))
			t.Add("transfers", R("from_stop_id", no("u", i), "to_stop_id", no("u", j), "to_trip_id", no("t", j), "transfer_type", "1"))
			t.Add("attributions", R("attribution_id", no("xa", i), "organization_name", no("Org", g(i)), "agency_id", no("a", i), "is_operator", "1"))
			t.Add("attributions", R("attribution_id", no("xt", i), "organization_name", no("Org", g(i)), "trip_id", no("t", i), "is_operator", "1"))
			t.Add("stops", stopRow(no("E", i), lat, lon, "location_type", "2", "parent_station", no("P", i), "stop_name", "In"))
			t.Add("stops", stopRow(no("N", i), lat, lon, "location_type", "3", "parent_station", no("P", j), "level_id", no("l", i)))
			t.Add("stops", stopRow(no("B", i), lat, lon, "location_type", "4", "parent_station", no("s", i)))
			t.Add("pathways", R("pathway_id", no("z", i), "from_stop_id", no("E", i), "to_stop_id", no("N", j), "pathway_mode", "2", "is_bidirectional", "0"))
			t.Add("pathways", R("pathway_id", no("y", i), "from_stop_id", no("N", i), "to_stop_id", no("B", j), "pathway_mode", "3", "is_bidirectional", "1"))
			if i%3 == 2 {
				t.Add("frequencies", R("trip_id", no("t", i), "start_time", "10:00:00", "end_time", "11:00:00", "headway_secs", "600", "exact_times", fmt.Sprint(g(i)%2)))
			}
		}
	}
	return t
}

// schedOps are the operations C22 explores.
var schedOps = []string{"toofast", "O", "A", "avg", "P", "Pf", "E", "plat", "m", "mf", "s", "r", "snap", "S", "R", "C", "group", "c", "I", "Ia", "If", "Ifa", "nonov", "T", "T600", "nocd", "parents", "i", "d", "id:10:1023:", "geo:48,7.7,48.02,7.7,48.02,7.9,48,7.9"}

var schedPipes = [][]string{
	{"O", "A", "P", "m", "s", "S", "R", "C", "c", "I", "O", "C", "c"},
	{"O", "A", "P", "m", "s", "S", "R", "C", "c", "If", "O", "C", "c", "T", "d"},
	{"P", "E", "mf", "r", "snap", "P", "S", "T", "i"},
	{"nonov", "c", "nocd", "parents", "i"},
}

// sameForAll checks that every variant gives the same result as the plain sequential execution.
func (c *Ctx) sameForAll(nm string, t T, ops []string, vars []Scn) {
	var ref string
	have, open := false, false
	anon := coarse(ops)
	oracle := func(e *Exec) string {
		if !have {
			have = true
			if nm[0] == 'C' && (in(ops, "P") || in(ops, "Pf")) && nearTwins(e.In) {
				open = true
			}
			if nm[0] == 'C' {
				// merging what they connect can make two transfers the same apart from their values, and
				// of entities that differ in their additional fields any may remain
				plain, drop := anon, transfersDiffer(e.In)
				anon = func(s *Snap) string {
					n := *s
					if drop {
						n.Transfers = nil
						for _, m := range s.Transfers {
							n.Transfers = append(n.Transfers, transferPlaces(m))
						}
					}
					n.Agencies, n.Stops, n.Routes, n.Levels = noAdd(n.Agencies), noAdd(n.Stops), noAdd(n.Routes), noAdd(n.Levels)
					return plain(&n)
				}
			}
			s0 := *e.Scn
			s0.Par, s0.MFill, s0.SFill, s0.Maps, s0.Fine, s0.Prefix = 1, 0, 0, false, false, nil
			e0, err := Do(&s0)
			if err != nil || e0.Out == nil {
				return "the sequential execution fails: " + judge(e0, nil)
			}
			ref = anon(e0.Out)
		}
		if len(e.Out.Problems) > 0 {
			return problems(e)
		}
		if open {
			return ""
		}
		if x := anon(e.Out); x != ref {
			return "the result depends on the execution:\n" + diff(ref, x)
		}
		return ""
	}
	for i, v := range vars {
		s := v
		s.Name, s.T, s.Ops = fmt.Sprintf("%s v%d", nm, i), t, ops
		c.Run(s, oracle)
	}
}

// nearTwins: the feed has stops of the same name near to, but not at, the same place. Which of them
// remains is open.
func nearTwins(s *Snap) bool {
	at := map[string][]M{}
	for _, m := range s.Stops {
		at[m["name"]] = append(at[m["name"]], m)
	}
	for _, l := range at {
		for i, a := range l {
			for _, b := range l[:i] {
				dy, dx := math.Abs(pf(a["lat"])-pf(b["lat"])), math.Abs(pf(a["lon"])-pf(b["lon"]))
				if dy+dx > 0 && dy < 0.001 && dx < 0.001 {
					return true
				}
			}
		}
	}
	return false
}

// noAdd leaves the additional fields out.
func noAdd(l map[string]M) map[string]M {
	r := map[string]M{}
	for id, m := range l {
		m = m.clone()
		for k := range m {
			if k[0] == '+' {
				delete(m, k)
			}
		}
		r[id] = m
	}
	return r
}

// transferPlaces: what a transfer connects.
func transferPlaces(m M) M {
	n := m.clone()
	for k := range n {
		if k == "type" || k == "min" || k[0] == '+' {
			delete(n, k)
		}
	}
	return n
}

// transfersDiffer: the transfers of the feed differ in what they say about what they connect.
func transfersDiffer(s *Snap) bool {
	vals := map[string]bool{}
	for _, m := range s.Transfers {
		n, x := transferPlaces(m), m.clone()
		for k := range n {
			delete(x, k)
		}
		vals[x.key()] = true
	}
	return len(vals) > 1
}

// coarse chooses what has to be the same after the operations, where these may choose between things
// that are alike, but not identical.
func coarse(ops []string) func(s *Snap) string {
	skip := []string{"attrib.id", "trip.block", "st.seq", "shape.seq"}
	mode := ""
	for _, o := range ops {
		switch o {
		case "S":
			skip = append(skip, "trip.shape") // any of the shapes that are nearly equal
		case "E":
			skip = append(skip, "stop.parent") // any grouping of places that are alike
		case "T", "T600":
			mode += "T"
		case "I", "Ia", "If", "Ifa":
			mode += "I"
		}
	}
	if len(skip) == 4 && mode == "" {
		return anon
	}
	return func(s *Snap) string {
		v := NewView(s, everyKind...).Skip(skip...)
		var l []string
		if mode == "" {
			for _, k := range allKinds {
				if k == "shape" || k == "stop" || k == "transfer" && in(skip, "stop.parent") {
					continue
				}
				for _, x := range v.Rows(k) {
					l = append(l, k+" "+x)
				}
			}
			return strings.Join(l, "\n")
		}
		// departures of each day
		fuzzy := false
		for _, o := range ops {
			fuzzy = fuzzy || strings.HasPrefix(o, "If")
		}
		deps := map[string]bool{}
		for id, t := range s.Trips {
			var k []string
			r := s.Routes[t["route"]]
			if fuzzy {
				ty := r["type"]
				if g := genericType[ty]; g != "" {
					ty = g
				}
				k = append(k, "type "+ty)
			} else {
				k = append(k, "route "+v.val("route", t["route"]))
			}
			sts := s.StopTimes[id]
			starts := [][2]string{{"", ""}}
			if len(sts) > 0 && sts[0]["dep"] != "" {
				d := atoi(sts[0]["dep"])
				for i, st := range sts {
					a, b := st["arr"], st["dep"]
					if a != "" {
						a, b = fmt.Sprint(atoi(a)-d), fmt.Sprint(atoi(b)-d)
					}
					if i == 0 {
						a = ""
					}
					if i == len(sts)-1 && i > 0 {
						b = ""
					}
					at := st["stop"]
					if strings.Contains(mode, "I") {
						at = station(s, at) // trips that call at the same stations are alike
					}
					k = append(k, "at "+v.val("stop", at)+" "+a+" "+b)
				}
				starts = [][2]string{{hms(d), ""}}
				if len(s.Freqs[id]) > 0 {
					starts = nil
					for _, f := range s.Freqs[id] {
						about := ""
						if f["exact"] == "0" {
							about = " about"
						}
						for x := atoi(f["start"]); x < atoi(f["end"]); x += atoi(f["headway"]) {
							starts = append(starts, [2]string{hms(x), about})
						}
					}
				}
			}
			x := strings.Join(k, "; ")
			for _, d := range s.Services[t["service"]].Active {
				for _, y := range starts {
					deps[d+" "+y[0]+y[1]+" "+x] = true
				}
			}
		}
		for x := range deps {
			l = append(l, x)
		}
		sort.Strings(l)
		return strings.Join(l, "\n")
	}
}

func variants(pars, fills, sched int) []Scn {
	var l []Scn
	for p := 1; p <= pars; p++ {
		for m := 0; m <= fills; m++ {
			for s := 0; s <= sched; s++ {
				if p == 1 && m == 0 && s == 0 {
					continue
				}
				l = append(l, Scn{Par: p, MFill: m, SFill: s, Fine: s > 0})
			}
		}
	}
	return l
}

func opName(ops []string) string {
	x := strings.Join(ops, ",")
	if i := strings.Index(x, "geo:"); i >= 0 {
		x = x[:i] + "geo"
	}
	return x
}

func checkC22(c *Ctx) {
	if verifsched.Races() >= 0 {
		raceScenarios(c)
		return
	}
	if c.replay != nil && strings.HasPrefix(c.replay.Name, "race ") {
		replayRace(c)
		return
	}
	var allOps [][]string
	for _, o := range schedOps {
		allOps = append(allOps, []string{o})
	}
	allOps = append(allOps, schedPipes...)
	// --- nothing of a kind ---
	for _, src := range []T{crowd(3, 2, 0), richFeed()} {
		for _, file := range append([]string{""}, src.files()...) {
			t := src.Clone()
			delete(t, file)
			if file == "stops" || file == "trips" || file == "stop_times" {
				t[file] = src[file][:0]
			}
			if _, err := t.Load(); err != nil {
				continue
			}
			for _, ops := range allOps {
				nm := fmt.Sprintf("none %s %d %s", file, len(src["stops"]), opName(ops))
				if c.Mine(nm) {
					c.sameForAll(nm, t, ops, variants(4, 1, 1))
				}
			}
		}
	}
	// --- all schedules up to a number of preemptions, all map orders up to a number of deviations ---
	for n := 2; n <= c.Pick(3, 4); n++ {
		for _, v := range []int{0, 3, 6, 8, 11, 13} {
			for _, ops := range allOps {
				for par := 2; par <= c.Pick(2, 4); par++ {
					for mode := 0; mode < 3; mode++ {
						nm := fmt.Sprintf("explore %d %d %s %d %d", n, v, opName(ops), par, mode)
						if !c.Mine(nm) {
							continue
						}
						t := crowd(n, 1, v)
						var ref string
						s := Scn{Name: nm, T: t, Ops: ops, Par: par, Maps: mode == 1, Fine: mode == 2}
						bound := 1
						if mode == 0 {
							bound = c.Pick(2, 3)
						}
						max := c.Pick(60, 1500)
						if len(ops) > 1 {
							max = c.Pick(30, 600)
						}
						anon := coarse(ops)
						c.Explore(s, bound, max, func(e *Exec) string {
							if m := problems(e); m != "" {
								return m
							}
							if ref == "" {
								s0 := *e.Scn
								s0.Par, s0.Maps, s0.Fine, s0.Prefix = 1, false, false, nil
								e0, err := Do(&s0)
								if err != nil || e0.Out == nil {
									return "the sequential execution fails"
								}
								ref = anon(e0.Out)
							}
							if x := anon(e.Out); x != ref {
								return "the result depends on the execution:\n" + diff(ref, x)
							}
							return ""
						})
					}
				}
			}
		}
	}
	// --- the scenarios of the other checks under other schedules and map orders ---
	c.harvestAll(c.Pick(100, 4), func(nm string, s Scn) {
		if len(s.Extra) > 0 || len(s.Ops) == 0 {
			return
		}
		if strings.HasPrefix(nm, "C08 chain") || strings.HasPrefix(nm, "C12 chain") {
			return // which of several places that are near, but not at the same place, remains is open
		}
		c.sameForAll(nm, s.T, s.Ops, []Scn{{Par: 1, MFill: 1}, {Par: 2, SFill: 1, Fine: true}, {Par: 3, MFill: 2, SFill: 2}, {Par: 4}})
	})
	runRaces(c)
	// --- sizes: every number of entities and degree of parallelism ---
	for n := 1; n <= c.Pick(6, 8); n++ {
		for g := 1; g <= mini(n, 3); g++ {
			for v := 0; v < 16; v++ {
				if (c.Quick() || n > 5) && !(v == 0 || v == 3 || v == 6 || v == 8 || v == 13) {
					continue
				}
				for _, ops := range allOps {
					nm := fmt.Sprintf("sizes %d %d %d %s", n, g, v, opName(ops))
					if !c.Mine(nm) {
						continue
					}
					vars := variants(c.Pick(4, 6), c.Pick(1, 2), 1)
					c.sameForAll(nm, crowd(n, g, v), ops, vars)
				}
			}
		}
	}
}

// harvestAll hands every stride-th scenario of the other checks to f.
func (c *Ctx) harvestAll(stride int, f func(nm string, s Scn), without ...string) {
	var ids []string
	for id := range checks {
		if id != c.Prop && id != "C01" && id != "C02" && id != "C22" && id != "C17" && !in(without, id) {
			ids = append(ids, id)
		}
	}
	sort.Strings(ids)
	for _, id := range ids {
		if c.over() {
			return
		}
		in := &Ctx{Prop: id, Tier: "quick", Seed: c.Seed, shard: c.shard, shards: c.shards * stride, deadline: c.deadline, seen: map[uint64]bool{}, outs: map[uint64]bool{}, replay: c.replay}
		in.st.Families = map[string]int{}
		seen := map[string]bool{}
		in.harvest = func(s Scn) {
			if s.T == nil || seen[s.Name+strings.Join(s.Ops, ",")] {
				return
			}
			seen[s.Name+strings.Join(s.Ops, ",")] = true
			nm := id + " " + s.Name + " " + opName(s.Ops)
			if c.only != "" && !strings.Contains(nm, c.only) {
				return
			}
			f(nm, s)
			if c.stop {
				in.stop = true
			}
		}
		t0 := time.Now()
		checks[id](in)
		if c.shard == 0 && c.verbose {
			fmt.Fprintln(os.Stderr, "harvest", id, time.Since(t0))
		}
	}
}

// --- race detector ---

func raceScenarios(c *Ctx) {
	var allOps [][]string
	for _, o := range schedOps {
		allOps = append(allOps, []string{o})
	}
	allOps = append(allOps, schedPipes...)
	for n := 1; n <= c.Pick(4, 8); n++ {
		for g := 1; g <= mini(n, 2); g++ {
			for _, v := range []int{0, 3, 6, 8, 11, 13} {
				if c.Quick() && v > 8 {
					continue
				}
				for _, ops := range allOps {
					for par := 2; par <= c.Pick(3, 4); par++ {
						nm := fmt.Sprintf("race %d %d %d %s %d", n, g, v, opName(ops), par)
						if c.Mine(nm) {
							c.Explore(Scn{Name: nm, T: crowd(n, g, v), Ops: ops, Par: par}, 1, c.Pick(4, 40), nil)
						}
					}
				}
			}
		}
	}
	var slow []string // many scenarios to skip
	if c.Quick() {
		slow = []string{"C11", "C13", "C14", "C15", "C19", "C21"}
	}
	c.harvestAll(c.Pick(600, 60), func(nm string, s Scn) {
		if len(s.Extra) == 0 && len(s.Ops) > 0 {
			c.Run(Scn{Name: "race " + nm, T: s.T, Ops: s.Ops, Par: 3}, nil)
		}
	}, slow...)
}

func raceCmd(c *Ctx, dir string, args ...string) *exec.Cmd {
	log := filepath.Join(dir, "race")
	cmd := exec.Command(os.Getenv("VERIF_RACE"), args...)
	cmd.Env = append(os.Environ(), "VERIF_RACELOG="+log, "GORACE=log_path="+log+" exitcode=0 halt_on_error=0 suppress_equal_stacks=0 suppress_equal_addresses=0 history_size=3")
	return cmd
}

func runRaces(c *Ctx) {
	if os.Getenv("VERIF_RACE") == "" || c.stop || c.replay != nil {
		return
	}
	dir := filepath.Join(scratchDir, "race")
	os.MkdirAll(dir, 0o755)
	res := filepath.Join(dir, "res.json")
	a := []string{"-prop", "C22", "-tier", c.Tier, "-shard", fmt.Sprint(c.shard), "-shards", fmt.Sprint(c.shards), "-res", res, "-deadline", fmt.Sprint(c.deadline.Unix()), "-only", c.only}
	if c.verbose {
		a = append(a, "-v")
	}
	out, err := raceCmd(c, dir, a...).CombinedOutput()
	if c.verbose && len(out) > 0 {
		fmt.Fprintf(os.Stderr, "%s", out)
	}
	var st stats
	b, err2 := os.ReadFile(res)
	if err != nil || err2 != nil || json.Unmarshal(b, &st) != nil {
		fmt.Fprintf(os.Stderr, "race detector harness: %v %v\n%s\n", err, err2, out)
		os.Exit(5)
	}
	c.st.Scenarios += st.Scenarios
	c.st.Execs += st.Execs
	c.st.Compared += st.Compared
	c.st.Choices += st.Choices
	c.st.Sched += st.Sched
	c.st.Diverged += st.Diverged
	c.st.Capped += st.Capped
	c.st.Exhaustive = c.st.Exhaustive && st.Exhaustive
	for k, v := range st.Rows {
		if c.st.Rows == nil {
			c.st.Rows = map[string]int{}
		}
		c.st.Rows[k] = imx(c.st.Rows[k], v)
	}
	for k, v := range st.Families {
		c.st.Families["race "+k] += v
	}
	for _, v := range st.Violations {
		v.Index += 1 << 24
		c.st.Violations = append(c.st.Violations, v)
	}
}

func replayRace(c *Ctx) {
	dir := filepath.Join(scratchDir, "race")
	os.MkdirAll(dir, 0o755)
	f := filepath.Join(dir, "replay.json")
	b, _ := json.Marshal(violation{Property: "C22", Scenario: *c.replay})
	os.WriteFile(f, b, 0o644)
	out, _ := raceCmd(c, dir, "-tier", c.Tier, "-replay", f).Output()
	x := strings.TrimSpace(string(out))
	if i := strings.LastIndex(x, c.replay.Name+": "); i >= 0 {
		c.replayed = x[i+len(c.replay.Name)+2:]
	}
}
