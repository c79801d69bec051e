package main

import (
	"fmt"
	"os"
	"runtime"
	"strings"

	"github.com/patrickbr/gtfsparser"
	"github.com/patrickbr/gtfswriter"
)

func init() { checks["C01"] = checkC01 }

var writes int

// written writes a feed as the command line tool does, reads it back strictly and tells what is wrong.
func written(f *gtfsparser.Feed) (msg string) {
	defer func() {
		if x := recover(); x != nil {
			msg = fmt.Sprint("the feed cannot be written: ", x)
		}
	}()
	if writes++; writes%100 == 0 {
		runtime.GC() // the writer leaves files open
	}
	dir := sub("w")
	os.RemoveAll(dir)
	os.MkdirAll(dir, 0o755)
	w := gtfswriter.Writer{ZipCompressionLevel: 9, Sorted: true, DontGarbageCollect: true}
	if err := w.Write(f, dir); err != nil {
		return "the feed cannot be written: " + err.Error()
	}
	r := &Cli{}
	r.load(dir)
	if r.LoadErr != "" {
		return "the written feed cannot be loaded: " + r.LoadErr
	}
	return r.rowDups()
}

// pipeOrder lists the operations in the order in which the command line tool runs them.
var pipeOrder = []string{"toofast", "geo:48,7.7,48.02,7.7,48.02,7.9,48,7.9", "O", "A", "avg", "P", "Pf", "E", "plat", "m", "mf", "s", "r", "snap", "S", "R", "C", "group", "I", "Ia", "If", "Ifa", "nonov", "c", "T", "T600", "nocd", "parents", "i", "d", "id:10:1023:", "id:36:5:"}

// combos calls f with every combination of k operations in order.
func combos(k int, f func(ops []string)) {
	var rec func(i int, ops []string)
	rec = func(i int, ops []string) {
		if len(ops) == k {
			f(append([]string{}, ops...))
			return
		}
		for j := i; j < len(pipeOrder); j++ {
			rec(j+1, append(ops, pipeOrder[j]))
		}
	}
	rec(0, nil)
}

// worldFeeds are feeds with everything in them.
func worldFeeds() map[string]T {
	l := map[string]T{"rich": richFeed()}
	for v := 0; v < 32; v++ {
		if v < 16 || v%3 == 1 || v%5 == 1 {
			l[fmt.Sprint("crowd", v)] = crowd(4, 2, v)
		}
	}
	l["crowd6"] = crowd(6, 1, 19)
	l["crowd1"] = crowd(3, 1, 16)
	g := orphanBase()
	for _, x := range orphanGadgets() {
		x.f(g)
	}
	l["gadgets"] = g
	for i := 0; i < 3; i++ {
		l[fmt.Sprint("ids", i)] = idFeed(3, []string{"a", "b", "1"}, i, true)
	}
	m, _ := mergeable()
	l["merge"] = m
	return l
}

// mergeable returns two feeds that share everything but the ids and some trips.
func mergeable() (T, T) {
	a := crowd(3, 1, 19)
	b := crowd(3, 1, 18)
	for i := range b["stop_times"] {
		r := b["stop_times"][i]
		b["stop_times"][i] = r.With("departure_time", r.Get("departure_time"))
	}
	return a, b
}

var cliOptions = [][]string{{"-O"}, {"-A"}, {"-P"}, {"-P", "--red-stops-fuzzy"}, {"-E"}, {"--drop-platform-for-parentless"}, {"-m"}, {"-s"}, {"-r"}, {"--snap-stops"}, {"-S"}, {"-R"}, {"-C"}, {"--group-adj-stop-times"}, {"-I"}, {"-I", "--red-trips-fuzzy"}, {"-I", "--red-trips-aggressive"},
	{"--non-overlapping-services"}, {"-c"}, {"-T"}, {"-T", "--min-headway=600", "--max-headway=900"}, {"--remove-cal-dates"}, {"--ensure-stop-parents"}, {"-i"}, {"-d"}, {"--drop-too-fast-trips"}, {"--fix-far-away-parents"}, {"--drop-single-stop-trips"}, {"--remove-fillers"}, {"--standard-route-types"}, {"--google-supported-route-types"},
	{"-F"}, {"--keep-col-order"}, {"--explicit-calendar"}, {"--drop-shapes"}, {"--date-start=20230603"}, {"--date-end=20230603"}, {"-M", "3"}, {"-N", "3"}, {"--bounding-box=47.99,7.7,48.02,7.9"}, {"--bounding-box=47.99,7.7,48.02,7.9", "--complete-filtered-trips"}, {"--polygon=10,10,10,11,11,11"}, {"--prefix=x"}, {"--keep-ids"},
	{"--keep-station-ids"}, {"--keep-trip-ids"}, {"--keep-route-ids"}, {"--keep-service-ids"}, {"--keep-agency-ids"}, {"--keep-shape-ids"}, {"--keep-level-ids"}, {"--keep-fare-ids"}, {"--keep-pathway-ids"}, {"--keep-block-ids"}, {"--keep-attribution-ids"},
	{"--fix"}, {"--compress"}, {"--Compress"}, {"--merge"}, {"--Merge"}, {"--unsorted-files"}, {"--assume-clean-csv"}, {"-W"}}

func checkC01(c *Ctx) {
	plain := map[string]string{} // what is wrong with a feed that was not processed
	plainOk := func(t T) bool {
		k := fmt.Sprint(h64(t.Text()))
		m, ok := plain[k]
		if !ok {
			if f, err := t.Load(); err != nil {
				m = err.Error()
			} else if x := TakeSnap(f).Problems; len(x) > 0 {
				m = strings.Join(x, "; ")
			} else {
				m = written(f)
			}
			plain[k] = m
			if m != "" && c.verbose {
				fmt.Fprintln(os.Stderr, "not used: ", m)
			}
			if len(plain) > 50 {
				plain = map[string]string{k: m}
			}
		}
		return m == ""
	}
	oracle := func(e *Exec) string {
		if m := problems(e); m != "" {
			return m
		}
		return written(e.Feed)
	}
	// --- combinations of operations, in the order of the command line tool ---
	world := worldFeeds()
	var names []string
	for k := range world {
		names = append(names, k)
	}
	names = sorted(names)
	for k := 1; k <= c.Pick(3, 4); k++ {
		for i, nm := range names {
			t := world[nm]
			switch {
			case k == 3 && i%c.Pick(6, 3) != 0:
				continue
			case k == 4 && i%20 != 7:
				continue
			}
			combos(k, func(ops []string) {
				x := fmt.Sprintf("ops%d %s %s", k, nm, opName(ops))
				if c.Mine(x) && plainOk(t) {
					c.Run(Scn{Name: x, T: t, Ops: ops}, oracle)
				}
			})
		}
	}
	// --- the feeds of the command line probes, with all single operations and pairs ---
	for _, p := range probes() {
		for k := 1; k <= c.Pick(1, 2); k++ {
			combos(k, func(ops []string) {
				x := fmt.Sprintf("probe %s %s", p.name, opName(ops))
				if c.Mine(x) && p.in == "" && plainOk(p.t) {
					c.Run(Scn{Name: x, T: p.t, Ops: ops}, oracle)
				}
			})
		}
	}
	// --- nothing of a kind ---
	for _, nm := range []string{"rich", "crowd3", "gadgets"} {
		src := world[nm]
		for _, file := range src.files() {
			t := src.Clone()
			delete(t, file)
			if file == "stops" || file == "trips" || file == "stop_times" {
				t[file] = src[file][:0]
			}
			for k := 1; k <= c.Pick(1, 2); k++ {
				combos(k, func(ops []string) {
					x := fmt.Sprintf("none %s %s %s", nm, file, opName(ops))
					if c.Mine(x) && plainOk(t) {
						c.Run(Scn{Name: x, T: t, Ops: ops}, oracle)
					}
				})
			}
		}
	}
	// --- the command line ---
	run := func(nm string, feeds []T, args []string) {
		if !c.Mine(nm) {
			return
		}
		s := Scn{Name: nm, T: feeds[0], Extra: feeds[1:], Args: args}
		c.cliCheck(s, func() (string, string) {
			r := cliRun(feeds, args...)
			m := r.ok()
			if m == "" {
				m = r.rowDups()
			}
			if m != "" {
				return "", m
			}
			return r.Snap.Canon(), ""
		})
	}
	ma, mb := mergeable()
	sets := []struct {
		nm string
		l  []T
	}{{"two", []T{ma, mb}}, {"rich", []T{richFeed()}}, {"gadgets", []T{world["gadgets"]}}, {"crowd", []T{crowd(4, 2, 27)}}, {"ids", []T{idFeed(3, []string{"1", "2", "0#1"}, 1, true), idFeed(2, []string{"1", "1#1"}, 0, false), richFeed()}}}
	for i, s := range sets {
		for a := range cliOptions {
			run(fmt.Sprintf("cli %s %s", s.nm, strings.Join(cliOptions[a], " ")), s.l, cliOptions[a])
			if c.Quick() && i > 0 {
				continue
			}
			for b := a + 1; b < len(cliOptions); b++ {
				args := append(append([]string{}, cliOptions[a]...), cliOptions[b]...)
				if in(args, "-N") && len(args) > 2 { // see the known findings
					continue
				}
				run(fmt.Sprintf("cli %s %s", s.nm, strings.Join(args, " ")), s.l, args)
			}
		}
	}
	// --- the scenarios of the other checks, followed by one more operation ---
	n := 0
	c.harvestAll(c.Pick(40, 3), func(nm string, s Scn) {
		if len(s.Extra) > 0 || !plainOk(s.T) {
			return
		}
		n++
		c.Run(Scn{Name: "after " + nm, T: s.T, Ops: append(append([]string{}, s.Ops...), pipeOrder[n%len(pipeOrder)])}, oracle)
	})
}
