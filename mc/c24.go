package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

func init() { checks["C24"] = checkC24 }

func richFeed() T {
	t := idFeed(3, []string{"a", "b", "c"}, 1, false)
	t.Add("calendar", calRow("a", 127, d0, d0+9))
	t.Add("feed_info", R("feed_publisher_name", "Pub", "feed_publisher_url", "http://p.de", "feed_lang", "de", "feed_start_date", ymd(d0), "feed_end_date", ymd(d0+20)))
	for i := range t["shapes"] {
		t["shapes"][i] = t["shapes"][i].With("shape_dist_traveled", fmt.Sprint(i%2))
	}
	return t
}

// breakages lists single defects (or harmless changes) of a feed.
func breakages(base T, f func(name string, t T)) {
	vals := []string{"", "xyz", "-1", "7", "99999999999", "0", "25:61:00", "20231301", "http://[", "ü"}
	for _, file := range base.files() {
		t := base.Clone()
		delete(t, file)
		f("no "+file, t)
		t = base.Clone()
		t[file] = t[file][:1]
		f("one "+file, t)
		t = base.Clone()
		t[file] = append(t[file], t[file][0])
		f("twice "+file, t)
		for _, kv := range base[file][0] {
			t := base.Clone()
			for i, r := range t[file] {
				var n Row
				for _, x := range r {
					if x.K != kv.K {
						n = append(n, x)
					}
				}
				t[file][i] = n
			}
			f("column "+file+"."+kv.K, t)
			for _, v := range vals {
				t := base.Clone()
				t[file][0] = t[file][0].With(kv.K, v)
				f("value "+file+"."+kv.K+"="+v, t)
			}
		}
	}
}

// probe shows by a feed of its own whether an option had its effect.
type probe struct {
	name string
	t    T
	need [][]string // any of these sets of options has the effect
	may  []string   // options that may have the same effect
	eff  func(r *Cli) bool
	in   string // "zip": packed into a sub-directory
}

func count(r *Cli, file, col, val string) int {
	n := 0
	for _, row := range r.T[file] {
		if row.Get(col) == val {
			n++
		}
	}
	return n
}

func rows(r *Cli, file string) int { return len(r.T[file]) }

func probeBase() T {
	t := base()
	t.Add("calendar", calRow("v", 127, d0, d0+20))
	return t
}

func probes() []probe {
	var l []probe
	add := func(name string, t T, need string, may string, eff func(r *Cli) bool) *probe {
		p := probe{name: name, t: t, eff: eff, may: strings.Fields(may)}
		for _, x := range strings.Split(need, "|") {
			p.need = append(p.need, strings.Fields(x))
		}
		l = append(l, p)
		return &l[len(l)-1]
	}
	two := func() T { return probeBase().simpleTrip("t1", "r1", "v", 36000) }
	t := two()
	t.Add("stops", stopRow("s9", 50, 9, "stop_name", "Orphan"))
	add("O", t, "-O", "", func(r *Cli) bool { return count(r, "stops", "stop_name", "Orphan") == 0 })

	t = two()
	t.Add("agency", agencyRow("a2"))
	t.Add("routes", routeRow("r2", "a2", "route_long_name", "M"))
	t.simpleTrip("t2", "r2", "v", 40000)
	add("A", t, "-A", "", func(r *Cli) bool { return rows(r, "agency") == 1 })

	t = two()
	t.Add("stops", stopRow("d1", 49, 8, "stop_name", "Dup"), stopRow("d2", 49, 8, "stop_name", "Dup"))
	t.Add("trips", tripRow("t2", "r1", "v"))
	t.Add("stop_times", stRow("t2", 1, "d1", 36000), stRow("t2", 2, "d2", 37000))
	add("P", t, "-P|--drop-platform-for-parentless", "--group-adj-stop-times --ensure-stop-parents -E --Merge", func(r *Cli) bool { return count(r, "stops", "stop_name", "Dup") == 1 })

	t = two()
	t.Add("stops", stopRow("d1", 49, 8, "stop_name", "Dup", "stop_code", "x"), stopRow("d2", 49, 8, "stop_name", "Dup"))
	t.Add("trips", tripRow("t2", "r1", "v"))
	t.Add("stop_times", stRow("t2", 1, "d1", 36000), stRow("t2", 2, "s1", 37000), stRow("t2", 3, "d2", 38000))
	add("fuzzy-stops", t, "-P --red-stops-fuzzy|--drop-platform-for-parentless --red-stops-fuzzy", "-E --ensure-stop-parents", func(r *Cli) bool {
		n := 0
		for _, x := range r.T["stops"] {
			if x.Get("stop_name") == "Dup" && x.Get("location_type") != "1" {
				n++
			}
		}
		return n == 1
	})

	t = two()
	t.Add("stops", stopRow("d1", 49, 8, "stop_name", "Hauptbahnhof"), stopRow("d2", 49.0003, 8, "stop_name", "Hauptbahnhof"))
	t.Add("trips", tripRow("t2", "r1", "v"))
	t.Add("stop_times", stRow("t2", 1, "d1", 36000), stRow("t2", 2, "s1", 37000), stRow("t2", 3, "d2", 38000))
	add("E", t, "-E", "", func(r *Cli) bool {
		par := map[string]int{}
		for _, x := range r.T["stops"] {
			par[x.Get("parent_station")]++
		}
		for p, n := range par {
			if p != "" && n == 2 {
				return true
			}
		}
		return false
	})

	t = two()
	t.Add("routes", routeRow("r2", "a1"))
	t.simpleTrip("t2", "r2", "v", 40000)
	add("R", t, "-R", "", func(r *Cli) bool { return rows(r, "routes") == 1 })

	t = two()
	t.Add("calendar", calRow("w", 127, d0, d0+20))
	t.simpleTrip("t2", "r1", "w", 40000)
	add("C", t, "-C", "--non-overlapping-services", func(r *Cli) bool { return rows(r, "calendar") == 1 })

	t = probeBase()
	for _, id := range []string{"p1", "p2"} {
		t.Add("shapes", R("shape_id", id, "shape_pt_sequence", "1", "shape_pt_lat", "48", "shape_pt_lon", "7.8"), R("shape_id", id, "shape_pt_sequence", "2", "shape_pt_lat", "48.01", "shape_pt_lon", "7.81"))
	}
	t.simpleTrip("t1", "r1", "v", 36000, "shape_id", "p1").simpleTrip("t2", "r1", "v", 40000, "shape_id", "p2")
	add("S", t, "-S", "--drop-shapes", func(r *Cli) bool { return rows(r, "shapes") == 2 })
	add("drop-shapes", t, "--drop-shapes", "", func(r *Cli) bool { return rows(r, "shapes") == 0 })

	shp := func(dists ...string) T {
		t := probeBase()
		for i, d := range dists {
			t.Add("shapes", R("shape_id", "p1", "shape_pt_sequence", fmt.Sprint(i), "shape_pt_lat", []string{"48", "48.002", "48.006", "48.01"}[i], "shape_pt_lon", []string{"7.8", "7.802", "7.81", "7.81"}[i], "shape_dist_traveled", d))
		}
		return t.simpleTrip("t1", "r1", "v", 36000, "shape_id", "p1")
	}
	t = probeBase()
	for i := 0; i < 5; i++ {
		t.Add("shapes", R("shape_id", "p1", "shape_pt_sequence", fmt.Sprint(i), "shape_pt_lat", f2s(48+0.0025*float64(i)), "shape_pt_lon", "7.8"))
	}
	t.Set("stops", "stop_id", "s2", "stop_lon", "7.8")
	t.simpleTrip("t1", "r1", "v", 36000, "shape_id", "p1")
	add("s", t, "-s", "--drop-shapes", func(r *Cli) bool { return rows(r, "shapes") == 2 })
	add("m", shp("0", "1", "", "3"), "-m|-s|-S|-r", "--drop-shapes", func(r *Cli) bool { return count(r, "shapes", "shape_dist_traveled", "") == 0 })
	add("r", shp("0", "1", "2", "3"), "-r", "", func(r *Cli) bool { return count(r, "stop_times", "shape_dist_traveled", "") == 0 })

	t = shp("", "", "", "")
	t.Set("stops", "stop_id", "s2", "stop_lat", "48.02")
	add("snap", t, "--snap-stops", "", func(r *Cli) bool {
		for _, x := range r.T["stop_times"] {
			for _, s := range r.T["stops"] {
				if s.Get("stop_id") == x.Get("stop_id") && s.Get("stop_lat") == "48.02" {
					return false
				}
			}
		}
		return true
	})

	t = probeBase()
	t.Add("trips", tripRow("t1", "r1", "v"))
	t.Add("stop_times", stRow("t1", 1, "s1", 36000), stRow("t1", 2, "s2", 37000), stRow("t1", 3, "s2", 37100), stRow("t1", 4, "s1", 38000))
	add("group", t, "--group-adj-stop-times", "", func(r *Cli) bool { return rows(r, "stop_times") == 3 })

	t = base()
	for i := 0; i < 20; i++ {
		t.Add("calendar_dates", cdRow("v", d0+i, 1))
	}
	t.simpleTrip("t1", "r1", "v", 36000)
	add("c", t, "-c", "--remove-cal-dates --non-overlapping-services", func(r *Cli) bool { return rows(r, "calendar_dates") == 0 && rows(r, "calendar") == 1 })
	t = base()
	t.Add("calendar_dates", cdRow("v", d0, 1), cdRow("v", d0+3, 1))
	t.simpleTrip("t1", "r1", "v", 36000)
	add("explicit-calendar", t, "--explicit-calendar", "-c --remove-cal-dates --non-overlapping-services", func(r *Cli) bool { return rows(r, "calendar") > 0 })
	t = base()
	t.Add("calendar", calRow("v", 127, d0, d0+20))
	t.Add("calendar_dates", cdRow("v", d0+10, 2))
	t.simpleTrip("t1", "r1", "v", 36000)
	add("nocd", t, "--remove-cal-dates", "--non-overlapping-services", func(r *Cli) bool { return rows(r, "calendar_dates") == 0 })

	t = two().simpleTrip("t2", "r1", "v", 36000)
	add("I", t, "-I", "-T", func(r *Cli) bool { return rows(r, "trips") == 1 })
	t = two()
	t.Add("routes", routeRow("r2", "a1", "route_short_name", "2"))
	t.simpleTrip("t2", "r2", "v", 36000)
	add("fuzzy-trips", t, "-I --red-trips-fuzzy", "", func(r *Cli) bool { return rows(r, "trips") == 1 })
	t = base()
	for i, x := range []int{0, 3, 50, 120} {
		t.Add("calendar_dates", cdRow([]string{"v", "w"}[i%2], d0+x, 1))
	}
	t.simpleTrip("t1", "r1", "v", 36000).simpleTrip("t2", "r1", "w", 36000)
	add("aggressive", t, "-I --red-trips-aggressive", "--non-overlapping-services --remove-cal-dates -c", func(r *Cli) bool { return rows(r, "trips") == 1 })

	t = base()
	t.Add("calendar", calRow("v", 62, d0, d0+20), calRow("w", 127, d0, d0+20))
	t.simpleTrip("t1", "r1", "v", 36000).simpleTrip("t2", "r1", "w", 40000)
	add("nonov", t, "--non-overlapping-services", "", func(r *Cli) bool {
		day := map[string]bool{}
		for _, s := range r.Snap.Services {
			for _, d := range s.Active {
				if day[d] {
					return false
				}
				day[d] = true
			}
		}
		return true
	})

	t = two().simpleTrip("t2", "r1", "v", 36600).simpleTrip("t3", "r1", "v", 37200).simpleTrip("t4", "r1", "v", 37800)
	add("T", t, "-T", "", func(r *Cli) bool { return rows(r, "frequencies") > 0 && rows(r, "trips") == 1 })

	t = two()
	t.Add("levels", R("level_id", "l", "level_index", "1"))
	add("parents", two(), "--ensure-stop-parents", "", func(r *Cli) bool { return rows(r, "stops") == 4 && count(r, "stops", "parent_station", "") == 2 })
	t = two()
	t.Set("stops", "stop_id", "s1", "platform_code", "7")
	add("platform", t, "--drop-platform-for-parentless", "", func(r *Cli) bool { return count(r, "stops", "platform_code", "7") == 0 })
	t = two()
	for i := 0; i < 12; i++ {
		t.simpleTrip(fmt.Sprint("x", i), "r1", "v", 41000+i*i*1000)
	}
	ids := func(r *Cli, want string) bool {
		var l []string
		for _, x := range r.T["trips"] {
			l = append(l, x.Get("trip_id"))
		}
		sort.Strings(l)
		return strings.Join(l, " ") == want
	}
	add("i", t, "-i", "-T --keep-trip-ids --keep-ids", func(r *Cli) bool { return ids(r, "1 10 11 12 13 2 3 4 5 6 7 8 9") })
	add("d", t, "-d", "-T -i --keep-trip-ids --keep-ids", func(r *Cli) bool { return ids(r, "1 2 3 4 5 6 7 8 9 a b c d") })
	for i, k := range []string{"stop", "shape", "route", "trip", "level", "service", "agency", "pathway", "fare", "attrib", "block"} {
		kind := k
		t := idFeed(3, []string{"a", "b", "c"}, i%3, false)
		orig := func(r *Cli) bool { // all ids of the kind are the original ones
			want := t.definedIds(kind)
			got := r.Snap.idsOf(kind)
			for _, x := range want {
				if !got[x] {
					return false
				}
			}
			return true
		}
		need := keepFlag[kind] + " -i"
		if kind != "attrib" {
			need += "|--keep-ids -i"
		}
		if kind == "block" { // blocks are numbered 1, 2 in this feed anyway
			for j, r := range t["trips"] {
				t["trips"][j] = r.With("block_id", "b"+r.Get("block_id"))
			}
		}
		add("keep-"+kind, t, need+"|", "-O -A -P -R -C -S -I -T -c -E --non-overlapping-services --remove-cal-dates --drop-shapes --drop-single-stop-trips --drop-too-fast-trips --snap-stops --drop-platform-for-parentless --group-adj-stop-times --ensure-stop-parents --fix-far-away-parents -i -d --Compress", orig)
		l[len(l)-1].name = "keep-" + kind
	}

	t = two()
	t.Add("stops", stopRow("far", 49, 7.8))
	t.Add("trips", tripRow("t2", "r1", "v"))
	t.Add("stop_times", stRow("t2", 1, "s1", 36000), stRow("t2", 2, "far", 36300))
	add("toofast", t, "--drop-too-fast-trips", "", func(r *Cli) bool { return rows(r, "trips") == 1 })
	t = two()
	t.Add("stops", stopRow("st", 48.005, 7.8, "location_type", "1"))
	t.Set("stops", "stop_id", "s1", "parent_station", "st")
	add("avg", t, "--fix-far-away-parents", "-E", func(r *Cli) bool { return count(r, "stops", "stop_lat", "48.005") == 0 })
	t = two()
	t.Add("trips", tripRow("t2", "r1", "v"))
	t.Add("stop_times", stRow("t2", 1, "s1", 36000))
	add("single-stop", t, "--drop-single-stop-trips", "", func(r *Cli) bool { return rows(r, "trips") == 1 })
	t = two()
	t.Set("routes", "route_id", "r1", "route_long_name", "-")
	add("fillers", t, "--remove-fillers", "", func(r *Cli) bool { return count(r, "routes", "route_long_name", "-") == 0 })
	t = two()
	t.Set("routes", "route_id", "r1", "route_type", "705")
	add("standard-types", t, "--standard-route-types", "", func(r *Cli) bool { return count(r, "routes", "route_type", "3") == 1 })
	add("google-types", t, "--google-supported-route-types", "", func(r *Cli) bool { return count(r, "routes", "route_type", "700") == 1 })
	t = two()
	t["trips"][0] = t["trips"][0].With("extra", "hello")
	add("F", t, "-F", "", func(r *Cli) bool { return count(r, "trips", "extra", "hello") == 1 })
	t = two()
	add("col-order", t, "--keep-col-order", "", func(r *Cli) bool {
		return len(r.T["stops"]) > 0 && len(r.T["stops"][0]) >= 4 && r.T["stops"][0][0].K == "stop_id" && r.T["stops"][0][1].K == "stop_name" && r.T["stops"][0][2].K == "stop_lat"
	})
	// error fixing
	good := func(f func(r *Cli) bool) func(r *Cli) bool {
		return func(r *Cli) bool { return r.Code == 0 && r.LoadErr == "" && r.T != nil && f(r) }
	}
	t = two()
	t.Set("stops", "stop_id", "s1", "wheelchair_boarding", "9")
	add("broken e", t, "-e", "-D", good(func(r *Cli) bool { return rows(r, "stops") == 2 && rows(r, "stop_times") == 2 }))
	t = two()
	t.Add("trips", tripRow("t2", "nowhere", "v"))
	add("broken D", t, "-D", "", good(func(r *Cli) bool { return rows(r, "trips") == 1 }))
	t = two()
	t.Add("stops", stopRow("null", 0, 0))
	add("broken n", t, "-D -n", "-O", good(func(r *Cli) bool { return count(r, "stops", "stop_id", "null") == 0 && rows(r, "stops") == 2 }))
	t = two()
	t.Set("agency", "agency_id", "a1", "agency_name", "")
	add("broken p", t, "-p-", "-D -e", good(func(r *Cli) bool { return count(r, "agency", "agency_name", "-") == 1 }))
	add("broken z", two(), "-z", "", good(func(r *Cli) bool { return rows(r, "trips") == 1 })).in = "zip"
	return l
}

// shorthands: what they stand for.
var shorthands = map[string]string{
	"--fix":      "-e -D -n -z -p-",
	"--compress": "-O -s -S -R -C -c -I -A -P",
	"--Compress": "-O -s -S -R -C -c -I -A -P -d -T --red-stops-fuzzy --red-trips-fuzzy",
	"--merge":    "-A -R -P -I -C -O -c",
	"--Merge":    "-E -A -R -P -I -C -O -c --red-trips-fuzzy --red-stops-fuzzy",
}

func expand(args []string) []string {
	var l []string
	for _, a := range args {
		if x, ok := shorthands[a]; ok {
			l = append(l, strings.Fields(x)...)
		} else {
			l = append(l, a)
		}
	}
	return l
}

func checkC24(c *Ctx) {
	// --- validation and failed runs ---
	outDir := func() { // an output that is there already
		os.RemoveAll(sub("out"))
		os.MkdirAll(sub("out"), 0o755)
		os.WriteFile(sub("out/stops.txt"), []byte("precious"), 0o644)
		os.WriteFile(sub("out/other.txt"), []byte("precious"), 0o644)
	}
	clean := func() {
		for _, f := range []string{"out", "out.zip", "in", "in0", "in1", "in2", "in.zip", "x"} {
			os.RemoveAll(sub(f))
		}
	}
	verdict := func(dir string) string {
		if _, err := parseDir(dir, false); err != nil {
			return err.Error()
		}
		return ""
	}
	breakages(richFeed(), func(name string, t T) {
		if !c.Mine("feed " + name) {
			return
		}
		c.cliCheck(Scn{Name: "feed " + name, T: t}, func() (string, string) {
			clean()
			t.Write(sub("in0"))
			bad := verdict(sub("in0"))
			before := tree(scratchDir)
			for _, a := range [][]string{{"-v"}, {"-v", "-e", "-D"}, {"-v", "-O", "-R", "-i", "--date-start=20230101", "-o", "out"}} {
				code, out := cliExec(append(a, "in0")...)
				if (code == 0) != (bad == "") {
					return "", fmt.Sprintf("%v exits with %d for a feed that loads with: %q\n%s", a, code, bad, out)
				}
				if strings.Contains(out, "No errors.") != (bad == "") {
					return "", fmt.Sprintf("%v: wrong message for a feed that loads with: %q\n%s", a, bad, out)
				}
				if x := tree(scratchDir); x != before {
					return "", fmt.Sprintf("%v writes something\n%s", a, diff(before, x))
				}
			}
			code, out := cliExec("-o", "out", "in0")
			if (code == 0) != (bad == "") {
				return "", fmt.Sprintf("a run exits with %d for a feed that loads with: %q\n%s", code, bad, out)
			}
			if bad != "" {
				if x := tree(scratchDir); x != before {
					return "", "a failed run writes something\n" + diff(before, x)
				}
				outDir()
				before := tree(scratchDir)
				if code, _ := cliExec("-O", "-o", "out", "in0"); code == 0 {
					return "", "a run on a broken feed succeeds into an existing directory"
				}
				if x := tree(scratchDir); x != before {
					return "", "a failed run touches the output\n" + diff(before, x)
				}
			}
			return bad, ""
		})
	})
	// null coordinates are errors only where they are to be checked for
	for i, at := range [][2]float64{{0, 0}, {0.00005, -0.00005}, {0, 7.8}, {48, 0}, {-0.00005, 0}, {0.01, 0.01}} {
		for k, more := range [][]string{{}, {"-O", "-P"}, {"--output=out"}} {
			nm := fmt.Sprintf("null %d %d", i, k)
			if !c.Mine(nm) {
				continue
			}
			at, more := at, more
			t := richFeed()
			if i%2 == 0 {
				t.Add("stops", stopRow("null", at[0], at[1]))
			} else {
				t.Add("shapes", shpRow("null", 1, 48, 7.8), shpRow("null", 2, at[0], at[1]))
			}
			null := at[0] < 0.0001 && at[0] > -0.0001 && at[1] < 0.0001 && at[1] > -0.0001
			c.cliCheck(Scn{Name: nm, T: t, Args: more}, func() (string, string) {
				clean()
				t.Write(sub("in0"))
				for _, n := range [][]string{{}, {"-n"}, {"--check-null-coords"}, {"-n", "-e"}} {
					bad := null && len(n) > 0
					before := tree(scratchDir)
					code, out := cliExec(append(append([]string{"-v"}, append(n, more...)...), "in0")...)
					if (code != 0) != bad {
						return "", fmt.Sprintf("-v %v exits with %d: %s", n, code, out)
					}
					if x := tree(scratchDir); x != before {
						return "", "validation writes something\n" + diff(before, x)
					}
					code, out = cliExec(append(append(append([]string{}, n...), more...), "-o", "out", "in0")...)
					if (code != 0) != bad {
						return "", fmt.Sprintf("%v exits with %d: %s", n, code, out)
					}
					if x := tree(scratchDir); bad && x != before {
						return "", "a failed run writes something\n" + diff(before, x)
					}
					os.RemoveAll(sub("out"))
				}
				return fmt.Sprint(null), ""
			})
		}
	}
	// options do not switch on or loosen each other: the same options, asked for in one go or alone
	type beyond struct {
		name string
		t    func() T
		ok   func(r *Cli) bool
	}
	two := func() T { return probeBase().simpleTrip("t1", "r1", "v", 36000) }
	near := func() T { // alike only where it is asked to be fuzzy
		t := two()
		t.Add("stops", stopRow("p", 48, 7.8, "location_type", "1"), stopRow("s3", 48.000001, 7.8, "stop_code", "C3", "parent_station", "p"))
		t.Set("stops", "stop_id", "s1", "parent_station", "p", "stop_code", "C1")
		t.Add("trips", tripRow("t2", "r1", "v"))
		t.Add("stop_times", stRow("t2", 1, "s3", 46000), stRow("t2", 2, "s2", 46900))
		return t
	}
	routes := func() T { // equal trips of two routes
		t := two()
		t.Add("routes", routeRow("r2", "a1"))
		t.Add("trips", tripRow("t2", "r2", "v"))
		for _, r := range t["stop_times"] {
			if r.Get("trip_id") == "t1" {
				t.Add("stop_times", r.With("trip_id", "t2"))
			}
		}
		t.Set("routes", "route_id", "r2", "route_short_name", "other")
		return t
	}
	others := []string{"-O", "-A", "-E", "-m", "-s", "-r", "-S", "-R", "-C", "-c", "-T", "--snap-stops", "--fix-far-away-parents", "--red-trips-aggressive", "--red-trips-fuzzy", "--red-stops-fuzzy", "--remove-cal-dates", "--non-overlapping-services", "--group-adj-stop-times", "--drop-too-fast-trips", "-D", "-e", "-n", "-F", "--keep-station-ids", "-d"}
	for _, b := range []struct {
		beyond
		need  string
		loose string
	}{
		{beyond{"stops", near, func(r *Cli) bool {
			return count(r, "stops", "stop_code", "C1") == 1 && count(r, "stops", "stop_code", "C3") == 1
		}}, "-P", "--red-stops-fuzzy"},
		{beyond{"trips", routes, func(r *Cli) bool { return rows(r, "trips") == 2 }}, "-I", "--red-trips-fuzzy"},
	} {
		for i, o := range others {
			for _, o2 := range others[i:] {
				if o == b.loose || o2 == b.loose || b.name == "trips" && o2 == "--non-overlapping-services" || b.name == "trips" && o == "--non-overlapping-services" || o2 == "--remove-cal-dates" && b.name == "trips" || o == "--remove-cal-dates" && b.name == "trips" {
					continue
				}
				nm := fmt.Sprintf("beyond %s %s %s", b.name, o, o2)
				if !c.Mine(nm) || c.Quick() && o != o2 && o2 != "--snap-stops" && h64(nm)%6 != 0 {
					continue
				}
				b := b
				args := []string{b.need, o}
				if o2 != o {
					args = append(args, o2)
				}
				t := b.t()
				c.cliCheck(Scn{Name: nm, T: t, Args: args}, func() (string, string) {
					r := cliRun([]T{t}, args...)
					if m := r.ok(); m != "" {
						return "", m
					}
					if !b.ok(r) {
						return "", fmt.Sprintf("%v merges what only %s may merge", args, b.loose)
					}
					return r.Snap.Canon(), ""
				})
			}
		}
	}
	// several inputs, one of them broken
	for i := 0; i < 8; i++ {
		if !c.Mine(fmt.Sprint("several ", i)) {
			continue
		}
		i := i
		c.cliCheck(Scn{Name: fmt.Sprint("several ", i), T: richFeed()}, func() (string, string) {
			clean()
			args := []string{}
			for k := 0; k < 3; k++ {
				t := richFeed()
				if i&(1<<uint(k)) != 0 {
					t.Set("trips", "trip_id", "a", "route_id", "nowhere")
				}
				t.Write(sub(fmt.Sprint("in", k)))
				args = append(args, fmt.Sprint("in", k))
			}
			before := tree(scratchDir)
			code, out := cliExec(append([]string{"-v"}, args...)...)
			if (code == 0) != (i == 0) || strings.Contains(out, "No errors.") != (i == 0) {
				return "", fmt.Sprintf("-v exits with %d for inputs of which these are broken: %03b\n%s", code, i, out)
			}
			code, out = cliExec(append([]string{"-o", "out"}, args...)...)
			if (code == 0) != (i == 0) {
				return "", fmt.Sprintf("exit %d for inputs of which these are broken: %03b\n%s", code, i, out)
			}
			if x := tree(scratchDir); i > 0 && x != before {
				return "", "a failed run writes something\n" + diff(before, x)
			}
			return "", ""
		})
	}
	// inputs that are not there at all: no way of fixing errors makes up for them
	for k := 0; k < 3; k++ {
		for _, more := range [][]string{{}, {"-D"}, {"-e"}, {"--fix"}, {"-D", "-O", "-A"}, {"--Merge"}, {"-v"}, {"-v", "-D"}} {
			nm := fmt.Sprintf("several missing %d %v", k, more)
			if !c.Mine(nm) {
				continue
			}
			k, more := k, more
			c.cliCheck(Scn{Name: nm, T: richFeed(), Args: more}, func() (string, string) {
				for _, kind := range []string{"missing", "empty", "no zip"} {
					clean()
					args := append(append([]string{}, more...), "-o", "out")
					for i := 0; i < 3; i++ {
						in := fmt.Sprint("in", i)
						if i != k {
							richFeed().Write(sub(in))
						} else if kind == "empty" {
							os.MkdirAll(sub(in), 0o755)
						} else if kind == "no zip" {
							in = "x"
							os.WriteFile(sub(in), []byte("this is no feed"), 0o644)
						}
						args = append(args, in)
					}
					before := tree(scratchDir)
					if code, out := cliExec(args...); code == 0 {
						return "", fmt.Sprintf("%v exits with 0 although input %d is %s: %s", args, k, kind, out)
					}
					if x := tree(scratchDir); x != before {
						return "", "a failed run writes something\n" + diff(before, x)
					}
				}
				clean()
				return "", ""
			})
		}
	}
	// --- bad arguments ---
	bad := [][]string{{"--date-start=2023"}, {"--date-start=abcdefgh"}, {"--date-start=20231301"}, {"--date-start=20230532"}, {"--date-start=20230230"}, {"--date-start=20230600"}, {"--date-start=20230001"}, {"--date-start=202306011"},
		{"--date-start=18991231"}, {"--date-start=2023-06-01"}, {"--date-end=2023"}, {"--date-end=abcdefgh"}, {"--date-end=20231301"}, {"--date-end=20230431"}, {"--date-end=202306011"}, {"--date-end=2023060x"}, {"--date-end=20230229"},
		{"-M", "x"}, {"-M", "3,x"}, {"-N", "x"}, {"-N", "1,,y"}, {"--bounding-box=1,2,3"}, {"--bounding-box=a,b,c,d"}, {"--bounding-box=48,7"}, {"--bounding-box=48,7,49,8,50,9"}, {"--polygon=1,2,3"}, {"--polygon=48,7,49,8,47"}, {"--polygon=47.995,7.795,47.995,7.825,48.015,7.825,48.015"}, {"--polygon=47.995,7.795,47.995,7.825,48.015,7.825,48.015,7.795,47.995"}, {"--polygon=48,7,49,,48,9"}, {"--polygon=48,7,49,9,48,9,"}, {"--bounding-box=47,7,49"}, {"--bounding-box=47,7,49,8,50"}, {"--bounding-box=47,7,49,8,"}, {"--polygon=48,7,49,x,48,9"},
		{"--polygon-file=nothere"}, {"--polygon-file=nothere.json"}, {"--polygon-file=broken.geojson"}, {"--polygon-file=odd.txt"}, {"--polygon-file=nogeom.json"}, {"--polygon-file=empty.json"}, {"--no-such-option"}, {"--min-headway=x"}, {"-c=3"}, {"--zip-compression-level=x"}}
	for _, a := range bad {
		for _, pre := range []bool{false, true} {
			for _, more := range [][]string{{}, {"-O"}, {"--fix"}, {"--complete-filtered-trips"}} {
				nm := fmt.Sprintf("bad %v %v %v", a, pre, more)
				if !c.Mine(nm) {
					continue
				}
				a, pre, more := a, pre, more
				t := richFeed()
				c.cliCheck(Scn{Name: nm, T: t, Args: a}, func() (string, string) {
					clean()
					t.Write(sub("in0"))
					os.WriteFile(sub("broken.geojson"), []byte(`{"type":"FeatureCollection","features":[`), 0o644)
					os.WriteFile(sub("nogeom.json"), []byte(`{"type":"FeatureCollection","features":[{"type":"Feature"}]}`), 0o644)
					os.WriteFile(sub("empty.json"), []byte(`{"type":"FeatureCollection","features":[{"type":"Feature","geometry":{"type":"Polygon","coordinates":[]}}]}`), 0o644)
					os.WriteFile(sub("odd.txt"), []byte("48,7,49\n"), 0o644)
					if pre {
						outDir()
					}
					before := tree(scratchDir)
					code, out := cliExec(append(append(append([]string{}, more...), a...), "-o", "out", "in0")...)
					if code == 0 {
						return "", fmt.Sprintf("exit 0 although %v cannot be used\n%s", a, out)
					}
					if x := tree(scratchDir); x != before {
						return "", "a failed run touches the output\n" + diff(before, x)
					}
					return fmt.Sprint(code), ""
				})
			}
		}
	}
	// inputs that cannot be read
	for i, in := range []string{"nothere", "x", "in.zip", "file.zip", "x/empty.zip"} {
		for _, v := range []string{"-v", "-O", "--fix"} {
			for _, pre := range []bool{false, true} {
				nm := fmt.Sprintf("input %d %s %v", i, v, pre)
				if !c.Mine(nm) {
					continue
				}
				in, v, pre := in, v, pre
				c.cliCheck(Scn{Name: nm}, func() (string, string) {
					clean()
					os.MkdirAll(sub("x"), 0o755)
					os.WriteFile(sub("file.zip"), []byte("no zip"), 0o644)
					T{}.zipFeed(sub("x/empty.zip"), "")
					if pre {
						outDir()
					}
					before := tree(scratchDir)
					code, out := cliExec(v, "-o", "out", in)
					if code == 0 {
						return "", fmt.Sprintf("exit 0 although %s cannot be read\n%s", in, out)
					}
					if x := tree(scratchDir); x != before {
						return "", "a failed run touches the output\n" + diff(before, x)
					}
					return fmt.Sprint(code), ""
				})
			}
		}
	}
	if c.Mine("input none") {
		c.cliCheck(Scn{Name: "input none"}, func() (string, string) {
			clean()
			if code, out := cliExec("-O"); code == 0 {
				return "", "exit 0 without input\n" + out
			}
			if code, out := cliExec("--help"); code != 0 {
				return "", "--help fails\n" + out
			}
			return "", ""
		})
	}
	// --- output to a directory, a ZIP file, existing or not ---
	for v := 0; v < 32; v++ {
		nm := fmt.Sprint("output ", v)
		if !c.Mine(nm) {
			continue
		}
		v := v
		t := richFeed()
		c.cliCheck(Scn{Name: nm, T: t}, func() (string, string) {
			clean()
			var want *Snap
			if r := cliRun([]T{t}); r.ok() != "" {
				return "", r.ok()
			} else {
				want = r.Snap
			}
			clean()
			in, out := "in0", "out"
			if v&1 != 0 {
				t.zipFeed(sub("in.zip"), "")
				in = "in.zip"
			} else {
				t.Write(sub("in0"))
			}
			if v&2 != 0 {
				out = "out.zip"
			}
			if v&4 != 0 {
				if v&2 != 0 {
					os.WriteFile(sub("out.zip"), []byte("old and useless"), 0o644)
				} else {
					richFeed().Add("frequencies", R("trip_id", "zz")).Write(sub("out"))
				}
			}
			args := []string{"-o", out}
			if v&8 != 0 {
				args = append(args, "--unsorted-files")
			}
			if v&16 != 0 {
				args = append(args, "--zip-compression-level=1")
			}
			src := tree(sub(in))
			code, o := cliExec(append(args, in)...)
			if code != 0 {
				return "", fmt.Sprintf("exit %d\n%s", code, o)
			}
			if tree(sub(in)) != src {
				return "", "the input was changed"
			}
			if v&2 != 0 {
				if err := unzip(sub("out.zip"), sub("out")); err != nil {
					return "", "output cannot be read: " + err.Error()
				}
			}
			r := &Cli{}
			r.load(sub("out"))
			if r.LoadErr != "" {
				return "", "output cannot be loaded: " + r.LoadErr
			}
			if r.Snap.Canon() != want.Canon() {
				return "", "the output is another one\n" + diff(want.Canon(), r.Snap.Canon())
			}
			return "", ""
		})
	}
	// --- date filter ---
	days := c.Pick(6, 9)
	dateT := func() T {
		t := base()
		t.Add("calendar", calRow("all", 127, d0+1, d0+4), calRow("wd", 62, d0-3, d0+9))
		t.Add("calendar_dates", cdRow("all", d0+2, 2), cdRow("wd", d0, 1), cdRow("one", d0+1, 1), cdRow("one", d0+3, 1), cdRow("only", d0+2, 1))
		for i, s := range []string{"all", "wd", "one", "only"} {
			t.simpleTrip("t"+s, "r1", s, 36000+i)
		}
		return t
	}
	for a := -1; a < days; a++ {
		for b := -1; b < days; b++ {
			nm := fmt.Sprintf("dates %d %d", a, b)
			if !c.Mine(nm) {
				continue
			}
			t := dateT()
			from, to := "", ""
			var args []string
			if a >= 0 {
				from = ymd(d0 - 1 + a)
				args = append(args, "--date-start="+from)
			}
			if b >= 0 {
				to = ymd(d0 - 1 + b)
				args = append(args, "--date-end="+to)
			}
			for _, more := range [][]string{{}, {"-O", "-c", "-C"}} {
				more := more
				s := Scn{Name: fmt.Sprint(nm, " ", len(more)), T: t, Args: append(append([]string{}, args...), more...)}
				c.cliCheck(s, func() (string, string) {
					f, err := t.Load()
					if err != nil {
						panic(err)
					}
					in := TakeSnap(f)
					r := cliRun([]T{t}, s.Args...)
					if m := r.ok(); m != "" {
						return "", m
					}
					for id, x := range in.Trips {
						var want []string
						for _, d := range in.Services[x["service"]].Active {
							if (from == "" || d >= from) && (to == "" || d <= to) {
								want = append(want, d)
							}
						}
						var got []string
						if y := r.Snap.Trips[id]; y != nil {
							got = r.Snap.Services[y["service"]].Active
						}
						if strings.Join(want, " ") != strings.Join(got, " ") {
							return "", fmt.Sprintf("trip %s runs on %v instead of %v", id, got, want)
						}
					}
					return r.Snap.Canon(), ""
				})
			}
		}
	}
	// --- polygons and bounding boxes ---
	type area struct {
		args   []string
		inside func(lat, lon float64) bool
	}
	neg := func(f func(lat, lon float64) bool) func(lat, lon float64) bool {
		return func(lat, lon float64) bool { return f(-lat, -lon) }
	}
	box := func(a, b, x, y float64) func(lat, lon float64) bool {
		return func(lat, lon float64) bool { return lat > a && lat < b && lon > x && lon < y }
	}
	or := func(f, g func(lat, lon float64) bool) func(lat, lon float64) bool {
		return func(lat, lon float64) bool { return f(lat, lon) || g(lat, lon) }
	}
	not := func(f, g func(lat, lon float64) bool) func(lat, lon float64) bool {
		return func(lat, lon float64) bool { return f(lat, lon) && !g(lat, lon) }
	}
	b1, b2, b3 := box(47.995, 48.015, 7.795, 7.825), box(48.015, 48.035, 7.805, 7.815), box(48.005, 48.015, 7.805, 7.815)
	b4, b5 := box(47.996, 48.004, 7.796, 7.804), box(48.006, 48.014, 7.816, 7.824)
	geo := func(name, s string) []string { return []string{"--polygon-file=" + name + "\x00" + s} }
	p1 := "47.995,7.795,47.995,7.825,48.015,7.825,48.015,7.795"
	j1 := "[[7.795,47.995],[7.825,47.995],[7.825,48.015],[7.795,48.015],[7.795,47.995]]"
	j2 := "[[7.805,48.015],[7.815,48.015],[7.815,48.035],[7.805,48.035],[7.805,48.015]]"
	j3 := "[[7.805,48.005],[7.815,48.005],[7.815,48.015],[7.805,48.015],[7.805,48.005]]"
	j4 := "[[7.796,47.996],[7.804,47.996],[7.804,48.004],[7.796,48.004],[7.796,47.996]]"
	j5 := "[[7.816,48.006],[7.824,48.006],[7.824,48.014],[7.816,48.014],[7.816,48.006]]"
	fc := func(g ...string) string {
		for i := range g {
			g[i] = `{"type":"Feature","properties":{},"geometry":` + g[i] + `}`
		}
		return `{"type":"FeatureCollection","features":[` + strings.Join(g, ",") + `]}`
	}
	poly := func(r ...string) string { return `{"type":"Polygon","coordinates":[` + strings.Join(r, ",") + `]}` }
	multi := func(r ...string) string {
		return `{"type":"MultiPolygon","coordinates":[` + strings.Join(r, ",") + `]}`
	}
	all := func(lat, lon float64) bool { return true }
	areas := []area{
		{[]string{"--bounding-box=47.995,7.795,48.015,7.825"}, b1},
		{[]string{"--bounding-box=48.015,7.825,47.995,7.795"}, b1},
		{[]string{"--bounding-box=47.995,7.825,48.015,7.795"}, b1},
		{[]string{"--bounding-box", " 47.995, 7.795, 48.015, 7.825 "}, b1},
		{[]string{"--bounding-box=47.995,7.795,48.015,7.825", "--bounding-box=48.015,7.805,48.035,7.815"}, or(b1, b2)},
		{[]string{"--polygon=" + p1}, b1},
		{[]string{"--polygon=" + p1 + ",47.995,7.795"}, b1},
		{[]string{"--polygon=48.015,7.805,48.035,7.805,48.035,7.815,48.015,7.815"}, b2},
		{[]string{"--polygon=" + p1, "--bounding-box=48.015,7.805,48.035,7.815"}, or(b1, b2)},
		{[]string{"--polygon=" + p1, "--polygon=48.015,7.805,48.035,7.805,48.035,7.815,48.015,7.815"}, or(b1, b2)},
		{geo("p.txt", p1), b1}, {geo("p.txt", p1+"\n"), b1},
		{geo("p.json", fc(poly(j1))), b1}, {geo("p.geojson", fc(poly(j2))), b2},
		{geo("p.json", fc(poly(j1), poly(j2))), or(b1, b2)},
		{geo("p.json", fc(poly(j1, j3))), not(b1, b3)},
		{geo("p.geojson", fc(multi("["+j1+"]", "["+j2+"]"))), or(b1, b2)},
		{geo("p.geojson", fc(multi("["+j1+","+j3+"]", "["+j2+"]"))), or(not(b1, b3), b2)},
		{append(geo("p.geojson", fc(poly(j2))), "--polygon="+p1), or(b1, b2)},
		{geo("p.json", fc(poly(j1, j4, j5))), not(not(b1, b4), b5)},
		{geo("p.json", fc(poly(j1, j5, j3, j4))), not(not(not(b1, b4), b5), b3)},
		{geo("p.json", fc(poly(j2), poly(j1, j3, j5))), or(not(not(b1, b3), b5), b2)},
		{geo("p.geojson", fc(multi("["+j2+"]", "["+j1+","+j4+","+j3+"]"))), or(not(not(b1, b4), b3), b2)},
		{geo("p.geojson", fc(multi("["+j1+","+j4+","+j5+","+j3+"]"), poly(j2))), or(not(not(not(b1, b4), b5), b3), b2)},
		{geo("p.txt", strings.Replace(p1, ",48", ",\n48", -1)), b1},
		{geo("p.txt", "\n"+strings.Replace(p1, ",", " ,\n ", -1)+" \n\n"), b1},
		{geo("p.txt", " "+strings.Replace(p1, ",", "\n,", -1)), b1},
		{append(geo("p.txt", p1), append(geo("q.txt", "\n48.015,7.805,\n48.035,7.805,\n48.035,7.815,\n48.015,7.815,\n48.015,7.805\n"), geo("r.json", fc(poly(j2), poly(j4)))...)...), or(b1, b2)},
		{geo("p.json", fc(poly(j4), poly(j5), poly(j2))), or(or(b4, b5), b2)},
		{geo("p.json", fc(poly(j4), poly(j5), multi("["+j3+"]"), poly(j2))), or(or(or(b4, b5), b3), b2)},
		{geo("p.json", fc(poly(j2), `{"type":"Point","coordinates":[7.8,48]}`, poly(j4))), or(b2, b4)},
		{geo("p.json", fc(multi("["+j4+"]", "["+j5+"]", "["+j2+"]", "["+j3+"]"))), or(or(or(b4, b5), b3), b2)},
		{[]string{"--polygon=" + p1, "--polygon=48.015,7.805,48.035,7.805,48.035,7.815,48.015,7.815", "--bounding-box=48.025,7.825,48.035,7.835", "--bounding-box=48.025,7.795,48.035,7.805"}, or(or(b1, b2), or(box(48.025, 48.035, 7.825, 7.835), box(48.025, 48.035, 7.795, 7.805)))},
		{[]string{"--bounding-box=48.025,7.825,48.035,7.835", "--bounding-box=48.025,7.795,48.035,7.805", "--bounding-box=47.996,7.796,48.004,7.804"}, or(b4, or(box(48.025, 48.035, 7.825, 7.835), box(48.025, 48.035, 7.795, 7.805)))},
		{[]string{"--bounding-box=-48.015,-7.825,-47.995,-7.795"}, neg(b1)},
		{[]string{"--bounding-box=-47.995,-7.795,-48.015,-7.825", "--polygon=-48.015,-7.805,-48.035,-7.805,-48.035,-7.815,-48.015,-7.815"}, neg(or(b1, b2))},
		{geo("p.json", fc(poly("[[-7.795,-47.995],[-7.825,-47.995],[-7.825,-48.015],[-7.795,-48.015],[-7.795,-47.995]]", "[[-7.805,-48.005],[-7.815,-48.005],[-7.815,-48.015],[-7.805,-48.015],[-7.805,-48.005]]"))), neg(not(b1, b3))},
		{[]string{"--bounding-box=10,10,11,11"}, func(lat, lon float64) bool { return false }},
		{[]string{"--bounding-box=-80,-170,80,170"}, all},
		{nil, all},
	}
	gridT := func(v int) T {
		t := base()
		t["stops"] = nil
		sg := 1.
		if v == 2 {
			sg = -1
		}
		t.Add("calendar", calRow("v", 127, d0, d0+5))
		for y := 0; y < 4; y++ {
			for x := 0; x < 4; x++ {
				t.Add("stops", stopRow(fmt.Sprintf("g%d%d", y, x), sg*(48+0.01*float64(y)), sg*(7.8+0.01*float64(x))))
			}
		}
		for k := 0; k < 8; k++ {
			id := fmt.Sprint("t", k)
			t.Add("trips", tripRow(id, "r1", "v", "shape_id", "p"+id))
			for i := 0; i < 4; i++ {
				y, x := i, k%4
				if k >= 4 {
					y, x = k%4, i
				}
				if v == 1 {
					y = (y + x) % 4
				}
				t.Add("stop_times", stRow(id, i, fmt.Sprintf("g%d%d", y, x), 36000+600*i))
				t.Add("shapes", R("shape_id", "p"+id, "shape_pt_sequence", fmt.Sprint(i), "shape_pt_lat", f2s(sg*(48+0.01*float64(y))), "shape_pt_lon", f2s(sg*(7.8+0.01*float64(x)))))
			}
		}
		return t
	}
	for v := 0; v < 3; v++ {
		for ai, ar := range areas {
			for _, complete := range []bool{false, true} {
				nm := fmt.Sprintf("area %d %d %v", v, ai, complete)
				if !c.Mine(nm) {
					continue
				}
				ar, complete := ar, complete
				t := gridT(v)
				var args []string
				var files [][2]string
				for _, a := range ar.args {
					if i := strings.Index(a, "\x00"); i >= 0 {
						files = append(files, [2]string{strings.TrimPrefix(a[:i], "--polygon-file="), a[i+1:]})
						a = a[:i]
					}
					args = append(args, a)
				}
				if complete {
					args = append(args, "--complete-filtered-trips")
				}
				c.cliCheck(Scn{Name: nm, T: t, Args: args}, func() (string, string) {
					for _, f := range files {
						os.WriteFile(filepath.Join(scratchDir, f[0]), []byte(f[1]), 0o644)
					}
					r := cliRun([]T{t}, args...)
					if m := r.ok(); m != "" {
						return "", m
					}
					// removing orphans at the same time is the same as doing it afterwards
					o := cliRun([]T{t}, append([]string{"-O"}, args...)...)
					if m := o.ok(); m != "" {
						return "", m
					}
					e, err := Do(&Scn{T: r.T, Ops: []string{"O"}, Par: 1})
					if err != nil {
						return "", err.Error()
					}
					if x, y := e.Out.Canon(), o.Snap.Canon(); x != y {
						return "", "with -O the filter gives another feed:\n" + diff(x, y)
					}
					inS := map[string]bool{}
					for _, s := range t["stops"] {
						inS[s.Get("stop_id")] = ar.inside(pf(s.Get("stop_lat")), pf(s.Get("stop_lon")))
					}
					touched := map[string]bool{}
					for _, s := range t["stop_times"] {
						if inS[s.Get("stop_id")] {
							touched[s.Get("trip_id")] = true
						}
					}
					if complete {
						for _, s := range t["stop_times"] {
							if touched[s.Get("trip_id")] {
								inS[s.Get("stop_id")] = true
							}
						}
					}
					for id, want := range inS {
						if (r.Snap.Stops[id] != nil) != want {
							return "", fmt.Sprintf("stop %s is kept: %v", id, !want)
						}
					}
					calls := 0
					for _, s := range t["stop_times"] {
						want := inS[s.Get("stop_id")]
						if complete {
							want = touched[s.Get("trip_id")]
						}
						got := false
						for _, x := range r.Snap.StopTimes[s.Get("trip_id")] {
							got = got || x["stop"] == s.Get("stop_id")
						}
						if got != want {
							return "", fmt.Sprintf("call at %s of trip %s is kept: %v", s.Get("stop_id"), s.Get("trip_id"), got)
						}
						if want {
							calls++
						}
					}
					if calls != rows(r, "stop_times") {
						return "", "there are calls that were not there before"
					}
					for _, p := range t["shapes"] {
						want := ar.inside(pf(p.Get("shape_pt_lat")), pf(p.Get("shape_pt_lon")))
						if complete {
							want = touched[strings.TrimPrefix(p.Get("shape_id"), "p")]
						}
						got := false
						for _, x := range r.Snap.Shapes[p.Get("shape_id")] {
							got = got || fmt.Sprint(x.Seq) == p.Get("shape_pt_sequence")
						}
						if got != want && (want || !complete) {
							return "", fmt.Sprintf("point %s of shape %s is kept: %v", p.Get("shape_pt_sequence"), p.Get("shape_id"), got)
						}
					}
					return r.Snap.Canon(), ""
				})
			}
		}
	}
	// --- vehicle types ---
	types := []string{"0", "1", "3", "700"}
	for m := 0; m < 16; m++ {
		for _, neg := range []string{"-M", "-N", "--keep-mots", "--drop-mots"} {
			for _, sep := range []string{",", " , "} {
				nm := fmt.Sprintf("mots %d %s %q", m, neg, sep)
				if !c.Mine(nm) {
					continue
				}
				t := base()
				t["routes"] = nil
				t.Add("calendar", calRow("v", 127, d0, d0+5))
				var l []string
				for i, ty := range types {
					t.Add("routes", routeRow("r"+ty, "a1", "route_type", ty))
					t.simpleTrip("t"+ty, "r"+ty, "v", 36000)
					if m&(1<<uint(i)) != 0 {
						l = append(l, ty)
					}
				}
				args := []string{neg, strings.Join(l, sep)}
				m, drop := m, neg == "-N" || neg == "--drop-mots"
				c.cliCheck(Scn{Name: nm, T: t, Args: args}, func() (string, string) {
					r := cliRun([]T{t}, args...)
					if m := r.ok(); m != "" {
						return "", m
					}
					for i, ty := range types {
						on := m&(1<<uint(i)) != 0
						want := m == 0 || on != drop
						if (r.Snap.Trips["t"+ty] != nil) != want || (r.Snap.Routes["r"+ty] != nil) != want {
							return "", fmt.Sprintf("route and trip of type %s: expected to be there: %v", ty, want)
						}
					}
					return r.Snap.Canon(), ""
				})
			}
		}
	}
	for m := 0; m < 16; m++ { // types to keep and types to drop
		for d := 0; d < 16; d++ {
			nm := fmt.Sprintf("mots keep %d drop %d", m, d)
			if !c.Mine(nm) {
				continue
			}
			t := base()
			t["routes"] = nil
			t.Add("calendar", calRow("v", 127, d0, d0+5))
			var k, n []string
			for i, ty := range types {
				t.Add("routes", routeRow("r"+ty, "a1", "route_type", ty))
				t.simpleTrip("t"+ty, "r"+ty, "v", 36000)
				if m&(1<<uint(i)) != 0 {
					k = append(k, ty)
				}
				if d&(1<<uint(i)) != 0 {
					n = append(n, ty)
				}
			}
			args := []string{"-M", strings.Join(k, ","), "-N", strings.Join(n, ",")}
			c.cliCheck(Scn{Name: nm, T: t, Args: args}, func() (string, string) {
				r := cliRun([]T{t}, args...)
				if m := r.ok(); m != "" {
					return "", m
				}
				for i, ty := range types {
					want := (m == 0 || m&(1<<uint(i)) != 0) && d&(1<<uint(i)) == 0
					if (r.Snap.Trips["t"+ty] != nil) != want || (r.Snap.Routes["r"+ty] != nil) != want {
						return "", fmt.Sprintf("route and trip of type %s: expected to be there: %v", ty, want)
					}
				}
				return r.Snap.Canon(), ""
			})
		}
	}
	// --- the ids of what is kept as it is, with everything else renamed ---
	for _, k := range append(keepKinds(), "") {
		for ai, more := range [][]string{{"-i"}, {"-d"}, {"-i", "-d"}, {"-d", "--prefix=p"}, {"--prefix=p"}, {"-d", "-F", "-C", "-S"}, {"-d", "-O", "-s"}, {"--merge", "-i"}} {
			for rot := 0; rot < 3; rot++ {
				nm := fmt.Sprintf("keep %s %d %d", k, ai, rot)
				if !c.Mine(nm) {
					continue
				}
				t := idFeed(3, []string{"aa", "bb", "cc"}, rot, false)
				for j, r := range t["trips"] {
					t["trips"][j] = r.With("block_id", "b"+r.Get("block_id"))
				}
				flag := "--keep-ids"
				if k != "" {
					flag = keepFlag[k]
				}
				args := append([]string{flag}, more...)
				c.cliCheck(Scn{Name: nm, T: t, Args: args}, func() (string, string) {
					r := cliRun([]T{t}, args...)
					if m := r.ok(); m != "" {
						return "", m
					}
					for _, kind := range keepKinds() {
						kept := kind == k || k == "" && kind != "attrib"
						got, n := r.Snap.idsOf(kind), 0
						was := map[string]bool{}
						for _, x := range t.definedIds(kind) {
							was[x] = true
						}
						for x := range got {
							if was[x] {
								n++
							}
							if kept && !was[x] {
								return "", fmt.Sprintf("%s has the new id %q in spite of %s", kind, x, flag)
							}
						}
						if !kept && n > 0 && (kind != "block" || strings.Contains(strings.Join(args, " "), "--prefix")) { // blocks are only prefixed
							return "", fmt.Sprintf("%d ids of kind %s are kept without %s", n, kind, keepFlag[kind])
						}
					}
					return r.Snap.Canon(), ""
				})
			}
		}
	}
	// --- headway bounds ---
	for h := 0; h < 9; h++ {
		nm := fmt.Sprint("headway ", h)
		if !c.Mine(nm) {
			continue
		}
		t := probeBase()
		for i := 0; i < 5; i++ {
			t.simpleTrip(fmt.Sprint("t", i), "r1", "v", 36000+600*i)
		}
		lo, hi := []int{0, 600, 601}[h%3], []int{0, 600, 599}[h/3]
		args := []string{"-T"}
		if lo > 0 {
			args = append(args, fmt.Sprint("--min-headway=", lo))
		}
		if hi > 0 {
			args = append(args, fmt.Sprint("--max-headway=", hi))
		}
		c.cliCheck(Scn{Name: nm, T: t, Args: args}, func() (string, string) {
			r := cliRun([]T{t}, args...)
			if m := r.ok(); m != "" {
				return "", m
			}
			ok600 := (lo == 0 || lo <= 600) && (hi == 0 || hi >= 600)
			if ok600 != (rows(r, "trips") == 1 && count(r, "frequencies", "headway_secs", "600") == 1) {
				return "", fmt.Sprintf("headway bounds %d-%d are not obeyed (0: none), frequencies: %v", lo, hi, r.T["frequencies"])
			}
			for _, f := range r.T["frequencies"] {
				if x := atoi(f.Get("headway_secs")); lo > 0 && x < lo || hi > 0 && x > hi {
					return "", fmt.Sprintf("headway %d out of bounds %d-%d", x, lo, hi)
				}
			}
			return r.Snap.Canon(), ""
		})
	}
	// --- every option has its effect, and no other one; shorthands have those of the options they stand for ---
	ps := probes()
	var single []string
	seen := map[string]bool{}
	for _, p := range ps {
		for _, n := range p.need {
			for _, f := range n {
				if !seen[f] {
					seen[f] = true
					single = append(single, f)
				}
			}
		}
	}
	sort.Strings(single)
	sets := [][]string{{}}
	for _, f := range single {
		sets = append(sets, []string{f})
	}
	var sh []string
	for s := range shorthands {
		sh = append(sh, s)
	}
	sort.Strings(sh)
	for i, s := range sh {
		sets = append(sets, []string{s})
		for _, s2 := range sh[i+1:] {
			sets = append(sets, []string{s, s2})
		}
	}
	for _, p := range ps {
		for _, n := range p.need {
			if len(n) > 1 {
				sets = append(sets, n)
			}
		}
	}
	if !c.Quick() {
		for i, f := range single {
			for _, g := range single[i+1:] {
				sets = append(sets, []string{f, g})
			}
			for _, s := range sh {
				sets = append(sets, []string{f, s})
			}
		}
	}
	common := len(sets)
	for _, p := range ps {
		sets := append([][]string{}, sets[:common]...)
		for _, n := range p.need { // a modifier is not replaced by any other option
			for i := range n {
				if len(n) < 2 {
					continue
				}
				rest := append(append([]string{}, n[:i]...), n[i+1:]...)
				for _, f := range single {
					if f != n[i] && f != rest[0] {
						sets = append(sets, append([]string{f}, rest...))
					}
				}
			}
		}
		for _, set := range sets {
			nm := fmt.Sprintf("option %s %v", p.name, set)
			if !c.Mine(nm) {
				continue
			}
			p, set := p, set
			has := map[string]bool{}
			for _, f := range expand(set) {
				has[f] = true
			}
			want, may := false, false
			for _, n := range p.need {
				all := true
				for _, f := range n {
					all = all && has[f]
				}
				want = want || all
			}
			for _, f := range p.may {
				may = may || has[f]
			}
			if may && !want {
				continue // another option may have the same effect
			}
			if may && want && !only1(p, has) {
				continue // or get in the way
			}
			if want && blocked(p, has) {
				continue
			}
			c.cliCheck(Scn{Name: nm, T: p.t, Args: set}, func() (string, string) {
				var r *Cli
				if p.in == "zip" {
					clean()
					p.t.zipFeed(sub("in.zip"), "inner/")
					r = &Cli{}
					r.Code, r.Out = cliExec(append(append([]string{}, set...), "-o", "out", "in.zip")...)
					if r.Code == 0 {
						r.load(sub("out"))
					}
				} else {
					r = cliRun([]T{p.t}, set...)
				}
				if p.name[0] != 'b' {
					if m := r.ok(); m != "" {
						return "", m
					}
				}
				if got := p.eff(r); got != want {
					return "", fmt.Sprintf("options %v: effect of %s seen: %v\n%s", set, p.name, got, r.String())
				}
				if want || p.name[0] != 'b' {
					return r.Snap.Canon(), ""
				}
				return "", ""
			})
		}
	}
	// --- additional fields of every file ---
	for _, file := range richFeed().files() {
		for _, flag := range []string{"", "-F", "--keep-additional-fields"} {
			for _, more := range [][]string{{}, {"-O"}, {"-c", "-i"}} {
				nm := fmt.Sprintf("fields %s %s %v", file, flag, more)
				if !c.Mine(nm) {
					continue
				}
				if file == "calendar" || file == "calendar_dates" { // their additional fields are not read
					continue
				}
				t := richFeed()
				n := 0
				for i, r := range t[file] {
					if i != 1 {
						n++
						t[file][i] = r.With("my_field", fmt.Sprint("value ", i))
					}
				}
				args := append([]string{}, more...)
				if flag != "" {
					args = append(args, flag)
				}
				file, flag := file, flag
				c.cliCheck(Scn{Name: nm, T: t, Args: args}, func() (string, string) {
					r := cliRun([]T{t}, args...)
					if m := r.ok(); m != "" {
						return "", m
					}
					got := 0
					for _, f := range r.T.files() {
						for _, row := range r.T[f] {
							for _, kv := range row {
								if strings.HasPrefix(kv.K, "my_") {
									if flag == "" {
										return "", "field " + kv.K + " was kept without being asked to"
									}
									if kv.V != "" {
										got++
									}
								}
							}
						}
					}
					if flag != "" && len(more) == 0 && (got != n || len(r.T[file]) != len(t[file])) {
						return "", fmt.Sprintf("%d of %d values of an additional field in %s.txt were kept", got, n, file)
					}
					return r.Snap.Canon(), ""
				})
			}
		}
	}
}

// blocked: an option the probe does not ask for changes trips, stops, or shapes in ways that hide the effect.
func blocked(p probe, has map[string]bool) bool {
	asked := map[string]bool{}
	for _, n := range p.need {
		for _, f := range n {
			asked[f] = true
		}
	}
	for _, f := range []string{"--non-overlapping-services", "--drop-shapes", "--drop-too-fast-trips", "--ensure-stop-parents", "--standard-route-types"} {
		if has[f] && !asked[f] {
			return true
		}
	}
	return false
}

// only1: apart from the options the probe needs, nothing is on that may have an effect on it.
func only1(p probe, has map[string]bool) bool {
	for _, n := range p.need {
		in := map[string]bool{}
		all := true
		for _, f := range n {
			in[f] = true
			all = all && has[f]
		}
		if !all {
			continue
		}
		ok := true
		for _, f := range p.may {
			if has[f] && !in[f] {
				ok = false
			}
		}
		if ok {
			return true
		}
	}
	return false
}
