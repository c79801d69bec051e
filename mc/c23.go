package main

import (
	"fmt"
	"sort"
	"strings"
)

func init() { checks["C23"] = checkC23 }

// idCols: the id columns of every file and what they name.
var idCols = map[string]map[string]string{
	"agency":          {"agency_id": "agency"},
	"routes":          {"route_id": "route", "agency_id": "agency"},
	"stops":           {"stop_id": "stop", "parent_station": "stop", "level_id": "level", "zone_id": "zone"},
	"calendar":        {"service_id": "service"},
	"calendar_dates":  {"service_id": "service"},
	"shapes":          {"shape_id": "shape"},
	"trips":           {"trip_id": "trip", "route_id": "route", "service_id": "service", "shape_id": "shape", "block_id": "block"},
	"stop_times":      {"trip_id": "trip", "stop_id": "stop"},
	"frequencies":     {"trip_id": "trip"},
	"fare_attributes": {"fare_id": "fare", "agency_id": "agency"},
	"fare_rules":      {"fare_id": "fare", "route_id": "route", "origin_id": "zone", "destination_id": "zone", "contains_id": "zone"},
	"pathways":        {"pathway_id": "pathway", "from_stop_id": "stop", "to_stop_id": "stop"},
	"levels":          {"level_id": "level"},
	"transfers":       {"from_stop_id": "stop", "to_stop_id": "stop", "from_route_id": "route", "to_route_id": "route", "from_trip_id": "trip", "to_trip_id": "trip"},
	"attributions":    {"attribution_id": "attrib", "agency_id": "agency", "route_id": "route", "trip_id": "trip"},
}

// owner: the file and column in which ids of a kind are defined.
var owners = map[string][][2]string{"agency": {{"agency", "agency_id"}}, "route": {{"routes", "route_id"}}, "stop": {{"stops", "stop_id"}}, "service": {{"calendar", "service_id"}, {"calendar_dates", "service_id"}},
	"shape": {{"shapes", "shape_id"}}, "trip": {{"trips", "trip_id"}}, "block": {{"trips", "block_id"}}, "fare": {{"fare_attributes", "fare_id"}}, "pathway": {{"pathways", "pathway_id"}}, "level": {{"levels", "level_id"}},
	"attrib": {{"attributions", "attribution_id"}}}

var keepFlag = map[string]string{"stop": "--keep-station-ids", "block": "--keep-block-ids", "fare": "--keep-fare-ids", "shape": "--keep-shape-ids", "route": "--keep-route-ids", "trip": "--keep-trip-ids",
	"level": "--keep-level-ids", "pathway": "--keep-pathway-ids", "attrib": "--keep-attribution-ids", "service": "--keep-service-ids", "agency": "--keep-agency-ids"}

func keepKinds() []string {
	var l []string
	for k := range keepFlag {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

// definedIds lists the ids of a kind in a text feed.
func (t T) definedIds(kind string) []string {
	m := map[string]bool{}
	for _, o := range owners[kind] {
		for _, r := range t[o[0]] {
			if id := r.Get(o[1]); id != "" || kind == "agency" {
				m[id] = true
			}
		}
	}
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

// fillAgency makes the only agency of a feed explicit where it is left out.
func (t T) fillAgency() T {
	n := t.Clone()
	if len(n["agency"]) != 1 {
		return n
	}
	id := n["agency"][0].Get("agency_id")
	for _, f := range []string{"routes", "fare_attributes"} {
		for i, r := range n[f] {
			if r.Get("agency_id") == "" {
				n[f][i] = r.With("agency_id", id)
			}
		}
	}
	return n
}

// renamed applies a renaming to all ids and references.
func (t T) renamed(f func(kind, id string) string) T {
	n := t.Clone()
	for file, rows := range n {
		for i, r := range rows {
			for j, kv := range r {
				kind := idCols[file][kv.K]
				if kind == "" || kv.V == "" && !(kind == "agency" && file != "attributions") {
					continue
				}
				n[file][i][j].V = f(kind, kv.V)
			}
		}
	}
	return n
}

// merge renames the feeds as gtfstidy has to and joins them; have lists the ids of a kind
// in the output (to see which of several equal ids got its original form back).
func mergeFeeds(feeds []T, idPrefix string, keep map[string]bool, have func(kind string) map[string]bool) (T, string) {
	px := make([]string, len(feeds))
	for i := range feeds {
		px[i] = idPrefix
		if len(feeds) > 1 {
			px[i] += fmt.Sprintf("%d#", i)
		}
	}
	ren := make([]map[string]string, len(feeds))
	for i := range feeds {
		ren[i] = map[string]string{}
	}
	for kind := range owners {
		n := 0
		cnt := map[string]int{}
		pre := map[string]bool{}
		for i, t := range feeds {
			for _, id := range t.definedIds(kind) {
				ren[i][kind+"/"+id] = px[i] + id
				cnt[id]++
				n++
			}
		}
		if !keep[kind] {
			continue
		}
		for i, t := range feeds {
			for _, id := range t.definedIds(kind) {
				if cnt[id] > 1 || id == "" {
					pre[px[i]+id] = true
				}
			}
		}
		// ids that may or may not be restored: those several feeds use, and those equal to one that keeps its prefix
		type item struct {
			feed int
			id   string
		}
		var open []item
		final := map[string]bool{}
		for i, t := range feeds {
			for _, id := range t.definedIds(kind) {
				switch {
				case id == "" && n > 1:
					final[px[i]+id] = true
				case cnt[id] == 1 && !pre[id]:
					ren[i][kind+"/"+id] = id
					final[id] = true
				case px[i] != "":
					open = append(open, item{i, id})
				}
			}
		}
		all := have(kind)
		var try func(k int) bool
		try = func(k int) bool {
			if k == len(open) {
				return true
			}
			x := open[k]
			for _, id := range []string{px[x.feed] + x.id, x.id} {
				if all[id] && !final[id] {
					final[id] = true
					ren[x.feed][kind+"/"+x.id] = id
					if try(k + 1) {
						return true
					}
					delete(final, id)
				}
			}
			return false
		}
		if !try(0) {
			return nil, "ids of kind " + kind + " were not restored properly"
		}
	}
	out := T{}
	for i, t := range feeds {
		p := px[i]
		x := t.fillAgency().renamed(func(kind, id string) string {
			if kind == "zone" {
				return p + id
			}
			if v, ok := ren[i][kind+"/"+id]; ok {
				return v
			}
			return "?" + id
		})
		for _, f := range x.files() {
			out.Add(f, x[f]...)
		}
	}
	return out, ""
}

// idsOf lists the ids of a kind in a snapshot.
func (s *Snap) idsOf(kind string) map[string]bool {
	m := map[string]bool{}
	switch kind {
	case "block":
		for _, t := range s.Trips {
			m[t["block"]] = true
		}
	case "attrib":
		for _, a := range s.Attribs {
			m[a["id"]] = true
		}
	default:
		for _, id := range NewView(s).ids(kind) {
			m[id] = true
		}
	}
	return m
}

// keeping expands keep options.
func keeping(args []string) map[string]bool {
	k := map[string]bool{}
	for _, a := range args {
		for kind, f := range keepFlag {
			if a == f || a == "--keep-ids" && kind != "attrib" {
				k[kind] = true
			}
		}
	}
	return k
}

func mergeOracle(feeds []T, idPrefix string, args []string) (string, string) {
	a := append([]string{}, args...)
	if idPrefix != "" {
		a = append(a, "--prefix="+idPrefix)
	}
	r := cliRun(feeds, a...)
	if m := r.ok(); m != "" {
		return "", m
	}
	if len(r.Snap.Agencies) == 1 { // leaving out the only agency means the same
		for id := range r.Snap.Agencies {
			for _, x := range r.Snap.Fares {
				x["agency"] = id
			}
		}
	}
	out := r.Snap.Canon()
	if m := r.rowDups(); m != "" {
		return out, m
	}
	minimize, base := in(args, "-i") || in(args, "-d"), 10
	if !in(args, "-i") {
		base = 36
	}
	keep := keeping(args)
	want, m := mergeFeeds(feeds, idPrefix, keep, r.Snap.idsOf)
	if m != "" {
		return out, m
	}
	if !in(args, "-F") {
		for f, rows := range want {
			for i, row := range rows {
				var n Row
				for _, kv := range row {
					if !strings.HasPrefix(kv.K, "x_") {
						n = append(n, kv)
					}
				}
				want[f][i] = n
			}
		}
	}
	w, err := want.Load()
	if err != nil {
		panic("expected feed is not valid: " + err.Error() + "\n" + want.Text())
	}
	ws := TakeSnap(w)
	if minimize {
		mask := 0
		for k := range keep {
			if b, ok := keepBit[k]; ok {
				mask |= 1 << b
			} else {
				mask |= 2
			}
		}
		// block ids are compared as a partition unless they are kept
		if !keep["block"] {
			blockParts(ws)
			blockParts(r.Snap)
		}
		return out, idOracle(base, mask, idPrefix)(&Exec{In: ws, Out: r.Snap})
	}
	if x, y := ws.Canon(), out; x != y {
		return out, "the output is not the union of the inputs\n" + diff(x, y)
	}
	return out, ""
}

// blockParts replaces block ids by the (own values of the) trips of the block.
func blockParts(s *Snap) {
	m := map[string][]string{}
	for _, t := range s.Trips {
		if t["block"] != "" {
			m[t["block"]] = append(m[t["block"]], t["short"])
		}
	}
	for _, t := range s.Trips {
		if l := m[t["block"]]; t["block"] != "" {
			sort.Strings(l)
			t["block"] = strings.Join(l, "+")
		}
	}
}

// distinct changes the names of a feed so that entities can be told apart from those of other feeds.
func (t T) distinct(k int) T {
	n := t.Clone()
	for f, rows := range n {
		for i, r := range rows {
			for j, kv := range r {
				switch kv.K {
				case "agency_name", "stop_name", "route_long_name", "trip_short_name", "level_name", "signposted_as", "organization_name":
					n[f][i][j].V = fmt.Sprintf("%s of %d", kv.V, k)
				case "price":
					n[f][i][j].V = fmt.Sprintf("%d%s", k+1, kv.V)
				case "date":
					n[f][i][j].V = ymd(unymd(kv.V) + 10*k)
				case "shape_pt_lat", "stop_lat":
					n[f][i][j].V = f2s(pf(kv.V) + float64(k))
				}
			}
		}
	}
	return n
}

func checkC23(c *Ctx) {
	run := func(nm string, feeds []T, idPrefix string, args ...string) {
		s := Scn{Name: nm, T: feeds[0], Extra: feeds[1:], Args: append(append([]string{}, args...), "--prefix="+idPrefix)}
		c.cliCheck(s, func() (string, string) { return mergeOracle(feeds, idPrefix, args) })
	}
	kinds := keepKinds()
	keepSets := [][]string{{}, {"--keep-ids"}, {"--keep-ids", "--keep-attribution-ids"}}
	for _, k := range kinds {
		keepSets = append(keepSets, []string{keepFlag[k]})
	}
	for i := range kinds {
		var l []string
		for j := range kinds {
			if i != j {
				l = append(l, keepFlag[kinds[j]])
			}
		}
		keepSets = append(keepSets, l)
	}
	feed := func(n int, ids []string, rot int, flds bool) T {
		t := idFeed(n, ids, rot, flds)
		t.Add("feed_info", R("feed_publisher_name", "Pub "+ids[0], "feed_publisher_url", "http://p.de", "feed_lang", "de"))
		for i := range t["stops"] {
			if i > 0 {
				t["stops"][i] = t["stops"][i].With("zone_id", fmt.Sprintf("z%d", i%2))
			}
		}
		for i := range t["fare_rules"] {
			if i%2 == 1 {
				t["fare_rules"][i] = t["fare_rules"][i].With("origin_id", "", "destination_id", "z0")
			}
		}
		return t
	}
	alph := [][]string{{"1", "2", "3", "4"}, {"x", "y", "z", "w"}, {"2", "x", "3", "v"}, {"p", "pp", "ppp", "x"}, {"0#x", "x", "1#x", "0#0#x"}, {"1#1", "1", "0#2", "2"}, {"p0#1", "0#1", "p1#1", "1"}, {"0#", "1#", "#", "0"}}
	prefixes := []string{"", "p", "0#", "1"}
	extra := [][]string{{}, {"-F"}, {"-i", "-F"}, {"-d"}}
	// single feeds with a prefix
	for a := range alph {
		for _, p := range prefixes {
			for ki, ks := range keepSets {
				for ei, ex := range extra {
					for n := 1; n <= 4; n += c.Pick(2, 1) {
						if c.Quick() && (ki > 2 && (a+ei+n)%4 != 0) {
							continue
						}
						nm := fmt.Sprintf("single %d %q %d %d %d", a, p, ki, ei, n)
						if !c.Mine(nm) {
							continue
						}
						run(nm, []T{feed(n, alph[a], ki%4, true)}, p, append(append([]string{}, ks...), ex...)...)
					}
				}
			}
		}
	}
	// two feeds
	for a := range alph {
		for b := range alph {
			for pi, p := range prefixes {
				for ki, ks := range keepSets {
					for ei, ex := range extra {
						if c.Quick() && (ki > 2 && (a+b+pi+ki+ei)%16 != 0 || (a+2*b+3*pi+ei)%4 != 0) {
							continue
						}
						if !c.Quick() && ki > 2 && (a+b+pi+ki+ei)%3 != 0 {
							continue
						}
						nm := fmt.Sprintf("two %d %d %q %d %d", a, b, p, ki, ei)
						if !c.Mine(nm) {
							continue
						}
						run(nm, []T{feed(2+a%2, alph[a], ki%3, true), feed(2+b%3, alph[b], (ki+1)%3, (a+b)%3 > 0).distinct(1)}, p, append(append([]string{}, ks...), ex...)...)
					}
				}
			}
		}
	}
	// three and more feeds
	for _, n := range []int{3, 4, 5, 11, 21} {
		for a := range alph {
			for ki, ks := range keepSets[:3] {
				for ei, ex := range extra {
					if n > 5 && c.Quick() && (a+ki+ei)%4 != 0 {
						continue
					}
					nm := fmt.Sprintf("many %d %d %d %d", n, a, ki, ei)
					if !c.Mine(nm) {
						continue
					}
					var fs []T
					for k := 0; k < n; k++ {
						fs = append(fs, feed(2, alph[(a*k)%len(alph)], k, true).distinct(k))
					}
					run(nm, fs, prefixes[(n+a)%2], append(append([]string{}, ks...), ex...)...)
				}
			}
		}
	}
	// agencies without id, things that are left out
	for v := 0; v < 64; v++ {
		for ki, ks := range keepSets[:3] {
			for pi, p := range prefixes[:2] {
				nm := fmt.Sprintf("bare %d %d %d", v, ki, pi)
				if !c.Mine(nm) {
					continue
				}
				mk := func(v int) T {
					t := base()
					t.Add("calendar_dates", cdRow("v", d0, 1))
					if v&1 != 0 {
						t.Set("agency", "agency_id", "a1", "agency_id", "").Set("routes", "route_id", "r1", "agency_id", "")
					}
					if v&2 != 0 {
						t.Set("routes", "route_id", "r1", "agency_id", "")
					}
					t.simpleTrip("t1", "r1", "v", 36000)
					if v&4 != 0 {
						t.Add("fare_attributes", R("fare_id", "f1", "price", "1", "currency_type", "EUR", "payment_method", "1", "transfers", ""))
						t.Add("fare_rules", R("fare_id", "f1", "route_id", "r1"))
						t.Add("attributions", R("organization_name", "Org", "is_producer", "1"), R("organization_name", "Org2", "is_producer", "1"))
						t.Add("transfers", R("from_stop_id", "s1", "to_stop_id", "s2", "transfer_type", "1"))
					}
					return t
				}
				run(nm, []T{mk(v & 7), mk(v >> 3).distinct(1)}, p, append(append([]string{}, ks...), "-F")...)
				run(nm+" one", []T{mk(v & 7)}, p, append(append([]string{}, ks...), "-F")...)
			}
		}
	}
}
