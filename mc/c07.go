package main

import (
	"fmt"
	"strings"
)

func init() { checks["C07"] = checkC07 }

func agencyOracle(e *Exec) string {
	if m := problems(e); m != "" {
		return m
	}
	a, b := NewView(e.In, "agency"), NewView(e.Out, "agency")
	if m := Same(a, b); m != "" {
		return m
	}
	for id := range e.Out.Agencies {
		if e.In.Agencies[id] == nil {
			return "agency " + id + " is new"
		}
		if a.val("agency", id) != b.val("agency", id) {
			return "attributes of agency " + id + " changed"
		}
	}
	return b.Dups("agency")
}

// agencyFeed: each agency has a route with a trip, a fare and an attribution of its own.
func agencyFeed(l []Row) T {
	t := T{}
	t.Add("stops", stopRow("s1", 48, 7.8), stopRow("s2", 48.01, 7.81))
	t.Add("calendar", calRow("v", 127, d0, d0+6))
	for i, a := range l {
		x := fmt.Sprint(i)
		id := a.Get("agency_id")
		t.Add("agency", a)
		t.Add("routes", routeRow("r"+x, id, "route_short_name", "R"+x), routeRow("q"+x, id, "route_short_name", "Q"+x))
		t.simpleTrip("t"+x, "r"+x, "v", 36000+60*i)
		t.A("fare_attributes", "fare_id", "f"+x, "price", "1."+x, "currency_type", "EUR", "payment_method", "0", "transfers", "1", "agency_id", id)
		t.A("fare_rules", "fare_id", "f"+x, "route_id", "r"+x, "origin_id", "", "destination_id", "", "contains_id", "")
		t.A("attributions", "attribution_id", "b"+x, "agency_id", id, "organization_name", "Org"+x, "is_producer", "1")
	}
	return t
}

var agencyFields = [][]string{
	{"agency_name", "Ag", "Ag2", "ag", "Ag "},
	{"agency_url", "http://a.de", "http://a.de/x", "https://a.de", "http://a.de/?q", "http://a.de/#f"},
	{"agency_timezone", "UTC", "Europe/Berlin", "Europe/Zurich"},
	{"agency_lang", "", "de", "en", "fr"},
	{"agency_phone", "", "1", "2"},
	{"agency_fare_url", "", "http://f.de", "http://f.de/y", "http://f.de/y?a=1", "http://f.de/y?a=2", "https://f.de/y"},
	{"agency_email", "", "a@b.de", "a@c.de"},
	{"x_own", "", "o1", "o2"},
}

func checkC07(c *Ctx) {
	agencyFields := withLong(agencyFields, "agency_name", "agency_url", "agency_phone", "agency_fare_url", "x_own")
	agencyFields[6] = append(agencyFields[6], strings.Repeat("abc.", 12)+"a@b.de", strings.Repeat("abc.", 12)+"b@b.de", strings.Repeat("abc.", 12)+"a@b.com")
	ids := [][]string{{"a1", "a2"}, {"long", "b"}, {"b", "long"}}
	run := func(nm string, l []Row, par int) {
		c.Run(Scn{Name: nm, T: agencyFeed(l), Ops: []string{"A"}, Par: par}, agencyOracle)
	}
	mk := func(id string, kv ...string) Row { return agencyRow(id).With(kv...) }
	// every pair of values of every field
	for _, f := range agencyFields {
		for i := 1; i < len(f); i++ {
			for j := 1; j < len(f); j++ {
				for k, id := range ids {
					nm := fmt.Sprintf("field-pair %s %d %d %d", f[0], i, j, k)
					if !c.Mine(nm) {
						continue
					}
					run(nm, []Row{mk(id[0], f[0], f[i]), mk(id[1], f[0], f[j])}, 1+k)
					if f[0] != "agency_timezone" { // all agencies of a feed share one
						run(nm+" full", []Row{mk(id[0], "agency_lang", "de", "agency_phone", "9", "agency_fare_url", "http://z", "agency_email", "x@y.z", "x_own", "v", f[0], f[i]),
							mk(id[1], "agency_lang", "de", "agency_phone", "9", "agency_fare_url", "http://z", "agency_email", "x@y.z", "x_own", "v", f[0], f[j])}, 1+k)
					}
				}
			}
		}
	}
	// two fields swapped between the agencies (values concatenating to the same text)
	for a := range agencyFields {
		for b := range agencyFields {
			if a >= b || a == 2 || b == 2 {
				continue
			}
			fa, fb := agencyFields[a], agencyFields[b]
			nm := fmt.Sprintf("field-swap %s %s", fa[0], fb[0])
			if !c.Mine(nm) {
				continue
			}
			run(nm, []Row{mk("a1", fa[0], fa[1], fb[0], fb[2]), mk("a2", fa[0], fa[2], fb[0], fb[1]), mk("a3", fa[0], fa[1], fb[0], fb[1]), mk("a4", fa[0], fa[2], fb[0], fb[2]), mk("a5", fa[0], fa[1], fb[0], fb[2])}, 2)
		}
	}
	// all small feeds over an alphabet of colliding agencies
	alpha := []Row{mk(""), mk("", "agency_phone", "1"), mk("", "agency_url", "http://b"), mk("", "agency_name", "Bg"), mk("", "x_own", "1")}
	N := c.Pick(4, 5)
	for n := 1; n <= N; n++ {
		dims := make([]int, n)
		for i := range dims {
			dims[i] = len(alpha)
		}
		product(dims, func(v []int) {
			nm := fmt.Sprintf("multi %v", v)
			if !c.Mine(nm) {
				return
			}
			var l []Row
			for i, x := range v {
				id := fmt.Sprintf("a%d", i)
				if i == 1 {
					id = "agency1"
				}
				l = append(l, alpha[x].With("agency_id", id))
			}
			for par := 1; par <= 3; par++ {
				run(fmt.Sprintf("%s p%d", nm, par), l, par)
			}
		})
	}
	// an agency that others refer to only partly: shared attributions, routes without fares, no routes at all
	for m := 0; m < 16; m++ {
		nm := fmt.Sprintf("partial %d", m)
		if !c.Mine(nm) {
			continue
		}
		t := agencyFeed([]Row{mk("a1"), mk("a2"), mk("a3", "agency_phone", "3")})
		if m&1 != 0 {
			delete(t, "fare_attributes")
			delete(t, "fare_rules")
		}
		if m&2 != 0 {
			delete(t, "attributions")
		}
		if m&4 != 0 {
			t.Add("agency", mk("a4"), mk("a5"))
		}
		if m&8 != 0 {
			t.Rev("agency")
		}
		c.Run(Scn{Name: nm, T: t, Ops: []string{"A"}, Par: 2}, agencyOracle)
	}
	for i, v := range [][]int{{0, 0}, {0, 0, 0}, {0, 1, 0, 1}, {0, 0, 0, 0, 1}} {
		nm := fmt.Sprintf("sched %v", v)
		if !c.Mine(nm) {
			continue
		}
		var l []Row
		for i, x := range v {
			l = append(l, alpha[x].With("agency_id", fmt.Sprintf("a%d", i)))
		}
		c.Explore(Scn{Name: nm, T: agencyFeed(l), Ops: []string{"A"}, Par: 1 + i%3, Maps: true}, c.Pick(2, 3), c.Pick(4000, 40000), agencyOracle)
	}
}
