package main

import (
	"fmt"
	"sort"
	"strings"
)

// --- feed building blocks ---

func agencyRow(id string, kv ...string) Row {
	return R("agency_id", id, "agency_name", "Ag", "agency_url", "http://a.de", "agency_timezone", "UTC").With(kv...)
}

func routeRow(id, agency string, kv ...string) Row {
	return R("route_id", id, "agency_id", agency, "route_short_name", "1", "route_long_name", "L", "route_type", "3").With(kv...)
}

func stopRow(id string, lat, lon float64, kv ...string) Row {
	return R("stop_id", id, "stop_name", "Stop "+id, "stop_lat", f2s(lat), "stop_lon", f2s(lon)).With(kv...)
}

func tripRow(id, route, service string, kv ...string) Row {
	return R("trip_id", id, "route_id", route, "service_id", service).With(kv...)
}

func stRow(trip string, seq int, stop string, t int, kv ...string) Row {
	return R("trip_id", trip, "stop_sequence", fmt.Sprint(seq), "stop_id", stop, "arrival_time", hms(t), "departure_time", hms(t)).With(kv...)
}

func f2s(f float64) string {
	return strings.TrimRight(strings.TrimRight(fmt.Sprintf("%.7f", f), "0"), ".")
}

func hms(t int) string { return fmt.Sprintf("%02d:%02d:%02d", t/3600, t/60%60, t%60) }

func calRow(id string, daymap int, from, to int) Row {
	r := R("service_id", id)
	for i, n := range []string{"sunday", "monday", "tuesday", "wednesday", "thursday", "friday", "saturday"} {
		v := "0"
		if daymap&(1<<uint(i)) != 0 {
			v = "1"
		}
		r = append(r, KV{n, v})
	}
	return append(r, KV{"start_date", ymd(from)}, KV{"end_date", ymd(to)})
}

func cdRow(id string, day int, typ int) Row {
	return R("service_id", id, "date", ymd(day), "exception_type", fmt.Sprint(typ))
}

// d0 is a Sunday in a quiet part of the calendar.
var d0 = dayNum(2023, 6, 4)

// simpleTrip adds a trip with two stops.
func (t T) simpleTrip(id, route, service string, dep int, kv ...string) T {
	t.Add("trips", tripRow(id, route, service, kv...))
	t.Add("stop_times", stRow(id, 1, "s1", dep), stRow(id, 2, "s2", dep+600))
	return t
}

// base is a minimal feed without services and trips.
func base() T {
	t := T{}
	t.Add("agency", agencyRow("a1"))
	t.Add("routes", routeRow("r1", "a1"))
	t.Add("stops", stopRow("s1", 48, 7.8), stopRow("s2", 48.01, 7.81))
	return t
}

// --- enumeration helpers ---

// subsets calls f with every subset of {0..n-1} of size at most k, smallest first.
func subsets(n, k int, f func([]int)) {
	var rec func(start int, cur []int, size int)
	rec = func(start int, cur []int, size int) {
		if len(cur) == size {
			f(cur)
			return
		}
		for i := start; i < n; i++ {
			rec(i+1, append(cur, i), size)
		}
	}
	for s := 0; s <= k; s++ {
		rec(0, nil, s)
	}
}

// perms returns all permutations of 0..n-1.
func perms(n int) [][]int {
	if n == 0 {
		return [][]int{{}}
	}
	var r [][]int
	for _, p := range perms(n - 1) {
		for i := 0; i <= len(p); i++ {
			q := append(append(append([]int{}, p[:i]...), n-1), p[i:]...)
			r = append(r, q)
		}
	}
	sort.Slice(r, func(i, j int) bool { return fmt.Sprint(r[i]) < fmt.Sprint(r[j]) })
	return r
}

// product calls f with every element of the product of ranges [0,dims[i]).
func product(dims []int, f func([]int)) {
	v := make([]int, len(dims))
	for {
		f(v)
		i := len(dims) - 1
		for ; i >= 0; i-- {
			v[i]++
			if v[i] < dims[i] {
				break
			}
			v[i] = 0
		}
		if i < 0 {
			return
		}
	}
}

func keys(m map[string]M) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

func mini(a, b int) int {
	if a < b {
		return a
	}
	return b
}

var longText = strings.Repeat("a text of some length, ", 12)

// withLong adds texts that differ only far from their start, or in the second byte of a character.
func withLong(fields [][]string, names ...string) [][]string {
	var r [][]string
	for _, f := range fields {
		f = append([]string{}, f...)
		for _, n := range names {
			if n == f[0] {
				p := ""
				if strings.HasSuffix(n, "url") {
					p = "http://a.de/"
				}
				x := longText
				if p != "" {
					x = strings.Replace(x, ", ", "/", -1)
					x = strings.Replace(x, " ", "_", -1)
				}
				f = append(f, p+x+"1", p+x+"2")
				if p == "" {
					f = append(f, "M\u00fc", "M\u00f6")
				}
			}
		}
		r = append(r, f)
	}
	return r
}
