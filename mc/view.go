package main

import (
	"fmt"
	"sort"
	"strings"
)

// View renders a snapshot row by row. References to kinds in ByValue are replaced by what they
// refer to, all others are ids; rows of kinds in ByValue carry no id.
type View struct {
	s       *Snap
	byValue map[string]bool
	skip    map[string]bool // "kind.field" not shown
	rename  func(kind, id string) string
	memo    map[string]string
	open    map[string]bool
}

func NewView(s *Snap, byValue ...string) *View {
	v := &View{s: s, byValue: map[string]bool{}, skip: map[string]bool{}, memo: map[string]string{}, open: map[string]bool{}}
	for _, k := range byValue {
		v.byValue[k] = true
	}
	return v
}

func (v *View) Skip(fields ...string) *View {
	for _, f := range fields {
		v.skip[f] = true
	}
	return v
}

// refs lists the reference fields of each kind.
var refs = map[string]map[string]string{
	"route":    {"agency": "agency"},
	"stop":     {"parent": "stop", "level": "level"},
	"trip":     {"route": "route", "service": "service", "shape": "shape"},
	"st":       {"stop": "stop"},
	"fare":     {"agency": "agency"},
	"rule":     {"route": "route"},
	"pathway":  {"from": "stop", "to": "stop"},
	"transfer": {"from": "stop", "to": "stop", "froute": "route", "troute": "route", "ftrip": "trip", "ttrip": "trip"},
	"attrib":   {"agency_id": "agency", "route_id": "route", "trip_id": "trip"},
}

func (v *View) table(kind string) map[string]M {
	switch kind {
	case "agency":
		return v.s.Agencies
	case "route":
		return v.s.Routes
	case "stop":
		return v.s.Stops
	case "trip":
		return v.s.Trips
	case "fare":
		return v.s.Fares
	case "level":
		return v.s.Levels
	case "pathway":
		return v.s.Pathways
	}
	return nil
}

func (v *View) ref(kind, id string) string {
	if id == "" {
		return ""
	}
	if v.byValue[kind] {
		return "{" + v.val(kind, id) + "}"
	}
	if v.rename != nil {
		return v.rename(kind, id)
	}
	return id
}

func (v *View) row(kind string, m M) string {
	ks := make([]string, 0, len(m))
	for k, x := range m {
		if x == "" || v.skip[kind+"."+k] {
			continue
		}
		if t, ok := refs[kind][k]; ok {
			x = v.ref(t, x)
		}
		ks = append(ks, k+"="+x)
	}
	sort.Strings(ks)
	return strings.Join(ks, ";")
}

// val is the entity's content without its own id.
func (v *View) val(kind, id string) string {
	mk := kind + "\x00" + id
	if x, ok := v.memo[mk]; ok {
		return x
	}
	if v.open[mk] {
		return "cycle"
	}
	v.open[mk] = true
	r := ""
	switch kind {
	case "service":
		if s := v.s.Services[id]; s != nil {
			r = "on " + s.key()
		} else {
			r = "no service " + id
		}
	case "shape":
		var l []string
		pts, ok := v.s.Shapes[id]
		if !ok {
			l = append(l, "no shape "+id)
		}
		for _, p := range pts {
			x := fmt.Sprintf("%v %v", p.Lat, p.Lon)
			if !v.skip["shape.dist"] {
				x += fmt.Sprintf(" %v", p.Dist)
			}
			if !v.skip["shape.seq"] {
				x += fmt.Sprintf(" #%d", p.Seq)
			}
			if p.Add != "" {
				x += " " + p.Add
			}
			l = append(l, x)
		}
		r = strings.Join(l, ",")
	default:
		m, ok := v.table(kind)[id]
		if !ok {
			r = "no " + kind + " " + id
			break
		}
		r = v.row(kind, m)
		if kind == "trip" {
			for _, st := range v.s.StopTimes[id] {
				r += " <" + v.row("st", st) + ">"
			}
			for _, q := range v.s.Freqs[id] {
				r += " f<" + v.row("freq", q) + ">"
			}
		}
		if kind == "fare" {
			var l []string
			for _, q := range v.s.FareRules[id] {
				l = append(l, " r<"+v.row("rule", q)+">")
			}
			sort.Strings(l)
			if v.byValue["rule"] {
				l = uniqS(l)
			}
			r += strings.Join(l, "")
		}
	}
	delete(v.open, mk)
	v.memo[mk] = r
	return r
}

func uniqS(l []string) []string {
	sort.Strings(l)
	var r []string
	for i, x := range l {
		if i == 0 || x != l[i-1] {
			r = append(r, x)
		}
	}
	return r
}

var allKinds = []string{"agency", "route", "stop", "level", "service", "shape", "trip", "fare", "pathway", "transfer", "attrib", "info"}

func (v *View) ids(kind string) []string {
	switch kind {
	case "service":
		var l []string
		for k := range v.s.Services {
			l = append(l, k)
		}
		sort.Strings(l)
		return l
	case "shape":
		var l []string
		for k := range v.s.Shapes {
			l = append(l, k)
		}
		sort.Strings(l)
		return l
	}
	return keys(v.table(kind))
}

// Rows lists all rows of a kind.
func (v *View) Rows(kind string) []string {
	var l []string
	switch kind {
	case "transfer":
		for _, m := range v.s.Transfers {
			l = append(l, v.row(kind, m))
		}
	case "attrib":
		for _, m := range v.s.Attribs {
			l = append(l, v.row(kind, m))
		}
	case "info":
		for _, m := range v.s.Infos {
			l = append(l, v.row(kind, m))
		}
	default:
		for _, id := range v.ids(kind) {
			if v.byValue[kind] {
				l = append(l, v.val(kind, id))
			} else {
				n := id
				if v.rename != nil {
					n = v.rename(kind, id)
				}
				l = append(l, n+": "+v.val(kind, id))
			}
		}
	}
	sort.Strings(l)
	return l
}

// Same compares two views: kinds identified by value as sets, all others as multisets.
// Kinds in except are not compared.
func Same(a, b *View, except ...string) string {
	for _, k := range allKinds {
		if in(except, k) {
			continue
		}
		x, y := a.Rows(k), b.Rows(k)
		if a.byValue[k] {
			x, y = uniqS(x), uniqS(y)
		}
		if d := diff(strings.Join(x, "\n"), strings.Join(y, "\n")); strings.Join(x, "\n") != strings.Join(y, "\n") {
			return k + " rows changed:\n" + d
		}
	}
	return ""
}

// Dups reports a pair of entities of a kind that have the same value.
func (v *View) Dups(kind string) string {
	seen := map[string]string{}
	for _, id := range v.ids(kind) {
		x := v.val(kind, id)
		if o, ok := seen[x]; ok {
			return fmt.Sprintf("identical entities remain (%s): %s and %s: %s", kind, o, id, x)
		}
		seen[x] = id
	}
	return ""
}

func in(l []string, x string) bool {
	for _, y := range l {
		if x == y {
			return true
		}
	}
	return false
}

func problems(e *Exec) string {
	if len(e.Out.Problems) > 0 {
		return "inconsistent feed: " + strings.Join(e.Out.Problems, "; ")
	}
	return ""
}
