package main

import (
	"fmt"
	"math"
	"net/mail"
	"net/url"
	"sort"
	"strconv"
	"strings"

	"github.com/patrickbr/gtfsparser"
	"github.com/patrickbr/gtfsparser/gtfs"
)

// M holds the fields of one entity. Names starting with "+" are additional (non-GTFS) fields.
type M map[string]string

func (m M) key(skip ...string) string {
	ks := make([]string, 0, len(m))
next:
	for k, v := range m {
		if v == "" {
			continue
		}
		for _, s := range skip {
			if s == k {
				continue next
			}
		}
		ks = append(ks, k+"="+v)
	}
	sort.Strings(ks)
	return strings.Join(ks, ";")
}

func (m M) clone() M {
	n := M{}
	for k, v := range m {
		n[k] = v
	}
	return n
}

type Svc struct {
	Daymap     uint8
	Start, End string
	Exc        map[string]bool
	Active     []string // active dates, sorted, YYYYMMDD
}

// Entries counts the lines the service needs in calendar.txt and calendar_dates.txt.
func (s *Svc) Entries() int {
	n := len(s.Exc)
	if s.Daymap != 0 {
		n++
	}
	return n
}

func (s *Svc) key() string { return strings.Join(s.Active, ",") }

type Pt struct {
	Lat, Lon float32
	Seq      uint32
	Dist     float64 // NaN: none
	Add      string
}

// Snap is a by-value picture of a feed in which references are ids.
type Snap struct {
	Agencies, Stops, Routes, Trips, Fares, Levels, Pathways map[string]M
	StopTimes                                               map[string][]M
	Freqs                                                   map[string][]M
	FareRules                                               map[string][]M
	Services                                                map[string]*Svc
	Shapes                                                  map[string][]Pt
	Transfers                                               []M
	Attribs                                                 []M
	Infos                                                   []M
	Problems                                                []string
}

func fl(f float32) string {
	if math.IsNaN(float64(f)) {
		return ""
	}
	return strconv.FormatFloat(float64(f), 'g', -1, 32)
}

func us(u *url.URL) string {
	if u == nil {
		return ""
	}
	return u.String()
}

func ms(u *mail.Address) string {
	if u == nil {
		return ""
	}
	return u.Address
}

func sp(s *string) string {
	if s == nil {
		return ""
	}
	return *s
}

func it(i int) string {
	return strconv.Itoa(i)
}

func bo(b bool) string {
	if b {
		return "1"
	}
	return "0"
}

func tm(t gtfs.Time) string {
	if t.Empty() {
		return ""
	}
	return it(t.SecondsSinceMidnight())
}

// tm renders a time, which has to be one of a clock.
func (s *Snap) tm(t gtfs.Time) string {
	if !t.Empty() && (t.Hour < 0 || t.Minute < 0 || t.Minute > 59 || t.Second < 0 || t.Second > 59) {
		s.bad("there is no such time as %02d:%02d:%02d", t.Hour, t.Minute, t.Second)
	}
	return tm(t)
}

func dt(d gtfs.Date) string {
	if d.IsEmpty() {
		return ""
	}
	return fmt.Sprintf("%04d%02d%02d", d.Year(), d.Month(), d.Day())
}

func (s *Snap) bad(f string, a ...interface{}) {
	if len(s.Problems) < 20 {
		s.Problems = append(s.Problems, fmt.Sprintf(f, a...))
	}
}

// TakeSnap reads a feed. It never modifies it.
func TakeSnap(f *gtfsparser.Feed) *Snap {
	s := &Snap{Agencies: map[string]M{}, Stops: map[string]M{}, Routes: map[string]M{}, Trips: map[string]M{},
		Fares: map[string]M{}, Levels: map[string]M{}, Pathways: map[string]M{}, StopTimes: map[string][]M{},
		Freqs: map[string][]M{}, FareRules: map[string][]M{}, Services: map[string]*Svc{}, Shapes: map[string][]Pt{}}

	agency := func(where string, a *gtfs.Agency) string {
		if a == nil {
			return ""
		}
		if f.Agencies[a.Id] != a {
			s.bad("%s refers to agency %q which is not in the feed", where, a.Id)
			return "!" + a.Id
		}
		return a.Id
	}
	stop := func(where string, a *gtfs.Stop) string {
		if a == nil {
			return ""
		}
		if f.Stops[a.Id] != a {
			s.bad("%s refers to stop %q which is not in the feed", where, a.Id)
			return "!" + a.Id
		}
		return a.Id
	}
	route := func(where string, a *gtfs.Route) string {
		if a == nil {
			return ""
		}
		if f.Routes[a.Id] != a {
			s.bad("%s refers to route %q which is not in the feed", where, a.Id)
			return "!" + a.Id
		}
		return a.Id
	}
	trip := func(where string, a *gtfs.Trip) string {
		if a == nil {
			return ""
		}
		if f.Trips[a.Id] != a {
			s.bad("%s refers to trip %q which is not in the feed", where, a.Id)
			return "!" + a.Id
		}
		return a.Id
	}
	addS := func(m M, flds map[string]map[string]string, id string) {
		for k, v := range flds {
			if x, ok := v[id]; ok && x != "" {
				m["+"+k] = x
			}
		}
	}
	stray := func(kind string, flds map[string]map[string]string, has func(string) bool) {
		for k, v := range flds {
			for id, x := range v {
				if x != "" && !has(id) {
					s.bad("additional %s field %s is kept for unknown id %q", kind, k, id)
				}
			}
		}
	}
	attrib := func(l []*gtfs.Attribution, kind, id string) {
		for _, a := range l {
			if a == nil {
				s.bad("nil attribution at %s %s", kind, id)
				continue
			}
			m := M{"id": a.Id, "org": a.Organization_name, "prod": bo(a.Is_producer), "oper": bo(a.Is_operator), "auth": bo(a.Is_authority),
				"email": ms(a.Email), "url": us(a.Url), "phone": a.Phone}
			if kind != "" {
				m[kind] = id
			}
			for k, v := range f.AttributionsAddFlds {
				if v[a] != "" {
					m["+"+k] = v[a]
				}
			}
			s.Attribs = append(s.Attribs, m)
		}
	}
	attrib(f.Attributions, "", "")
	for id, a := range f.Agencies {
		if a == nil || a.Id != id {
			s.bad("agency stored under %q has another id", id)
			continue
		}
		m := M{"name": a.Name, "url": us(a.Url), "tz": a.Timezone.GetTzString(), "lang": a.Lang.GetLangString(), "phone": a.Phone, "fare_url": us(a.Fare_url), "email": ms(a.Email)}
		addS(m, f.AgenciesAddFlds, id)
		s.Agencies[id] = m
		attrib(a.Attributions, "agency_id", id)
	}
	for id, a := range f.Levels {
		if a == nil || a.Id != id {
			s.bad("level stored under %q has another id", id)
			continue
		}
		m := M{"index": fl(a.Index), "name": a.Name}
		addS(m, f.LevelsAddFlds, id)
		s.Levels[id] = m
	}
	for id, a := range f.Stops {
		if a == nil || a.Id != id {
			s.bad("stop stored under %q has another id", id)
			continue
		}
		m := M{"code": a.Code, "name": a.Name, "desc": a.Desc, "lat": fl(a.Lat), "lon": fl(a.Lon), "lt": it(int(a.Location_type)), "wb": it(int(a.Wheelchair_boarding)),
			"zone": a.Zone_id, "url": us(a.Url), "platform": a.Platform_code, "tz": a.Timezone.GetTzString()}
		m["parent"] = stop("stop "+id+" (parent)", a.Parent_station)
		if a.Level != nil {
			m["level"] = a.Level.Id
			if f.Levels[a.Level.Id] != a.Level {
				s.bad("stop %s refers to level %q which is not in the feed", id, a.Level.Id)
				m["level"] = "!" + a.Level.Id
			}
		}
		addS(m, f.StopsAddFlds, id)
		s.Stops[id] = m
	}
	for id, a := range f.Routes {
		if a == nil || a.Id != id {
			s.bad("route stored under %q has another id", id)
			continue
		}
		m := M{"agency": agency("route "+id, a.Agency), "short": a.Short_name, "long": a.Long_name, "desc": a.Desc, "type": it(int(a.Type)), "url": us(a.Url),
			"color": a.Color, "tcolor": a.Text_color, "sort": it(a.Sort_order), "cpu": it(int(a.Continuous_pickup)), "cdo": it(int(a.Continuous_drop_off))}
		addS(m, f.RoutesAddFlds, id)
		s.Routes[id] = m
		attrib(a.Attributions, "route_id", id)
	}
	for id, a := range f.Services {
		if a == nil || a.Id() != id {
			s.bad("service stored under %q has another id", id)
			continue
		}
		s.Services[id] = snapSvc(a)
	}
	for id, a := range f.Shapes {
		if a == nil || a.Id != id {
			s.bad("shape stored under %q has another id", id)
			continue
		}
		pts := make([]Pt, 0, len(a.Points))
		for _, p := range a.Points {
			d := math.NaN()
			if p.HasDistanceTraveled() {
				d = float64(p.Dist_traveled)
			}
			x := Pt{Lat: p.Lat, Lon: p.Lon, Seq: p.Sequence, Dist: d}
			var add []string
			for k, v := range f.ShapesAddFlds {
				if v[id] != nil && v[id][int(p.Sequence)] != "" {
					add = append(add, k+"="+v[id][int(p.Sequence)])
				}
			}
			sort.Strings(add)
			x.Add = strings.Join(add, ",")
			pts = append(pts, x)
		}
		s.Shapes[id] = pts
	}
	for id, a := range f.Trips {
		if a == nil || a.Id != id {
			s.bad("trip stored under %q has another id", id)
			continue
		}
		m := M{"route": route("trip "+id, a.Route), "headsign": sp(a.Headsign), "short": sp(a.Short_name), "block": sp(a.Block_id), "dir": it(int(a.Direction_id)),
			"wa": it(int(a.Wheelchair_accessible)), "bikes": it(int(a.Bikes_allowed))}
		if a.Route == nil {
			s.bad("trip %s has no route", id)
		}
		if a.Service == nil {
			s.bad("trip %s has no service", id)
		} else {
			m["service"] = a.Service.Id()
			if f.Services[a.Service.Id()] != a.Service {
				s.bad("trip %s refers to service %q which is not in the feed", id, a.Service.Id())
				m["service"] = "!" + a.Service.Id()
			}
		}
		if a.Shape != nil {
			m["shape"] = a.Shape.Id
			if f.Shapes[a.Shape.Id] != a.Shape {
				s.bad("trip %s refers to shape %q which is not in the feed", id, a.Shape.Id)
				m["shape"] = "!" + a.Shape.Id
			}
		}
		addS(m, f.TripsAddFlds, id)
		s.Trips[id] = m
		for i := range a.StopTimes {
			st := &a.StopTimes[i]
			x := M{"arr": s.tm(st.Arrival_time()), "dep": s.tm(st.Departure_time()), "pu": it(int(st.Pickup_type())), "do": it(int(st.Drop_off_type())),
				"cpu": it(int(st.Continuous_pickup())), "cdo": it(int(st.Continuous_drop_off())), "tp": bo(st.Timepoint()), "dist": fl(st.Shape_dist_traveled()),
				"headsign": sp(st.Headsign()), "seq": it(st.Sequence())}
			if x["headsign"] == m["headsign"] {
				delete(x, "headsign") // that of the trip
			}
			if st.Stop() == nil {
				s.bad("stop time of trip %s has no stop", id)
			}
			x["stop"] = stop("stop time of trip "+id, st.Stop())
			for k, v := range f.StopTimesAddFlds {
				if v[id] != nil && v[id][st.Sequence()] != "" {
					x["+"+k] = v[id][st.Sequence()]
				}
			}
			s.StopTimes[id] = append(s.StopTimes[id], x)
		}
		if a.Frequencies != nil {
			for _, q := range *a.Frequencies {
				if q == nil {
					s.bad("nil frequency at trip %s", id)
					continue
				}
				x := M{"start": s.tm(q.Start_time), "end": s.tm(q.End_time), "headway": it(q.Headway_secs), "exact": bo(q.Exact_times)}
				for k, v := range f.FrequenciesAddFlds {
					if v[id] != nil && v[id][q] != "" {
						x["+"+k] = v[id][q]
					}
				}
				s.Freqs[id] = append(s.Freqs[id], x)
			}
		}
		if a.Attributions != nil {
			attrib(*a.Attributions, "trip_id", id)
		}
	}
	for id, a := range f.FareAttributes {
		if a == nil || a.Id != id {
			s.bad("fare attribute stored under %q has another id", id)
			continue
		}
		m := M{"price": a.Price, "cur": a.Currency_type, "pay": it(a.Payment_method), "transfers": it(a.Transfers), "dur": it(a.Transfer_duration), "agency": agency("fare "+id, a.Agency)}
		addS(m, f.FareAttributesAddFlds, id)
		s.Fares[id] = m
		for _, q := range a.Rules {
			if q == nil {
				s.bad("nil fare rule at %s", id)
				continue
			}
			x := M{"route": route("fare rule of "+id, q.Route), "orig": q.Origin_id, "dest": q.Destination_id, "cont": q.Contains_id}
			for k, v := range f.FareRulesAddFlds {
				if v[id] != nil && v[id][q] != "" {
					x["+"+k] = v[id][q]
				}
			}
			s.FareRules[id] = append(s.FareRules[id], x)
		}
	}
	for id, a := range f.Pathways {
		if a == nil || a.Id != id {
			s.bad("pathway stored under %q has another id", id)
			continue
		}
		if a.From_stop == nil || a.To_stop == nil {
			s.bad("pathway %s has no from or to stop", id)
		}
		m := M{"from": stop("pathway "+id, a.From_stop), "to": stop("pathway "+id, a.To_stop), "mode": it(int(a.Mode)), "bidi": bo(a.Is_bidirectional), "len": fl(a.Length),
			"time": it(a.Traversal_time), "stairs": it(a.Stair_count), "slope": fl(a.Max_slope), "width": fl(a.Min_width), "sign": a.Signposted_as, "rsign": a.Reversed_signposted_as}
		addS(m, f.PathwaysAddFlds, id)
		s.Pathways[id] = m
	}
	for k, v := range f.Transfers {
		w := "transfer"
		m := M{"from": stop(w, k.From_stop), "to": stop(w, k.To_stop), "froute": route(w, k.From_route), "troute": route(w, k.To_route), "ftrip": trip(w, k.From_trip), "ttrip": trip(w, k.To_trip),
			"type": it(v.Transfer_type), "min": it(v.Min_transfer_time)}
		if (k.From_stop == nil && k.From_route == nil && k.From_trip == nil) || (k.To_stop == nil && k.To_route == nil && k.To_trip == nil) {
			s.bad("transfer without from or to side: %s", m.key())
		}
		for n, x := range f.TransfersAddFlds {
			if x[k] != "" {
				m["+"+n] = x[k]
			}
		}
		s.Transfers = append(s.Transfers, m)
	}
	for _, i := range f.FeedInfos {
		m := M{"pub": i.Publisher_name, "url": us(i.Publisher_url), "lang": i.Lang, "start": dt(i.Start_date), "end": dt(i.End_date), "version": i.Version, "email": ms(i.Contact_email), "curl": us(i.Contact_url)}
		for k, v := range f.FeedInfosAddFlds {
			if v[i] != "" {
				m["+"+k] = v[i]
			}
		}
		s.Infos = append(s.Infos, m)
	}
	_ = stray
	sortMs(s.Transfers)
	sortMs(s.Attribs)
	sortMs(s.Infos)
	for _, l := range s.Freqs {
		sortMs(l)
	}
	for _, l := range s.FareRules {
		sortMs(l)
	}
	sort.Strings(s.Problems)
	return s
}

func sortMs(l []M) {
	if len(l) < 2 {
		return
	}
	type kx struct {
		k string
		m M
	}
	t := make([]kx, len(l))
	for i, m := range l {
		t[i] = kx{m.key(), m}
	}
	sort.SliceStable(t, func(i, j int) bool { return t[i].k < t[j].k })
	for i := range t {
		l[i] = t[i].m
	}
}

// dayNum counts days with plain proleptic Gregorian arithmetic (no time zones involved).
func dayNum(y, m, d int) int {
	if m <= 2 {
		y--
		m += 12
	}
	return 365*y + y/4 - y/100 + y/400 + (153*(m-3)+2)/5 + d - 1
}

func numDay(n int) (int, int, int) {
	y := n / 365
	for dayNum(y, 3, 1) > n {
		y--
	}
	r := n - dayNum(y, 3, 1)
	mp := (5*r + 2) / 153
	d := r - (153*mp+2)/5 + 1
	m := mp + 3
	if m > 12 {
		return y + 1, m - 12, d
	}
	return y, m, d
}

func ymd(n int) string { y, m, d := numDay(n); return fmt.Sprintf("%04d%02d%02d", y, m, d) }

func unymd(s string) int {
	y, _ := strconv.Atoi(s[:4])
	m, _ := strconv.Atoi(s[4:6])
	d, _ := strconv.Atoi(s[6:8])
	return dayNum(y, m, d)
}

// weekday: 0 = Sunday
func weekday(n int) int { return (n + 3) % 7 }

func snapSvc(a *gtfs.Service) *Svc {
	r := &Svc{Daymap: a.RawDaymap(), Start: dt(a.Start_date()), End: dt(a.End_date()), Exc: map[string]bool{}}
	act := map[int]bool{}
	if !a.Start_date().IsEmpty() && !a.End_date().IsEmpty() {
		from, to := unymd(r.Start), unymd(r.End)
		for n := from; n <= to && n-from < 4000; n++ {
			if a.Daymap(weekday(n)) {
				act[n] = true
			}
		}
	}
	for d, t := range a.Exceptions() {
		r.Exc[dt(d)] = t
		n := unymd(dt(d))
		if t {
			act[n] = true
		} else {
			delete(act, n)
		}
	}
	for n := range act {
		r.Active = append(r.Active, ymd(n))
	}
	sort.Strings(r.Active)
	return r
}

// Canon renders the whole snapshot (for state identity and exact comparison).
func (s *Snap) Canon() string {
	var l []string
	put := func(kind string, ms map[string]M) {
		for id, m := range ms {
			l = append(l, kind+" "+id+" "+m.key())
		}
	}
	put("agency", s.Agencies)
	put("stop", s.Stops)
	put("route", s.Routes)
	put("trip", s.Trips)
	put("fare", s.Fares)
	put("level", s.Levels)
	put("pathway", s.Pathways)
	puts := func(kind string, ms map[string][]M) {
		for id, ml := range ms {
			for i, m := range ml {
				l = append(l, fmt.Sprintf("%s %s %d %s", kind, id, i, m.key()))
			}
		}
	}
	puts("st", s.StopTimes)
	puts("freq", s.Freqs)
	puts("rule", s.FareRules)
	for id, v := range s.Services {
		var e []string
		for d, t := range v.Exc {
			e = append(e, d+bo(t))
		}
		sort.Strings(e)
		l = append(l, fmt.Sprintf("service %s %d %s %s %v", id, v.Daymap, v.Start, v.End, e))
	}
	for id, v := range s.Shapes {
		l = append(l, fmt.Sprintf("shape %s %v", id, v))
	}
	for _, m := range s.Transfers {
		l = append(l, "transfer "+m.key())
	}
	for _, m := range s.Attribs {
		l = append(l, "attrib "+m.key())
	}
	for _, m := range s.Infos {
		l = append(l, "info "+m.key())
	}
	sort.Strings(l)
	return strings.Join(l, "\n")
}

// diff lists lines only in a ("-") or only in b ("+").
func diff(a, b string) string {
	ca := map[string]int{}
	for _, x := range strings.Split(a, "\n") {
		ca[x]++
	}
	for _, x := range strings.Split(b, "\n") {
		ca[x]--
	}
	var l []string
	for k, v := range ca {
		for ; v > 0; v-- {
			l = append(l, "- "+k)
		}
		for ; v < 0; v++ {
			l = append(l, "+ "+k)
		}
	}
	sort.Slice(l, func(i, j int) bool {
		if l[i][2:] != l[j][2:] {
			return l[i][2:] < l[j][2:]
		}
		return l[i] > l[j]
	})
	if len(l) > 12 {
		l = append(l[:12], "...")
	}
	return strings.Join(l, "\n")
}
