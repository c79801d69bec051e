package main

import (
	"fmt"
	"reflect"
	"runtime"
	"strconv"
	"strings"
)

// pool collects scenarios of one kind which later make up a large feed.
type pool struct {
	ts   []T
	n    int // scenarios seen
	done int // feeds built
}

var unionSizes = []int{7, 25, 12, 60, 3, 40}

// unionKey tells which scenarios are judged alike: those with the same operations and oracle.
func unionKey(s *Scn, oracle func(*Exec) string) string {
	return "union " + strings.Join(s.Ops, ",") + " " + runtime.FuncForPC(reflect.ValueOf(oracle).Pointer()).Name()
}

// unionOf puts feeds that have nothing to do with each other into one; apart moves them away from each other.
func unionOf(ts []T, apart bool) T {
	u := T{}
	for i, t := range ts {
		t = t.fillAgency().renamed(func(kind, id string) string { return fmt.Sprintf("%d#%s", i, id) })
		if apart {
			for j, r := range t["stops"] {
				if x, err := strconv.ParseFloat(r.Get("stop_lon"), 64); err == nil {
					if x += 2.5 * float64(i); x > 180 {
						x -= 360
					}
					t["stops"][j] = r.With("stop_lon", f2s(x))
				}
			}
		}
		for _, f := range t.files() {
			if f == "feed_info" && len(u[f]) > 0 {
				continue
			}
			u[f] = append(u[f], t[f]...)
		}
	}
	return u
}

// union also runs feeds made of many scenarios of a check. Everything a property says about a feed has
// to hold for the parts of a feed as well. (C03: its feeds are like that already; C10: its oracle tells
// entities apart by their values.)
func (c *Ctx) union(s *Scn, oracle func(*Exec) string) {
	if c.harvest != nil || oracle == nil || c.stop || len(s.Args)+len(s.Extra)+len(s.Prefix) > 0 || len(s.Ops) == 0 || c.Prop > "C21" || c.Prop == "C03" || c.Prop == "C10" {
		return
	}
	key := unionKey(s, oracle)
	if c.replay != nil {
		if strings.HasPrefix(c.replay.Name, key+" ") && c.replayed == "" {
			x := *c.replay
			c.run1(&x, oracle)
		}
		return
	}
	rows := 0
	for _, l := range s.T {
		rows += len(l)
	}
	if rows > 250 {
		return
	}
	if c.pools == nil {
		c.pools = map[string]*pool{}
	}
	p := c.pools[key]
	if p == nil {
		p = &pool{}
		c.pools[key] = p
	}
	k := uint64(1)
	if p.n >= 64 {
		k = uint64(c.Pick(4, 2))
	}
	if p.n >= 1024 {
		k = uint64(c.Pick(16, 4))
	}
	p.n++
	if h64(s.Name)>>7%k != 0 {
		return
	}
	p.ts = append(p.ts, s.T)
	if len(p.ts) < unionSizes[p.done%len(unionSizes)] {
		return
	}
	u := Scn{Name: fmt.Sprintf("%s %d.%d", key, c.shard, p.done), T: unionOf(p.ts, c.Prop == "C18"), Ops: s.Ops, Par: 1 + p.done%9, MFill: p.done % 5 * 3, SFill: p.done % 3}
	p.done++
	p.ts = nil
	c.scenario(&u)
	c.run1(&u, oracle)
}
