package main

import (
	"os"
	"strconv"
	"strings"

	"github.com/patrickbr/gtfstidy/verifsched"
	"github.com/patrickbr/gtfswriter"
)

// twinFlags: how the command line tool is told to do just these operations.
var twinFlags = map[string]string{
	"toofast": "--drop-too-fast-trips", "O": "-O", "A": "-A", "avg": "--fix-far-away-parents", "P": "-P", "Pf": "-P --red-stops-fuzzy",
	"E": "-E", "plat,P": "--drop-platform-for-parentless", "m": "-m", "m,s": "-s", "mf,r": "-r", "snap": "--snap-stops", "m,S": "-S", "R": "-R", "C": "-C",
	"group": "--group-adj-stop-times", "c": "-c", "I": "-I", "Ia": "-I --red-trips-aggressive", "If": "-I --red-trips-fuzzy",
	"Ifa": "-I --red-trips-fuzzy --red-trips-aggressive", "nonov": "--non-overlapping-services", "T": "-T",
	"T600": "-T --min-headway=120 --max-headway=600", "nocd": "--remove-cal-dates", "parents": "--ensure-stop-parents", "i": "-i", "d": "-d",
}

// before: operations that the tool always does before another one; they are done to the input.
var before = map[string]string{"s": "m", "r": "mf", "S": "m"}

// twin runs some of the scenarios through the command line tool as well: it has to configure the
// operation as it should be and write what the operation made of the feed. The same oracle decides.
func (c *Ctx) twin(s *Scn, oracle func(*Exec) string) {
	if os.Getenv("VERIF_GTFSTIDY") == "" || oracle == nil || len(s.Extra) > 0 || len(s.Ops) == 0 || c.Prop == "C01" || c.Prop == "C02" || c.Prop > "C21" {
		return
	}
	op := strings.Join(s.Ops, ",")
	pre := ""
	flags, ok := twinFlags[op]
	if strings.HasPrefix(op, "id:") && strings.HasSuffix(op, ":") && len(s.Ops) == 1 {
		a := strings.Split(op, ":")
		m, _ := strconv.Atoi(a[2])
		flags, ok = map[string]string{"10": "-i", "36": "-d"}[a[1]], true
		for i, k := range []string{"stop", "block", "trip", "route", "fare", "shape", "level", "service", "agency", "pathway", "attrib"} {
			if m&(1<<uint(i)) != 0 {
				flags += " " + keepFlag[k]
			}
		}
	}
	if strings.HasPrefix(op, "geo:") && len(s.Ops) == 1 {
		flags, ok = "--complete-filtered-trips", true
		for _, p := range strings.Split(op[4:], ";") {
			a := strings.Split(p, ",")
			for i := 0; i+1 < len(a); i += 2 { // latitudes first
				a[i], a[i+1] = a[i+1], a[i]
			}
			flags += " --polygon=" + strings.Join(a, ",")
		}
		op = "geo"
	}
	if !ok && before[op] != "" {
		pre = before[op]
		flags, ok = twinFlags[pre+","+op]
	}
	if !ok {
		return
	}
	if c.replay == nil {
		fam := family(s.Name) + " " + op
		if c.Prop == "C10" {
			fam = family(s.Name)
		}
		if c.twins == nil {
			c.twins = map[string]int{}
		}
		n := c.twins[fam]
		c.twins[fam]++
		k := uint64(4)
		if n > 4000 {
			k = 2000
		} else if n > 400 {
			k = 200
		} else if n > 20 {
			k = 30
		}
		if !c.Quick() {
			k = 1 + k/4
		}
		if h64(s.Name)%k != 0 {
			return
		}
	}
	t := s.T
	if pre != "" {
		x, err := Do(&Scn{T: s.T, Ops: []string{pre, pre}})
		if err != nil || x.Out == nil || written(x.Feed) != "" {
			return
		}
		if t, err = ReadTables(sub("w")); err != nil {
			return
		}
		x, err = Do(&Scn{T: t, Ops: []string{pre}})
		if err != nil || x.Out == nil || x.Out.Canon() != x.In.Canon() {
			return // it has to do nothing any more
		}
	}
	args := append(strings.Fields(flags), "-F")
	y := Scn{Name: "cli " + s.Name, T: t, Ops: s.Ops, Args: args}
	c.cliCheck(y, func() (string, string) {
		f, err := t.Load()
		if err != nil {
			return "", ""
		}
		in := TakeSnap(f)
		r := cliRun([]T{t}, args...)
		if m := r.ok(); m != "" {
			if x, err := Do(&Scn{T: t, Ops: s.Ops}); err == nil && x.Out != nil && written(x.Feed) != "" {
				return "", "" // the same without the tool; C01 looks at this
			}
			return "", m
		}
		g, err := parseDir(sub("out"), true)
		if err != nil {
			return "", ""
		}
		m := oracle(&Exec{Scn: s, In: in, Out: r.Snap, Feed: g, Res: &verifsched.Result{}})
		if m == "" {
			return r.Snap.Canon(), ""
		}
		// writing and reading itself may matter
		x, err := Do(&Scn{T: t, Ops: s.Ops, Par: s.Par})
		if err != nil || x.Out == nil {
			return "", ""
		}
		os.RemoveAll(sub("w2"))
		os.MkdirAll(sub("w2"), 0o755)
		w := gtfswriter.Writer{ZipCompressionLevel: 9, Sorted: true, DontGarbageCollect: true}
		if err := w.Write(x.Feed, sub("w2")); err != nil {
			return "", ""
		}
		g, err = parseDir(sub("w2"), true)
		if err != nil {
			return "", ""
		}
		if oracle(&Exec{Scn: s, In: in, Out: TakeSnap(g), Feed: g, Res: &verifsched.Result{}}) != "" {
			c.skipped++
			if c.verbose {
				println("twin skipped", y.Name, m)
			}
			return "", ""
		}
		return "", "the command line tool with " + strings.Join(args, " ") + ": " + m
	})
}
