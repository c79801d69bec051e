package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/patrickbr/gtfsparser"
	"github.com/patrickbr/gtfstidy/processors"
	"github.com/patrickbr/gtfstidy/verifsched"
)

// Scn is one scenario: an input feed and the processors run on it under a given environment.
type Scn struct {
	Name   string   `json:"name"`
	T      T        `json:"feed"`
	Ops    []string `json:"ops,omitempty"`
	Par    int      `json:"parallelism,omitempty"`
	Fine   bool     `json:"fine,omitempty"`
	Maps   bool     `json:"maps,omitempty"`
	Prefix []int    `json:"choices,omitempty"`
	Args   []string `json:"args,omitempty"` // command line scenarios
	Extra  []T      `json:"more_feeds,omitempty"`
	MFill  int      `json:"map_start,omitempty"`     // where map iterations start
	SFill  int      `json:"schedule_rule,omitempty"` // which thread goes on
}

// Exec is one finished execution.
type Exec struct {
	Scn  *Scn
	In   *Snap
	Out  *Snap
	Feed *gtfsparser.Feed
	Res  *verifsched.Result
	Late string // a goroutine changed the feed after its step had returned
	// data races (race detector builds only)
	Races int
}

type violation struct {
	Property string `json:"property"`
	Index    int    `json:"index"`
	Scenario Scn    `json:"scenario"`
	Message  string `json:"message"`
	Known    string `json:"known,omitempty"`
	Repro    string `json:"reproduced"`
}

type known struct {
	Property string `json:"property"`
	Status   string `json:"status"` // "open" or "fixed"
	Scenario string `json:"scenario,omitempty"`
	Message  string `json:"message,omitempty"`
	What     string `json:"what"`
	Commit   string `json:"commit,omitempty"`
	re, mre  *regexp.Regexp
}

// stats is what one worker reports.
type stats struct {
	Scenarios, Execs, Compared, Choices, Sched, Diverged, Truncated, Capped int
	Exhaustive                                                              bool
	Hashes                                                                  []uint64
	OutHashes                                                               []uint64
	Samples                                                                 []string
	Families, Rows                                                          map[string]int // scenarios per family; largest number of rows per table
	Violations                                                              []violation
	MaxDepth                                                                int
	Rejected                                                                int
	Infra                                                                   string
}

// Ctx drives one check in one worker.
type Ctx struct {
	Prop     string
	Tier     string
	Seed     int
	shard    int
	shards   int
	idx      int
	deadline time.Time
	st       stats
	seen     map[uint64]bool
	outs     map[uint64]bool
	known    []known
	logf     string
	stop     bool
	replay   *Scn
	replayed string
	current  string
	curStart time.Time
	mu       sync.Mutex
	only     string
	verbose  bool
	twins    map[string]int
	skipped  int
	pools    map[string]*pool
	harvest  func(Scn) // hand scenarios over instead of running them
}

func (c *Ctx) Quick() bool { return c.Tier != "thorough" }

// Pick returns a in the quick tier and b in the thorough one.
func (c *Ctx) Pick(a, b int) int {
	if c.Quick() {
		return a
	}
	return b
}

func h64(s string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(s))
	return h.Sum64()
}

func (c *Ctx) over() bool {
	if c.stop {
		return true
	}
	if time.Now().After(c.deadline) {
		c.st.Exhaustive = false
		c.stop = true
		return true
	}
	return false
}

// Mine advances the scenario counter and tells whether this worker runs the scenario. Call it
// before building an expensive scenario; Run and Explore do not call it.
func (c *Ctx) Mine(name string) bool {
	i := c.idx
	c.idx++
	if c.stop {
		return false
	}
	if c.replay != nil {
		return true
	}
	if c.only != "" && !strings.Contains(name, c.only) {
		return false
	}
	if i%c.shards != c.shard {
		return false
	}
	return !c.over()
}

func makeProc(op string) processors.Processor {
	if strings.HasPrefix(op, "geo:") {
		return geoProc(op)
	}
	if strings.HasPrefix(op, "id:") { // id:BASE:KEEPMASK:PREFIX
		a := strings.SplitN(op, ":", 4)
		b, _ := strconv.Atoi(a[1])
		m, _ := strconv.Atoi(a[2])
		on := func(i uint) bool { return m&(1<<i) != 0 }
		return processors.IDMinimizer{Prefix: a[3], Base: b, KeepStations: on(0), KeepBlocks: on(1), KeepTrips: on(2), KeepRoutes: on(3), KeepFares: on(4), KeepShapes: on(5), KeepLevels: on(6), KeepServices: on(7), KeepAgencies: on(8), KeepPathways: on(9), KeepAttributions: on(10)}
	}
	p, ok := procs[op]
	if !ok {
		panic("unknown op " + op)
	}
	return p()
}

type loadErr struct{ error }

// Do executes a scenario once.
func Do(s *Scn) (*Exec, error) {
	f, err := s.T.Load()
	if err != nil {
		return nil, loadErr{err}
	}
	for _, ex := range s.Extra {
		d := filepath.Join(scratchDir, "in2")
		ex.Write(d)
		if err := f.PrefixParse(d, "9#"); err != nil {
			return nil, loadErr{err}
		}
	}
	e := &Exec{Scn: s, In: TakeSnap(f), Feed: f}
	races := verifsched.Races()
	verifsched.Procs = s.Par
	if s.Par == 0 {
		verifsched.Procs = 2
	}
	e.Res = verifsched.Execute(func() {
		for _, op := range s.Ops {
			makeProc(op).Run(f)
			if n := verifsched.Running(); n > 0 && e.Late == "" {
				// what they still do must not matter
				var a, b *Snap
				verifsched.Quietly(func() { a = TakeSnap(f) })
				verifsched.Drain()
				verifsched.Quietly(func() { b = TakeSnap(f) })
				if a.Canon() != b.Canon() {
					e.Late = fmt.Sprintf("%d of %d goroutines still changed the feed when %s had returned", n, verifsched.Spawned(), op)
				}
			}
		}
	}, verifsched.Options{Prefix: s.Prefix, Fine: s.Fine, Maps: s.Maps, MapFill: s.MFill, SchedFill: s.SFill})
	e.Races = verifsched.Races() - races
	if e.Res.Crash == "" && !e.Res.Deadlock {
		e.Out = TakeSnap(f)
	}
	return e, nil
}

// Generic judges what every execution must satisfy, then asks the oracle.
func judge(e *Exec, oracle func(*Exec) string) string {
	switch {
	case e.Res.Crash != "":
		return "crash: " + e.Res.Crash + " at " + where(e.Res.CrashStack)
	case e.Res.Deadlock:
		return "deadlock: no goroutine can go on"
	case e.Late != "":
		return e.Late
	}
	if e.Races > 0 {
		return "data race" + raceReport()
	}
	if oracle == nil {
		return ""
	}
	return oracle(e)
}

// raceReport describes the last data race.
func raceReport() string {
	fs, _ := filepath.Glob(os.Getenv("VERIF_RACELOG") + ".*")
	for _, f := range fs {
		b, err := os.ReadFile(f)
		if err != nil {
			continue
		}
		x := string(b)
		if i := strings.LastIndex(x, "WARNING: DATA RACE"); i >= 0 {
			x = x[i:]
		}
		var l []string
		for _, y := range strings.Split(x, "\n") {
			if strings.Contains(y, "/processors/") {
				y = strings.TrimSpace(y)
				if i := strings.LastIndex(y, "/"); i >= 0 {
					y = y[i+1:]
				}
				if i := strings.Index(y, " "); i >= 0 {
					y = y[:i]
				}
				l = append(l, y)
			}
		}
		if len(l) > 4 {
			l = l[:4]
		}
		return " (" + strings.Join(l, ", ") + ")\n" + x
	}
	return ""
}

func where(st string) string {
	for _, l := range strings.Split(st, "\n") {
		if i := strings.Index(l, "/processors/"); i >= 0 && strings.Contains(l, ".go:") {
			l = l[i+len("/processors/"):]
			if j := strings.Index(l, " "); j > 0 {
				l = l[:j]
			}
			if j := strings.Index(l, ":"); j > 0 {
				l = l[:j]
			}
			return l
		}
	}
	return "?"
}

func (c *Ctx) begin(s *Scn) {
	c.mu.Lock()
	c.current = s.Name
	c.curStart = time.Now()
	c.mu.Unlock()
	if c.logf != "" {
		b, _ := json.Marshal(s)
		os.WriteFile(c.logf, b, 0o644)
	}
}

func (c *Ctx) end() {
	c.mu.Lock()
	c.current = ""
	c.mu.Unlock()
}

func (c *Ctx) note(s *Scn, e *Exec) {
	c.st.Execs++
	if e.Out != nil {
		o := h64(e.Out.Canon())
		if !c.outs[o] {
			c.outs[o] = true
			c.st.OutHashes = append(c.st.OutHashes, o)
		}
		if !c.seen[o] {
			c.seen[o] = true
			c.st.Hashes = append(c.st.Hashes, o)
		}
	}
	n := len(e.Res.Points)
	c.st.Choices += n
	if n > c.st.MaxDepth {
		c.st.MaxDepth = n
	}
	if e.Res.Diverged {
		c.st.Diverged++
	}
	if e.Res.Truncated {
		c.st.Truncated++
	}
}

func family(name string) string {
	if i := strings.IndexAny(name, " /"); i > 0 {
		return name[:i]
	}
	return name
}

func (c *Ctx) scenario(s *Scn) {
	c.st.Scenarios++
	c.st.Families[family(s.Name)]++
	for k, l := range s.T {
		if len(l) > c.st.Rows[k] {
			if c.st.Rows == nil {
				c.st.Rows = map[string]int{}
			}
			c.st.Rows[k] = len(l)
		}
	}
	h := h64(s.T.Text() + strings.Join(s.Ops, ",") + strings.Join(s.Args, " "))
	if !c.seen[h] {
		c.seen[h] = true
		c.st.Hashes = append(c.st.Hashes, h)
	}
	if len(c.st.Samples) < 2 || (c.st.Scenarios%997 == 0 && len(c.st.Samples) < 4) {
		x := s.Name + " ops=" + strings.Join(s.Ops, ",") + strings.Join(s.Args, " ") + "\n" + s.T.Text()
		if len(x) > 3000 {
			x = x[:3000] + "..."
		}
		c.st.Samples = append(c.st.Samples, x)
	}
}

// Run executes a scenario in the default environment and checks it.
func (c *Ctx) Run(s Scn, oracle func(*Exec) string) *Exec {
	if c.harvest != nil {
		c.harvest(s)
		return nil
	}
	if c.over() {
		return nil
	}
	c.union(&s, oracle)
	if c.replay != nil {
		if "cli "+s.Name == c.replay.Name {
			c.twin(&s, oracle)
			return nil
		}
		if s.Name != c.replay.Name {
			return nil
		}
		s.Prefix, s.Fine, s.Maps, s.Par, s.MFill, s.SFill = c.replay.Prefix, c.replay.Fine, c.replay.Maps, c.replay.Par, c.replay.MFill, c.replay.SFill
	}
	c.scenario(&s)
	e := c.run1(&s, oracle)
	if e != nil && e.Out != nil && c.replay == nil {
		c.twin(&s, oracle)
	}
	return e
}

func (c *Ctx) run1(s *Scn, oracle func(*Exec) string) *Exec {
	c.begin(s)
	defer c.end()
	e, err := Do(s)
	if err != nil {
		c.st.Rejected++
		if c.verbose || c.st.Infra == "" {
			c.st.Infra = "scenario " + s.Name + " is not a valid feed: " + err.Error()
		}
		return nil
	}
	c.note(s, e)
	if os.Getenv("VERIF_DUMP") != "" && e.Out != nil {
		fmt.Fprintf(os.Stderr, "races %d par %d spawned %d\n%s\n", e.Races, s.Par, e.Res.Spawned, e.Out.Canon())
	}
	m := judge(e, oracle)
	if c.replay != nil {
		c.replayed = m
		if m == "" {
			c.replayed = "holds"
		}
		fmt.Fprintf(os.Stderr, "--- before\n%s\n--- after\n", e.In.Canon())
		if e.Out != nil {
			fmt.Fprintln(os.Stderr, e.Out.Canon())
		}
		return e
	}
	c.st.Compared++
	if m != "" {
		n := 0
		for i := 0; i < 5; i++ {
			if e2, err := Do(s); err == nil && judge(e2, oracle) != "" {
				n++
			}
		}
		c.report(s, m, n)
	}
	return e
}

func (c *Ctx) report(s *Scn, m string, again int) {
	if again == 0 {
		c.st.Diverged++ // not reproducible: not believed
		if c.verbose {
			fmt.Fprintf(os.Stderr, "UNREPEATABLE %s: %s\n", s.Name, m)
		}
		return
	}
	v := violation{Property: c.Prop, Index: c.idx, Scenario: *s, Message: m, Repro: fmt.Sprintf("%d/5", again)}
	for _, k := range c.known {
		if k.Property == c.Prop && k.Status == "open" && (k.re == nil || k.re.MatchString(s.Name)) && (k.mre == nil || k.mre.MatchString(m)) {
			v.Known = k.What
		}
	}
	c.st.Violations = append(c.st.Violations, v)
	if v.Known == "" {
		if c.verbose {
			fmt.Fprintf(os.Stderr, "VIOL %s: %s\n", s.Name, m)
		}
		nv := 0
		for _, w := range c.st.Violations {
			if w.Known == "" {
				nv++
			}
		}
		if !c.verbose || nv > 200 {
			c.stop = true
		}
	}
}

// Fail reports a violation found by other means than run1 (e.g. command line runs).
func (c *Ctx) Fail(s Scn, m string, again int) {
	if c.replay != nil {
		c.replayed = m
		return
	}
	c.report(&s, m, again)
}

// Count records a scenario that was executed outside of Do.
func (c *Ctx) Count(s *Scn, outcome string) {
	c.scenario(s)
	c.st.Execs++
	c.st.Compared++
	o := h64(outcome)
	if !c.seen[o] {
		c.seen[o] = true
		c.st.Hashes = append(c.st.Hashes, o)
	}
	if !c.outs[o] {
		c.outs[o] = true
		c.st.OutHashes = append(c.st.OutHashes, o)
	}
}

// Explore runs every execution of the scenario with at most bound deviations from the default
// schedule / map order (at most max executions; the cap is reported).
func (c *Ctx) Explore(s Scn, bound, max int, oracle func(*Exec) string) {
	if c.harvest != nil {
		c.harvest(s)
		return
	}
	if c.over() {
		return
	}
	if c.replay != nil {
		c.Run(s, oracle)
		return
	}
	c.scenario(&s)
	c.union(&s, oracle)
	n := 0
	type item struct {
		prefix []int
		dev    int
	}
	// breadth first: fewest deviations first
	q := []item{{nil, 0}}
	for len(q) > 0 && !c.over() {
		x := q[0]
		q = q[1:]
		if n >= max {
			c.st.Capped++
			break
		}
		n++
		s2 := s
		s2.Prefix = x.prefix
		e := c.run1(&s2, oracle)
		if e == nil || e.Res.Diverged {
			continue
		}
		if n == 1 { // replay determinism
			e2, err := Do(&s2)
			if err != nil || len(e2.Res.Points) != len(e.Res.Points) {
				// the code hashes memory addresses: all executions are real ones, but a choice sequence
				// need not lead to the same one again
				c.st.Diverged++
			}
		}
		if x.dev >= bound {
			continue
		}
		base := make([]int, len(e.Res.Points))
		for i, p := range e.Res.Points {
			base[i] = p.Choice
		}
		for i := len(x.prefix); i < len(e.Res.Points); i++ {
			for alt := 1; alt < e.Res.Points[i].N; alt++ {
				p := append(append(make([]int, 0, i+1), base[:i]...), alt)
				q = append(q, item{p, x.dev + 1})
			}
		}
	}
	c.st.Sched += n
}

var checks = map[string]func(*Ctx){}

func main() {
	prop := flag.String("prop", "", "property id")
	tier := flag.String("tier", "quick", "quick or thorough")
	shard := flag.Int("shard", -1, "internal")
	shards := flag.Int("shards", 0, "internal")
	res := flag.String("res", "", "internal")
	logf := flag.String("log", "", "internal")
	verif := flag.String("verif", "/verif", "verif directory")
	mode := flag.String("mode", "", "controlled or free")
	limit := flag.Int("limit", 0, "seconds")
	replay := flag.String("replay", "", "replay a violation artefact")
	only := flag.String("only", "", "only scenarios whose name contains this")
	verbose := flag.Bool("v", false, "report all violations")
	dline := flag.Int64("deadline", 0, "internal")
	flag.Parse()

	fn, ok := checks[*prop]
	if *replay != "" {
		b, err := os.ReadFile(*replay)
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		var v violation
		if err := json.Unmarshal(b, &v); err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		*prop = v.Property
		fn, ok = checks[*prop]
		c := &Ctx{Prop: *prop, Tier: *tier, shards: 1, deadline: time.Now().Add(time.Hour), seen: map[uint64]bool{}, outs: map[uint64]bool{}, replay: &v.Scenario}
		c.st.Families = map[string]int{}
		setupScratch()
		stdout := os.Stdout
		quiet()
		fn(c)
		cleanup()
		if c.replayed == "" {
			fmt.Fprintln(stdout, "scenario not found in this tier:", v.Scenario.Name)
			os.Exit(2)
		}
		fmt.Fprintln(stdout, "replay of", v.Scenario.Name+":", c.replayed)
		if c.replayed != "holds" {
			os.Exit(1)
		}
		return
	}
	if !ok {
		fmt.Println("unknown property", *prop)
		os.Exit(2)
	}
	if *limit == 0 {
		*limit = 300
		if *tier == "thorough" {
			*limit = 780
		}
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	kn := loadKnown(filepath.Join(*verif, "known_findings.txt"))

	if *shard >= 0 {
		c := &Ctx{Prop: *prop, Tier: *tier, Seed: seed, shard: *shard, shards: *shards, deadline: time.Unix(*dline, 0), seen: map[uint64]bool{}, outs: map[uint64]bool{}, known: kn, logf: *logf, only: *only, verbose: *verbose}
		c.st.Exhaustive = true
		c.st.Families = map[string]int{}
		setupScratch()
		quiet()
		go c.watch(*res)
		runtime.GOMAXPROCS(2)
		fn(c)
		c.flush(*res)
		cleanup()
		return
	}
	parent(*prop, *tier, seed, *limit, *verif, *mode, *only, *verbose, kn)
}

func (c *Ctx) flush(res string) {
	b, err := json.Marshal(c.st)
	if err == nil {
		err = os.WriteFile(res, b, 0o644)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(4)
	}
}

// watch kills a worker whose current execution does not end; the parent then looks into it.
func (c *Ctx) watch(res string) {
	for {
		time.Sleep(2 * time.Second)
		c.mu.Lock()
		hang := c.current != "" && time.Since(c.curStart) > 100*time.Second
		c.mu.Unlock()
		if hang {
			fmt.Fprintln(os.Stderr, "worker: execution does not end:", c.current)
			os.Exit(7)
		}
	}
}

func setupScratch() {
	base := "/dev/shm"
	if st, err := os.Stat(base); err != nil || !st.IsDir() {
		base = os.TempDir()
	}
	d, err := os.MkdirTemp(base, "verifmc")
	if err != nil {
		d, err = os.MkdirTemp("", "verifmc")
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(4)
	}
	scratchDir = d
}

func cleanup() {
	if scratchDir != "" && strings.Contains(scratchDir, "verifmc") {
		os.RemoveAll(scratchDir)
	}
}

func quiet() {
	if n, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		os.Stdout = n
	}
}

func loadKnown(p string) []known {
	b, err := os.ReadFile(p)
	if err != nil {
		return nil
	}
	var l []known
	for _, x := range strings.Split(string(b), "\n") {
		if strings.TrimSpace(x) == "" {
			continue
		}
		var k known
		if json.Unmarshal([]byte(x), &k) != nil {
			continue
		}
		if k.Scenario != "" {
			k.re = regexp.MustCompile(k.Scenario)
		}
		if k.Message != "" {
			k.mre = regexp.MustCompile(k.Message)
		}
		l = append(l, k)
	}
	return l
}

func parent(prop, tier string, seed, limit int, verif, mode, only string, verbose bool, kn []known) {
	start := time.Now()
	n := runtime.NumCPU()
	if n > 8 {
		n = 8
	}
	self, _ := os.Executable()
	tmp, err := os.MkdirTemp("", "verifpar")
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	defer os.RemoveAll(tmp)
	type wres struct {
		i   int
		err error
		out string
	}
	dl := start.Add(time.Duration(limit) * time.Second).Unix()
	launch := func(i int, logf string) *exec.Cmd {
		a := []string{"-prop", prop, "-tier", tier, "-shard", strconv.Itoa(i), "-shards", strconv.Itoa(n), "-res", filepath.Join(tmp, fmt.Sprintf("r%d.json", i)),
			"-verif", verif, "-deadline", strconv.FormatInt(dl, 10), "-only", only}
		if verbose {
			a = append(a, "-v")
		}
		if logf != "" {
			a = append(a, "-log", logf)
		}
		c := exec.Command(self, a...)
		return c
	}
	ch := make(chan wres, n)
	for i := 0; i < n; i++ {
		go func(i int) {
			var sb limited
			c := launch(i, "")
			c.Stderr = &sb
			err := c.Run()
			ch <- wres{i, err, sb.String()}
		}(i)
	}
	var all stats
	all.Exhaustive = true
	all.Families, all.Rows = map[string]int{}, map[string]int{}
	hs, os2 := map[uint64]bool{}, map[uint64]bool{}
	var viols []violation
	for k := 0; k < n; k++ {
		w := <-ch
		if verbose && w.out != "" {
			fmt.Fprint(os.Stderr, w.out)
		}
		rf := filepath.Join(tmp, fmt.Sprintf("r%d.json", w.i))
		if w.err != nil {
			// the worker died: find out in which scenario
			lf := filepath.Join(tmp, fmt.Sprintf("log%d", w.i))
			var sb limited
			c := launch(w.i, lf)
			c.Stderr = &sb
			err2 := c.Run()
			if err2 == nil {
				fmt.Fprintf(os.Stderr, "worker %d died once (%v) but not when repeated\n%s\n", w.i, w.err, w.out)
				all.Diverged++
			} else {
				v := violation{Property: prop, Message: "the process dies or hangs: " + firstLine(sb.String()), Repro: "1/1"}
				if b, err := os.ReadFile(lf); err == nil {
					json.Unmarshal(b, &v.Scenario)
				}
				for _, k := range kn {
					if k.Property == prop && k.Status == "open" && (k.re == nil || k.re.MatchString(v.Scenario.Name)) && (k.mre == nil || k.mre.MatchString(v.Message)) {
						v.Known = k.What
					}
				}
				viols = append(viols, v)
				all.Exhaustive = false
				continue
			}
		}
		b, err := os.ReadFile(rf)
		var s stats
		if err != nil || json.Unmarshal(b, &s) != nil {
			fmt.Fprintf(os.Stderr, "no result of worker %d: %v\n%s\n", w.i, err, w.out)
			os.RemoveAll(tmp)
			os.Exit(2)
		}
		all.Scenarios += s.Scenarios
		all.Execs += s.Execs
		all.Compared += s.Compared
		all.Choices += s.Choices
		all.Sched += s.Sched
		all.Diverged += s.Diverged
		all.Truncated += s.Truncated
		all.Capped += s.Capped
		all.Rejected += s.Rejected
		if s.Infra != "" {
			all.Infra = s.Infra
		}
		if s.MaxDepth > all.MaxDepth {
			all.MaxDepth = s.MaxDepth
		}
		if !s.Exhaustive {
			all.Exhaustive = false
		}
		for _, h := range s.Hashes {
			hs[h] = true
		}
		for _, h := range s.OutHashes {
			os2[h] = true
		}
		for f, x := range s.Families {
			all.Families[f] += x
		}
		for k, x := range s.Rows {
			all.Rows[k] = imx(all.Rows[k], x)
		}
		if len(all.Samples) < 6 {
			all.Samples = append(all.Samples, s.Samples...)
		}
		viols = append(viols, s.Violations...)
	}
	if len(all.Samples) > 6 {
		all.Samples = all.Samples[:6]
	}
	if all.Capped > 0 {
		all.Exhaustive = false
	}
	sort.SliceStable(viols, func(i, j int) bool { return viols[i].Index < viols[j].Index })
	var fresh []violation
	kf := map[string]int{}
	for _, v := range viols {
		if v.Known != "" {
			kf[v.Known]++
		} else {
			fresh = append(fresh, v)
		}
	}
	if len(fresh) > 0 {
		all.Exhaustive = false
	}
	ev := map[string]interface{}{
		"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "wall_s": time.Since(start).Seconds(), "violations": len(fresh),
		"coverage": map[string]interface{}{
			"states": len(hs), "transitions": all.Execs, "traces_validated_against_impl": all.Compared, "samples": all.Samples, "exhaustive": all.Exhaustive,
			"scenarios": all.Scenarios, "schedule_explorations_executions": all.Sched, "choice_points": all.Choices, "longest_choice_sequence": all.MaxDepth,
			"distinct_outcomes": len(os2), "scenarios_per_family": all.Families, "largest_tables": all.Rows, "executions_not_repeatable": all.Diverged, "capped_explorations": all.Capped,
			"truncated_executions": all.Truncated, "rejected_inputs": all.Rejected, "goroutine_control": mode, "known_findings_hit": kf,
		},
		"assumptions": []string{"the feed loader and writer of the gtfsparser/gtfswriter modules (outside this repository) are trusted", "values outside the enumerated alphabets are not covered",
			"goroutines are switched at channel, lock, wait-group, loop and map-iteration operations; finer data races are left to the race detector run of C22"},
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(verif, "evidence", prop+".json"), b, 0o644); err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	var ks []string
	for k := range kf {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k)
	}
	fmt.Printf("%s %s: %d scenarios, %d executions, %d distinct states, %d distinct outcomes, %d choice points, exhaustive=%v, rejected=%d diverged=%d, %.1fs\n", prop, tier, all.Scenarios, all.Execs, len(hs), len(os2), all.Choices, all.Exhaustive, all.Rejected, all.Diverged, time.Since(start).Seconds())
	var fs []string
	for f, x := range all.Families {
		fs = append(fs, fmt.Sprintf("%s:%d", f, x))
	}
	sort.Strings(fs)
	fmt.Println("families:", strings.Join(fs, " "))
	if all.Infra != "" {
		fmt.Println("note:", all.Infra)
	}
	if verbose {
		cl := map[string]int{}
		ex := map[string]string{}
		for _, v := range fresh {
			m := firstLine(v.Message)
			cl[m]++
			if ex[m] == "" {
				ex[m] = v.Scenario.Name
			}
		}
		var cls []string
		for m, x := range cl {
			cls = append(cls, fmt.Sprintf("%5d %s   [%s]", x, m, ex[m]))
		}
		sort.Strings(cls)
		if len(cls) > 40 {
			cls = cls[:40]
		}
		fmt.Println(strings.Join(cls, "\n"))
	}
	if len(fresh) > 0 {
		v := fresh[0]
		d := filepath.Join(verif, "evidence", "replay")
		os.MkdirAll(d, 0o755)
		p := filepath.Join(d, prop+"-"+tier+".json")
		b, _ := json.MarshalIndent(v, "", " ")
		os.WriteFile(p, b, 0o644)
		fd := filepath.Join(d, prop+"-"+tier+"-feed")
		if v.Scenario.T != nil {
			v.Scenario.T.Write(fd)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, p)
		fmt.Printf("scenario: %s (ops %s, parallelism %d, choices %v, reproduced %s)\n%s\n", v.Scenario.Name, strings.Join(v.Scenario.Ops, ","), v.Scenario.Par, v.Scenario.Prefix, v.Repro, v.Message)
		os.RemoveAll(tmp)
		os.Exit(1)
	}
}

func firstLine(s string) string {
	for _, l := range strings.Split(s, "\n") {
		if strings.TrimSpace(l) != "" {
			return l
		}
	}
	return s
}

type limited struct {
	mu sync.Mutex
	b  []byte
}

func (l *limited) Write(p []byte) (int, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	if len(l.b) < 200000 {
		l.b = append(l.b, p...)
	}
	return len(p), nil
}
func (l *limited) String() string { return string(l.b) }
