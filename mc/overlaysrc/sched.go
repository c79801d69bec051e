// Package verifsched is a cooperative, choice-driven scheduler. It exists only in verification
// builds: the overlay generator adds it to the module and redirects the concurrency
// operations of the package under test to it. When no execution is active every operation
// behaves exactly like the Go construct it replaces.
package verifsched

import (
	"fmt"
	"reflect"
	"runtime"
	"runtime/debug"
	"sync"
	"time"
)

// ChoicePoint is one recorded choice point.
type ChoicePoint struct {
	Kind   byte // 's' scheduling, 'm' map iteration start
	N      int  // number of alternatives
	Choice int
}

// Result describes one complete execution.
type Result struct {
	Points     []ChoicePoint
	Spawned    int
	Unfinished int    // goroutines still not done (waiting for something that never happens) when the entry function returned
	Crash      string // panic in a goroutine or in the entry function
	CrashStack string
	InGo       bool // the panic happened in a spawned goroutine (kills the process)
	Deadlock   bool
	Diverged   bool // a recorded choice did not fit the replayed point
	Truncated  bool // too many points
}

type abortT struct{}

type thread struct {
	id    int
	wake  chan struct{}
	gone  chan struct{}
	ready func() bool // nil: runnable
	done  bool
}

type sched struct {
	threads  []*thread
	cur      *thread
	prefix   []int
	res      *Result
	aborting bool
	fine     bool
	maxPts   int
	opt      Options
	mapOn    bool
	quiet    bool // no choices
}

var s *sched

// Procs is the degree of parallelism the code under test is told about.
var Procs = 2

// GOMAXPROCS and NumCPU replace the runtime functions of the same name.
func GOMAXPROCS(n int) int {
	if n > 0 {
		o := Procs
		Procs = n
		return o
	}
	return Procs
}

func NumCPU() int { return Procs }

// Options of one execution.
type Options struct {
	Prefix []int
	Fine   bool // map iterations and loop bodies are scheduling points, too
	Maps   bool // map iteration starts are choice points (otherwise: insertion order)
	MaxPts int
	// choices beyond the prefix (modulo the number of alternatives)
	MapFill, SchedFill int
}

// Execute runs f as the entry thread of a controlled execution.
//
//go:noinline
func Execute(f func(), o Options) *Result {
	res := &Result{}
	me := &thread{id: 0, wake: make(chan struct{}, 1)}
	if o.MaxPts == 0 {
		o.MaxPts = 20000
	}
	s = &sched{threads: []*thread{me}, cur: me, prefix: o.Prefix, res: res, fine: o.Fine, maxPts: o.MaxPts, mapOn: o.Maps || o.MapFill > 0, opt: o}
	slots = nil
	runtime.VerifSetMapIter(mapIter)
	func() {
		defer func() {
			runtime.VerifSetMapIter(nil)
			if r := recover(); r != nil {
				if _, ok := r.(abortT); !ok {
					res.Crash = fmt.Sprint(r)
					res.CrashStack = string(debug.Stack())
				}
			}
		}()
		f()
	}()
	for _, t := range s.threads[1:] {
		if !t.done {
			res.Unfinished++
		}
	}
	// tear down whatever is left
	s.aborting = true
	raceDisable()
	for _, t := range s.threads[1:] {
		if !t.done {
			t.wake <- struct{}{}
		}
	}
	raceEnable()
	for _, t := range s.threads[1:] {
		<-t.gone
	}
	if len(res.Points) < len(o.Prefix) && res.Crash == "" && !res.Deadlock {
		res.Diverged = true
	}
	s = nil
	return res
}

func (s *sched) choose(kind byte, n int) int {
	if n < 2 || s.quiet {
		return 0
	}
	i := len(s.res.Points)
	if i >= s.maxPts {
		s.res.Truncated = true
		return 0
	}
	c := 0
	if i < len(s.prefix) {
		c = s.prefix[i]
		if c >= n {
			s.res.Diverged = true
			c = 0
		}
	} else if kind == 'm' {
		c = s.opt.MapFill % n
	} else {
		c = s.opt.SchedFill % n
	}
	s.res.Points = append(s.res.Points, ChoicePoint{kind, n, c})
	return c
}

func mapIter(n int) int {
	if s == nil || s.aborting {
		return 0
	}
	if s.fine {
		point()
	}
	if !s.mapOn {
		return 0
	}
	return s.choose('m', n)
}

func enabled() []*thread {
	var r []*thread
	if c := s.cur; !c.done && (c.ready == nil || c.ready()) {
		r = append(r, c)
	}
	for _, t := range s.threads {
		if t != s.cur && !t.done && (t.ready == nil || t.ready()) {
			r = append(r, t)
		}
	}
	return r
}

func switchTo(t *thread) {
	me := s.cur
	s.cur = t
	raceDisable()
	t.wake <- struct{}{}
	<-me.wake
	raceEnable()
	if s.aborting {
		panic(abortT{})
	}
}

// point is a place where another thread may be scheduled although the current one could go on.
func point() {
	if s == nil || s.aborting {
		return
	}
	if len(s.threads) == 1 || s.quiet {
		return
	}
	en := enabled()
	if len(en) < 2 {
		return
	}
	if k := s.choose('s', len(en)); k > 0 {
		switchTo(en[k])
	}
}

// Point is inserted at loop bodies.
//
//go:noinline
func Point() {
	if s != nil && s.fine {
		point()
	}
}

func block(ready func() bool) {
	if s.aborting {
		panic(abortT{})
	}
	point()
	if ready() {
		return
	}
	me := s.cur
	me.ready = ready
	en := enabled()
	if len(en) == 0 {
		s.res.Deadlock = true
		abortAll(me)
		panic(abortT{})
	}
	k := s.choose('s', len(en))
	if en[k] != me {
		switchTo(en[k])
	}
	me.ready = nil
}

// abortAll ends the execution: the entry thread is woken up to unwind.
func abortAll(me *thread) {
	s.aborting = true
	if me.id != 0 {
		raceDisable()
		s.threads[0].wake <- struct{}{}
		raceEnable()
	}
}

func finish(t *thread) {
	t.done = true
	if s.aborting {
		return
	}
	en := enabled()
	if len(en) == 0 {
		s.res.Deadlock = true
		abortAll(t)
		return
	}
	k := s.choose('s', len(en))
	s.cur = en[k]
	raceDisable()
	en[k].wake <- struct{}{}
	raceEnable()
}

// Running tells how many goroutines are not done. Called by the entry thread.
//
//go:noinline
func Running() int {
	n := 0
	if s != nil && !s.aborting {
		for _, t := range s.threads[1:] {
			if !t.done {
				n++
			}
		}
	}
	return n
}

//go:noinline
func Spawned() int {
	if s == nil {
		return 0
	}
	return s.res.Spawned
}

// Quietly runs f without any choices.
//
//go:noinline
func Quietly(f func()) {
	if s == nil {
		f()
		return
	}
	q := s.quiet
	s.quiet = true
	defer func() {
		if s != nil {
			s.quiet = q
		}
	}()
	f()
}

// Drain lets all goroutines go on until they are done or wait for something that never happens.
//
//go:noinline
func Drain() {
	if s == nil || s.aborting {
		return
	}
	Quietly(func() {
		me := s.cur
		block(func() bool {
			for _, t := range s.threads {
				if t != me && !t.done && (t.ready == nil || t.ready()) {
					return false
				}
			}
			return true
		})
	})
}

// Go replaces the go statement.
//
//go:noinline
func Go(f func()) {
	if s == nil {
		go f()
		return
	}
	t := &thread{id: len(s.threads), wake: make(chan struct{}, 1), gone: make(chan struct{})}
	s.threads = append(s.threads, t)
	s.res.Spawned++
	sc := s
	go func() {
		defer close(t.gone)
		raceDisable()
		<-t.wake
		raceEnable()
		if sc.aborting {
			t.done = true
			return
		}
		defer func() {
			if r := recover(); r != nil {
				t.done = true
				if _, ok := r.(abortT); ok {
					return
				}
				sc.res.Crash = fmt.Sprint(r)
				sc.res.CrashStack = string(debug.Stack())
				sc.res.InGo = true
				if !sc.aborting {
					abortAll(t)
				}
				return
			}
			finish(t)
		}()
		f()
	}()
	point()
}

// --- channels ---

// The generic functions are compiled into the package that uses them; they leave everything but the
// channel operation itself to the functions below.

// slot is what is known about a channel; it hands values over if the channel has no buffer.
type slot struct {
	ch       interface{} // keeps the address in use
	key      uintptr
	next     *slot
	closed   bool
	full     bool
	v        interface{}
	fwd, bwd int64 // addresses for happens-before edges
}

var slots *slot

//go:noinline
func active() bool { return s != nil }

//go:noinline
func never() { block(func() bool { return false }) }

//go:noinline
func waitRoom(ch interface{}) {
	c := reflect.ValueOf(ch)
	block(func() bool { return c.Len() < c.Cap() })
}

//go:noinline
func waitFull(ch interface{}) {
	c := reflect.ValueOf(ch)
	k := getSlot(ch)
	block(func() bool { return c.Len() > 0 || k.closed })
}

//go:noinline
func handOver(ch, v interface{}) {
	sl := getSlot(ch)
	block(func() bool { return !sl.full })
	raceRelease(&sl.fwd)
	sl.full, sl.v = true, v
	block(func() bool { return !sl.full })
	raceAcquire(&sl.bwd)
}

// takeOver returns false if the channel is closed.
//
//go:noinline
func takeOver(ch interface{}) (interface{}, bool) {
	sl := getSlot(ch)
	block(func() bool { return sl.full || sl.closed })
	if !sl.full {
		return nil, false
	}
	raceAcquire(&sl.fwd)
	raceRelease(&sl.bwd)
	v := sl.v
	sl.full, sl.v = false, nil
	return v, true
}

//go:noinline
func markClosed(ch interface{}) {
	point()
	getSlot(ch).closed = true
}

// No map here: the race detector looks into maps wherever they are used.
func getSlot(ch interface{}) *slot {
	k := reflect.ValueOf(ch).Pointer()
	for sl := slots; sl != nil; sl = sl.next {
		if sl.key == k {
			return sl
		}
	}
	slots = &slot{ch: ch, key: k, next: slots}
	return slots
}

// Send replaces ch <- v.
func Send[T any](ch chan<- T, v T) {
	if active() {
		if ch == nil {
			never()
		}
		if cap(ch) == 0 {
			handOver(ch, v)
			return
		}
		waitRoom(ch)
	}
	ch <- v
}

// Recv2 replaces v, ok := <-ch.
func Recv2[T any](ch <-chan T) (T, bool) {
	if active() {
		if ch == nil {
			never()
		}
		if cap(ch) == 0 {
			if v, ok := takeOver(ch); ok {
				x, _ := v.(T)
				return x, true
			}
		} else {
			waitFull(ch)
		}
	}
	v, ok := <-ch
	return v, ok
}

// Recv replaces <-ch.
func Recv[T any](ch <-chan T) T {
	v, _ := Recv2(ch)
	return v
}

// Close replaces close(ch).
func Close[T any](ch chan<- T) {
	if active() {
		markClosed(ch)
	}
	close(ch)
}

// --- sync ---

type Mutex struct {
	m    sync.Mutex
	held bool
	a    int64
}

//go:noinline
func (m *Mutex) Lock() {
	if s == nil {
		m.m.Lock()
		return
	}
	block(func() bool { return !m.held })
	m.held = true
	raceAcquire(&m.a)
}

//go:noinline
func (m *Mutex) TryLock() bool {
	if s == nil {
		return m.m.TryLock()
	}
	point()
	if m.held {
		return false
	}
	m.held = true
	raceAcquire(&m.a)
	return true
}

//go:noinline
func (m *Mutex) Unlock() {
	if s == nil {
		m.m.Unlock()
		return
	}
	if !m.held && !s.aborting {
		panic("sync: unlock of unlocked mutex")
	}
	raceRelease(&m.a)
	m.held = false
	point()
}

type Locker = sync.Locker

type RWMutex struct {
	m      sync.RWMutex
	w      bool
	r      int
	ra, wa int64
}

//go:noinline
func (m *RWMutex) Lock() {
	if s == nil {
		m.m.Lock()
		return
	}
	block(func() bool { return !m.w && m.r == 0 })
	m.w = true
	raceAcquire(&m.ra)
	raceAcquire(&m.wa)
}

//go:noinline
func (m *RWMutex) Unlock() {
	if s == nil {
		m.m.Unlock()
		return
	}
	raceRelease(&m.ra)
	m.w = false
	point()
}

//go:noinline
func (m *RWMutex) RLock() {
	if s == nil {
		m.m.RLock()
		return
	}
	block(func() bool { return !m.w })
	m.r++
	raceAcquire(&m.ra)
}

//go:noinline
func (m *RWMutex) RUnlock() {
	if s == nil {
		m.m.RUnlock()
		return
	}
	raceReleaseMerge(&m.wa)
	m.r--
	point()
}

type WaitGroup struct {
	w sync.WaitGroup
	n int
	a int64
}

//go:noinline
func (w *WaitGroup) Add(n int) {
	if s == nil {
		w.w.Add(n)
		return
	}
	if n < 0 {
		raceReleaseMerge(&w.a)
	}
	w.n += n
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	point()
}

//go:noinline
func (w *WaitGroup) Done() {
	if s == nil {
		w.w.Done()
		return
	}
	w.Add(-1)
}

//go:noinline
func (w *WaitGroup) Wait() {
	if s == nil {
		w.w.Wait()
		return
	}
	block(func() bool { return w.n == 0 })
	raceAcquire(&w.a)
}

// Go is WaitGroup.Go.
//
//go:noinline
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	Go(func() {
		defer w.Done()
		f()
	})
}

// Once is sync.Once.
type Once struct {
	m    Mutex
	done bool
}

//go:noinline
func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

// Gosched lets the next thread go on, so that busy waiting ends.
//
//go:noinline
func Gosched() {
	if s == nil || s.aborting {
		runtime.Gosched()
		return
	}
	n := len(s.threads)
	for i := 1; i < n; i++ {
		if t := s.threads[(s.cur.id+i)%n]; !t.done && (t.ready == nil || t.ready()) {
			switchTo(t)
			return
		}
	}
}

//go:noinline
func Sleep(d time.Duration) {
	if s == nil || s.aborting {
		time.Sleep(d)
		return
	}
	Gosched()
}
