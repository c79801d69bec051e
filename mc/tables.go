package main

import (
	"encoding/csv"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"

	"github.com/patrickbr/gtfsparser"
)

// Row is one line of a GTFS file, KV its fields in the order they were given.
type KV struct{ K, V string }
type Row []KV

// R builds a row from alternating names and values.
func R(kv ...string) Row {
	r := make(Row, 0, len(kv)/2)
	for i := 0; i+1 < len(kv); i += 2 {
		r = append(r, KV{kv[i], kv[i+1]})
	}
	return r
}

func (r Row) Get(k string) string {
	for _, x := range r {
		if x.K == k {
			return x.V
		}
	}
	return ""
}

// With returns a copy of r with some fields set.
func (r Row) With(kv ...string) Row {
	n := append(Row{}, r...)
next:
	for i := 0; i+1 < len(kv); i += 2 {
		for j := range n {
			if n[j].K == kv[i] {
				n[j].V = kv[i+1]
				continue next
			}
		}
		n = append(n, KV{kv[i], kv[i+1]})
	}
	return n
}

// T is a GTFS feed as text: file name (without .txt) -> rows in file order.
type T map[string][]Row

func (t T) Add(file string, rows ...Row) T {
	t[file] = append(t[file], rows...)
	return t
}

// A is shorthand for Add(file, R(kv...)).
func (t T) A(file string, kv ...string) T { return t.Add(file, R(kv...)) }

func (t T) Clone() T {
	n := T{}
	for k, v := range t {
		for _, r := range v {
			n[k] = append(n[k], append(Row{}, r...))
		}
	}
	return n
}

// Set changes fields of all rows of a file whose key field has the given value.
func (t T) Set(file, key, val string, kv ...string) T {
	for i, r := range t[file] {
		if r.Get(key) == val {
			t[file][i] = r.With(kv...)
		}
	}
	return t
}

// Rev reverses the row order of some files (entity insertion order).
func (t T) Rev(files ...string) T {
	for _, f := range files {
		l := t[f]
		n := make([]Row, 0, len(l))
		for i := len(l) - 1; i >= 0; i-- {
			n = append(n, l[i])
		}
		t[f] = n
	}
	return t
}

// Perm reorders the rows of a file.
func (t T) Perm(file string, p []int) T {
	l := t[file]
	n := make([]Row, 0, len(l))
	for _, i := range p {
		n = append(n, l[i])
	}
	t[file] = n
	return t
}

func (t T) files() []string {
	var fs []string
	for f := range t {
		fs = append(fs, f)
	}
	sort.Strings(fs)
	return fs
}

func (t T) csv(f string) string {
	var hdr []string
	seen := map[string]bool{}
	for _, r := range t[f] {
		for _, x := range r {
			if !seen[x.K] {
				seen[x.K] = true
				hdr = append(hdr, x.K)
			}
		}
	}
	var sb strings.Builder
	w := csv.NewWriter(&sb)
	w.Write(hdr)
	for _, r := range t[f] {
		l := make([]string, len(hdr))
		for i, h := range hdr {
			l[i] = r.Get(h)
		}
		if len(l) == 1 && l[0] == "" {
			sb.WriteString("")
		}
		w.Write(l)
	}
	w.Flush()
	return sb.String()
}

// Text renders the whole feed (used to identify it).
func (t T) Text() string {
	var sb strings.Builder
	for _, f := range t.files() {
		sb.WriteString("## " + f + "\n" + t.csv(f))
	}
	return sb.String()
}

// Write stores the feed as a directory of GTFS files.
func (t T) Write(dir string) {
	os.MkdirAll(dir, 0o755)
	old, _ := os.ReadDir(dir)
	for _, e := range old {
		if strings.HasSuffix(e.Name(), ".txt") {
			if _, ok := t[strings.TrimSuffix(e.Name(), ".txt")]; !ok {
				os.Remove(filepath.Join(dir, e.Name()))
			}
		}
	}
	for f := range t {
		if err := os.WriteFile(filepath.Join(dir, f+".txt"), []byte(t.csv(f)), 0o644); err != nil {
			panic(err)
		}
	}
}

// ReadTables reads a directory of GTFS files with nothing but the CSV reader of the Go library.
func ReadTables(dir string) (T, error) {
	t := T{}
	es, err := os.ReadDir(dir)
	if err != nil {
		return nil, err
	}
	for _, e := range es {
		if !strings.HasSuffix(e.Name(), ".txt") {
			continue
		}
		b, err := os.ReadFile(filepath.Join(dir, e.Name()))
		if err != nil {
			return nil, err
		}
		rd := csv.NewReader(strings.NewReader(string(b)))
		rd.FieldsPerRecord = -1
		rows, err := rd.ReadAll()
		if err != nil {
			return nil, err
		}
		name := strings.TrimSuffix(e.Name(), ".txt")
		if len(rows) == 0 {
			continue
		}
		t[name] = nil
		for _, r := range rows[1:] {
			var row Row
			for i, v := range r {
				if i < len(rows[0]) {
					row = append(row, KV{rows[0][i], v})
				}
			}
			t[name] = append(t[name], row)
		}
	}
	return t, nil
}

var scratchDir string

var parses int

// parseDir loads a feed directory strictly (no error fixing).
func parseDir(dir string, addFlds bool) (*gtfsparser.Feed, error) {
	if parses++; parses%400 == 0 {
		runtime.GC() // the parser leaves files open
	}
	f := gtfsparser.NewFeed()
	f.SetParseOpts(gtfsparser.ParseOptions{KeepAddFlds: addFlds})
	if err := f.Parse(dir); err != nil {
		return nil, err
	}
	return f, nil
}

// Load parses a text feed with the real parser, additional fields included.
func (t T) Load() (*gtfsparser.Feed, error) {
	d := filepath.Join(scratchDir, "in")
	t.Write(d)
	return parseDir(d, true)
}
