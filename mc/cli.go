package main

import (
	"archive/zip"
	"context"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

// Cli is one run of the command line tool as it is built from /repo.
type Cli struct {
	Code    int    // exit status, -1: killed because it did not end
	Out     string // standard output and error
	Created bool   // the output exists afterwards
	T       T      // output tables as written
	Snap    *Snap  // the output, loaded strictly
	LoadErr string // or why it cannot be loaded
	In      *Snap  // the (first) input, loaded strictly
}

func (r *Cli) String() string {
	o := strings.TrimSpace(r.Out)
	if len(o) > 1500 {
		o = o[:1500]
	}
	return fmt.Sprintf("exit %d, %s", r.Code, o)
}

func sub(n string) string { return filepath.Join(scratchDir, n) }

// exec starts gtfstidy in the scratch directory.
func cliExec(args ...string) (int, string) {
	ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()
	c := exec.CommandContext(ctx, os.Getenv("VERIF_GTFSTIDY"), args...)
	c.Dir = scratchDir
	c.Env = append(os.Environ(), "GOMAXPROCS=2")
	b, err := c.CombinedOutput()
	if ctx.Err() != nil {
		return -1, string(b)
	}
	if err == nil {
		return 0, string(b)
	}
	if x, ok := err.(*exec.ExitError); ok {
		return x.ExitCode(), string(b)
	}
	panic("cannot start gtfstidy: " + err.Error())
}

// cliRun runs gtfstidy on some feeds, with -o to a directory that does not exist before.
func cliRun(feeds []T, args ...string) *Cli {
	os.RemoveAll(sub("out"))
	a := append([]string{}, args...)
	a = append(a, "-o", "out")
	for i, t := range feeds {
		d := fmt.Sprintf("in%d", i)
		t.Write(sub(d))
		a = append(a, d)
	}
	r := &Cli{}
	r.Code, r.Out = cliExec(a...)
	if st, err := os.Stat(sub("out")); err == nil {
		r.Created = true
		if st.IsDir() {
			r.load(sub("out"))
		}
	}
	return r
}

func (r *Cli) load(dir string) {
	t, err := ReadTables(dir)
	if err != nil {
		r.LoadErr = err.Error()
		return
	}
	r.T = t
	f, err := parseDir(dir, true)
	if err != nil {
		r.LoadErr = err.Error()
		return
	}
	r.Snap = TakeSnap(f)
	if len(r.Snap.Problems) > 0 {
		r.LoadErr = strings.Join(r.Snap.Problems, "; ")
	}
}

// ok tells why the run did not end with a proper feed.
func (r *Cli) ok() string {
	switch {
	case r.Code == -1:
		return "gtfstidy does not end"
	case strings.Contains(r.Out, "goroutine ") && strings.Contains(r.Out, "panic"), strings.Contains(r.Out, "fatal error:"):
		return "gtfstidy crashes: " + firstLine(r.Out[strings.LastIndexAny(r.Out[:strings.Index(r.Out, "goroutine ")+1], "")+0:]) + "\n" + r.String()
	case r.Code != 0:
		return "gtfstidy fails\n" + r.String()
	case !r.Created:
		return "no output was written\n" + r.String()
	case r.LoadErr != "":
		return "the written feed cannot be loaded: " + r.LoadErr
	}
	return ""
}

// rowDups reports a row that was written twice.
func (r *Cli) rowDups() string {
	for _, f := range r.T.files() {
		if f == "feed_info" {
			continue
		}
		seen := map[string]bool{}
		for _, row := range r.T[f] {
			m := M{}
			for _, kv := range row {
				m[kv.K] = kv.V
			}
			k := m.key()
			if seen[k] && f != "fare_rules" && f != "frequencies" && f != "attributions" {
				return "row written twice to " + f + ".txt: " + k
			}
			seen[k] = true
		}
	}
	return ""
}

// cliCheck runs one command line scenario and judges it; failures are repeated.
func (c *Ctx) cliCheck(s Scn, judge func() (outcome, msg string)) {
	if c.over() || c.harvest != nil {
		return
	}
	if c.replay != nil && s.Name != c.replay.Name {
		return
	}
	c.begin(&s)
	defer c.end()
	o, m := judge()
	c.Count(&s, o)
	if c.replay != nil {
		c.replayed = m
		if m == "" {
			c.replayed = "holds"
		}
		return
	}
	if m == "" {
		return
	}
	n := 0
	for i := 0; i < 5; i++ {
		if _, m := judge(); m != "" {
			n++
		}
	}
	c.report(&s, m, n)
}

// tree lists a directory with the contents of its files.
func tree(dir string) string {
	var l []string
	filepath.Walk(dir, func(p string, st os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		x := p + " dir"
		if !st.IsDir() {
			b, _ := os.ReadFile(p)
			x = fmt.Sprintf("%s %d %x", p, st.Size(), h64(string(b)))
		}
		l = append(l, x)
		return nil
	})
	sort.Strings(l)
	return strings.Join(l, "\n")
}

// zipFeed stores a feed as a ZIP file, the files below a directory of the archive.
func (t T) zipFeed(path, inner string) {
	f, err := os.Create(path)
	if err != nil {
		panic(err)
	}
	defer f.Close()
	w := zip.NewWriter(f)
	for _, n := range t.files() {
		x, _ := w.Create(inner + n + ".txt")
		io.WriteString(x, t.csv(n))
	}
	w.Close()
}

// unzip extracts the files of an archive to a directory.
func unzip(path, dir string) error {
	os.RemoveAll(dir)
	os.MkdirAll(dir, 0o755)
	r, err := zip.OpenReader(path)
	if err != nil {
		return err
	}
	defer r.Close()
	for _, f := range r.File {
		rd, err := f.Open()
		if err != nil {
			return err
		}
		b, err := io.ReadAll(rd)
		rd.Close()
		if err != nil {
			return err
		}
		if err := os.WriteFile(filepath.Join(dir, filepath.Base(f.Name)), b, 0o644); err != nil {
			return err
		}
	}
	return nil
}
