// mkoverlay writes an overlay.json for "go build -overlay" that (1) lets the harness choose where
// map iterations start and (2) redirects the concurrency operations of the packages under test to
// the cooperative scheduler in overlaysrc/sched.go. Nothing in /repo is touched.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/format"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strings"
)

var (
	repo    = flag.String("repo", "/repo", "repository")
	out     = flag.String("out", "", "output directory")
	src     = flag.String("src", "", "overlaysrc directory")
	rewrite = flag.Bool("rewrite", true, "redirect concurrency operations")
)

const mod = "github.com/patrickbr/gtfstidy"

func die(format string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "mkoverlay: "+format+"\n", a...)
	os.Exit(3)
}

func write(name string, b []byte) string {
	p := filepath.Join(*out, name)
	os.MkdirAll(filepath.Dir(p), 0o755)
	if err := os.WriteFile(p, b, 0o644); err != nil {
		die("%v", err)
	}
	return p
}

func main() {
	flag.Parse()
	rep := map[string]string{}
	goroot := runtime.GOROOT()
	if o, err := exec.Command("go", "env", "GOROOT").Output(); err == nil {
		goroot = strings.TrimSpace(string(o))
	}

	// 1. map iteration
	tp := filepath.Join(goroot, "src/internal/runtime/maps/table.go")
	b, err := os.ReadFile(tp)
	if err != nil {
		die("%v", err)
	}
	old := "\tit.entryOffset = rand()\n\tit.dirOffset = rand()\n"
	if strings.Count(string(b), old) != 1 {
		die("unexpected runtime source")
	}
	t := strings.Replace(string(b), old, "\tif VerifIterHook != nil {\n\t\tit.entryOffset, it.dirOffset = verifOffsets(m)\n\t} else {\n\t\tit.entryOffset = rand()\n\t\tit.dirOffset = rand()\n\t}\n", 1)
	t += `
// VerifIterHook, if set, chooses which of the n used entries a map iteration starts with.
var VerifIterHook func(n int) int

func verifOffsets(m *Map) (uint64, uint64) {
	if m.used < 2 {
		return 0, 0
	}
	j := VerifIterHook(int(m.used))
	if m.dirLen > 0 {
		return uint64(j), uint64(j)
	}
	var g groupReference
	g.data = m.dirPtr
	for k := uintptr(0); k < abi.MapGroupSlots; k++ {
		if (g.ctrls().get(k) & ctrlEmpty) == ctrlEmpty {
			continue
		}
		if j == 0 {
			return uint64(k), 0
		}
		j--
	}
	return 0, 0
}
`
	rep[tp] = write("rt/table.go", []byte(t))
	mp := filepath.Join(goroot, "src/internal/runtime/maps/map.go")
	b, err = os.ReadFile(mp)
	if err != nil {
		die("%v", err)
	}
	rep[mp] = write("rt/map.go", []byte(strings.Replace(string(b), "m.seed = uintptr(rand())", "m.seed = verifSeed()", -1)+`
func verifSeed() uintptr {
	if VerifIterHook != nil {
		return 1
	}
	return uintptr(rand())
}
`))
	rep[filepath.Join(goroot, "src/runtime/zverif.go")] = write("rt/zverif.go", []byte(`package runtime

import "internal/runtime/maps"

// VerifSetMapIter installs a map iteration start chooser (verification builds only).
func VerifSetMapIter(f func(n int) int) { maps.VerifIterHook = f }
`))
	// 2. scheduler
	for _, f := range []string{"sched.go", "race.go", "norace.go"} {
		sb, err := os.ReadFile(filepath.Join(*src, f))
		if err != nil {
			die("%v", err)
		}
		rep[filepath.Join(*repo, "verifsched", f)] = write("verifsched/"+f, sb)
	}

	mode := "free"
	if *rewrite {
		if err := rewritePkg(rep, "processors"); err != nil {
			fmt.Fprintf(os.Stderr, "mkoverlay: goroutines run uncontrolled: %v\n", err)
		} else {
			mode = "controlled"
		}
	}
	write("mode", []byte(mode))
	j, _ := json.MarshalIndent(map[string]interface{}{"Replace": rep}, "", " ")
	write("overlay.json", j)
}

func rewritePkg(rep map[string]string, pkg string) error {
	dir := filepath.Join(*repo, pkg)
	// only files that are part of the default build
	c := exec.Command("go", "list", "-export", "-deps", "-f", "{{.ImportPath}}\t{{.Export}}\t{{range .GoFiles}}{{.}} {{end}}", "./"+pkg)
	c.Dir = *repo
	var eb bytes.Buffer
	c.Stderr = &eb
	o, err := c.Output()
	if err != nil {
		return fmt.Errorf("go list: %v %s", err, eb.String())
	}
	exports := map[string]string{}
	var files []string
	for _, l := range strings.Split(string(o), "\n") {
		p := strings.Split(l, "\t")
		if len(p) == 3 {
			exports[p[0]] = p[1]
			if p[0] == mod+"/"+pkg {
				files = strings.Fields(p[2])
			}
		}
	}
	fset := token.NewFileSet()
	var asts []*ast.File
	for _, f := range files {
		a, err := parser.ParseFile(fset, filepath.Join(dir, f), nil, 0)
		if err != nil {
			return err
		}
		asts = append(asts, a)
	}
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		if e := exports[path]; e != "" {
			return os.Open(e)
		}
		return nil, fmt.Errorf("no export data for %s", path)
	})
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}}
	conf := types.Config{Importer: imp, GoVersion: "go1.18"}
	if _, err := conf.Check(mod+"/"+pkg, fset, asts, info); err != nil {
		return err
	}
	res := map[string]string{}
	for i, a := range asts {
		r := &rw{info: info}
		r.file(a)
		if r.err != nil {
			return r.err
		}
		if !r.used {
			continue
		}
		fix(a, r)
		a.Comments = nil
		var buf bytes.Buffer
		if err := format.Node(&buf, token.NewFileSet(), a); err != nil {
			return err
		}
		p := filepath.Join(dir, files[i])
		res[p] = write(pkg+"/"+files[i], buf.Bytes())
	}
	for k, v := range res {
		rep[k] = v
	}
	return nil
}

type rw struct {
	info *types.Info
	used bool
	err  error
	n    int
}

func (r *rw) sel(name string) ast.Expr {
	r.used = true
	return &ast.SelectorExpr{X: ast.NewIdent("verifsched"), Sel: ast.NewIdent(name)}
}

func (r *rw) call(name string, args ...ast.Expr) *ast.CallExpr {
	return &ast.CallExpr{Fun: r.sel(name), Args: args}
}

func (r *rw) isPkg(e ast.Expr, path string) bool {
	id, ok := e.(*ast.Ident)
	if !ok {
		return false
	}
	pn, ok := r.info.Uses[id].(*types.PkgName)
	return ok && pn.Imported().Path() == path
}

func (r *rw) isChan(e ast.Expr) bool {
	tv, ok := r.info.Types[e]
	if !ok || tv.Type == nil {
		return false
	}
	_, ok = tv.Type.Underlying().(*types.Chan)
	return ok
}

func (r *rw) file(f *ast.File) {
	for _, d := range f.Decls {
		switch d := d.(type) {
		case *ast.FuncDecl:
			if d.Type != nil {
				r.node(d.Type)
			}
			if d.Recv != nil {
				r.node(d.Recv)
			}
			if d.Body != nil {
				r.block(d.Body.List)
			}
		case *ast.GenDecl:
			if d.Tok != token.IMPORT {
				r.node(d)
			}
		}
	}
}

func (r *rw) block(l []ast.Stmt) {
	for i := range l {
		l[i] = r.stmt(l[i])
	}
}

// node rewrites expressions below n in place (statements inside function literals included).
func (r *rw) node(n ast.Node) {
	if n == nil {
		return
	}
	replaceExprs(n, r)
}

func (r *rw) stmt(s ast.Stmt) ast.Stmt {
	switch s := s.(type) {
	case nil:
		return nil
	case *ast.GoStmt:
		var pre []ast.Stmt
		call := s.Call
		r.node(call)
		var args []ast.Expr
		for _, a := range call.Args {
			r.n++
			id := ast.NewIdent(fmt.Sprintf("verifArg%d", r.n))
			pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{id}, Tok: token.DEFINE, Rhs: []ast.Expr{a}})
			args = append(args, ast.NewIdent(id.Name))
		}
		r.n++
		fn := ast.NewIdent(fmt.Sprintf("verifFn%d", r.n))
		pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{fn}, Tok: token.DEFINE, Rhs: []ast.Expr{call.Fun}})
		inner := &ast.CallExpr{Fun: ast.NewIdent(fn.Name), Args: args}
		if call.Ellipsis.IsValid() {
			inner.Ellipsis = 1
		}
		lit := &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: inner}}}}
		pre = append(pre, &ast.ExprStmt{X: r.call("Go", lit)})
		return &ast.BlockStmt{List: pre}
	case *ast.SendStmt:
		r.node(s)
		return &ast.ExprStmt{X: r.call("Send", s.Chan, s.Value)}
	case *ast.SelectStmt:
		r.err = fmt.Errorf("select statement")
		return s
	case *ast.BlockStmt:
		r.block(s.List)
		return s
	case *ast.LabeledStmt:
		s.Stmt = r.stmt(s.Stmt)
		return s
	case *ast.IfStmt:
		s.Init = r.stmt(s.Init)
		s.Cond = r.expr(s.Cond)
		r.block(s.Body.List)
		if s.Else != nil {
			s.Else = r.stmt(s.Else)
		}
		return s
	case *ast.ForStmt:
		s.Init = r.stmt(s.Init)
		if s.Cond != nil {
			s.Cond = r.expr(s.Cond)
		}
		s.Post = r.stmt(s.Post)
		r.block(s.Body.List)
		s.Body.List = append([]ast.Stmt{&ast.ExprStmt{X: r.call("Point")}}, s.Body.List...)
		return s
	case *ast.RangeStmt:
		ch := r.isChan(s.X)
		s.X = r.expr(s.X)
		r.block(s.Body.List)
		if ch {
			r.n++
			ok := fmt.Sprintf("verifOk%d", r.n)
			var v ast.Expr = ast.NewIdent("_")
			tok := token.DEFINE
			var pre []ast.Stmt
			if s.Key != nil {
				v = s.Key
				if s.Tok == token.ASSIGN {
					tok = token.ASSIGN
					pre = append(pre, &ast.DeclStmt{Decl: &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{ast.NewIdent(ok)}, Type: ast.NewIdent("bool")}}}})
				}
			}
			body := append(pre, &ast.AssignStmt{Lhs: []ast.Expr{v, ast.NewIdent(ok)}, Tok: tok, Rhs: []ast.Expr{r.call("Recv2", s.X)}},
				&ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: ast.NewIdent(ok)}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.BREAK}}}})
			return &ast.ForStmt{Body: &ast.BlockStmt{List: append(body, s.Body.List...)}}
		}
		s.Body.List = append([]ast.Stmt{&ast.ExprStmt{X: r.call("Point")}}, s.Body.List...)
		return s
	case *ast.SwitchStmt:
		s.Init = r.stmt(s.Init)
		if s.Tag != nil {
			s.Tag = r.expr(s.Tag)
		}
		r.block(s.Body.List)
		return s
	case *ast.TypeSwitchStmt:
		s.Init = r.stmt(s.Init)
		s.Assign = r.stmt(s.Assign)
		r.block(s.Body.List)
		return s
	case *ast.CaseClause:
		for i := range s.List {
			s.List[i] = r.expr(s.List[i])
		}
		r.block(s.Body)
		return s
	case *ast.AssignStmt:
		if len(s.Lhs) == 2 && len(s.Rhs) == 1 {
			if u, ok := s.Rhs[0].(*ast.UnaryExpr); ok && u.Op == token.ARROW {
				for i := range s.Lhs {
					s.Lhs[i] = r.expr(s.Lhs[i])
				}
				s.Rhs[0] = r.call("Recv2", r.expr(u.X))
				return s
			}
		}
		r.node(s)
		return s
	default:
		r.node(s)
		return s
	}
}

func (r *rw) expr(e ast.Expr) ast.Expr {
	switch x := e.(type) {
	case *ast.FuncLit:
		r.node(x.Type)
		r.block(x.Body.List)
		return x
	case *ast.UnaryExpr:
		x.X = r.expr(x.X)
		if x.Op == token.ARROW {
			return r.call("Recv", x.X)
		}
		return x
	case *ast.CallExpr:
		if id, ok := x.Fun.(*ast.Ident); ok && id.Name == "close" && len(x.Args) == 1 && r.isChan(x.Args[0]) {
			return r.call("Close", r.expr(x.Args[0]))
		}
		r.node(x)
		return x
	case *ast.SelectorExpr:
		if r.isPkg(x.X, "sync") {
			switch x.Sel.Name {
			case "Mutex", "RWMutex", "WaitGroup", "Locker", "Once":
				return r.sel(x.Sel.Name)
			case "Cond", "NewCond", "OnceFunc", "OnceValue", "OnceValues":
				r.err = fmt.Errorf("sync.%s", x.Sel.Name)
			}
			return x
		}
		if r.isPkg(x.X, "runtime") && (x.Sel.Name == "GOMAXPROCS" || x.Sel.Name == "NumCPU" || x.Sel.Name == "Gosched") {
			return r.sel(x.Sel.Name)
		}
		if r.isPkg(x.X, "time") && x.Sel.Name == "Sleep" {
			return r.sel(x.Sel.Name)
		}
		x.X = r.expr(x.X)
		return x
	case nil:
		return nil
	default:
		r.node(e)
		return e
	}
}

// fix repairs the import list after rewriting.
func fix(f *ast.File, r *rw) {
	usedPkg := map[string]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		if s, ok := n.(*ast.SelectorExpr); ok {
			if id, ok := s.X.(*ast.Ident); ok {
				usedPkg[id.Name] = true
			}
		}
		return true
	})
	var decls []ast.Decl
	for _, d := range f.Decls {
		g, ok := d.(*ast.GenDecl)
		if !ok || g.Tok != token.IMPORT {
			decls = append(decls, d)
			continue
		}
		var specs []ast.Spec
		for _, s := range g.Specs {
			is := s.(*ast.ImportSpec)
			path := strings.Trim(is.Path.Value, `"`)
			name := filepath.Base(path)
			if is.Name != nil {
				name = is.Name.Name
			}
			if (path == "sync" || path == "runtime" || path == "time") && !usedPkg[name] {
				continue
			}
			specs = append(specs, s)
		}
		g.Specs = specs
		if len(specs) > 0 {
			g.Lparen = 1
			decls = append(decls, g)
		}
	}
	im := &ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{&ast.ImportSpec{Path: &ast.BasicLit{Kind: token.STRING, Value: `"` + mod + `/verifsched"`}}}}
	f.Decls = append([]ast.Decl{im}, decls...)
}
