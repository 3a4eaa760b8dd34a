// Command rewrite prepares a simulated build of /repo: it reads the current working tree and the
// dependencies with goroutines, and writes copies in which goroutines, channels, package sync,
// clocks, CPU counts, map iteration and file reads go through package verifsim, with yield points
// between statements. Nothing is written in /repo: the copies are used through go build -overlay
// (for /repo) and -modfile with replace directives (for the dependencies).
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/build/constraint"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

type module struct {
	Path    string
	Version string
	Dir     string
	GoMod   string
	Main    bool
}

type pkg struct {
	ImportPath string
	Dir        string
	Name       string
	GoFiles    []string
	CgoFiles   []string
	Export     string
	Standard   bool
	Module     *module
	ImportMap  map[string]string
	Error      *struct{ Err string }
}

func die(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "rewrite: "+f+"\n", a...)
	os.Exit(3)
}

func main() {
	repo := flag.String("repo", "/repo", "")
	out := flag.String("out", "", "scratch directory")
	simDir := flag.String("sim", "", "verifsim source")
	harness := flag.String("harness", "", "harness source directory")
	extra := flag.String("extra", "", "further packages the harness imports, comma separated")
	flag.Parse()
	args := []string{"list", "-export", "-deps", "-json=ImportPath,Dir,Name,GoFiles,CgoFiles,Export,Standard,Module,ImportMap,Error", "./..."}
	if *extra != "" {
		args = append(args, strings.Split(*extra, ",")...)
	}
	// a scratch go.mod: -mod=mod may want to touch it
	must(os.MkdirAll(filepath.Join(*out, "list"), 0755))
	copyFile(filepath.Join(*repo, "go.mod"), filepath.Join(*out, "list", "go.mod"))
	copyFile(filepath.Join(*repo, "go.sum"), filepath.Join(*out, "list", "go.sum"))
	args = append(args[:1:1], append([]string{"-modfile=" + filepath.Join(*out, "list", "go.mod")}, args[1:]...)...)
	cmd := exec.Command("go", args...)
	cmd.Dir = *repo
	cmd.Stderr = os.Stderr
	b, err := cmd.Output()
	if err != nil {
		die("go list: %v", err)
	}
	var pkgs []*pkg
	byPath := map[string]*pkg{}
	dec := json.NewDecoder(bytes.NewReader(b))
	for {
		p := new(pkg)
		if err := dec.Decode(p); err == io.EOF {
			break
		} else if err != nil {
			die("go list output: %v", err)
		}
		if p.Error != nil {
			die("%s: %s", p.ImportPath, p.Error.Err)
		}
		pkgs = append(pkgs, p)
		byPath[p.ImportPath] = p
	}
	overlay := map[string]string{}
	edited := map[string]*module{} // external modules with a rewritten package
	type extFile struct{ p, name, text string }
	var ext []extFile
	stats := map[string]int{}
	for _, p := range pkgs {
		if p.Standard || p.Module == nil {
			continue
		}
		main := p.Module.Main
		yields := main || strings.HasSuffix(p.ImportPath, "/optimize") || strings.HasSuffix(p.ImportPath, "/randomkit")
		files := rewritePkg(p, byPath, yields, main, stats)
		for name, text := range files {
			if main {
				rel, _ := filepath.Rel(*repo, filepath.Join(p.Dir, name))
				dst := filepath.Join(*out, "src", rel)
				must(os.MkdirAll(filepath.Dir(dst), 0755))
				must(os.WriteFile(dst, []byte(text), 0644))
				overlay[filepath.Join(p.Dir, name)] = dst
			} else {
				edited[p.Module.Path] = p.Module
				ext = append(ext, extFile{p.ImportPath, name, text})
			}
		}
	}
	// external modules: copy the packages in use
	gomod, err := os.ReadFile(filepath.Join(*repo, "go.mod"))
	must(err)
	gm := string(gomod)
	gm += "\nrequire verifsim v0.0.0\nreplace verifsim => " + *simDir + "\n"
	var mods []string
	for m := range edited {
		mods = append(mods, m)
	}
	sort.Strings(mods)
	for i, mp := range mods {
		m := edited[mp]
		dst := filepath.Join(*out, "mods", fmt.Sprint("m", i))
		must(os.MkdirAll(dst, 0755))
		if m.GoMod != "" {
			copyFile(m.GoMod, filepath.Join(dst, "go.mod"))
		} else {
			must(os.WriteFile(filepath.Join(dst, "go.mod"), []byte("module "+mp+"\n"), 0644))
		}
		for _, p := range pkgs {
			if p.Module == nil || p.Module.Path != mp {
				continue
			}
			rel, _ := filepath.Rel(m.Dir, p.Dir)
			pd := filepath.Join(dst, rel)
			must(os.MkdirAll(pd, 0755))
			ents, err := os.ReadDir(p.Dir)
			must(err)
			for _, e := range ents {
				if !e.IsDir() && !strings.HasSuffix(e.Name(), "_test.go") {
					copyFile(filepath.Join(p.Dir, e.Name()), filepath.Join(pd, e.Name()))
				}
			}
			for _, f := range ext {
				if f.p == p.ImportPath {
					must(os.WriteFile(filepath.Join(pd, f.name), []byte(f.text), 0644))
				}
			}
		}
		gm += "replace " + mp + " => " + dst + "\n"
	}
	must(os.WriteFile(filepath.Join(*out, "go.mod"), []byte(gm), 0644))
	copyFile(filepath.Join(*repo, "go.sum"), filepath.Join(*out, "go.sum"))
	ents, err := os.ReadDir(*harness)
	must(err)
	for _, e := range ents {
		if strings.HasSuffix(e.Name(), ".go") {
			overlay[filepath.Join(*repo, "zzverifharness", e.Name())] = filepath.Join(*harness, e.Name())
		}
	}
	ob, _ := json.MarshalIndent(map[string]interface{}{"Replace": overlay}, "", " ")
	must(os.WriteFile(filepath.Join(*out, "overlay.json"), ob, 0644))
	sb, _ := json.Marshal(stats)
	must(os.WriteFile(filepath.Join(*out, "rewrite-stats.json"), sb, 0644))
	fmt.Printf("rewrite: %d files of /repo, modules %v, %s\n", len(overlay), mods, sb)
}

func must(err error) {
	if err != nil {
		die("%v", err)
	}
}

func copyFile(src, dst string) {
	b, err := os.ReadFile(src)
	must(err)
	must(os.WriteFile(dst, b, 0644))
}

// ---------------------------------------------------------------- rewriting

type rw struct {
	fset   *token.FileSet
	src    []byte
	base   int // file base offset
	info   *types.Info
	beg    map[int]string
	end    map[int]string
	dels   [][2]int
	n      int
	yields bool
	main   bool
	keep   map[string]string // import path -> keepalive statement
	shared map[types.Object]bool
	stats  map[string]int
	skip   map[ast.Node]bool
	noY    map[ast.Stmt]bool
}

func rewritePkg(p *pkg, byPath map[string]*pkg, yields, main bool, stats map[string]int) map[string]string {
	if len(p.CgoFiles) > 0 {
		return nil
	}
	fset := token.NewFileSet()
	var files []*ast.File
	srcs := map[string][]byte{}
	for _, name := range p.GoFiles {
		fn := filepath.Join(p.Dir, name)
		b, err := os.ReadFile(fn)
		must(err)
		f, err := parser.ParseFile(fset, fn, b, parser.ParseComments|parser.SkipObjectResolution)
		if err != nil {
			die("parse %s: %v", fn, err)
		}
		files = append(files, f)
		srcs[fn] = b
	}
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{}, Implicits: map[ast.Node]types.Object{}}
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		if m, ok := p.ImportMap[path]; ok {
			path = m
		}
		q := byPath[path]
		if q == nil || q.Export == "" {
			return nil, fmt.Errorf("no export data for %q", path)
		}
		return os.Open(q.Export)
	})
	conf := types.Config{Importer: imp, Error: func(err error) {}}
	if _, err := conf.Check(p.ImportPath, fset, files, info); err != nil && main {
		die("typecheck %s: %v", p.ImportPath, err)
	}
	out := map[string]string{}
	for _, f := range files {
		fn := fset.Position(f.Package).Filename
		r := &rw{fset: fset, src: srcs[fn], base: fset.File(f.Package).Base(), info: info, beg: map[int]string{}, end: map[int]string{}, yields: yields, main: main, keep: map[string]string{}, shared: map[types.Object]bool{}, stats: stats, skip: map[ast.Node]bool{}, noY: map[ast.Stmt]bool{}}
		r.findShared(f)
		r.walk(f)
		if len(r.beg)+len(r.end)+len(r.dels) == 0 {
			continue
		}
		out[filepath.Base(fn)] = r.render(f, fn)
	}
	return out
}

func (r *rw) off(p token.Pos) int { return int(p) - r.base }
func (r *rw) text(n ast.Node) string {
	return string(r.src[r.off(n.Pos()):r.off(n.End())])
}
func (r *rw) before(p token.Pos, s string) { r.beg[r.off(p)] += s }
func (r *rw) after(p token.Pos, s string)  { r.end[r.off(p)] = s + r.end[r.off(p)] }
func (r *rw) del(a, b token.Pos)           { r.dels = append(r.dels, [2]int{r.off(a), r.off(b)}) }

// findShared marks local variables captured by a function literal.
func (r *rw) findShared(f *ast.File) {
	var lits []*ast.FuncLit
	var v func(n ast.Node) bool
	var stack []ast.Node
	_ = stack
	v = func(n ast.Node) bool { return true }
	_ = v
	ast.Inspect(f, func(n ast.Node) bool {
		if l, ok := n.(*ast.FuncLit); ok {
			lits = append(lits, l)
		}
		return true
	})
	for _, l := range lits {
		ast.Inspect(l.Body, func(n ast.Node) bool {
			if id, ok := n.(*ast.Ident); ok {
				if o := r.info.Uses[id]; o != nil {
					if o.Pos() < l.Pos() || o.Pos() > l.End() {
						r.shared[o] = true
					}
				}
			}
			return true
		})
	}
}

var selMap = map[string]map[string]string{
	"sync":      {"Mutex": "Mutex", "RWMutex": "RWMutex", "WaitGroup": "WaitGroup", "Once": "Once", "Cond": "Cond", "NewCond": "NewCond", "Pool": "Pool", "OnceFunc": "OnceFunc", "OnceValue": "OnceValue", "OnceValues": "OnceValues"},
	"runtime":   {"NumCPU": "NumCPU", "GOMAXPROCS": "GOMAXPROCS", "Gosched": "Y"},
	"time":      {"Now": "Now", "Since": "Since", "Until": "Until", "Sleep": "Sleep", "After": "After"},
	"os":        {"Open": "Open", "OpenFile": "OpenFile", "Stat": "Stat", "ReadFile": "ReadFile", "File": "File", "Exit": "Exit"},
	"io/ioutil": {"ReadFile": "ReadFile"},
	"log":       {"Fatal": "LogFatal", "Fatalf": "LogFatalf", "Fatalln": "LogFatalln"},
}
var keepAlive = map[string]string{"sync": "var _ %s.Locker", "runtime": "var _ = %s.GOOS", "time": "var _ %s.Duration", "os": "var _ = %s.Args", "io/ioutil": "var _ = %s.Discard", "log": "var _ = %s.Prefix"}

func (r *rw) isBuiltin(e ast.Expr, name string) bool {
	id, ok := e.(*ast.Ident)
	if !ok || id.Name != name {
		return false
	}
	_, ok = r.info.Uses[id].(*types.Builtin)
	return ok
}

func (r *rw) under(e ast.Expr) types.Type {
	if tv, ok := r.info.Types[e]; ok && tv.Type != nil {
		return tv.Type.Underlying()
	}
	return nil
}

func (r *rw) walk(n ast.Node) {
	ast.Inspect(n, func(n ast.Node) bool {
		if n == nil || r.skip[n] {
			return false
		}
		switch x := n.(type) {
		case *ast.BlockStmt:
			r.list(x.List)
		case *ast.CaseClause:
			r.list(x.Body)
		case *ast.CommClause:
			r.list(x.Body)
		case *ast.ForStmt:
			if r.yields && len(x.Body.List) == 0 {
				r.before(x.Body.Lbrace+1, " verifsim.Y() ")
			}
		case *ast.RangeStmt:
			r.rangeStmt(x)
		case *ast.GoStmt:
			r.goStmt(x)
		case *ast.SendStmt:
			r.stats["send"]++
			r.before(x.Pos(), "verifsim.Send(")
			r.after(x.Chan.End(), ")")
			r.del(x.Arrow, x.Arrow+2)
			r.before(x.Value.Pos(), "(")
			r.after(x.Value.End(), ")")
		case *ast.AssignStmt:
			if len(x.Lhs) == 2 && len(x.Rhs) == 1 {
				if u, ok := unparen(x.Rhs[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
					r.recv(u, "Recv2")
				}
			}
		case *ast.ValueSpec:
			if len(x.Names) == 2 && len(x.Values) == 1 {
				if u, ok := unparen(x.Values[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
					r.recv(u, "Recv2")
				}
			}
		case *ast.UnaryExpr:
			if x.Op == token.ARROW {
				r.recv(x, "Recv")
			}
		case *ast.CallExpr:
			if r.isBuiltin(x.Fun, "close") {
				r.stats["close"]++
				r.before(x.Fun.Pos(), "verifsim.Close")
				r.del(x.Fun.Pos(), x.Fun.End())
			}
			if r.isBuiltin(x.Fun, "len") && len(x.Args) == 1 {
				if _, ok := r.under(x.Args[0]).(*types.Chan); ok {
					r.before(x.Fun.Pos(), "verifsim.ChanLen")
					r.del(x.Fun.Pos(), x.Fun.End())
				}
			}
		case *ast.SelectorExpr:
			if id, ok := x.X.(*ast.Ident); ok {
				if pn, ok := r.info.Uses[id].(*types.PkgName); ok {
					path := pn.Imported().Path()
					if (path == "os" || path == "io/ioutil" || path == "log") && !r.main {
						return true
					}
					if to, ok := selMap[path][x.Sel.Name]; ok {
						r.stats[path+"."+x.Sel.Name]++
						r.before(x.Pos(), "verifsim."+to)
						r.del(x.Pos(), x.End())
						r.keep[path] = fmt.Sprintf(keepAlive[path], id.Name)
						return false
					}
				}
			}
		case *ast.SelectStmt:
			r.selectStmt(x)
		}
		return true
	})
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

var recvDone = map[*ast.UnaryExpr]bool{}

func (r *rw) recv(u *ast.UnaryExpr, name string) {
	if recvDone[u] {
		return
	}
	recvDone[u] = true
	r.stats["recv"]++
	r.before(u.Pos(), "verifsim."+name+"(")
	r.del(u.OpPos, u.OpPos+2)
	r.after(u.X.End(), ")")
}

func (r *rw) list(l []ast.Stmt) {
	if !r.yields {
		return
	}
	for _, s := range l {
		switch s.(type) {
		case *ast.EmptyStmt, *ast.CaseClause, *ast.CommClause:
			continue
		}
		r.stats["yield"]++
		r.before(s.Pos(), "verifsim.Y(); ")
		r.split(s)
	}
}

// simple: an addressable expression without calls or receives.
func simple(e ast.Expr) bool {
	switch x := e.(type) {
	case *ast.Ident, *ast.BasicLit:
		return true
	case *ast.SelectorExpr:
		return simple(x.X)
	case *ast.IndexExpr:
		return simple(x.X) && simple(x.Index)
	case *ast.StarExpr:
		return simple(x.X)
	case *ast.ParenExpr:
		return simple(x.X)
	case *ast.BinaryExpr:
		return simple(x.X) && simple(x.Y)
	}
	return false
}

// plain: no construct inside that gets rewritten.
func (r *rw) plain(e ast.Expr) bool {
	ok := true
	ast.Inspect(e, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.FuncLit:
			ok = false
		case *ast.UnaryExpr:
			if x.Op == token.ARROW {
				ok = false
			}
		case *ast.SelectorExpr:
			if id, k := x.X.(*ast.Ident); k {
				if pn, k := r.info.Uses[id].(*types.PkgName); k && selMap[pn.Imported().Path()] != nil {
					ok = false
				}
			}
		case *ast.CallExpr:
			if r.isBuiltin(x.Fun, "close") || r.isBuiltin(x.Fun, "len") && len(x.Args) == 1 && isChan(r.under(x.Args[0])) {
				ok = false
			}
		}
		return ok
	})
	return ok
}

func isChan(t types.Type) bool { _, ok := t.(*types.Chan); return ok }

func hasCall(e ast.Expr) bool {
	c := false
	ast.Inspect(e, func(n ast.Node) bool {
		if _, ok := n.(*ast.CallExpr); ok {
			c = true
		}
		return !c
	})
	return c
}

// worth: might another goroutine see this variable?
func (r *rw) worth(e ast.Expr) bool {
	id, ok := e.(*ast.Ident)
	if !ok {
		return true
	}
	if id.Name == "_" {
		return false
	}
	o := r.info.Uses[id]
	if o == nil {
		return false
	}
	if o.Parent() == o.Pkg().Scope() {
		return true
	}
	return r.shared[o]
}

// split puts a yield between the read and the write of a read-modify-write statement.
func (r *rw) split(s ast.Stmt) {
	switch x := s.(type) {
	case *ast.IncDecStmt:
		if !simple(x.X) || !r.worth(x.X) {
			return
		}
		r.n++
		op := "+"
		if x.Tok == token.DEC {
			op = "-"
		}
		r.stats["split"]++
		r.before(x.X.Pos(), fmt.Sprintf("{ zzt%d := ", r.n))
		r.del(x.TokPos, x.TokPos+2)
		r.after(x.X.End(), fmt.Sprintf("; verifsim.Y(); %s = zzt%d %s 1 }", r.text(x.X), r.n, op))
	case *ast.AssignStmt:
		if len(x.Lhs) != 1 || len(x.Rhs) != 1 || x.Tok == token.DEFINE || !simple(x.Lhs[0]) || !r.worth(x.Lhs[0]) {
			return
		}
		if _, ok := r.under(x.Lhs[0]).(*types.Map); ok {
			return
		}
		if ix, ok := x.Lhs[0].(*ast.IndexExpr); ok {
			if _, ok := r.under(ix.X).(*types.Map); ok && x.Tok == token.ASSIGN {
				return
			}
		}
		lt := r.text(x.Lhs[0])
		if x.Tok != token.ASSIGN {
			op := strings.TrimSuffix(x.Tok.String(), "=")
			tv := r.info.Types[x.Rhs[0]]
			r.n++
			switch {
			case !hasCall(x.Rhs[0]) || tv.Value != nil:
				r.stats["split"]++
				r.before(x.Lhs[0].Pos(), fmt.Sprintf("{ zzt%d := ", r.n))
				r.del(x.TokPos, x.TokPos+token.Pos(len(x.Tok.String())))
				r.before(x.TokPos, fmt.Sprintf("; verifsim.Y(); %s = zzt%d %s (", lt, r.n, op))
				r.after(x.Rhs[0].End(), ") }")
			case r.plain(x.Rhs[0]):
				r.stats["split"]++
				r.del(x.Lhs[0].Pos(), x.Rhs[0].Pos())
				r.before(x.Lhs[0].Pos(), fmt.Sprintf("{ zze%d := ", r.n))
				r.after(x.Rhs[0].End(), fmt.Sprintf("; zzt%d := %s; verifsim.Y(); %s = zzt%d %s zze%d }", r.n, lt, lt, r.n, op, r.n))
			}
			return
		}
		// x = f(x)
		if !strings.Contains(r.text(x.Rhs[0]), lt) || !r.plain(x.Rhs[0]) {
			return
		}
		tv, ok := r.info.Types[x.Rhs[0]]
		if !ok || tv.Value != nil || tv.IsNil() {
			return
		}
		if b, ok := tv.Type.(*types.Basic); ok && b.Info()&types.IsUntyped != 0 {
			return
		}
		if !mentions(x.Rhs[0], lt, r) {
			return
		}
		r.n++
		r.stats["split"]++
		r.del(x.Lhs[0].Pos(), x.Rhs[0].Pos())
		r.before(x.Lhs[0].Pos(), fmt.Sprintf("{ zzt%d := ", r.n))
		r.after(x.Rhs[0].End(), fmt.Sprintf("; verifsim.Y(); %s = zzt%d }", lt, r.n))
	}
}

func mentions(e ast.Expr, lt string, r *rw) bool {
	m := false
	ast.Inspect(e, func(n ast.Node) bool {
		if x, ok := n.(ast.Expr); ok && r.text(x) == lt {
			m = true
		}
		return !m
	})
	return m
}

func (r *rw) goStmt(g *ast.GoStmt) {
	r.stats["go"]++
	c := g.Call
	r.del(g.Go, g.Go+2)
	lit, isLit := c.Fun.(*ast.FuncLit)
	if isLit && len(c.Args) == 0 && lit.Type.Results.NumFields() == 0 {
		r.before(g.Go, "verifsim.Go(")
		r.del(c.Lparen, c.Rparen+1)
		r.after(c.Fun.End(), ")")
		return
	}
	builtin := false
	if id, ok := unparen(c.Fun).(*ast.Ident); ok {
		_, builtin = r.info.Uses[id].(*types.Builtin)
	}
	if tv, ok := r.info.Types[c.Fun]; builtin || ok && tv.IsType() {
		r.before(g.Go, "verifsim.Go(func() { ")
		r.after(c.End(), " })")
		return
	}
	r.n++
	n := r.n
	lhs := fmt.Sprintf("zzf%d", n)
	call := fmt.Sprintf("zzf%d(", n)
	var kept []ast.Expr
	for i, a := range c.Args {
		if i > 0 {
			call += ", "
		}
		tv := r.info.Types[a]
		if tv.Value != nil || tv.IsNil() {
			call += r.text(a)
		} else {
			v := fmt.Sprintf("zza%d_%d", n, i)
			lhs += ", " + v
			call += v
			kept = append(kept, a)
		}
	}
	if c.Ellipsis.IsValid() {
		call += "..."
	}
	call += ")"
	r.before(g.Go, "{ "+lhs+" := ")
	pos := c.Lparen
	for _, a := range kept {
		r.del(pos, a.Pos())
		r.before(pos, ", ")
		pos = a.End()
	}
	r.del(pos, c.Rparen+1)
	r.after(c.Rparen+1, fmt.Sprintf("; verifsim.Go(func() { %s }) }", call))
}

func ident(e ast.Expr) string {
	if id, ok := e.(*ast.Ident); ok {
		return id.Name
	}
	return ""
}

func (r *rw) rangeStmt(x *ast.RangeStmt) {
	t := r.under(x.X)
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem().Underlying()
	}
	switch t.(type) {
	case *types.Map:
		r.n++
		n := r.n
		r.stats["maprange"]++
		k, v := "_", "_"
		if x.Tok == token.DEFINE && x.Key != nil && ident(x.Key) != "_" {
			k = ident(x.Key)
		}
		if x.Tok == token.DEFINE && x.Value != nil && ident(x.Value) != "_" {
			v = ident(x.Value)
		}
		r.del(x.For, x.X.Pos())
		r.before(x.For, fmt.Sprintf("for zzm%d, zzk%d, zzi%d, %s, %s := verifsim.MapIter(", n, n, n, k, v))
		r.after(x.X.End(), fmt.Sprintf("); zzi%d < len(zzk%d); zzi%d++", n, n, n))
		key := fmt.Sprintf("zzk%d[zzi%d]", n, n)
		pre := ""
		if v != "_" {
			pre += fmt.Sprintf(" var zzok%d bool; if %s, zzok%d = zzm%d[%s]; !zzok%d { continue };", n, v, n, n, key, n)
		} else if x.Tok == token.ASSIGN && x.Value != nil && ident(x.Value) != "_" {
			pre += fmt.Sprintf(" if zzv%d, zzok%d := zzm%d[%s]; !zzok%d { continue } else { %s = zzv%d };", n, n, n, key, n, r.text(x.Value), n)
		} else {
			pre += fmt.Sprintf(" if _, zzok%d := zzm%d[%s]; !zzok%d { continue };", n, n, key, n)
		}
		if k != "_" {
			pre += fmt.Sprintf(" %s = %s;", k, key)
		} else if x.Tok == token.ASSIGN && x.Key != nil && ident(x.Key) != "_" {
			pre += fmt.Sprintf(" %s = %s;", r.text(x.Key), key)
		}
		r.before(x.Body.Lbrace+1, pre)
	case *types.Chan:
		r.n++
		n := r.n
		r.stats["chanrange"]++
		r.del(x.For, x.X.Pos())
		if x.Tok == token.DEFINE && ident(x.Key) != "_" {
			v := ident(x.Key)
			// one variable per loop (language version of the rewritten files is go1.21)
			r.before(x.For, fmt.Sprintf("for zzc%d, %s := verifsim.ChanIter(", n, v))
			r.after(x.X.End(), "); ;")
			r.before(x.Body.Lbrace+1, fmt.Sprintf(" var zzok%d bool; if %s, zzok%d = verifsim.Recv2(zzc%d); !zzok%d { break };", n, v, n, n, n))
		} else {
			r.before(x.For, fmt.Sprintf("for zzc%d := (", n))
			r.after(x.X.End(), "); ;")
			if x.Tok == token.ASSIGN && ident(x.Key) != "_" {
				r.before(x.Body.Lbrace+1, fmt.Sprintf(" if zzv%d, zzok%d := verifsim.Recv2(zzc%d); !zzok%d { break } else { %s = zzv%d };", n, n, n, n, r.text(x.Key), n))
			} else {
				r.before(x.Body.Lbrace+1, fmt.Sprintf(" if _, zzok%d := verifsim.Recv2(zzc%d); !zzok%d { break };", n, n, n))
			}
		}
	default:
		if r.yields && len(x.Body.List) == 0 {
			r.before(x.Body.Lbrace+1, " verifsim.Y() ")
		}
	}
}

func (r *rw) selectStmt(x *ast.SelectStmt) {
	r.stats["select"]++
	if len(x.Body.List) == 0 {
		r.del(x.Pos(), x.End())
		r.before(x.Pos(), "verifsim.Forever()")
		return
	}
	r.n++
	n := r.n
	var vars, inits, names []string
	hasDef := false
	i := 0
	for _, cl := range x.Body.List {
		cc := cl.(*ast.CommClause)
		if cc.Comm == nil {
			hasDef = true
			continue
		}
		v := fmt.Sprintf("zzs%d_%d", n, i)
		var init, bind string
		switch s := cc.Comm.(type) {
		case *ast.SendStmt:
			init = fmt.Sprintf("verifsim.SendCase(%s)(%s)", r.text(s.Chan), r.text(s.Value))
		case *ast.ExprStmt:
			init = fmt.Sprintf("verifsim.RecvCase(%s)", r.text(unparen(s.X).(*ast.UnaryExpr).X))
		case *ast.AssignStmt:
			init = fmt.Sprintf("verifsim.RecvCase(%s)", r.text(unparen(s.Rhs[0]).(*ast.UnaryExpr).X))
			if len(s.Lhs) == 1 {
				if ident(s.Lhs[0]) != "_" || s.Tok == token.ASSIGN {
					bind = fmt.Sprintf(" %s %s %s.Val;", r.text(s.Lhs[0]), s.Tok, v)
				}
			} else {
				bind = fmt.Sprintf(" %s, %s %s %s.Val, %s.OK;", r.text(s.Lhs[0]), r.text(s.Lhs[1]), s.Tok, v, v)
			}
		}
		vars = append(vars, v)
		names = append(names, v)
		inits = append(inits, init)
		r.skip[cc.Comm] = true
		r.del(cc.Case, cc.Colon+1)
		r.before(cc.Case, fmt.Sprintf("case %d:%s", i, bind))
		i++
	}
	r.del(x.Select, x.Select+6)
	if len(vars) > 0 {
		r.before(x.Select, fmt.Sprintf("switch %s := %s; verifsim.Select(%v, %s)", strings.Join(vars, ", "), strings.Join(inits, ", "), hasDef, strings.Join(names, ", ")))
	} else {
		r.before(x.Select, fmt.Sprintf("switch verifsim.Select(%v)", hasDef))
	}
	if !hasDef {
		r.after(x.Body.Rbrace, " ; default: panic(\"verifsim: select\") ")
	}
	// a blank line so that a comment before the brace does not swallow it is not needed: the
	// insertion is at the brace itself
}

func (r *rw) render(f *ast.File, fn string) string {
	type ev struct{ a, b int }
	sort.Slice(r.dels, func(i, j int) bool { return r.dels[i][0] < r.dels[j][0] })
	r.before(f.Name.End(), "; import verifsim \"verifsim\"")
	// the file's own build constraint is merged into ours
	var expr constraint.Expr
	for _, cg := range f.Comments {
		if cg.Pos() > f.Package {
			break
		}
		for _, c := range cg.List {
			if constraint.IsGoBuild(c.Text) {
				e, err := constraint.Parse(c.Text)
				if err == nil {
					expr = e
					r.dels = append(r.dels, [2]int{r.off(c.Pos()), r.off(c.End())})
				}
			}
		}
	}
	sort.Slice(r.dels, func(i, j int) bool { return r.dels[i][0] < r.dels[j][0] })
	var b strings.Builder
	g := "go1.21"
	if expr != nil {
		g = "go1.21 && (" + expr.String() + ")"
	}
	b.WriteString("//go:build " + g + "\n\n//line " + fn + ":1\n")
	offs := map[int]bool{}
	for o := range r.beg {
		offs[o] = true
	}
	for o := range r.end {
		offs[o] = true
	}
	di := 0
	deleted := func(i int) bool {
		for di < len(r.dels) && r.dels[di][1] <= i {
			di++
		}
		for k := di; k < len(r.dels) && r.dels[k][0] <= i; k++ {
			if i < r.dels[k][1] {
				return true
			}
		}
		return false
	}
	for i := 0; i <= len(r.src); i++ {
		if offs[i] {
			b.WriteString(r.end[i])
			b.WriteString(r.beg[i])
		}
		if i < len(r.src) && !deleted(i) {
			b.WriteByte(r.src[i])
		}
	}
	b.WriteString("\n")
	for _, p := range []string{"sync", "runtime", "time", "os", "io/ioutil", "log"} {
		if k := r.keep[p]; k != "" {
			b.WriteString(k + "\n")
		}
	}
	return b.String()
}
