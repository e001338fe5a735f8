// inst copies a Go package tree, putting a scheduling point before every statement, replacing the blocking parts of
// package sync by cooperative ones, and adding a function that restores every package variable to its initial value.
// The copy behaves as the original; cmd/mc built with -tags sched explores its interleavings.
package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/build"
	"go/format"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strconv"
	"strings"
)

const mod = "github.com/ecoshub/jin"

var (
	locs []string
	keys []bool          // whether the statement at the point touches a package variable or package sync
	pkgv map[string]bool // the package variables
	free string          // something found that blocks or runs outside the scheduler's control
)

func die(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "inst:", err)
		os.Exit(2)
	}
}

func main() {
	src, dst := os.Args[1], os.Args[2]
	var dirs []string
	die(filepath.Walk(src, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() {
			n := fi.Name()
			if p != src && (strings.HasPrefix(n, ".") || n == "test" || n == "tests" || n == "testdata" || n == "vendor") {
				return filepath.SkipDir
			}
			dirs = append(dirs, p)
		}
		return nil
	}))
	b, err := os.ReadFile(filepath.Join(src, "go.mod"))
	die(err)
	die(os.MkdirAll(dst, 0o755))
	die(os.WriteFile(filepath.Join(dst, "go.mod"), b, 0o644))
	if b, err := os.ReadFile(filepath.Join(src, "go.sum")); err == nil {
		die(os.WriteFile(filepath.Join(dst, "go.sum"), b, 0o644))
	}
	var resets []string
	for _, d := range dirs {
		rel, err := filepath.Rel(src, d)
		die(err)
		if pkg := dir(d, filepath.Join(dst, rel)); pkg != "" && pkg != "main" {
			resets = append(resets, rel)
		}
	}
	vs := filepath.Join(dst, "vsched")
	die(os.MkdirAll(vs, 0o755))
	var tab bytes.Buffer
	tab.WriteString("package vsched\n\n// Loc names the points.\nvar Loc = []string{\n")
	for _, l := range locs {
		fmt.Fprintf(&tab, "\t%q,\n", l)
	}
	tab.WriteString("}\n\n// Key tells the points whose statement touches a package variable or package sync.\nvar Key = map[int]bool{\n")
	for i, k := range keys {
		if k {
			fmt.Fprintf(&tab, "\t%d: true,\n", i)
		}
	}
	tab.WriteString("}\n")
	die(os.WriteFile(filepath.Join(vs, "loc.go"), tab.Bytes(), 0o644))
	die(os.WriteFile(filepath.Join(vs, "vsched.go"), []byte(vschedSrc), 0o644))
	fmt.Printf("instrumented %d points\n", len(locs))
	if free != "" {
		fmt.Fprintf(os.Stderr, "inst: the package uses %s, which the scheduler does not control\n", free)
		os.Exit(3)
	}
}

func dir(from, to string) string {
	es, err := os.ReadDir(from)
	die(err)
	fset := token.NewFileSet()
	pkg := ""
	var reset bytes.Buffer
	var inits int
	var aliases = map[string]string{}
	var parsed []*ast.File
	pkgv = map[string]bool{"sync": true, "atomic": true}
	for _, e := range es {
		if n := e.Name(); !e.IsDir() && strings.HasSuffix(n, ".go") && !strings.HasSuffix(n, "_test.go") {
			f, err := parser.ParseFile(token.NewFileSet(), filepath.Join(from, n), nil, 0)
			die(err)
			for _, d := range f.Decls {
				if gd, ok := d.(*ast.GenDecl); ok && gd.Tok == token.VAR {
					for _, s := range gd.Specs {
						for _, id := range s.(*ast.ValueSpec).Names {
							pkgv[id.Name] = true
						}
					}
				}
			}
			if f.Name.Name != "main" {
				parsed = append(parsed, f)
			}
		}
	}
	written := map[string]bool{"sync": true, "atomic": true}
	for _, f := range parsed {
		for _, d := range f.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Body != nil && !(fd.Recv == nil && fd.Name.Name == "init") {
				writes(fd.Body, written)
			}
		}
	}
	for v := range pkgv {
		if !written[v] {
			delete(pkgv, v)
		}
	}
	for _, e := range es {
		n := e.Name()
		if e.IsDir() || !strings.HasSuffix(n, ".go") || strings.HasSuffix(n, "_test.go") {
			continue
		}
		if ok, err := build.Default.MatchFile(from, n); err != nil || !ok {
			continue
		}
		b, err := os.ReadFile(filepath.Join(from, n))
		die(err)
		f, err := parser.ParseFile(fset, n, b, 0)
		die(err)
		if f.Name.Name == "main" {
			continue
		}
		pkg = f.Name.Name
		hasInit := file(fset, f, n, &inits)
		_ = hasInit
		var out bytes.Buffer
		die(format.Node(&out, fset, f))
		var body bytes.Buffer
		vars(fset, f, &body)
		text := out.String() + "\nvar _ = vsched__.P\n"
		if body.Len() > 0 {
			fn := "vreset" + strconv.Itoa(len(aliases)) + "__"
			aliases[n] = fn
			text += "\nfunc " + fn + "() {\n" + body.String() + "}\n"
			fmt.Fprintf(&reset, "\t\t%s()\n", fn)
		}
		die(os.MkdirAll(to, 0o755))
		die(os.WriteFile(filepath.Join(to, n), []byte(text), 0o644))
	}
	if pkg == "" {
		return ""
	}
	for i := 0; i < inits; i++ {
		fmt.Fprintf(&reset, "\t\tvinit%d__()\n", i)
	}
	g := "package " + pkg + "\n\nimport vsched__ \"" + mod + "/vsched\"\n\nfunc init() {\n\tvsched__.Resets = append(vsched__.Resets, func() {\n" + reset.String() + "\t})\n}\n"
	die(os.WriteFile(filepath.Join(to, "zz_vreset.go"), []byte(g), 0o644))
	return pkg
}

// writes collects the names used in the body otherwise than by reading an element, the length or the range, or by a
// comparison: package variables never used otherwise keep their initial value.
func writes(body ast.Node, out map[string]bool) {
	reads := map[*ast.Ident]bool{}
	lhs := map[ast.Expr]bool{}
	mark := func(e ast.Expr) {
		for e != nil {
			lhs[e] = true
			switch t := e.(type) {
			case *ast.IndexExpr:
				e = t.X
			case *ast.SelectorExpr:
				e = t.X
			case *ast.StarExpr:
				e = t.X
			case *ast.ParenExpr:
				e = t.X
			case *ast.SliceExpr:
				e = t.X
			default:
				return
			}
		}
	}
	read := func(e ast.Expr) {
		if id, ok := e.(*ast.Ident); ok && !lhs[e] {
			reads[id] = true
		}
	}
	ast.Inspect(body, func(n ast.Node) bool {
		switch t := n.(type) {
		case *ast.AssignStmt:
			for _, e := range t.Lhs {
				mark(e)
			}
		case *ast.IncDecStmt:
			mark(t.X)
		case *ast.UnaryExpr:
			if t.Op == token.AND {
				mark(t.X)
			}
		case *ast.RangeStmt:
			mark(t.Key)
			mark(t.Value)
			read(t.X)
		case *ast.IndexExpr:
			if !lhs[ast.Expr(t)] {
				read(t.X)
			}
		case *ast.BinaryExpr:
			read(t.X)
			read(t.Y)
		case *ast.CallExpr:
			if f, ok := t.Fun.(*ast.Ident); ok && (f.Name == "len" || f.Name == "cap") && len(t.Args) == 1 {
				read(t.Args[0])
			}
		}
		return true
	})
	ast.Inspect(body, func(n ast.Node) bool {
		if id, ok := n.(*ast.Ident); ok && !reads[id] {
			out[id.Name] = true
		}
		return true
	})
}

// file adds the points; init functions become ordinary ones called by a new init.
func file(fset *token.FileSet, f *ast.File, name string, inits *int) bool {
	f.Comments = nil
	had := false
	var extra []ast.Decl
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok {
			continue
		}
		fd.Doc = nil
		if fd.Recv == nil && fd.Name.Name == "init" && fd.Body != nil {
			nn := "vinit" + strconv.Itoa(*inits) + "__"
			*inits++
			fd.Name = ast.NewIdent(nn)
			extra = append(extra, &ast.FuncDecl{Name: ast.NewIdent("init"), Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: &ast.CallExpr{Fun: ast.NewIdent(nn)}}}}})
			had = true
		}
	}
	syncName := "sync"
	for _, im := range f.Imports {
		if im.Path.Value == `"sync"` && im.Name != nil {
			syncName = im.Name.Name
			pkgv[syncName] = true
		}
		if im.Path.Value == `"sync/atomic"` && im.Name != nil {
			pkgv[im.Name.Name] = true
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch t := n.(type) {
		case *ast.GoStmt:
			free = "goroutines of its own"
		case *ast.ChanType:
			free = "channels"
		case *ast.SelectorExpr:
			if x, ok := t.X.(*ast.Ident); ok && x.Name == syncName && (t.Sel.Name == "Cond" || t.Sel.Name == "NewCond" || t.Sel.Name == "WaitGroup") {
				free = "sync." + t.Sel.Name
			}
		case *ast.BlockStmt:
			if t != nil {
				t.List = points(fset, name, t.List)
			}
		case *ast.CaseClause:
			t.Body = points(fset, name, t.Body)
		case *ast.CommClause:
			t.Body = points(fset, name, t.Body)
		}
		return true
	})
	for _, im := range f.Imports {
		if im.Path.Value == `"sync"` {
			im.Path.Value = strconv.Quote(mod + "/vsched")
			if im.Name == nil {
				im.Name = ast.NewIdent("sync")
			}
		}
	}
	imp := &ast.ImportSpec{Name: ast.NewIdent("vsched__"), Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(mod + "/vsched")}}
	decls := []ast.Decl{&ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{imp}}}
	f.Decls = append(append(decls, f.Decls...), extra...)
	return had
}

func points(fset *token.FileSet, name string, l []ast.Stmt) []ast.Stmt {
	// the clauses of a switch or select are themselves the statements of its block
	for _, s := range l {
		switch s.(type) {
		case *ast.CaseClause, *ast.CommClause:
			return l
		}
	}
	out := make([]ast.Stmt, 0, 2*len(l))
	for _, s := range l {
		id := len(locs)
		p := fset.Position(s.Pos())
		key := false
		ast.Inspect(s, func(n ast.Node) bool {
			if _, ok := n.(*ast.BlockStmt); ok {
				return false
			}
			if id, ok := n.(*ast.Ident); ok && id.Name != "_" && pkgv[id.Name] {
				key = true
			}
			return true
		})
		keys = append(keys, key)
		locs = append(locs, fmt.Sprintf("%s:%d", name, p.Line))
		out = append(out, &ast.ExprStmt{X: &ast.CallExpr{Fun: &ast.SelectorExpr{X: ast.NewIdent("vsched__"), Sel: ast.NewIdent("P")}, Args: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(id)}}}}, s)
	}
	return out
}

// vars writes statements giving every package variable of the file its initial value again.
func vars(fset *token.FileSet, f *ast.File, w *bytes.Buffer) {
	for _, d := range f.Decls {
		gd, ok := d.(*ast.GenDecl)
		if !ok || gd.Tok != token.VAR {
			continue
		}
		for _, s := range gd.Specs {
			vs := s.(*ast.ValueSpec)
			var names []string
			blank := true
			for _, n := range vs.Names {
				names = append(names, n.Name)
				blank = blank && n.Name == "_"
			}
			if blank {
				continue
			}
			src := func(n ast.Node) string {
				var b bytes.Buffer
				die(format.Node(&b, fset, n))
				return b.String()
			}
			if len(vs.Values) == 0 {
				for _, n := range names {
					if n != "_" {
						fmt.Fprintf(w, "\t%s = *new(%s)\n", n, src(vs.Type))
					}
				}
				continue
			}
			var vals []string
			for _, v := range vs.Values {
				vals = append(vals, src(v))
			}
			fmt.Fprintf(w, "\t%s = %s\n", strings.Join(names, ", "), strings.Join(vals, ", "))
		}
	}
}

const vschedSrc = `//go:build go1.21

// Package vsched is the scheduler's side of the instrumented copy.
package vsched

import "sync"

// Hook is told of every point, Blocked of a call that cannot go on.
var (
	Hook    func(id int)
	Blocked func()
	Resets  []func()
)

// Sync is the point before an operation of package sync.
const Sync = -1

// Name names a point.
func Name(id int) string {
	if id < 0 {
		return "operation of package sync"
	}
	return Loc[id]
}

// P is a scheduling point.
func P(id int) {
	if Hook != nil {
		Hook(id)
	}
}

// Reset gives every package variable its initial value.
func Reset() {
	for _, f := range Resets {
		f()
	}
}

func wait() {
	if Blocked == nil {
		panic("vsched: blocked for ever")
	}
	Blocked()
}

type Locker = sync.Locker
type Map = sync.Map
type WaitGroup = sync.WaitGroup
type Cond = sync.Cond

func NewCond(l Locker) *Cond { return sync.NewCond(l) }

type Mutex struct{ held bool }

func (m *Mutex) Lock() {
	P(Sync)
	for m.held {
		wait()
	}
	m.held = true
}

func (m *Mutex) TryLock() bool {
	P(Sync)
	if m.held {
		return false
	}
	m.held = true
	return true
}

func (m *Mutex) Unlock() {
	P(Sync)
	if !m.held {
		panic("sync: unlock of unlocked mutex")
	}
	m.held = false
}

type RWMutex struct {
	w bool
	r int
}

func (m *RWMutex) Lock() {
	P(Sync)
	for m.w || m.r > 0 {
		wait()
	}
	m.w = true
}

func (m *RWMutex) TryLock() bool {
	P(Sync)
	if m.w || m.r > 0 {
		return false
	}
	m.w = true
	return true
}

func (m *RWMutex) TryRLock() bool {
	P(Sync)
	if m.w {
		return false
	}
	m.r++
	return true
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

func (m *RWMutex) Unlock() {
	P(Sync)
	if !m.w {
		panic("sync: Unlock of unlocked RWMutex")
	}
	m.w = false
}

func (m *RWMutex) RLock() {
	P(Sync)
	for m.w {
		wait()
	}
	m.r++
}

func (m *RWMutex) RUnlock() {
	P(Sync)
	if m.r == 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	m.r--
}

type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	P(Sync)
	if o.done {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T {
		o.Do(func() { v = f() })
		return v
	}
}

func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	var o Once
	var v T
	var u U
	return func() (T, U) {
		o.Do(func() { v, u = f() })
		return v, u
	}
}

// Pool hands the most recently returned object out first, and is therefore the least forgiving.
type Pool struct {
	New func() interface{}
	l   []interface{}
}

func (p *Pool) Get() interface{} {
	P(Sync)
	if n := len(p.l); n > 0 {
		x := p.l[n-1]
		p.l = p.l[:n-1]
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(x interface{}) {
	P(Sync)
	if x != nil {
		p.l = append(p.l, x)
	}
}
`
