// Command rewriter copies the packages of a Go module into a new tree whose nondeterminism is under the control
// of the simulation runtime: locks, channels, goroutines, clocks, randomness, files, maps.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/printer"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
)

type pkgInfo struct {
	ImportPath string
	Dir        string
	Name       string
	Export     string
	GoFiles    []string
	EmbedFiles []string
	Standard   bool
	Imports    []string
	Deps       []string
	Module     *struct{ Path, Dir string }
	Error      *struct{ Err string }
}

const modPath = "github.com/solarisdb/solaris"
const zsim = modPath + "/zsim/"

// third party packages which are instrumented: import path -> directory in the module
var third = map[string]string{
	"github.com/oklog/ulid/v2":  "zthird/ulid",
	"github.com/tidwall/buntdb": "zthird/buntdb",

	"database/sql":                     "zthird/sql",
	"github.com/jmoiron/sqlx":          "zthird/sqlx",
	"github.com/jmoiron/sqlx/reflectx": "zthird/sqlx/reflectx",

	"github.com/go-redis/redis/v8":                  "zthird/redis",
	"github.com/go-redis/redis/v8/internal":         "zthird/redis/internal",
	"github.com/go-redis/redis/v8/internal/pool":    "zthird/redis/internal/pool",
	"github.com/go-redis/redis/v8/internal/proto":   "zthird/redis/internal/proto",
	"github.com/go-redis/redis/v8/internal/hashtag": "zthird/redis/internal/hashtag",
	"github.com/go-redis/redis/v8/internal/hscan":   "zthird/redis/internal/hscan",
	"github.com/go-redis/redis/v8/internal/rand":    "zthird/redis/internal/rand",
	"github.com/go-redis/redis/v8/internal/util":    "zthird/redis/internal/util",
}

// packages which are replaced
var replaced = map[string]string{
	"github.com/edsrzf/mmap-go":     zsim + "smmap",
	"github.com/rubenv/sql-migrate": zsim + "smigrate",
}

const (
	modePlain = iota // imports only
	modeSubst        // symbols, no preemption points
	modeFull
)

func mode(path string) int {
	rel := strings.TrimPrefix(path, modPath+"/")
	switch {
	case strings.HasPrefix(rel, "api/gen"), strings.HasPrefix(rel, "golibs/logging"), strings.HasPrefix(rel, "golibs/errors"),
		strings.Contains(rel, "genproto"):
		return modePlain
	case strings.HasPrefix(rel, "pkg/ql"), strings.HasPrefix(rel, "pkg/intervals"), rel == "golibs", strings.HasPrefix(rel, "golibs/cast"),
		strings.HasPrefix(rel, "golibs/datetime"), strings.HasPrefix(rel, "golibs/strutil"), strings.HasPrefix(rel, "golibs/xbinary"),
		strings.HasPrefix(rel, "pkg/version"):
		return modeSubst
	}
	return modeFull
}

type sub struct{ pkg, sym string }

var table = map[string]map[string]sub{}

func def(path, zpkg string, syms ...string) {
	if table[path] == nil {
		table[path] = map[string]sub{}
	}
	for _, s := range syms {
		n := s
		if i := strings.IndexByte(s, '='); i >= 0 {
			s, n = s[:i], s[i+1:]
		}
		table[path][s] = sub{zpkg, n}
	}
}

func init() {
	def("sync", "ssync", "Mutex", "RWMutex", "WaitGroup", "Once", "Cond", "NewCond", "Pool", "Map", "Locker", "OnceFunc", "OnceValue", "OnceValues")
	def("sync/atomic", "satomic", "*")
	def("time", "stime", "Now", "Since", "Until", "Sleep", "After", "AfterFunc", "NewTimer", "NewTicker", "Tick", "Timer", "Ticker")
	def("google.golang.org/protobuf/types/known/timestamppb", "stime", "Now=PBNow")
	def("context", "sctx", "WithCancel", "WithCancelCause", "WithTimeout", "WithDeadline", "AfterFunc", "WithoutCancel", "Cause", "WithTimeoutCause", "WithDeadlineCause")
	def("os", "sos", "Open", "Create", "OpenFile", "File", "Stat", "Lstat", "Remove", "RemoveAll", "Rename", "Link", "Truncate", "Mkdir", "MkdirAll",
		"ReadFile", "WriteFile", "ReadDir", "Chtimes", "Chmod", "TempDir", "CreateTemp", "MkdirTemp")
	def("io/ioutil", "sos", "ReadFile", "WriteFile", "TempDir=MkdirTemp", "TempFile=CreateTemp")
	def("path/filepath", "sos", "Walk", "WalkDir", "Glob")
	def("math/rand", "srand", "NewSource", "Int", "Intn", "Int31", "Int31n", "Int63", "Int63n", "Uint32", "Uint64", "Float64", "Float32", "Perm", "Shuffle", "NormFloat64", "ExpFloat64", "Seed", "Read")
	def("math/rand/v2", "srand", "Int", "IntN=Intn", "Int32=Int31", "Int64=Int63", "Int64N=Int63n", "Int32N=Int31n", "Uint32", "Uint64", "Float64", "Float32", "Perm", "Shuffle",
		"Uint", "UintN", "Uint32N", "Uint64N", "N", "NormFloat64", "ExpFloat64")
	def("crypto/rand", "srand", "Read", "Reader")
	def("io", "sio", "Pipe", "PipeReader", "PipeWriter")
	def("os/signal", "ssignal", "Notify", "Stop", "Ignore", "Reset", "NotifyContext")
	def("runtime", "sim", "Gosched=YS")
	def("reflect", "sim", "Select=ReflectSelect")
}

// symbols of the file packages without a replacement are refused when they touch the file system
var refused = map[string]map[string]bool{
	"os":      {"Symlink": true, "Readlink": true, "NewFile": true, "Pipe": true, "DirFS": true, "CopyFS": true, "StartProcess": true, "Chdir": true, "OpenRoot": true},
	"syscall": {"Open": true, "Mmap": true, "Ftruncate": true, "Rename": true, "Unlink": true},
}

var (
	pkgs    = map[string]*pkgInfo{}
	goCmd   = "go"
	outDir  string
	repoDir string
)

func fatal(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "rewriter: "+f+"\n", a...)
	os.Exit(3)
}

func main() {
	var roots string
	flag.StringVar(&repoDir, "repo", "/repo", "")
	flag.StringVar(&outDir, "out", "", "")
	flag.StringVar(&roots, "roots", "", "")
	flag.StringVar(&goCmd, "go", "go", "")
	flag.BoolVar(&raceMode, "race", false, "mark accesses to shared memory")
	flag.Parse()

	args := []string{"list", "-mod=readonly", "-overlay=" + overlay(), "-export", "-deps", "-e", "-json=ImportPath,Dir,Name,Export,GoFiles,EmbedFiles,Standard,Imports,Deps,Module,Error"}
	args = append(args, strings.Split(roots, ",")...)
	cmd := exec.Command(goCmd, args...)
	cmd.Dir = repoDir
	cmd.Stderr = os.Stderr
	out, err := cmd.Output()
	if err != nil {
		fatal("go list: %v", err)
	}
	dec := json.NewDecoder(bytes.NewReader(out))
	for {
		p := &pkgInfo{}
		if err := dec.Decode(p); err == io.EOF {
			break
		} else if err != nil {
			fatal("%v", err)
		}
		if p.Error != nil {
			fatal("package %s: %s", p.ImportPath, p.Error.Err)
		}
		pkgs[p.ImportPath] = p
	}
	var todo []*pkgInfo
	for _, p := range pkgs {
		if p.Standard && third[p.ImportPath] == "" {
			continue
		}
		if p.Module != nil && p.Module.Path == modPath || third[p.ImportPath] != "" {
			todo = append(todo, p)
		}
	}
	sort.Slice(todo, func(i, j int) bool { return todo[i].ImportPath < todo[j].ImportPath })
	var wg sync.WaitGroup
	sem := make(chan bool, 8)
	for _, p := range todo {
		wg.Add(1)
		go func() {
			defer wg.Done()
			sem <- true
			doPkg(p)
			<-sem
		}()
	}
	wg.Wait()
	for _, f := range []string{"go.mod", "go.sum"} {
		b, err := os.ReadFile(filepath.Join(repoDir, f))
		if err != nil {
			fatal("%v", err)
		}
		put(filepath.Join(outDir, f), b)
	}
}

// overlay hides the files of the packages which are for their tests only (they start containers)
func overlay() string {
	repl := map[string]string{}
	dir := filepath.Join(repoDir, "pkg/storage/postgres")
	es, _ := os.ReadDir(dir)
	for _, e := range es {
		fn := filepath.Join(dir, e.Name())
		if !strings.HasSuffix(fn, ".go") || strings.HasSuffix(fn, "_test.go") {
			continue
		}
		af, err := parser.ParseFile(token.NewFileSet(), fn, nil, parser.ImportsOnly)
		if err != nil {
			fatal("%v", err)
		}
		for _, is := range af.Imports {
			if path, _ := strconv.Unquote(is.Path.Value); strings.HasPrefix(path, "github.com/testcontainers/") || strings.HasPrefix(path, "github.com/stretchr/testify") {
				repl[fn] = ""
			}
		}
	}
	b, _ := json.Marshal(map[string]any{"Replace": repl})
	fn, err := filepath.Abs(filepath.Join(outDir, "overlay.json"))
	if err != nil {
		fatal("%v", err)
	}
	put(fn, b)
	return fn
}

func put(name string, b []byte) {
	os.MkdirAll(filepath.Dir(name), 0755)
	if old, err := os.ReadFile(name); err == nil && bytes.Equal(old, b) {
		return
	}
	if err := os.WriteFile(name, b, 0644); err != nil {
		fatal("%v", err)
	}
}

func newPath(path string) string {
	if d := third[path]; d != "" {
		return modPath + "/" + d
	}
	if r := replaced[path]; r != "" {
		return r
	}
	return path
}

type rw struct {
	fset  *token.FileSet
	info  *types.Info
	pkg   *types.Package
	full  bool
	zused map[string]bool
	n     int
	file  *ast.File
	name  string
	// nosplit: the statement must stay a simple statement
	nosplit bool
	race    bool
	capt    map[types.Object]bool
	taken   map[types.Object]bool
}

func doPkg(p *pkgInfo) {
	m := mode(p.ImportPath)
	if third[p.ImportPath] != "" {
		m = modeFull
	}
	rel := strings.TrimPrefix(strings.TrimPrefix(p.ImportPath, modPath), "/")
	if d := third[p.ImportPath]; d != "" {
		rel = d
	}
	dst := filepath.Join(outDir, rel)
	fset := token.NewFileSet()
	var files []*ast.File
	for _, f := range p.GoFiles {
		fn := filepath.Join(p.Dir, f)
		if m == modePlain {
			// only the imports change
			af, err := parser.ParseFile(fset, fn, nil, parser.ParseComments)
			if err != nil {
				fatal("%v", err)
			}
			for _, is := range af.Imports {
				path, _ := strconv.Unquote(is.Path.Value)
				is.Path.Value = strconv.Quote(newPath(path))
			}
			var buf bytes.Buffer
			printer.Fprint(&buf, fset, af)
			put(filepath.Join(dst, f), buf.Bytes())
			continue
		}
		src, err := os.ReadFile(fn)
		if err != nil {
			fatal("%v", err)
		}
		if third[p.ImportPath] != "" {
			// the standard library lets others link to its private functions; the comments are dropped
		} else if bytes.Contains(src, []byte("//go:linkname")) {
			fatal("%s: unsupported directive", fn)
		}
		af, err := parser.ParseFile(fset, fn, src, parser.SkipObjectResolution)
		if err != nil {
			fatal("%v", err)
		}
		files = append(files, af)
	}
	for _, e := range p.EmbedFiles {
		b, _ := os.ReadFile(filepath.Join(p.Dir, e))
		put(filepath.Join(dst, e), b)
		if m != modePlain {
			fatal("%s: embedded files in an instrumented package", p.ImportPath)
		}
	}
	if m == modePlain {
		return
	}
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		d := pkgs[path]
		if d == nil || d.Export == "" {
			return nil, fmt.Errorf("no export data of %s", path)
		}
		return os.Open(d.Export)
	})
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{}, Implicits: map[ast.Node]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{}}
	conf := types.Config{Importer: imp, Error: func(err error) {}}
	tp, err := conf.Check(p.ImportPath, fset, files, info)
	if err != nil {
		fatal("%s: %v", p.ImportPath, err)
	}
	g := &globals{}
	for i, f := range files {
		r := &rw{fset: fset, info: info, pkg: tp, full: m == modeFull, zused: map[string]bool{}, file: f, name: p.GoFiles[i]}
		if m == modeFull {
			r.initFuncs(f, g)
			if raceMode && third[p.ImportPath] == "" {
				r.race = true
				r.captured(f)
				r.takenVars(f)
			}
		}
		r.decls(f)
		if m == modeFull {
			r.collectGlobals(f, g)
		}
		r.imports(f)
		var buf bytes.Buffer
		cfg := printer.Config{Mode: printer.UseSpaces | printer.TabIndent | printer.SourcePos, Tabwidth: 8}
		if err := cfg.Fprint(&buf, fset, f); err != nil {
			fatal("%s: %v", p.ImportPath, err)
		}
		out := strings.ReplaceAll(buf.String(), "//line "+repoDir+"/", "//line ")
		put(filepath.Join(dst, p.GoFiles[i]), []byte(out))
	}
	if m == modeFull {
		g.write(filepath.Join(dst, "zz_sim.go"), p.Name, info, fset)
	}
}

// ---- package level variables

type initFn struct{ name string }
type globals struct {
	vars  []string
	zero  []string       // code
	inits []string       // names of renamed init functions
	lhs   map[string]int // file local helper functions, by variable name
	help  map[*types.Var]string
	order []*types.Initializer
}

func (r *rw) initFuncs(f *ast.File, g *globals) {
	var add []ast.Decl
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Recv != nil || fd.Name.Name != "init" {
			continue
		}
		n := fmt.Sprintf("zinit_%d", len(g.inits))
		g.inits = append(g.inits, n)
		fd.Name = ast.NewIdent(n)
		add = append(add, &ast.FuncDecl{Name: ast.NewIdent("init"), Type: &ast.FuncType{Params: &ast.FieldList{}},
			Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: &ast.CallExpr{Fun: ast.NewIdent(n)}}}}})
	}
	f.Decls = append(f.Decls, add...)
}

// collectGlobals adds, to the file, a function zreset_<var> per initialised variable and per zero variable
func (r *rw) collectGlobals(f *ast.File, g *globals) {
	if g.help == nil {
		g.help = map[*types.Var]string{}
	}
	errT := types.Universe.Lookup("error").Type()
	var add []ast.Decl
	for _, d := range f.Decls {
		gd, ok := d.(*ast.GenDecl)
		if !ok || gd.Tok != token.VAR {
			continue
		}
		for _, s := range gd.Specs {
			vs := s.(*ast.ValueSpec)
			var names []*ast.Ident
			skip := true
			for _, n := range vs.Names {
				names = append(names, n)
				if n.Name != "_" {
					v, _ := r.info.Defs[n].(*types.Var)
					if v != nil && !types.Identical(v.Type(), errT) {
						skip = false
					}
				}
			}
			if skip {
				continue
			}
			body := func(lhs []ast.Expr, rhs []ast.Expr) []ast.Stmt {
				return []ast.Stmt{&ast.AssignStmt{Lhs: lhs, Tok: token.ASSIGN, Rhs: rhs}}
			}
			mk := func(name string, st []ast.Stmt) {
				add = append(add, &ast.FuncDecl{Name: ast.NewIdent(name), Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: st}})
			}
			reg := func(n *ast.Ident, fn string) {
				v := r.info.Defs[n].(*types.Var)
				g.vars = append(g.vars, n.Name)
				g.help[v] = fn
			}
			switch {
			case len(vs.Values) == 0:
				for _, n := range names {
					if n.Name == "_" || types.Identical(r.info.Defs[n].Type(), errT) {
						continue
					}
					fn := "zreset_" + n.Name
					mk(fn, []ast.Stmt{
						&ast.DeclStmt{Decl: &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{ast.NewIdent("z")}, Type: vs.Type}}}},
						&ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent(n.Name)}, Tok: token.ASSIGN, Rhs: []ast.Expr{ast.NewIdent("z")}},
					})
					reg(n, fn)
					g.zero = append(g.zero, fn)
				}
			case len(vs.Values) == len(names):
				for i, n := range names {
					if n.Name == "_" || types.Identical(r.info.Defs[n].Type(), errT) {
						continue
					}
					fn := "zreset_" + n.Name
					mk(fn, body([]ast.Expr{ast.NewIdent(n.Name)}, []ast.Expr{vs.Values[i]}))
					reg(n, fn)
				}
			default:
				var lhs []ast.Expr
				first := ""
				for _, n := range names {
					lhs = append(lhs, ast.NewIdent(n.Name))
					if n.Name != "_" && first == "" {
						first = n.Name
					}
				}
				fn := "zreset_" + first
				mk(fn, body(lhs, vs.Values))
				for _, n := range names {
					if n.Name != "_" {
						reg(n, fn)
					}
				}
			}
		}
	}
	f.Decls = append(f.Decls, add...)
}

func (g *globals) write(name, pkg string, info *types.Info, fset *token.FileSet) {
	if len(g.vars) == 0 && len(g.inits) == 0 {
		return
	}
	var sb strings.Builder
	fmt.Fprintf(&sb, "package %s\n\nimport zsim \"%ssim\"\n\nfunc init() {\n", pkg, zsim)
	for _, v := range g.vars {
		fmt.Fprintf(&sb, "\tzsim.Global(&%s)\n", v)
	}
	fmt.Fprintf(&sb, "\tzsim.Reinit(func() {\n")
	for _, z := range g.zero {
		fmt.Fprintf(&sb, "\t\t%s()\n", z)
	}
	done := map[string]bool{}
	for _, in := range info.InitOrder {
		for _, v := range in.Lhs {
			if h := g.help[v]; h != "" && !done[h] {
				done[h] = true
				fmt.Fprintf(&sb, "\t\t%s()\n", h)
			}
		}
	}
	for _, i := range g.inits {
		fmt.Fprintf(&sb, "\t\t%s()\n", i)
	}
	sb.WriteString("\t})\n}\n")
	put(name, []byte(sb.String()))
}

// ---- imports

func (r *rw) imports(f *ast.File) {
	used := map[string]bool{} // by PkgName object name
	ast.Inspect(f, func(n ast.Node) bool {
		if se, ok := n.(*ast.SelectorExpr); ok {
			if id, ok := se.X.(*ast.Ident); ok {
				if pn, ok := r.info.Uses[id].(*types.PkgName); ok {
					used[pn.Imported().Path()+"|"+pn.Name()] = true
				}
			}
		}
		return true
	})
	var specs []ast.Spec
	for _, d := range f.Decls {
		gd, ok := d.(*ast.GenDecl)
		if !ok || gd.Tok != token.IMPORT {
			continue
		}
		for _, s := range gd.Specs {
			is := s.(*ast.ImportSpec)
			path, _ := strconv.Unquote(is.Path.Value)
			var pn *types.PkgName
			if is.Name != nil {
				pn, _ = r.info.Defs[is.Name].(*types.PkgName)
				if is.Name.Name == "." {
					fatal("%s: dot import of %s", r.name, path)
				}
			} else {
				pn, _ = r.info.Implicits[is].(*types.PkgName)
			}
			np := newPath(path)
			ns := &ast.ImportSpec{Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(np)}}
			if pn == nil || pn.Name() == "_" {
				ns.Name = ast.NewIdent("_")
			} else {
				if !used[path+"|"+pn.Name()] {
					continue
				}
				ns.Name = ast.NewIdent(pn.Name())
			}
			specs = append(specs, ns)
		}
	}
	var zs []string
	for z := range r.zused {
		zs = append(zs, z)
	}
	sort.Strings(zs)
	for _, z := range zs {
		specs = append(specs, &ast.ImportSpec{Name: ast.NewIdent("z_" + z), Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(zsim + z)}})
	}
	var decls []ast.Decl
	for _, s := range specs {
		decls = append(decls, &ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{s}})
	}
	for _, d := range f.Decls {
		if gd, ok := d.(*ast.GenDecl); ok && gd.Tok == token.IMPORT {
			continue
		}
		decls = append(decls, d)
	}
	f.Decls = decls
	f.Imports = nil
}

// ---- rewriting

func (r *rw) z(pkg, sym string) ast.Expr {
	r.zused[pkg] = true
	return &ast.SelectorExpr{X: ast.NewIdent("z_" + pkg), Sel: ast.NewIdent(sym)}
}

func (r *rw) call(pkg, sym string, args ...ast.Expr) *ast.CallExpr {
	return &ast.CallExpr{Fun: r.z(pkg, sym), Args: args}
}

func (r *rw) tmp(p string) string {
	r.n++
	return fmt.Sprintf("z%s%d", p, r.n)
}

func (r *rw) decls(f *ast.File) {
	for _, d := range f.Decls {
		r.decl(d)
	}
}

func (r *rw) decl(d ast.Decl) {
	switch x := d.(type) {
	case *ast.GenDecl:
		for _, s := range x.Specs {
			switch y := s.(type) {
			case *ast.ValueSpec:
				if y.Type != nil {
					y.Type = r.expr(y.Type)
				}
				if len(y.Names) == 2 && len(y.Values) == 1 {
					if u, ok := unparen(y.Values[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW && r.full {
						y.Values[0] = r.call("sim", "Recv2", r.expr(u.X))
						continue
					}
				}
				r.exprs(y.Values)
			case *ast.TypeSpec:
				if y.TypeParams != nil {
					r.fields(y.TypeParams)
				}
				y.Type = r.expr(y.Type)
			}
		}
	case *ast.FuncDecl:
		if x.Recv != nil {
			r.fields(x.Recv)
		}
		r.funcType(x.Type)
		if x.Body != nil {
			r.block(x.Body)
		}
	}
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

func (r *rw) fields(l *ast.FieldList) {
	if l == nil {
		return
	}
	for _, f := range l.List {
		if f.Type != nil {
			f.Type = r.expr(f.Type)
		}
	}
}

func (r *rw) funcType(t *ast.FuncType) {
	r.fields(t.TypeParams)
	r.fields(t.Params)
	r.fields(t.Results)
}

func (r *rw) exprs(l []ast.Expr) {
	for i := range l {
		l[i] = r.expr(l[i])
	}
}

func (r *rw) typeOf(e ast.Expr) types.Type {
	if tv, ok := r.info.Types[e]; ok {
		return tv.Type
	}
	if id, ok := e.(*ast.Ident); ok {
		if o := r.info.Uses[id]; o != nil {
			return o.Type()
		}
		if o := r.info.Defs[id]; o != nil {
			return o.Type()
		}
	}
	return nil
}

func isChan(t types.Type) bool {
	if t == nil {
		return false
	}
	if tp, ok := t.(*types.TypeParam); ok {
		t = tp.Constraint()
	}
	_, ok := t.Underlying().(*types.Chan)
	return ok
}

func isMap(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Map)
	return ok
}

func (r *rw) builtin(e ast.Expr) string {
	if id, ok := unparen(e).(*ast.Ident); ok {
		if b, ok := r.info.Uses[id].(*types.Builtin); ok {
			return b.Name()
		}
	}
	return ""
}

func (r *rw) expr(e ast.Expr) ast.Expr {
	if r.race {
		if x := r.raceRead(e); x != nil {
			return x
		}
	}
	switch x := e.(type) {
	case nil:
		return nil
	case *ast.Ident, *ast.BasicLit, *ast.BadExpr:
		return e
	case *ast.CompositeLit:
		if x.Type != nil {
			x.Type = r.expr(x.Type)
		}
		r.exprs(x.Elts)
	case *ast.FuncLit:
		r.funcType(x.Type)
		r.block(x.Body)
	case *ast.ParenExpr:
		x.X = r.expr(x.X)
	case *ast.SelectorExpr:
		if id, ok := x.X.(*ast.Ident); ok {
			if pn, ok := r.info.Uses[id].(*types.PkgName); ok {
				path := pn.Imported().Path()
				if refused[path][x.Sel.Name] {
					fatal("%s: %s.%s is not simulated", r.fset.Position(x.Pos()), path, x.Sel.Name)
				}
				if t := table[path]; t != nil {
					if s, ok := t[x.Sel.Name]; ok {
						return r.z(s.pkg, s.sym)
					}
					if s, ok := t["*"]; ok {
						return r.z(s.pkg, x.Sel.Name)
					}
				}
				return x
			}
		}
		if r.race && r.byAddr(x) {
			x.X = r.addr(x.X)
		} else {
			x.X = r.expr(x.X)
		}
	case *ast.IndexExpr:
		x.X = r.expr(x.X)
		x.Index = r.expr(x.Index)
	case *ast.IndexListExpr:
		x.X = r.expr(x.X)
		r.exprs(x.Indices)
	case *ast.SliceExpr:
		if r.race && isArray(r.typeOf(x.X)) {
			x.X = r.addr(x.X)
		} else {
			x.X = r.expr(x.X)
		}
		if x.Low != nil {
			x.Low = r.expr(x.Low)
		}
		if x.High != nil {
			x.High = r.expr(x.High)
		}
		if x.Max != nil {
			x.Max = r.expr(x.Max)
		}
	case *ast.TypeAssertExpr:
		x.X = r.expr(x.X)
		if x.Type != nil {
			x.Type = r.expr(x.Type)
		}
	case *ast.CallExpr:
		if r.full {
			switch b := r.builtin(x.Fun); b {
			case "close":
				return r.call("sim", "Close", r.expr(x.Args[0]))
			case "len":
				if isChan(r.typeOf(x.Args[0])) {
					return r.call("sim", "Len", r.expr(x.Args[0]))
				}
			}
		}
		if r.race {
			if r.raceBuiltin(x) {
				return x
			}
		}
		x.Fun = r.expr(x.Fun)
		r.exprs(x.Args)
	case *ast.StarExpr:
		x.X = r.expr(x.X)
	case *ast.UnaryExpr:
		if x.Op == token.ARROW && r.full {
			return r.call("sim", "Recv", r.expr(x.X))
		}
		if x.Op == token.AND && r.race {
			x.X = r.addr(x.X)
			return x
		}
		x.X = r.expr(x.X)
	case *ast.BinaryExpr:
		x.X = r.expr(x.X)
		x.Y = r.expr(x.Y)
	case *ast.KeyValueExpr:
		x.Key = r.expr(x.Key)
		x.Value = r.expr(x.Value)
	case *ast.ArrayType:
		if x.Len != nil {
			x.Len = r.expr(x.Len)
		}
		x.Elt = r.expr(x.Elt)
	case *ast.StructType:
		r.fields(x.Fields)
	case *ast.FuncType:
		r.funcType(x)
	case *ast.InterfaceType:
		r.fields(x.Methods)
	case *ast.MapType:
		x.Key = r.expr(x.Key)
		x.Value = r.expr(x.Value)
	case *ast.ChanType:
		x.Value = r.expr(x.Value)
	case *ast.Ellipsis:
		if x.Elt != nil {
			x.Elt = r.expr(x.Elt)
		}
	default:
		fatal("%s: unknown expression %T", r.fset.Position(e.Pos()), e)
	}
	return e
}

func (r *rw) y() ast.Stmt {
	return &ast.ExprStmt{X: r.call("sim", "Y")}
}

func (r *rw) block(b *ast.BlockStmt) {
	ns := r.nosplit
	r.nosplit = false
	defer func() { r.nosplit = ns }()
	b.List = r.list(b.List)
}

func (r *rw) list(l []ast.Stmt) []ast.Stmt {
	var out []ast.Stmt
	for _, s := range l {
		if r.full {
			switch s.(type) {
			case *ast.DeclStmt, *ast.BranchStmt, *ast.EmptyStmt:
			default:
				out = append(out, r.y())
			}
		}
		out = append(out, r.stmt(s)...)
	}
	return out
}

func define(lhs []string, rhs ...ast.Expr) ast.Stmt {
	var l []ast.Expr
	for _, n := range lhs {
		l = append(l, ast.NewIdent(n))
	}
	return &ast.AssignStmt{Lhs: l, Tok: token.DEFINE, Rhs: rhs}
}

func one(l []ast.Stmt) ast.Stmt {
	if len(l) == 1 {
		return l[0]
	}
	return &ast.BlockStmt{List: l}
}

// loopBody makes sure that an empty loop body has a preemption point
func (r *rw) loopBody(b *ast.BlockStmt) {
	r.block(b)
	if r.full {
		b.List = append([]ast.Stmt{r.y()}, b.List...)
	}
}

func (r *rw) simple(s ast.Stmt) ast.Stmt {
	if s == nil {
		return nil
	}
	r.nosplit = true
	l := r.stmt(s)
	r.nosplit = false
	return one(l)
}

func (r *rw) isConst(e ast.Expr) bool {
	tv, ok := r.info.Types[e]
	return ok && (tv.Value != nil || tv.IsNil())
}

// shared tells whether the operand may be visible to other goroutines
func (r *rw) shared(e ast.Expr) bool {
	switch x := unparen(e).(type) {
	case *ast.Ident:
		o := r.info.Uses[x]
		return o != nil && o.Parent() == r.pkg.Scope()
	case *ast.SelectorExpr, *ast.IndexExpr, *ast.StarExpr:
		return true
	}
	return false
}

// pure: the expression can be evaluated twice
func pure(e ast.Expr) bool {
	ok := true
	ast.Inspect(e, func(n ast.Node) bool {
		switch n.(type) {
		case *ast.CallExpr, *ast.FuncLit, *ast.UnaryExpr, *ast.CompositeLit:
			ok = false
		}
		return ok
	})
	return ok
}

func (r *rw) stmt(s ast.Stmt) []ast.Stmt {
	switch x := s.(type) {
	case *ast.DeclStmt:
		r.decl(x.Decl)
	case *ast.EmptyStmt, *ast.BranchStmt:
	case *ast.LabeledStmt:
		l := r.stmt(x.Stmt)
		// what precedes the labelled statement itself stays in front of the label
		x.Stmt = l[len(l)-1]
		return append(l[:len(l)-1:len(l)-1], x)
	case *ast.ExprStmt:
		x.X = r.expr(x.X)
	case *ast.SendStmt:
		if !r.full {
			x.Chan, x.Value = r.expr(x.Chan), r.expr(x.Value)
			break
		}
		return []ast.Stmt{&ast.ExprStmt{X: &ast.CallExpr{Fun: r.call("sim", "Send", r.expr(x.Chan)), Args: []ast.Expr{r.expr(x.Value)}}}}
	case *ast.IncDecStmt:
		if r.full && !r.nosplit && r.shared(x.X) && pure(x.X) {
			op := token.ADD
			if x.Tok == token.DEC {
				op = token.SUB
			}
			t := r.tmp("v")
			rx, lx := r.rl(x.X)
			return []ast.Stmt{&ast.BlockStmt{List: []ast.Stmt{define([]string{t}, rx), r.y(),
				&ast.AssignStmt{Lhs: []ast.Expr{lx}, Tok: token.ASSIGN, Rhs: []ast.Expr{&ast.BinaryExpr{X: ast.NewIdent(t), Op: op, Y: &ast.BasicLit{Kind: token.INT, Value: "1"}}}}}}}
		}
		x.X = r.lval(x.X)
	case *ast.AssignStmt:
		if r.race && x.Tok == token.ASSIGN && !r.nosplit {
			if l := r.raceAssign(x); l != nil {
				return l
			}
		}
		var post []ast.Stmt
		if r.race && x.Tok == token.DEFINE && !r.nosplit {
			post = r.redefined(x)
		}
		if len(x.Lhs) == 2 && len(x.Rhs) == 1 && r.full {
			if u, ok := unparen(x.Rhs[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
				r.lvals(x.Lhs, x.Tok)
				x.Rhs[0] = r.call("sim", "Recv2", r.expr(u.X))
				return append([]ast.Stmt{s}, post...)
			}
		}
		if r.full && !r.nosplit && x.Tok != token.ASSIGN && x.Tok != token.DEFINE && x.Tok != token.SHL_ASSIGN && x.Tok != token.SHR_ASSIGN && r.shared(x.Lhs[0]) && pure(x.Lhs[0]) {
			op := map[token.Token]token.Token{token.ADD_ASSIGN: token.ADD, token.SUB_ASSIGN: token.SUB, token.MUL_ASSIGN: token.MUL, token.QUO_ASSIGN: token.QUO,
				token.REM_ASSIGN: token.REM, token.AND_ASSIGN: token.AND, token.OR_ASSIGN: token.OR, token.XOR_ASSIGN: token.XOR, token.AND_NOT_ASSIGN: token.AND_NOT}[x.Tok]
			t := r.tmp("v")
			lhs, wlhs := r.rl(x.Lhs[0])
			rhs := r.expr(x.Rhs[0])
			return []ast.Stmt{&ast.BlockStmt{List: []ast.Stmt{define([]string{t}, lhs), r.y(),
				&ast.AssignStmt{Lhs: []ast.Expr{wlhs}, Tok: token.ASSIGN, Rhs: []ast.Expr{&ast.BinaryExpr{X: ast.NewIdent(t), Op: op, Y: &ast.ParenExpr{X: rhs}}}}}}}
		}
		if r.race && x.Tok == token.ASSIGN && !r.harmless(x.Rhs) {
			for i := range x.Lhs {
				x.Lhs[i] = r.addr(x.Lhs[i])
			}
		} else {
			r.lvals(x.Lhs, x.Tok)
		}
		r.exprs(x.Rhs)
		return append([]ast.Stmt{s}, post...)
	case *ast.GoStmt:
		if !r.full {
			fatal("%s: go statement in a package that is not instrumented", r.fset.Position(s.Pos()))
		}
		return r.goStmt(x)
	case *ast.DeferStmt:
		c := r.expr(x.Call)
		x.Call = c.(*ast.CallExpr)
	case *ast.ReturnStmt:
		r.exprs(x.Results)
	case *ast.BlockStmt:
		r.block(x)
	case *ast.IfStmt:
		x.Init = r.simple(x.Init)
		x.Cond = r.expr(x.Cond)
		r.block(x.Body)
		if x.Else != nil {
			x.Else = one(r.stmt(x.Else))
		}
	case *ast.CaseClause:
		r.exprs(x.List)
		x.Body = r.list(x.Body)
	case *ast.SwitchStmt:
		x.Init = r.simple(x.Init)
		if x.Tag != nil {
			x.Tag = r.expr(x.Tag)
		}
		for _, c := range x.Body.List {
			r.stmt(c)
		}
	case *ast.TypeSwitchStmt:
		x.Init = r.simple(x.Init)
		x.Assign = r.simple(x.Assign)
		for _, c := range x.Body.List {
			r.stmt(c)
		}
	case *ast.SelectStmt:
		if !r.full {
			fatal("%s: select statement in a package that is not instrumented", r.fset.Position(s.Pos()))
		}
		return r.selectStmt(x)
	case *ast.ForStmt:
		x.Init = r.simple(x.Init)
		if x.Cond != nil {
			x.Cond = r.expr(x.Cond)
		}
		if x.Post != nil {
			// simple statements stay simple
			switch p := x.Post.(type) {
			case *ast.IncDecStmt:
				p.X = r.lval(p.X)
			case *ast.AssignStmt:
				r.lvals(p.Lhs, p.Tok)
				r.exprs(p.Rhs)
			default:
				x.Post = r.simple(x.Post)
			}
		}
		r.loopBody(x.Body)
	case *ast.RangeStmt:
		return r.rangeStmt(x)
	default:
		fatal("%s: unknown statement %T", r.fset.Position(s.Pos()), s)
	}
	return []ast.Stmt{s}
}

func (r *rw) goStmt(x *ast.GoStmt) []ast.Stmt {
	var pre []ast.Stmt
	c := x.Call
	hoist := func(e ast.Expr) ast.Expr {
		if r.isConst(e) {
			return r.expr(e)
		}
		n := r.tmp("a")
		pre = append(pre, define([]string{n}, r.expr(e)))
		return ast.NewIdent(n)
	}
	b := r.builtin(c.Fun)
	if b == "" {
		switch f := unparen(c.Fun).(type) {
		case *ast.FuncLit:
			if len(c.Args) == 0 {
				c.Fun = r.expr(f)
				return []ast.Stmt{&ast.ExprStmt{X: r.call("sim", "Go", c.Fun)}}
			}
			c.Fun = hoist(c.Fun)
		case *ast.SelectorExpr:
			if id, ok := f.X.(*ast.Ident); ok {
				if _, ok := r.info.Uses[id].(*types.PkgName); ok {
					c.Fun = r.expr(c.Fun)
					break
				}
			}
			c.Fun = hoist(c.Fun)
		case *ast.Ident:
			if _, ok := r.info.Uses[f].(*types.Func); !ok {
				c.Fun = hoist(c.Fun)
			}
		default:
			c.Fun = r.expr(c.Fun)
		}
	}
	for i := range c.Args {
		c.Args[i] = hoist(c.Args[i])
	}
	var ce ast.Expr = c
	if b == "close" {
		ce = r.call("sim", "Close", c.Args[0])
	}
	fl := &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: ce}}}}
	pre = append(pre, &ast.ExprStmt{X: r.call("sim", "Go", fl)})
	if len(pre) == 1 {
		return pre
	}
	return []ast.Stmt{&ast.BlockStmt{List: pre}}
}

func (r *rw) selectStmt(x *ast.SelectStmt) []ast.Stmt {
	if len(x.Body.List) == 0 {
		return []ast.Stmt{&ast.ExprStmt{X: r.call("sim", "Forever")}, &ast.ExprStmt{X: &ast.CallExpr{Fun: ast.NewIdent("panic"), Args: []ast.Expr{&ast.BasicLit{Kind: token.STRING, Value: `"unreachable"`}}}}}
	}
	var names []string
	var vals []ast.Expr
	hasDef := false
	sw := &ast.SwitchStmt{Switch: x.Select, Body: &ast.BlockStmt{}}
	args := []ast.Expr{nil}
	for _, s := range x.Body.List {
		cc := s.(*ast.CommClause)
		if cc.Comm == nil {
			hasDef = true
			sw.Body.List = append(sw.Body.List, &ast.CaseClause{Body: r.list(cc.Body)})
			continue
		}
		n := r.tmp("s")
		idx := len(names)
		names = append(names, n)
		args = append(args, ast.NewIdent(n))
		var pre []ast.Stmt
		sel := func(f string) ast.Expr { return &ast.SelectorExpr{X: ast.NewIdent(n), Sel: ast.NewIdent(f)} }
		switch c := cc.Comm.(type) {
		case *ast.SendStmt:
			vals = append(vals, &ast.CallExpr{Fun: r.call("sim", "W", r.expr(c.Chan)), Args: []ast.Expr{r.expr(c.Value)}})
		case *ast.ExprStmt:
			u := unparen(c.X).(*ast.UnaryExpr)
			vals = append(vals, r.call("sim", "R", r.expr(u.X)))
		case *ast.AssignStmt:
			u := unparen(c.Rhs[0]).(*ast.UnaryExpr)
			vals = append(vals, r.call("sim", "R", r.expr(u.X)))
			r.lvals(c.Lhs, c.Tok)
			as := &ast.AssignStmt{Lhs: c.Lhs, Tok: c.Tok, Rhs: []ast.Expr{sel("V")}}
			if len(c.Lhs) == 2 {
				as.Rhs = append(as.Rhs, sel("OK"))
			}
			pre = append(pre, as)
		default:
			fatal("%s: unknown communication", r.fset.Position(s.Pos()))
		}
		sw.Body.List = append(sw.Body.List, &ast.CaseClause{List: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(idx)}}, Body: append(pre, r.list(cc.Body)...)})
	}
	args[0] = ast.NewIdent(strconv.FormatBool(hasDef))
	if !hasDef {
		sw.Body.List = append(sw.Body.List, &ast.CaseClause{Body: []ast.Stmt{&ast.ExprStmt{X: &ast.CallExpr{Fun: ast.NewIdent("panic"), Args: []ast.Expr{&ast.BasicLit{Kind: token.STRING, Value: `"unreachable"`}}}}}})
	}
	sw.Tag = r.call("sim", "Select", args...)
	if len(names) > 0 {
		sw.Init = define(names, vals...)
	}
	return []ast.Stmt{sw}
}

func isBlank(e ast.Expr) bool {
	id, ok := e.(*ast.Ident)
	return ok && id.Name == "_"
}

func (r *rw) rangeStmt(x *ast.RangeStmt) []ast.Stmt {
	t := r.typeOf(x.X)
	switch {
	case r.full && isChan(t):
		c, ok := r.tmp("c"), r.tmp("ok")
		rc := r.call("sim", "Recv2", ast.NewIdent(c))
		var pre []ast.Stmt
		if x.Key != nil && !isBlank(x.Key) {
			if x.Tok == token.DEFINE {
				pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{x.Key, ast.NewIdent(ok)}, Tok: token.DEFINE, Rhs: []ast.Expr{rc}})
			} else {
				v := r.tmp("v")
				pre = append(pre, define([]string{v, ok}, rc))
				defer func() {}()
				pre = append(pre, &ast.IfStmt{Cond: ast.NewIdent(ok), Body: &ast.BlockStmt{List: []ast.Stmt{&ast.AssignStmt{Lhs: []ast.Expr{r.lval(x.Key)}, Tok: token.ASSIGN, Rhs: []ast.Expr{ast.NewIdent(v)}}}}})
			}
		} else {
			pre = append(pre, define([]string{"_", ok}, rc))
		}
		pre = append(pre, &ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: ast.NewIdent(ok)}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.BREAK}}}})
		xx := r.expr(x.X)
		r.loopBody(x.Body)
		return []ast.Stmt{&ast.ForStmt{For: x.For, Init: define([]string{c}, xx), Body: &ast.BlockStmt{List: append(pre, x.Body.List...)}}}
	case isMap(t):
		if x.Key == nil && x.Value == nil {
			x.X = r.expr(x.X)
			r.loopBody(x.Body)
			return []ast.Stmt{x}
		}
		e := r.tmp("e")
		el := ast.NewIdent(e)
		mc := func(n string) ast.Expr {
			return &ast.CallExpr{Fun: &ast.SelectorExpr{X: el, Sel: ast.NewIdent(n)}}
		}
		pre := []ast.Stmt{&ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: mc("OK")}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.CONTINUE}}}}}
		as := &ast.AssignStmt{Tok: x.Tok}
		if x.Key != nil && !isBlank(x.Key) {
			as.Lhs = append(as.Lhs, r.rangeVar(x.Key, x.Tok))
			as.Rhs = append(as.Rhs, &ast.SelectorExpr{X: el, Sel: ast.NewIdent("K")})
		}
		if x.Value != nil && !isBlank(x.Value) {
			as.Lhs = append(as.Lhs, r.rangeVar(x.Value, x.Tok))
			as.Rhs = append(as.Rhs, mc("V"))
		}
		if len(as.Lhs) > 0 {
			pre = append(pre, as)
		}
		mx := x.X
		x.X = r.expr(x.X)
		if r.race {
			x.X = r.call("sim", "RdMap", x.X, r.site(mx))
		}
		x.X = r.call("sim", "MapIter", x.X)
		x.Key, x.Value, x.Tok = ast.NewIdent("_"), el, token.DEFINE
		r.loopBody(x.Body)
		x.Body.List = append(pre, x.Body.List...)
		return []ast.Stmt{x}
	}
	if x.Key != nil {
		x.Key = r.rangeVar(x.Key, x.Tok)
	}
	if x.Value != nil {
		x.Value = r.rangeVar(x.Value, x.Tok)
	}
	x.X = r.expr(x.X)
	r.loopBody(x.Body)
	return []ast.Stmt{x}
}
