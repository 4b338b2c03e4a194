// Command rewriter reads the packages of the module in -repo (and the
// session library it depends on) as they are now, and writes an equivalent module to -out in
// which every source of nondeterminism goes through the simulator: goroutines,
// channels, select, sync, sync/atomic, time, net, files, map iteration and
// package-level state.  Nothing about the code under test is assumed beyond
// the Go language: it rewrites by type information, not by name or pattern.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/printer"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type listPkg struct {
	Dir        string
	ImportPath string
	Name       string
	Export     string
	GoFiles    []string
	CgoFiles   []string
	SFiles     []string
	EmbedFiles []string
	Standard   bool
	Module     *struct {
		Path string
		Main bool
		Dir  string
	}
	DepOnly bool
	Error   *struct{ Err string }
}

func die(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "rewriter: "+f+"\n", a...)
	os.Exit(2)
}

// alias table: package -> symbol -> (runtime package, new name)
type target struct{ pkg, name string }

var table = map[string]map[string]target{}

func add(pkg, rt string, names ...string) {
	if table[pkg] == nil {
		table[pkg] = map[string]target{}
	}
	for _, n := range names {
		from, to := n, n
		if i := strings.Index(n, "="); i >= 0 {
			from, to = n[:i], n[i+1:]
		}
		table[pkg][from] = target{rt, to}
	}
}

func init() {
	add("sync", "gosim/ssync", "Mutex", "RWMutex", "WaitGroup", "Once", "Cond", "NewCond", "Pool", "Map", "Locker", "OnceFunc")
	at := []string{"Bool", "Value", "Pointer", "LoadPointer", "StorePointer", "SwapPointer", "CompareAndSwapPointer"}
	for _, t := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr"} {
		at = append(at, t, "Load"+t, "Store"+t, "Add"+t, "Swap"+t, "CompareAndSwap"+t, "And"+t, "Or"+t)
	}
	add("sync/atomic", "gosim/satomic", at...)
	add("time", "gosim/stime", "Now", "Since", "Until", "Sleep", "After", "AfterFunc", "Tick", "NewTicker", "NewTimer", "Ticker", "Timer")
	add("net", "gosim/snet", "Listen", "Dial", "DialTimeout", "ListenConfig", "ListenTCP", "TCPListener=Listener")
	osf := []string{"File", "Open", "OpenFile", "Create", "CreateTemp", "MkdirTemp", "Mkdir", "MkdirAll", "Remove", "RemoveAll", "Rename", "Link",
		"Stat", "Lstat", "ReadDir", "ReadFile", "WriteFile", "TempDir", "Truncate", "Chmod", "Chtimes", "Exit", "Getpid", "Getppid", "Hostname", "DirFS"}
	add("os", "gosim/sos", osf...)
	add("io/ioutil", "gosim/sos", "ReadFile", "WriteFile", "ReadDir=IoutilReadDir", "TempFile=CreateTemp", "TempDir=MkdirTemp")
	add("path/filepath", "gosim/sos", "Walk", "WalkDir", "Glob")
	add("runtime", "gosim/smisc", "Gosched", "NumGoroutine", "Goexit")
	add("runtime/debug", "gosim/smisc", "PrintStack")
	add("fmt", "gosim/smisc", "Print", "Printf", "Println")
	add("io", "gosim/smisc", "Pipe", "PipeReader", "PipeWriter")
	add("context", "gosim/smisc", "WithCancel", "WithTimeout", "WithDeadline")
	rf := []string{"Int", "Intn", "Int31", "Int31n", "Int63", "Int63n", "Uint32", "Uint64", "Float64", "Float32", "Perm", "Shuffle", "Seed", "Read=MathRead"}
	add("math/rand", "gosim/smisc", rf...)
	add("crypto/rand", "gosim/smisc", "Reader=CryptoReader", "Read=CryptoRead", "Int=CryptoInt")
}

func main() {
	repo := flag.String("repo", "/repo", "repository")
	out := flag.String("out", "", "output directory")
	modroot := flag.String("mod", "", "import path prefix of the packages to rewrite (default: the main module)")
	flag.Parse()

	cmd := exec.Command("go", "list", "-export", "-deps", "-json=Dir,ImportPath,Name,Export,GoFiles,CgoFiles,SFiles,EmbedFiles,Standard,Module,DepOnly,Error", ".")
	cmd.Dir = *repo
	cmd.Stderr = os.Stderr
	raw, err := cmd.Output()
	if err != nil {
		die("go list: %v", err)
	}
	dec := json.NewDecoder(bytes.NewReader(raw))
	exports := map[string]string{}
	var todo []*listPkg
	for {
		p := new(listPkg)
		if err := dec.Decode(p); err == io.EOF {
			break
		} else if err != nil {
			die("go list output: %v", err)
		}
		if p.Error != nil {
			die("%s: %s", p.ImportPath, p.Error.Err)
		}
		if p.Export != "" {
			exports[p.ImportPath] = p.Export
		}
		if p.Standard || p.Module == nil {
			continue
		}
		if p.Module.Main || p.ImportPath == "github.com/funny/link" || strings.HasPrefix(p.ImportPath, "github.com/funny/link/") {
			todo = append(todo, p)
		}
	}
	_ = modroot
	for _, p := range todo {
		rewritePkg(p, exports, *out)
	}
}

type rw struct {
	fset  *token.FileSet
	info  *types.Info
	pkg   *types.Package
	file  *ast.File
	need  map[string]bool // runtime packages used in the current file
	tmp   int
	errs  []string
	funcs int
}

func rtAlias(path string) string { return "zz_" + path[strings.LastIndex(path, "/")+1:] }

func rewritePkg(p *listPkg, exports map[string]string, out string) {
	fset := token.NewFileSet()
	var files []*ast.File
	for _, f := range p.GoFiles {
		a, err := parser.ParseFile(fset, filepath.Join(p.Dir, f), nil, parser.ParseComments)
		if err != nil {
			die("%v", err)
		}
		files = append(files, a)
	}
	if len(p.CgoFiles) > 0 || len(p.SFiles) > 0 {
		die("%s uses cgo or assembly, which the simulator cannot control", p.ImportPath)
	}
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{}, Implicits: map[ast.Node]types.Object{}}
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		e, ok := exports[path]
		if !ok {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(e)
	})
	conf := types.Config{Importer: imp, GoVersion: "go1.21", Error: func(err error) {}}
	tp, err := conf.Check(p.ImportPath, fset, files, info)
	if err != nil {
		// The toolchain accepted the package, so this is about language
		// versions; try again without one.
		conf.GoVersion = ""
		conf.Error = nil
		info.Types = map[ast.Expr]types.TypeAndValue{}
		info.Uses = map[*ast.Ident]types.Object{}
		info.Defs = map[*ast.Ident]types.Object{}
		tp, err = conf.Check(p.ImportPath, fset, files, info)
		if err != nil {
			die("type check %s: %v", p.ImportPath, err)
		}
	}
	var dir string
	if p.Module.Main {
		rel, err := filepath.Rel(p.Module.Dir, p.Dir)
		if err != nil {
			die("%v", err)
		}
		dir = filepath.Join(out, "main", rel)
	} else {
		rel := strings.TrimPrefix(strings.TrimPrefix(p.ImportPath, p.Module.Path), "/")
		dir = filepath.Join(out, "link", rel)
	}
	if err := os.MkdirAll(dir, 0o755); err != nil {
		die("%v", err)
	}
	for i, f := range files {
		r := &rw{fset: fset, info: info, pkg: tp, file: f, need: map[string]bool{}}
		r.run()
		var buf bytes.Buffer
		// keep build constraints and directives out: the file list is already
		// the one selected for this platform.
		f.Comments = nil
		stripDocs(f)
		pc := printer.Config{Mode: printer.UseSpaces | printer.TabIndent | printer.SourcePos, Tabwidth: 8}
		if err := pc.Fprint(&buf, fset, f); err != nil {
			die("print %s: %v", p.GoFiles[i], err)
		}
		if err := os.WriteFile(filepath.Join(dir, p.GoFiles[i]), buf.Bytes(), 0o644); err != nil {
			die("%v", err)
		}
	}
	for _, e := range p.EmbedFiles {
		b, err := os.ReadFile(filepath.Join(p.Dir, e))
		if err == nil {
			os.MkdirAll(filepath.Dir(filepath.Join(dir, e)), 0o755)
			os.WriteFile(filepath.Join(dir, e), b, 0o644)
		}
	}
	writeReset(dir, p.Name, tp)
}

// writeReset emits the registration of the package-level variables.
func writeReset(dir, name string, tp *types.Package) {
	var vars []string
	for _, n := range tp.Scope().Names() {
		if v, ok := tp.Scope().Lookup(n).(*types.Var); ok && n != "_" {
			_ = v
			vars = append(vars, n)
		}
	}
	sort.Strings(vars)
	var b strings.Builder
	fmt.Fprintf(&b, "package %s\n\nimport zz_core \"gosim/core\"\n\nfunc init() {\n\tzz_core.Hello()\n", name)
	for _, v := range vars {
		fmt.Fprintf(&b, "\tzz_core.SaveVar(&%s)\n", v)
	}
	b.WriteString("}\n")
	if err := os.WriteFile(filepath.Join(dir, "zzz_reset.go"), []byte(b.String()), 0o644); err != nil {
		die("%v", err)
	}
}

func stripDocs(f *ast.File) {
	f.Doc = nil
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.FuncDecl:
			x.Doc = nil
		case *ast.GenDecl:
			x.Doc = nil
		case *ast.TypeSpec:
			x.Doc, x.Comment = nil, nil
		case *ast.ValueSpec:
			x.Doc, x.Comment = nil, nil
		case *ast.ImportSpec:
			x.Doc, x.Comment = nil, nil
		case *ast.Field:
			x.Doc, x.Comment = nil, nil
		}
		return true
	})
}

func (r *rw) core(name string) ast.Expr {
	r.need["gosim/core"] = true
	return &ast.SelectorExpr{X: ast.NewIdent("zz_core"), Sel: ast.NewIdent(name)}
}

func call(f ast.Expr, args ...ast.Expr) *ast.CallExpr { return &ast.CallExpr{Fun: f, Args: args} }

func (r *rw) name(p string) string { r.tmp++; return "zz" + p + strconv.Itoa(r.tmp) }

func (r *rw) typeOf(e ast.Expr) types.Type {
	if tv, ok := r.info.Types[e]; ok {
		return tv.Type
	}
	if id, ok := e.(*ast.Ident); ok {
		if o := r.info.Uses[id]; o != nil {
			return o.Type()
		}
		if o := r.info.Defs[id]; o != nil {
			return o.Type()
		}
	}
	return nil
}

func coreType(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	return t.Underlying()
}

func (r *rw) isChan(e ast.Expr) bool {
	_, ok := coreType(r.typeOf(e)).(*types.Chan)
	return ok
}

func (r *rw) isMap(e ast.Expr) bool {
	_, ok := coreType(r.typeOf(e)).(*types.Map)
	return ok
}

func (r *rw) isBuiltin(e ast.Expr, name string) bool {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			break
		}
		e = p.X
	}
	id, ok := e.(*ast.Ident)
	if !ok || id.Name != name {
		return false
	}
	_, ok = r.info.Uses[id].(*types.Builtin)
	return ok
}

func (r *rw) run() {
	f := r.file
	for _, d := range f.Decls {
		switch x := d.(type) {
		case *ast.FuncDecl:
			if x.Recv != nil {
				r.fields(x.Recv)
			}
			r.expr(x.Type)
			if x.Body != nil {
				r.block(x.Body)
			}
		case *ast.GenDecl:
			r.genDecl(x)
		}
	}
	r.fixImports()
}

func (r *rw) fixImports() {
	used := map[string]bool{}
	ast.Inspect(r.file, func(n ast.Node) bool {
		if s, ok := n.(*ast.SelectorExpr); ok {
			if id, ok := s.X.(*ast.Ident); ok {
				if pn, ok := r.info.Uses[id].(*types.PkgName); ok {
					used[pn.Imported().Path()+"\x00"+id.Name] = true
				}
			}
		}
		return true
	})
	var decls []ast.Decl
	var imports []*ast.ImportSpec
	for _, d := range r.file.Decls {
		g, ok := d.(*ast.GenDecl)
		if !ok || g.Tok != token.IMPORT {
			decls = append(decls, d)
			continue
		}
		var specs []ast.Spec
		for _, s := range g.Specs {
			is := s.(*ast.ImportSpec)
			path, _ := strconv.Unquote(is.Path.Value)
			keep := true
			if is.Name == nil || (is.Name.Name != "_" && is.Name.Name != ".") {
				keep = false
				for k := range used {
					if strings.HasPrefix(k, path+"\x00") {
						nm := k[len(path)+1:]
						if is.Name == nil || is.Name.Name == nm {
							keep = true
						}
					}
				}
			}
			if is.Name != nil && is.Name.Name == "." {
				if _, ok := table[path]; ok {
					die("dot import of %s", path)
				}
			}
			if keep {
				specs = append(specs, s)
				imports = append(imports, is)
			}
		}
		if len(specs) > 0 {
			g.Specs = specs
			if len(specs) > 1 && !g.Lparen.IsValid() {
				g.Lparen = 1
			}
			decls = append(decls, g)
		}
	}
	var names []string
	for k := range r.need {
		names = append(names, k)
	}
	sort.Strings(names)
	var nd []ast.Decl
	for _, k := range names {
		is := &ast.ImportSpec{Name: ast.NewIdent(rtAlias(k)), Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(k)}}
		nd = append(nd, &ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{is}})
		imports = append(imports, is)
	}
	r.file.Decls = append(nd, decls...)
	r.file.Imports = imports
}

func (r *rw) genDecl(g *ast.GenDecl) {
	for _, s := range g.Specs {
		switch x := s.(type) {
		case *ast.TypeSpec:
			if x.TypeParams != nil {
				r.fields(x.TypeParams)
			}
			x.Type = r.expr(x.Type)
		case *ast.ValueSpec:
			if x.Type != nil {
				x.Type = r.expr(x.Type)
			}
			if len(x.Values) == 1 && len(x.Names) == 2 {
				if u := r.recvExpr(x.Values[0]); u != nil {
					x.Values[0] = call(r.core("Recv2"), r.expr(u))
					continue
				}
			}
			for i := range x.Values {
				x.Values[i] = r.expr(x.Values[i])
			}
		}
	}
}

func (r *rw) fields(l *ast.FieldList) {
	if l == nil {
		return
	}
	for _, f := range l.List {
		f.Type = r.expr(f.Type)
	}
}

// recvExpr returns the channel operand if e is a receive expression.
func (r *rw) recvExpr(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			break
		}
		e = p.X
	}
	if u, ok := e.(*ast.UnaryExpr); ok && u.Op == token.ARROW {
		return u.X
	}
	return nil
}

func (r *rw) exprs(l []ast.Expr) {
	for i := range l {
		l[i] = r.expr(l[i])
	}
}

func (r *rw) expr(e ast.Expr) ast.Expr {
	switch x := e.(type) {
	case nil:
		return nil
	case *ast.BadExpr, *ast.Ident, *ast.BasicLit:
		return e
	case *ast.Ellipsis:
		x.Elt = r.expr(x.Elt)
	case *ast.FuncLit:
		r.expr(x.Type)
		r.block(x.Body)
	case *ast.CompositeLit:
		if x.Type != nil {
			x.Type = r.expr(x.Type)
		}
		for i, el := range x.Elts {
			if kv, ok := el.(*ast.KeyValueExpr); ok {
				if _, isID := kv.Key.(*ast.Ident); !isID {
					kv.Key = r.expr(kv.Key)
				}
				kv.Value = r.expr(kv.Value)
			} else {
				x.Elts[i] = r.expr(el)
			}
		}
	case *ast.ParenExpr:
		x.X = r.expr(x.X)
	case *ast.SelectorExpr:
		if id, ok := x.X.(*ast.Ident); ok {
			if pn, ok := r.info.Uses[id].(*types.PkgName); ok {
				if t, ok := table[pn.Imported().Path()][x.Sel.Name]; ok {
					r.need[t.pkg] = true
					return &ast.SelectorExpr{X: &ast.Ident{NamePos: id.NamePos, Name: rtAlias(t.pkg)}, Sel: &ast.Ident{NamePos: x.Sel.NamePos, Name: t.name}}
				}
				return x
			}
		}
		x.X = r.expr(x.X)
	case *ast.IndexExpr:
		x.X = r.expr(x.X)
		x.Index = r.expr(x.Index)
	case *ast.IndexListExpr:
		x.X = r.expr(x.X)
		r.exprs(x.Indices)
	case *ast.SliceExpr:
		x.X = r.expr(x.X)
		x.Low = r.expr(x.Low)
		x.High = r.expr(x.High)
		x.Max = r.expr(x.Max)
	case *ast.TypeAssertExpr:
		x.X = r.expr(x.X)
		if x.Type != nil {
			x.Type = r.expr(x.Type)
		}
	case *ast.CallExpr:
		if len(x.Args) == 1 {
			if r.isBuiltin(x.Fun, "close") {
				return call(r.core("Close"), r.expr(x.Args[0]))
			}
			if r.isBuiltin(x.Fun, "len") && r.isChan(x.Args[0]) {
				fn := "Len"
				if c := coreType(r.typeOf(x.Args[0])).(*types.Chan); c.Dir() == types.SendOnly {
					fn = "LenS"
				}
				return call(r.core(fn), r.expr(x.Args[0]))
			}
		}
		x.Fun = r.expr(x.Fun)
		r.exprs(x.Args)
	case *ast.StarExpr:
		x.X = r.expr(x.X)
	case *ast.UnaryExpr:
		if x.Op == token.ARROW {
			return call(r.core("Recv"), r.expr(x.X))
		}
		x.X = r.expr(x.X)
	case *ast.BinaryExpr:
		x.X = r.expr(x.X)
		x.Y = r.expr(x.Y)
	case *ast.KeyValueExpr:
		x.Key = r.expr(x.Key)
		x.Value = r.expr(x.Value)
	case *ast.ArrayType:
		x.Len = r.expr(x.Len)
		x.Elt = r.expr(x.Elt)
	case *ast.StructType:
		r.fields(x.Fields)
	case *ast.FuncType:
		r.fields(x.TypeParams)
		r.fields(x.Params)
		r.fields(x.Results)
	case *ast.InterfaceType:
		r.fields(x.Methods)
	case *ast.MapType:
		x.Key = r.expr(x.Key)
		x.Value = r.expr(x.Value)
	case *ast.ChanType:
		x.Value = r.expr(x.Value)
	default:
		die("unhandled expression %T at %s", e, r.fset.Position(e.Pos()))
	}
	return e
}

func (r *rw) block(b *ast.BlockStmt) {
	if b == nil {
		return
	}
	b.List = r.stmts(b.List)
}

func (r *rw) stmts(l []ast.Stmt) []ast.Stmt {
	var out []ast.Stmt
	for _, s := range l {
		out = append(out, r.stmt(s)...)
	}
	return out
}

func (r *rw) one(s ast.Stmt) ast.Stmt {
	if s == nil {
		return nil
	}
	l := r.stmt(s)
	if len(l) != 1 {
		return &ast.BlockStmt{List: l}
	}
	return l[0]
}

func (r *rw) loopHead(b *ast.BlockStmt) {
	b.List = append([]ast.Stmt{&ast.ExprStmt{X: call(r.core("Loop"))}}, b.List...)
}

func (r *rw) stmt(s ast.Stmt) []ast.Stmt {
	switch x := s.(type) {
	case nil:
		return nil
	case *ast.BadStmt, *ast.EmptyStmt, *ast.BranchStmt:
	case *ast.DeclStmt:
		r.genDecl(x.Decl.(*ast.GenDecl))
	case *ast.LabeledStmt:
		l := r.stmt(x.Stmt)
		if len(l) != 1 {
			die("labelled statement cannot be rewritten at %s", r.fset.Position(x.Pos()))
		}
		x.Stmt = l[0]
	case *ast.ExprStmt:
		x.X = r.expr(x.X)
	case *ast.SendStmt:
		return []ast.Stmt{&ast.ExprStmt{X: call(call(r.core("SendOp"), r.expr(x.Chan)), r.expr(x.Value))}}
	case *ast.IncDecStmt:
		x.X = r.expr(x.X)
	case *ast.AssignStmt:
		if len(x.Lhs) == 2 && len(x.Rhs) == 1 {
			if u := r.recvExpr(x.Rhs[0]); u != nil {
				r.exprs(x.Lhs)
				x.Rhs[0] = call(r.core("Recv2"), r.expr(u))
				return []ast.Stmt{x}
			}
		}
		r.exprs(x.Lhs)
		r.exprs(x.Rhs)
	case *ast.GoStmt:
		return []ast.Stmt{r.goStmt(x)}
	case *ast.DeferStmt:
		x.Call = r.deferCall(x.Call)
	case *ast.ReturnStmt:
		r.exprs(x.Results)
	case *ast.BlockStmt:
		r.block(x)
	case *ast.IfStmt:
		x.Init = r.one(x.Init)
		x.Cond = r.expr(x.Cond)
		r.block(x.Body)
		x.Else = r.one(x.Else)
	case *ast.CaseClause:
		r.exprs(x.List)
		x.Body = r.stmts(x.Body)
	case *ast.SwitchStmt:
		x.Init = r.one(x.Init)
		x.Tag = r.expr(x.Tag)
		r.block(x.Body)
	case *ast.TypeSwitchStmt:
		x.Init = r.one(x.Init)
		x.Assign = r.one(x.Assign)
		r.block(x.Body)
	case *ast.SelectStmt:
		return []ast.Stmt{r.selectStmt(x)}
	case *ast.ForStmt:
		x.Init = r.one(x.Init)
		x.Cond = r.expr(x.Cond)
		x.Post = r.one(x.Post)
		r.block(x.Body)
		r.loopHead(x.Body)
	case *ast.RangeStmt:
		return []ast.Stmt{r.rangeStmt(x)}
	default:
		die("unhandled statement %T at %s", s, r.fset.Position(s.Pos()))
	}
	return []ast.Stmt{s}
}

// deferCall rewrites the call of a defer statement (close must stay a call).
func (r *rw) deferCall(c *ast.CallExpr) *ast.CallExpr {
	e := r.expr(c)
	if n, ok := e.(*ast.CallExpr); ok {
		return n
	}
	return &ast.CallExpr{Fun: &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: e}}}}}
}

func (r *rw) isConstOrNil(e ast.Expr) bool {
	tv, ok := r.info.Types[e]
	return ok && (tv.Value != nil || tv.IsNil())
}

func (r *rw) goStmt(g *ast.GoStmt) ast.Stmt {
	c := g.Call
	if fl, ok := c.Fun.(*ast.FuncLit); ok && len(c.Args) == 0 && (fl.Type.Results == nil || len(fl.Type.Results.List) == 0) {
		r.expr(fl)
		return &ast.ExprStmt{X: call(r.core("Go"), fl)}
	}
	builtin := false
	if id, ok := c.Fun.(*ast.Ident); ok {
		_, builtin = r.info.Uses[id].(*types.Builtin)
	}
	var lhs, rhs []ast.Expr
	bind := func(e ast.Expr) ast.Expr {
		if r.isConstOrNil(e) {
			return r.expr(e)
		}
		n := r.name("a")
		lhs = append(lhs, ast.NewIdent(n))
		rhs = append(rhs, r.expr(e))
		return ast.NewIdent(n)
	}
	nc := &ast.CallExpr{}
	if builtin {
		args := make([]ast.Expr, len(c.Args))
		for i, a := range c.Args {
			args[i] = r.expr(a)
		}
		body := r.expr(&ast.CallExpr{Fun: c.Fun, Args: args})
		return &ast.ExprStmt{X: call(r.core("Go"), &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: body}}}})}
	}
	nc.Fun = bind(c.Fun)
	for _, a := range c.Args {
		nc.Args = append(nc.Args, bind(a))
	}
	if c.Ellipsis.IsValid() {
		nc.Ellipsis = 1
	}
	body := []ast.Stmt{&ast.ExprStmt{X: nc}}
	start := &ast.ExprStmt{X: call(r.core("Go"), &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: body}})}
	blk := &ast.BlockStmt{}
	if len(lhs) > 0 {
		blk.List = append(blk.List, &ast.AssignStmt{Lhs: lhs, Tok: token.DEFINE, Rhs: rhs})
	}
	blk.List = append(blk.List, start)
	return blk
}

func isBlank(e ast.Expr) bool {
	if e == nil {
		return true
	}
	id, ok := e.(*ast.Ident)
	return ok && id.Name == "_"
}

func addr(e ast.Expr) ast.Expr {
	if isBlank(e) {
		return ast.NewIdent("nil")
	}
	return &ast.UnaryExpr{Op: token.AND, X: e}
}

func (r *rw) rangeStmt(x *ast.RangeStmt) ast.Stmt {
	if r.isChan(x.X) {
		it := ast.NewIdent(r.name("c"))
		f := &ast.ForStmt{For: x.For, Body: x.Body}
		var v ast.Expr = ast.NewIdent("_")
		if x.Tok == token.DEFINE && !isBlank(x.Key) {
			v = x.Key
		}
		f.Init = &ast.AssignStmt{Lhs: []ast.Expr{it, v}, Tok: token.DEFINE, Rhs: []ast.Expr{call(r.core("RangeChan"), r.expr(x.X))}}
		var dst ast.Expr
		if !isBlank(x.Key) {
			dst = x.Key
			if x.Tok != token.DEFINE {
				dst = r.expr(dst)
			}
		}
		f.Cond = call(&ast.SelectorExpr{X: ast.NewIdent(it.Name), Sel: ast.NewIdent("Next")}, addr(dst))
		r.block(f.Body)
		r.loopHead(f.Body)
		return f
	}
	if r.isMap(x.X) {
		it := ast.NewIdent(r.name("m"))
		f := &ast.ForStmt{For: x.For, Body: x.Body}
		var k, v ast.Expr = ast.NewIdent("_"), ast.NewIdent("_")
		if x.Tok == token.DEFINE {
			if !isBlank(x.Key) {
				k = x.Key
			}
			if !isBlank(x.Value) {
				v = x.Value
			}
		}
		f.Init = &ast.AssignStmt{Lhs: []ast.Expr{it, k, v}, Tok: token.DEFINE, Rhs: []ast.Expr{call(r.core("RangeMap"), r.expr(x.X))}}
		dk, dv := x.Key, x.Value
		if x.Tok != token.DEFINE {
			if !isBlank(dk) {
				dk = r.expr(dk)
			}
			if !isBlank(dv) {
				dv = r.expr(dv)
			}
		}
		f.Cond = call(&ast.SelectorExpr{X: ast.NewIdent(it.Name), Sel: ast.NewIdent("Next")}, addr(dk), addr(dv))
		r.block(f.Body)
		r.loopHead(f.Body)
		return f
	}
	if x.Tok != token.DEFINE {
		if x.Key != nil {
			x.Key = r.expr(x.Key)
		}
		if x.Value != nil {
			x.Value = r.expr(x.Value)
		}
	}
	x.X = r.expr(x.X)
	r.block(x.Body)
	r.loopHead(x.Body)
	return x
}

func (r *rw) selectStmt(x *ast.SelectStmt) ast.Stmt {
	if len(x.Body.List) == 0 {
		return &ast.BlockStmt{List: []ast.Stmt{
			&ast.ExprStmt{X: call(r.core("BlockForever"))},
			&ast.ExprStmt{X: call(ast.NewIdent("panic"), &ast.BasicLit{Kind: token.STRING, Value: `"unreachable"`})},
		}}
	}
	sw := &ast.SwitchStmt{Switch: x.Select, Body: &ast.BlockStmt{}}
	var lhs, rhs []ast.Expr
	hasDefault := false
	waitArgs := []ast.Expr{nil}
	n := 0
	for _, cs := range x.Body.List {
		cc := cs.(*ast.CommClause)
		if cc.Comm == nil {
			hasDefault = true
			sw.Body.List = append(sw.Body.List, &ast.CaseClause{Case: cc.Case, Body: r.stmts(cc.Body)})
			continue
		}
		v := r.name("s")
		var pre []ast.Stmt
		switch c := cc.Comm.(type) {
		case *ast.SendStmt:
			rhs = append(rhs, call(call(r.core("SCase"), r.expr(c.Chan)), r.expr(c.Value)))
		case *ast.ExprStmt:
			rhs = append(rhs, call(r.core("RCase"), r.expr(r.recvExpr(c.X))))
		case *ast.AssignStmt:
			rhs = append(rhs, call(r.core("RCase"), r.expr(r.recvExpr(c.Rhs[0]))))
			m := "Val"
			if len(c.Lhs) == 2 {
				m = "Val2"
			}
			if c.Tok != token.DEFINE {
				r.exprs(c.Lhs)
			}
			allBlank := true
			for _, l := range c.Lhs {
				if !isBlank(l) {
					allBlank = false
				}
			}
			tok := c.Tok
			if allBlank {
				tok = token.ASSIGN
			}
			pre = append(pre, &ast.AssignStmt{Lhs: c.Lhs, Tok: tok, Rhs: []ast.Expr{call(&ast.SelectorExpr{X: ast.NewIdent(v), Sel: ast.NewIdent(m)})}})
		}
		lhs = append(lhs, ast.NewIdent(v))
		waitArgs = append(waitArgs, ast.NewIdent(v))
		sw.Body.List = append(sw.Body.List, &ast.CaseClause{Case: cc.Case, List: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(n)}}, Body: append(pre, r.stmts(cc.Body)...)})
		n++
	}
	if !hasDefault {
		sw.Body.List = append(sw.Body.List, &ast.CaseClause{Body: []ast.Stmt{&ast.ExprStmt{X: call(ast.NewIdent("panic"), &ast.BasicLit{Kind: token.STRING, Value: `"unreachable"`})}}})
	}
	waitArgs[0] = ast.NewIdent(strconv.FormatBool(hasDefault))
	if len(lhs) > 0 {
		sw.Init = &ast.AssignStmt{Lhs: lhs, Tok: token.DEFINE, Rhs: rhs}
	}
	sw.Tag = call(r.core("Wait"), waitArgs...)
	return sw
}
