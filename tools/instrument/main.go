// instrument copies the current sources of /repo (and the third-party packages they use) into a
// scratch module, rewritten to run under vshim/vsched. It judges nothing: it only makes every
// synchronisation, I/O and shared access of the code a point the explorer controls.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/printer"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"vtools/instrument/astutil"
)

var shimmed = map[string]string{
	"sync": "vshim/vsync", "sync/atomic": "vshim/vatomic", "time": "vshim/vtime", "os": "vshim/vos",
	"io/ioutil": "vshim/vioutil", "path/filepath": "vshim/vfilepath", "net": "vshim/vnet",
	"math/rand": "vshim/vrand", "log": "vshim/vlog", "fmt": "vshim/vfmt", "runtime": "vshim/vruntime",
	"runtime/pprof": "vshim/vpprof", "context": "vshim/vcontext",
}

type listPkg struct {
	ImportPath string
	Dir        string
	Export     string
	Standard   bool
	GoFiles    []string
	Imports    []string
	Name       string
	Error      *struct{ Err string }
}

var (
	fset    = token.NewFileSet()
	sites   []string
	modPath string
	level   = flag.Int("level", 2, "2: memory access points; 1: synchronisation only")
)

func main() {
	repo := flag.String("repo", "/repo", "")
	out := flag.String("out", "", "")
	modfile := flag.String("modfile", "", "")
	flag.Parse()
	cmd := exec.Command("go", "list", "-modfile="+*modfile, "-mod=mod", "-deps", "-export", "-json=ImportPath,Dir,Export,Standard,GoFiles,Imports,Name,Error", "./...")
	cmd.Dir = *repo
	cmd.Env = append(os.Environ(), "GOFLAGS=")
	var eb bytes.Buffer
	cmd.Stderr = &eb
	b, err := cmd.Output()
	if err != nil {
		fail("go list: %v\n%s", err, eb.String())
	}
	mb, _ := os.ReadFile(*modfile)
	for _, l := range strings.Split(string(mb), "\n") {
		if strings.HasPrefix(l, "module ") {
			modPath = strings.TrimSpace(l[7:])
		}
	}
	all := map[string]*listPkg{}
	var order []*listPkg
	dec := json.NewDecoder(bytes.NewReader(b))
	for {
		p := &listPkg{}
		if err := dec.Decode(p); err == io.EOF {
			break
		} else if err != nil {
			fail("%v", err)
		}
		all[p.ImportPath] = p
		order = append(order, p)
	}
	isTarget := func(p *listPkg) bool {
		return !p.Standard || p.ImportPath == "container/list"
	}
	typed := map[string]*types.Package{}
	gc := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		p := all[path]
		if p == nil || p.Export == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(p.Export)
	})
	imp := importerFunc(func(path string) (*types.Package, error) {
		if t := typed[path]; t != nil {
			return t, nil
		}
		return gc.Import(path)
	})
	var reg []string
	deps := map[string][]string{}
	for _, p := range order { // -deps lists dependencies first
		if !isTarget(p) || p.Name == "main" || len(p.GoFiles) == 0 {
			continue
		}
		in := strings.HasPrefix(p.ImportPath, modPath)
		sort.Strings(p.GoFiles)
		var files []*ast.File
		for _, f := range p.GoFiles {
			af, err := parser.ParseFile(fset, filepath.Join(p.Dir, f), nil, 0)
			if err != nil {
				fail("%v", err)
			}
			files = append(files, af)
		}
		info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{}, Implicits: map[ast.Node]types.Object{}, Scopes: map[ast.Node]*types.Scope{}}
		conf := types.Config{Importer: imp, Error: func(error) {}, GoVersion: "go1.21"}
		tp, err := conf.Check(p.ImportPath, fset, files, info)
		if err != nil {
			fmt.Fprintln(os.Stderr, "type check:", p.ImportPath, err)
		}
		typed[p.ImportPath] = tp
		w := &pkgWriter{p: p, tp: tp, info: info, rel: relName(p), in: in}
		w.rewrite(files)
		dir := filepath.Join(*out, filepath.FromSlash(w.rel))
		os.MkdirAll(dir, 0755)
		for i, f := range files {
			var buf bytes.Buffer
			if err := (&printer.Config{Mode: printer.UseSpaces | printer.TabIndent, Tabwidth: 8}).Fprint(&buf, token.NewFileSet(), f); err != nil {
				fail("print %s: %v", p.GoFiles[i], err)
			}
			buf.WriteString(w.tails[i])
			os.WriteFile(filepath.Join(dir, p.GoFiles[i]), buf.Bytes(), 0644)
		}
		if in {
			os.WriteFile(filepath.Join(dir, "zz_verif_reset.go"), []byte(w.resetFile()), 0644)
			reg = append(reg, p.ImportPath)
			for _, q := range p.Imports {
				if strings.HasPrefix(q, modPath) {
					deps[p.ImportPath] = append(deps[p.ImportPath], q)
				}
			}
		}
	}
	writeReg(*out, reg, deps)
	os.WriteFile(filepath.Join(*out, "go.mod"), []byte("module "+modPath+"\n\ngo 1.21\n\nrequire vshim v0.0.0\n"), 0644)
}

func writeReg(out string, reg []string, deps map[string][]string) {
	var sb strings.Builder
	sb.WriteString("package verifreg\n\nimport (\n\t\"vshim/vsched\"\n")
	for i, p := range reg {
		fmt.Fprintf(&sb, "\tp%d %q\n", i, p)
	}
	sb.WriteString(")\n\nvar order = []string{\n")
	for _, p := range reg {
		fmt.Fprintf(&sb, "\t%q,\n", p)
	}
	sb.WriteString("}\n\nvar funcs = map[string]func(){\n")
	for i, p := range reg {
		fmt.Fprintf(&sb, "\t%q: p%d.VerifReset,\n", p, i)
	}
	sb.WriteString("}\n\nvar deps = map[string][]string{\n")
	for _, p := range reg {
		fmt.Fprintf(&sb, "\t%q: {", p)
		for _, q := range deps[p] {
			fmt.Fprintf(&sb, "%q, ", q)
		}
		sb.WriteString("},\n")
	}
	sb.WriteString(`}

// Reset gives the packages, and all they import, the state of a fresh process.
func Reset(pkgs ...string) {
	want := map[string]bool{}
	var add func(p string)
	add = func(p string) {
		if want[p] {
			return
		}
		want[p] = true
		for _, q := range deps[p] {
			add(q)
		}
	}
	for _, p := range pkgs {
		p = mod + "/" + p
		if funcs[p] == nil {
			continue
		}
		add(p)
	}
	for _, p := range order {
		if want[p] {
			funcs[p]()
		}
	}
}
`)
	fmt.Fprintf(&sb, "\nconst mod = %q\n\nfunc init() { vsched.RegisterSites(sites) }\n\nvar sites = []string{\n", modPath)
	for _, s := range sites {
		fmt.Fprintf(&sb, "\t%q,\n", s)
	}
	sb.WriteString("}\n")
	os.MkdirAll(filepath.Join(out, "verifreg"), 0755)
	os.WriteFile(filepath.Join(out, "verifreg", "reg.go"), []byte(sb.String()), 0644)
}

func fail(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, f+"\n", a...)
	os.Exit(1)
}

type importerFunc func(string) (*types.Package, error)

func (f importerFunc) Import(p string) (*types.Package, error) { return f(p) }

func relName(p *listPkg) string {
	if p.ImportPath == modPath {
		return "."
	}
	if strings.HasPrefix(p.ImportPath, modPath+"/") {
		return p.ImportPath[len(modPath)+1:]
	}
	return "vdeps/" + p.ImportPath
}

func mapImport(path string) string {
	if s, ok := shimmed[path]; ok {
		return s
	}
	if strings.HasPrefix(path, modPath) {
		return path
	}
	first := path
	if i := strings.Index(path, "/"); i >= 0 {
		first = path[:i]
	}
	if strings.Contains(first, ".") || path == "container/list" {
		return modPath + "/vdeps/" + path
	}
	return path
}

type initFn struct {
	name string
	objs []types.Object
}

type pkgWriter struct {
	p     *listPkg
	tp    *types.Package
	info  *types.Info
	rel   string
	in    bool
	tails []string

	captured map[types.Object]bool
	inits    []initFn
	users    []string
	zero     []string

	// decisions
	ySite   map[ast.Stmt]int
	condY   map[ast.Stmt]int
	mapGet  map[*ast.IndexExpr]int
	mapGet2 map[*ast.IndexExpr]int
	mapSet  map[*ast.AssignStmt]int
	rmw     map[ast.Stmt]int
	vAssign map[*ast.AssignStmt]int
	recv2   map[*ast.UnaryExpr]bool
	rngKind map[*ast.RangeStmt]string
	rngSite map[*ast.RangeStmt]int
	chBuilt map[*ast.CallExpr]string
	chSite  map[*ast.CallExpr]int
	lhsIdx  map[*ast.IndexExpr]bool
	isConst map[ast.Expr]bool
	hasRes  map[*ast.CallExpr]bool
}

func (w *pkgWriter) site(n ast.Node) int {
	pos := fset.Position(n.Pos())
	sites = append(sites, fmt.Sprintf("%s/%s:%d", strings.TrimPrefix(w.rel, "vdeps/"), filepath.Base(pos.Filename), pos.Line))
	return len(sites) - 1
}

func under(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	return t.Underlying()
}

func (w *pkgWriter) typ(e ast.Expr) types.Type {
	if tv, ok := w.info.Types[e]; ok {
		return tv.Type
	}
	if id, ok := e.(*ast.Ident); ok {
		if o := w.info.ObjectOf(id); o != nil {
			return o.Type()
		}
	}
	return nil
}

func (w *pkgWriter) isMap(e ast.Expr) bool {
	_, ok := under(w.typ(e)).(*types.Map)
	return ok
}

func (w *pkgWriter) isChan(e ast.Expr) bool {
	_, ok := under(w.typ(e)).(*types.Chan)
	return ok
}

// shared says whether evaluating e (outside function literals) touches memory other threads may touch.
func (w *pkgWriter) shared(n ast.Node) bool {
	if n == nil {
		return false
	}
	found := false
	ast.Inspect(n, func(x ast.Node) bool {
		if found {
			return false
		}
		switch x := x.(type) {
		case *ast.FuncLit:
			return false
		case *ast.BlockStmt:
			if x != n {
				return false
			}
		case *ast.SelectorExpr:
			if s := w.info.Selections[x]; s != nil && s.Kind() == types.FieldVal {
				if _, ok := under(w.typ(x.X)).(*types.Pointer); ok || s.Indirect() {
					found = true
					return false
				}
			}
			if v, ok := w.info.Uses[x.Sel].(*types.Var); ok && !v.IsField() && w.pkgVar(v) {
				found = true
				return false
			}
		case *ast.IndexExpr:
			switch t := under(w.typ(x.X)).(type) {
			case *types.Slice, *types.Map:
				found = true
			case *types.Pointer:
				_ = t
				found = true
			}
		case *ast.StarExpr:
			if tv, ok := w.info.Types[x]; ok && tv.IsValue() {
				found = true
			}
		case *ast.Ident:
			if v, ok := w.info.Uses[x].(*types.Var); ok && !v.IsField() && (w.pkgVar(v) || w.captured[v]) {
				found = true
			}
		}
		return !found
	})
	return found
}

func (w *pkgWriter) pkgVar(v *types.Var) bool {
	return v.Pkg() != nil && v.Parent() == v.Pkg().Scope() && (v.Pkg() == w.tp || strings.HasPrefix(v.Pkg().Path(), modPath))
}

func (w *pkgWriter) findCaptured(files []*ast.File) {
	w.captured = map[types.Object]bool{}
	for _, f := range files {
		ast.Inspect(f, func(n ast.Node) bool {
			fl, ok := n.(*ast.FuncLit)
			if !ok {
				return true
			}
			ast.Inspect(fl.Body, func(m ast.Node) bool {
				if id, ok := m.(*ast.Ident); ok {
					if v, ok := w.info.Uses[id].(*types.Var); ok && !v.IsField() && v.Pkg() == w.tp && v.Parent() != w.tp.Scope() {
						if v.Pos() < fl.Pos() || v.Pos() > fl.End() {
							w.captured[v] = true
						}
					}
				}
				return true
			})
			return true
		})
	}
}

func hasCall(n ast.Node) bool {
	c := false
	ast.Inspect(n, func(x ast.Node) bool {
		switch x.(type) {
		case *ast.CallExpr, *ast.FuncLit:
			c = true
		}
		return !c
	})
	return c
}

func (w *pkgWriter) decide(files []*ast.File) {
	w.ySite, w.condY = map[ast.Stmt]int{}, map[ast.Stmt]int{}
	w.mapGet, w.mapGet2, w.mapSet = map[*ast.IndexExpr]int{}, map[*ast.IndexExpr]int{}, map[*ast.AssignStmt]int{}
	w.rmw, w.vAssign = map[ast.Stmt]int{}, map[*ast.AssignStmt]int{}
	w.recv2 = map[*ast.UnaryExpr]bool{}
	w.rngKind, w.rngSite = map[*ast.RangeStmt]string{}, map[*ast.RangeStmt]int{}
	w.chBuilt, w.chSite = map[*ast.CallExpr]string{}, map[*ast.CallExpr]int{}
	w.lhsIdx = map[*ast.IndexExpr]bool{}
	w.isConst = map[ast.Expr]bool{}
	w.hasRes = map[*ast.CallExpr]bool{}
	full := *level >= 2
	for _, f := range files {
		ast.Inspect(f, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.AssignStmt:
				for _, l := range n.Lhs {
					if ix, ok := l.(*ast.IndexExpr); ok && w.isMap(ix.X) {
						w.lhsIdx[ix] = true
						if len(n.Lhs) == 1 && len(n.Rhs) == 1 && n.Tok == token.ASSIGN {
							w.mapSet[n] = w.site(n)
						}
					}
				}
				if len(n.Lhs) == 2 && len(n.Rhs) == 1 {
					if ix, ok := n.Rhs[0].(*ast.IndexExpr); ok && w.isMap(ix.X) {
						w.mapGet2[ix] = w.site(ix)
					}
					if u, ok := n.Rhs[0].(*ast.UnaryExpr); ok && u.Op == token.ARROW {
						w.recv2[u] = true
					}
				}
				if full && len(n.Lhs) == 1 && len(n.Rhs) == 1 {
					_, isIx := n.Lhs[0].(*ast.IndexExpr)
					mapL := isIx && w.isMap(n.Lhs[0].(*ast.IndexExpr).X)
					switch {
					case n.Tok == token.ASSIGN && !mapL:
						if w.shared(n.Lhs[0]) && w.shared(n.Rhs[0]) {
							lt, rt := w.typ(n.Lhs[0]), w.typ(n.Rhs[0])
							if lt != nil && rt != nil && (types.Identical(lt, rt) || types.IsInterface(lt)) && rt != types.Typ[types.UntypedNil] {
								w.vAssign[n] = w.site(n)
							}
						}
					case n.Tok != token.ASSIGN && n.Tok != token.DEFINE && !mapL:
						if w.shared(n.Lhs[0]) && !hasCall(n.Lhs[0]) {
							w.rmw[n] = w.site(n)
						}
					}
				}
			case *ast.IncDecStmt:
				ix, isIx := n.X.(*ast.IndexExpr)
				if isIx && w.isMap(ix.X) {
					w.lhsIdx[ix] = true
				} else if full && w.shared(n.X) && !hasCall(n.X) {
					w.rmw[n] = w.site(n)
				}
			case *ast.ValueSpec:
				if len(n.Names) == 2 && len(n.Values) == 1 {
					if ix, ok := n.Values[0].(*ast.IndexExpr); ok && w.isMap(ix.X) {
						w.mapGet2[ix] = w.site(ix)
					}
					if u, ok := n.Values[0].(*ast.UnaryExpr); ok && u.Op == token.ARROW {
						w.recv2[u] = true
					}
				}
			case *ast.UnaryExpr:
				if n.Op == token.AND {
					if ix, ok := n.X.(*ast.IndexExpr); ok {
						w.lhsIdx[ix] = true
					}
				}
			case *ast.CallExpr:
				if id, ok := n.Fun.(*ast.Ident); ok {
					if _, ok := w.info.Uses[id].(*types.Builtin); ok && len(n.Args) > 0 {
						switch id.Name {
						case "len", "close":
							if w.isChan(n.Args[0]) {
								w.chBuilt[n] = id.Name
							}
						case "delete":
							w.chBuilt[n] = "delete"
							w.chSite[n] = w.site(n)
						}
					}
				}
				if tv, ok := w.info.Types[n]; ok && tv.Type != nil {
					if tu, ok := tv.Type.(*types.Tuple); !ok || tu.Len() > 0 {
						w.hasRes[n] = true
					}
				}
				for _, a := range n.Args {
					if tv, ok := w.info.Types[a]; ok && (tv.Value != nil || tv.IsNil()) {
						w.isConst[a] = true
					}
				}
			case *ast.RangeStmt:
				switch under(w.typ(n.X)).(type) {
				case *types.Map:
					w.rngKind[n] = "map"
					w.rngSite[n] = w.site(n)
				case *types.Chan:
					w.rngKind[n] = "chan"
				}
			}
			return true
		})
		// map reads: every other map index expression
		ast.Inspect(f, func(n ast.Node) bool {
			if ix, ok := n.(*ast.IndexExpr); ok && w.isMap(ix.X) && !w.lhsIdx[ix] {
				if _, two := w.mapGet2[ix]; !two {
					w.mapGet[ix] = w.site(ix)
				}
			}
			return true
		})
		if !full {
			continue
		}
		visit := func(list []ast.Stmt) {
			for _, s := range list {
				if w.stmtShared(s) {
					w.ySite[s] = w.site(s)
				}
				if fs, ok := s.(*ast.ForStmt); ok && fs.Cond != nil && w.shared(fs.Cond) {
					w.condY[fs] = w.site(fs)
				}
			}
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.BlockStmt:
				visit(n.List)
			case *ast.CaseClause:
				visit(n.Body)
			case *ast.CommClause:
				visit(n.Body)
			}
			return true
		})
	}
}

func (w *pkgWriter) stmtShared(s ast.Stmt) bool {
	switch s := s.(type) {
	case *ast.BlockStmt, *ast.SelectStmt, *ast.EmptyStmt, *ast.BranchStmt, *ast.CaseClause, *ast.CommClause:
		return false
	case *ast.LabeledStmt:
		return false
	case *ast.IfStmt:
		return s.Init != nil && w.shared(s.Init) || w.shared(s.Cond)
	case *ast.ForStmt:
		return s.Init != nil && w.shared(s.Init) || s.Cond != nil && w.shared(s.Cond)
	case *ast.RangeStmt:
		return w.shared(s.X)
	case *ast.SwitchStmt:
		return s.Init != nil && w.shared(s.Init) || s.Tag != nil && w.shared(s.Tag)
	case *ast.TypeSwitchStmt:
		return s.Init != nil && w.shared(s.Init) || w.shared(s.Assign)
	case *ast.DeferStmt, *ast.GoStmt:
		return false
	}
	return w.shared(s)
}

func sel(name string) ast.Expr {
	return &ast.SelectorExpr{X: ast.NewIdent("vsched__"), Sel: ast.NewIdent(name)}
}

func lit(i int) ast.Expr { return &ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(i)} }

func call(f ast.Expr, args ...ast.Expr) *ast.CallExpr { return &ast.CallExpr{Fun: f, Args: args} }

func strlit(s string) ast.Expr { return &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(s)} }

var tmpN int

func tmp(p string) *ast.Ident {
	tmpN++
	return ast.NewIdent(fmt.Sprintf("v__%s%d", p, tmpN))
}

func define(l ast.Expr, r ast.Expr) ast.Stmt {
	return &ast.AssignStmt{Lhs: []ast.Expr{l}, Tok: token.DEFINE, Rhs: []ast.Expr{r}}
}

func (w *pkgWriter) rewrite(files []*ast.File) {
	w.findCaptured(files)
	w.decide(files)
	w.tails = make([]string, len(files))
	// initialisation data must be collected before the expressions change
	type vspec struct {
		spec *ast.ValueSpec
		decl *ast.GenDecl
		fi   int
	}
	var specs []vspec
	for fi, f := range files {
		for _, d := range f.Decls {
			if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.VAR {
				for _, s := range g.Specs {
					specs = append(specs, vspec{s.(*ast.ValueSpec), g, fi})
				}
			}
		}
	}
	names := make([]map[string]string, len(files)) // import path -> local name
	extra := make([]map[string]string, len(files))
	for i, f := range files {
		names[i] = map[string]string{}
		extra[i] = map[string]string{}
		for _, im := range f.Imports {
			path, _ := strconv.Unquote(im.Path.Value)
			nm := ""
			if im.Name != nil {
				nm = im.Name.Name
			}
			if nm == "_" || nm == "." {
				im.Path.Value = strconv.Quote(mapImport(path))
				continue
			}
			if nm == "" {
				if pk := w.impName(path); pk != "" {
					nm = pk
				} else {
					nm = path[strings.LastIndex(path, "/")+1:]
				}
			}
			names[i][path] = nm
			im.Name = ast.NewIdent(nm)
			im.Path.Value = strconv.Quote(mapImport(path))
		}
	}
	for _, f := range files {
		astutil.Apply(f, nil, w.post)
	}
	if w.in {
		userN := 0
		for _, vs := range specs {
			s := vs.spec
			if len(s.Values) == 0 {
				for _, id := range s.Names {
					if id.Name != "_" {
						w.zero = append(w.zero, id.Name)
					}
				}
				continue
			}
			// one init function per (names, value)
			emit := func(ids []*ast.Ident, val ast.Expr) {
				fn := fmt.Sprintf("verifInit%d_%d", vs.fi, len(w.inits))
				var lhs []ast.Expr
				var objs []types.Object
				for _, id := range ids {
					lhs = append(lhs, ast.NewIdent(id.Name))
					objs = append(objs, w.info.Defs[id])
				}
				body := &ast.FuncDecl{Name: ast.NewIdent(fn), Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{
					&ast.AssignStmt{Lhs: lhs, Tok: token.ASSIGN, Rhs: []ast.Expr{val}},
				}}}
				files[vs.fi].Decls = append(files[vs.fi].Decls, body)
				w.inits = append(w.inits, initFn{fn, objs})
			}
			if len(s.Values) == len(s.Names) {
				for i := range s.Names {
					emit(s.Names[i:i+1], s.Values[i])
				}
			} else {
				emit(s.Names, s.Values[0])
			}
			// drop the load-time evaluation when the type can be written down
			if s.Type != nil {
				s.Values = nil
				continue
			}
			if len(s.Names) == 1 {
				o := w.info.Defs[s.Names[0]]
				if o == nil || s.Names[0].Name == "_" {
					continue
				}
				if te, ok := w.typeExpr(o.Type(), names[vs.fi], extra[vs.fi]); ok {
					s.Type = te
					s.Values = nil
				}
			}
		}
		for _, f := range files {
			for _, d := range f.Decls {
				if fd, ok := d.(*ast.FuncDecl); ok && fd.Recv == nil && fd.Name.Name == "init" {
					fd.Name = ast.NewIdent(fmt.Sprintf("verifUserInit%d", userN))
					userN++
					w.users = append(w.users, fd.Name.Name)
				}
			}
		}
	}
	for i, f := range files {
		gd := &ast.GenDecl{Tok: token.IMPORT, Lparen: 1}
		gd.Specs = append(gd.Specs, &ast.ImportSpec{Name: ast.NewIdent("vsched__"), Path: &ast.BasicLit{Kind: token.STRING, Value: "\"vshim/vsched\""}})
		for path, nm := range extra[i] {
			gd.Specs = append(gd.Specs, &ast.ImportSpec{Name: ast.NewIdent(nm), Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(mapImport(path))}})
		}
		f.Decls = append([]ast.Decl{gd}, f.Decls...)
		w.tails[i] = "\nvar _ = vsched__.Y\n"
		f.Comments = nil
	}
}

func (w *pkgWriter) impName(path string) string {
	for _, p := range w.tp.Imports() {
		if p.Path() == path {
			return p.Name()
		}
	}
	return ""
}

func (w *pkgWriter) typeExpr(t types.Type, names, extra map[string]string) (ast.Expr, bool) {
	ok := true
	var walk func(t types.Type)
	seen := map[types.Type]bool{}
	walk = func(t types.Type) {
		if seen[t] {
			return
		}
		seen[t] = true
		switch t := t.(type) {
		case *types.Named:
			o := t.Obj()
			if o.Pkg() != nil && o.Pkg() != w.tp {
				if !o.Exported() {
					ok = false
				}
			} else if o.Pkg() == w.tp && o.Parent() != w.tp.Scope() {
				ok = false
			}
			for i := 0; i < t.TypeArgs().Len(); i++ {
				walk(t.TypeArgs().At(i))
			}
		case *types.Pointer:
			walk(t.Elem())
		case *types.Slice:
			walk(t.Elem())
		case *types.Array:
			walk(t.Elem())
		case *types.Map:
			walk(t.Key())
			walk(t.Elem())
		case *types.Chan:
			walk(t.Elem())
		case *types.Signature:
			for i := 0; i < t.Params().Len(); i++ {
				walk(t.Params().At(i).Type())
			}
			for i := 0; i < t.Results().Len(); i++ {
				walk(t.Results().At(i).Type())
			}
		case *types.Struct:
			for i := 0; i < t.NumFields(); i++ {
				walk(t.Field(i).Type())
			}
		case *types.Interface:
			for i := 0; i < t.NumMethods(); i++ {
				walk(t.Method(i).Type())
			}
		}
	}
	walk(t)
	if !ok {
		return nil, false
	}
	s := types.TypeString(t, func(p *types.Package) string {
		if p == w.tp {
			return ""
		}
		if n, ok := names[p.Path()]; ok {
			return n
		}
		if n, ok := extra[p.Path()]; ok {
			return n
		}
		n := "vt__" + strings.NewReplacer("/", "_", ".", "_", "-", "_").Replace(p.Path())
		extra[p.Path()] = n
		return n
	})
	e, err := parser.ParseExpr(s)
	if err != nil {
		return nil, false
	}
	return e, true
}

func (w *pkgWriter) resetFile() string {
	var sb strings.Builder
	fmt.Fprintf(&sb, "package %s\n\nimport vsched__ \"vshim/vsched\"\n\n// VerifReset gives the package the state of a fresh process.\nfunc VerifReset() {\n\tvsched__.Tick()\n", w.p.Name)
	for _, z := range w.zero {
		fmt.Fprintf(&sb, "\tvsched__.ZeroVar(&%s)\n", z)
	}
	for _, in := range w.inits {
		for _, o := range in.objs {
			if o != nil && o.Name() != "_" {
				fmt.Fprintf(&sb, "\tvsched__.ZeroVar(&%s)\n", o.Name())
			}
		}
	}
	done := map[string]bool{}
	for _, io := range w.initOrder() {
		if !done[io] {
			done[io] = true
			fmt.Fprintf(&sb, "\t%s()\n", io)
		}
	}
	for _, in := range w.inits {
		if !done[in.name] {
			fmt.Fprintf(&sb, "\t%s()\n", in.name)
		}
	}
	for _, u := range w.users {
		fmt.Fprintf(&sb, "\t%s()\n", u)
	}
	sb.WriteString("}\n")
	return sb.String()
}

func (w *pkgWriter) initOrder() []string {
	byObj := map[types.Object]string{}
	for _, in := range w.inits {
		for _, o := range in.objs {
			if o != nil {
				byObj[o] = in.name
			}
		}
	}
	var out []string
	for _, io := range w.info.InitOrder {
		for _, v := range io.Lhs {
			if n, ok := byObj[v]; ok {
				out = append(out, n)
			}
		}
	}
	return out
}

func (w *pkgWriter) withY(list []ast.Stmt, orig func(ast.Stmt) (int, bool)) []ast.Stmt {
	var out []ast.Stmt
	for _, s := range list {
		if id, ok := orig(s); ok {
			out = append(out, &ast.ExprStmt{X: call(sel("Y"), lit(id))})
		}
		out = append(out, s)
	}
	return out
}

var repl = map[ast.Stmt]int{} // rewritten statement -> Y site of the original

func (w *pkgWriter) yOf(s ast.Stmt) (int, bool) {
	if id, ok := w.ySite[s]; ok {
		return id, true
	}
	if id, ok := repl[s]; ok {
		return id, true
	}
	return 0, false
}

func (w *pkgWriter) replace(c *astutil.Cursor, old ast.Stmt, nw ast.Stmt) {
	if id, ok := w.ySite[old]; ok {
		repl[nw] = id
	}
	c.Replace(nw)
}

func (w *pkgWriter) post(c *astutil.Cursor) bool {
	switch n := c.Node().(type) {
	case *ast.IndexExpr:
		if id, ok := w.mapGet[n]; ok {
			c.Replace(call(call(sel("MapGetF"), lit(id), n.X), n.Index))
		} else if id, ok := w.mapGet2[n]; ok {
			c.Replace(call(call(sel("MapGet2F"), lit(id), n.X), n.Index))
		}
	case *ast.UnaryExpr:
		if n.Op == token.ARROW {
			if _, ok := c.Parent().(*ast.CommClause); ok {
				return true
			}
			if w.recv2[n] {
				c.Replace(call(sel("Recv2"), n.X))
			} else {
				c.Replace(call(sel("Recv"), n.X))
			}
		}
	case *ast.CallExpr:
		switch w.chBuilt[n] {
		case "len":
			c.Replace(call(sel("Len"), n.Args[0]))
		case "close":
			c.Replace(call(sel("Close"), n.Args[0]))
		case "delete":
			c.Replace(call(call(sel("MapDeleteF"), lit(w.chSite[n]), n.Args[0]), n.Args[1]))
		}
	case *ast.SendStmt:
		if _, ok := c.Parent().(*ast.CommClause); ok && c.Name() == "Comm" {
			return true
		}
		w.replace(c, n, &ast.ExprStmt{X: call(call(sel("SendF"), n.Chan), n.Value)})
	case *ast.IncDecStmt:
		if id, ok := w.rmw[n]; ok {
			op := token.ADD
			if n.Tok == token.DEC {
				op = token.SUB
			}
			w.replace(c, n, &ast.AssignStmt{Lhs: []ast.Expr{n.X}, Tok: token.ASSIGN, Rhs: []ast.Expr{
				call(sel("V"), lit(id), &ast.BinaryExpr{X: n.X, Op: op, Y: lit(1)})}})
		}
	case *ast.AssignStmt:
		if id, ok := w.mapSet[n]; ok {
			ix := n.Lhs[0].(*ast.IndexExpr)
			w.replace(c, n, &ast.ExprStmt{X: call(call(sel("MapSetF"), lit(id), ix.X), ix.Index, n.Rhs[0])})
		} else if id, ok := w.rmw[n]; ok {
			op := n.Tok - token.ADD_ASSIGN + token.ADD
			w.replace(c, n, &ast.AssignStmt{Lhs: n.Lhs, Tok: token.ASSIGN, Rhs: []ast.Expr{
				call(sel("V"), lit(id), &ast.BinaryExpr{X: n.Lhs[0], Op: op, Y: &ast.ParenExpr{X: n.Rhs[0]}})}})
		} else if id, ok := w.vAssign[n]; ok {
			n.Rhs[0] = call(sel("V"), lit(id), n.Rhs[0])
		}
	case *ast.GoStmt:
		w.replace(c, n, w.goStmt(n))
	case *ast.SelectStmt:
		w.replace(c, n, w.selectStmt(n))
	case *ast.ForStmt:
		var pre []ast.Stmt
		pre = append(pre, &ast.ExprStmt{X: call(sel("Tick"))})
		if id, ok := w.condY[n]; ok {
			pre = append(pre, &ast.ExprStmt{X: call(sel("Y"), lit(id))})
		}
		n.Body.List = append(pre, n.Body.List...)
	case *ast.RangeStmt:
		tick := &ast.ExprStmt{X: call(sel("Tick"))}
		switch w.rngKind[n] {
		case "map":
			m, k := tmp("m"), tmp("k")
			var pre []ast.Stmt
			pre = append(pre, tick)
			v, ok := tmp("v"), tmp("ok")
			pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{v, ok}, Tok: token.DEFINE, Rhs: []ast.Expr{call(call(sel("MapGet2F"), lit(w.rngSite[n]), m), k)}})
			pre = append(pre, &ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: ok}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.CONTINUE}}}})
			pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{v}})
			if n.Key != nil {
				if id, isId := n.Key.(*ast.Ident); !isId || id.Name != "_" {
					pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{n.Key}, Tok: n.Tok, Rhs: []ast.Expr{k}})
				}
			}
			if n.Value != nil {
				if id, isId := n.Value.(*ast.Ident); !isId || id.Name != "_" {
					pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{n.Value}, Tok: n.Tok, Rhs: []ast.Expr{v}})
				}
			}
			n.Body.List = append(pre, n.Body.List...)
			n.Key = ast.NewIdent("_")
			n.Value = k
			n.Tok = token.DEFINE
			src := n.X
			n.X = call(sel("MapKeys"), lit(w.rngSite[n]), m)
			if c.Name() == "Stmt" { // labelled: keep the loop as the labelled statement
				n.X = call(sel("MapKeys"), lit(w.rngSite[n]), src)
				w.subst(n.Body, m, src)
				return true
			}
			w.replace(c, n, &ast.BlockStmt{List: []ast.Stmt{define(m, src), n}})
		case "chan":
			v, ok := tmp("v"), tmp("ok")
			pre := []ast.Stmt{tick,
				&ast.AssignStmt{Lhs: []ast.Expr{v, ok}, Tok: token.DEFINE, Rhs: []ast.Expr{call(sel("Recv2"), n.X)}},
				&ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: ok}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.BREAK}}}},
				&ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{v}},
			}
			if n.Key != nil {
				if id, isId := n.Key.(*ast.Ident); !isId || id.Name != "_" {
					pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{n.Key}, Tok: n.Tok, Rhs: []ast.Expr{v}})
				}
			}
			w.replace(c, n, &ast.ForStmt{Body: &ast.BlockStmt{List: append(pre, n.Body.List...)}})
		default:
			n.Body.List = append([]ast.Stmt{tick}, n.Body.List...)
		}
	case *ast.BlockStmt:
		n.List = w.withY(n.List, w.yOf)
	case *ast.CaseClause:
		n.Body = w.withY(n.Body, w.yOf)
	case *ast.CommClause:
		n.Body = w.withY(n.Body, w.yOf)
	}
	return true
}

func (w *pkgWriter) subst(b *ast.BlockStmt, id *ast.Ident, e ast.Expr) {
	astutil.Apply(b, nil, func(c *astutil.Cursor) bool {
		if x, ok := c.Node().(*ast.Ident); ok && x.Name == id.Name {
			c.Replace(e)
		}
		return true
	})
}

func (w *pkgWriter) goStmt(n *ast.GoStmt) ast.Stmt {
	pos := fset.Position(n.Pos())
	name := fmt.Sprintf("%s/%s:%d", w.rel, filepath.Base(pos.Filename), pos.Line)
	cl := n.Call
	if fl, ok := cl.Fun.(*ast.FuncLit); ok && len(cl.Args) == 0 && fl.Type.Results == nil {
		return &ast.ExprStmt{X: call(sel("Go"), strlit(name), fl)}
	}
	blk := &ast.BlockStmt{}
	fun := cl.Fun
	builtin := false
	if id, ok := fun.(*ast.Ident); ok {
		if _, ok := w.info.Uses[id].(*types.Builtin); ok {
			builtin = true
		}
	}
	if s, ok := fun.(*ast.SelectorExpr); ok {
		if x, ok := s.X.(*ast.Ident); ok && x.Name == "vsched__" {
			builtin = true
		}
		if ss := w.info.Selections[s]; ss != nil && ss.Kind() == types.MethodVal {
			f := tmp("f")
			blk.List = append(blk.List, define(f, fun))
			fun = f
		}
	} else if !builtin {
		f := tmp("f")
		blk.List = append(blk.List, define(f, fun))
		fun = f
	}
	args := append([]ast.Expr{}, cl.Args...)
	if !builtin {
		for i, a := range args {
			if w.isConst[a] {
				continue
			}
			if bl, ok := a.(*ast.BasicLit); ok {
				_ = bl
				continue
			}
			t := tmp("a")
			blk.List = append(blk.List, define(t, a))
			args[i] = t
		}
	}
	inner := &ast.CallExpr{Fun: fun, Args: args, Ellipsis: cl.Ellipsis}
	lit := &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: inner}}}}
	blk.List = append(blk.List, &ast.ExprStmt{X: call(sel("Go"), strlit(name), lit)})
	return blk
}

func (w *pkgWriter) selectStmt(n *ast.SelectStmt) ast.Stmt {
	blk := &ast.BlockStmt{}
	sw := &ast.SwitchStmt{Body: &ast.BlockStmt{}}
	hasDef := "false"
	var cases []ast.Expr
	for _, cc := range n.Body.List {
		cl := cc.(*ast.CommClause)
		body := cl.Body
		switch comm := cl.Comm.(type) {
		case nil:
			hasDef = "true"
			sw.Body.List = append(sw.Body.List, &ast.CaseClause{Body: body})
			continue
		case *ast.SendStmt:
			t := tmp("c")
			blk.List = append(blk.List, define(t, call(call(sel("SendCaseF"), comm.Chan), comm.Value)))
			cases = append(cases, t)
			sw.Body.List = append(sw.Body.List, &ast.CaseClause{List: []ast.Expr{lit(len(cases) - 1)}, Body: body})
		default:
			var ch ast.Expr
			var lhs []ast.Expr
			tok := token.DEFINE
			get := func(e ast.Expr) ast.Expr {
				for {
					if p, ok := e.(*ast.ParenExpr); ok {
						e = p.X
						continue
					}
					break
				}
				switch u := e.(type) {
				case *ast.UnaryExpr:
					return u.X
				case *ast.CallExpr: // already rewritten to Recv or Recv2
					return u.Args[0]
				}
				return nil
			}
			switch s := comm.(type) {
			case *ast.ExprStmt:
				ch = get(s.X)
			case *ast.AssignStmt:
				ch = get(s.Rhs[0])
				lhs, tok = s.Lhs, s.Tok
			}
			t := tmp("c")
			blk.List = append(blk.List, define(t, call(sel("RecvCase"), ch)))
			cases = append(cases, t)
			if len(lhs) > 0 {
				rhs := []ast.Expr{&ast.SelectorExpr{X: t, Sel: ast.NewIdent("V")}}
				if len(lhs) > 1 {
					rhs = append(rhs, &ast.SelectorExpr{X: t, Sel: ast.NewIdent("OK")})
				}
				body = append([]ast.Stmt{&ast.AssignStmt{Lhs: lhs, Tok: tok, Rhs: rhs}}, body...)
			}
			sw.Body.List = append(sw.Body.List, &ast.CaseClause{List: []ast.Expr{lit(len(cases) - 1)}, Body: body})
		}
	}
	sw.Tag = call(sel("Select"), append([]ast.Expr{ast.NewIdent(hasDef)}, cases...)...)
	if hasDef == "false" {
		sw.Body.List = append(sw.Body.List, &ast.CaseClause{Body: []ast.Stmt{&ast.ExprStmt{X: call(ast.NewIdent("panic"), strlit("unreachable select"))}}})
	}
	blk.List = append(blk.List, sw)
	return blk
}
