// instr reads the library's current source tree, inserts the simulator's
// yield points, and writes a build overlay: the original paths are replaced
// by the instrumented text, and virtual packages hold the simulator run-time
// and a second, portable copy of the library (the code the tree selects when
// no assembly is available).
//
//	instr -repo /repo -sim /verif/sim -out DIR
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/build"
	"go/build/constraint"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

const modPath = "github.com/phoreproject/bls"
const rtPath = modPath + "/zzverif/simrt"

type edit struct {
	off, end int
	text     string
	prio     int
}

type file struct {
	path  string
	rel   string
	src   []byte
	ast   *ast.File
	port  bool // part of the portable build
	nat   bool // part of the assembly build
	edits []edit
	tail  string
	needG bool
	used  bool
}

type pkg struct {
	dir   string
	path  string
	files []*file
	types *types.Package
	info  *types.Info
	mut   map[types.Object]bool // package variables changed after initialisation
}

var (
	fset    = token.NewFileSet()
	sites   []string
	hots    int
	shareds int
	plain   = map[string]bool{}
)

func die(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "instr: "+f+"\n", a...)
	os.Exit(2)
}

func main() {
	repo := flag.String("repo", "/repo", "")
	sim := flag.String("sim", "/verif/sim", "")
	out := flag.String("out", "", "")
	plainFiles := flag.String("plain", "", "files to leave without yield points, comma separated, or all")
	flag.Parse()
	for _, n := range strings.Split(*plainFiles, ",") {
		plain[n] = true
	}
	if *out == "" {
		die("-out missing")
	}
	gen := filepath.Join(*out, "gen")
	os.RemoveAll(gen)
	overlay := map[string]string{}
	put := func(virtual, name string, data []byte) {
		p := filepath.Join(gen, name)
		if err := os.MkdirAll(filepath.Dir(p), 0o755); err != nil {
			die("%v", err)
		}
		if err := os.WriteFile(p, data, 0o644); err != nil {
			die("%v", err)
		}
		overlay[virtual] = p
	}

	var pkgs []*pkg
	for _, d := range []string{"", "g1pubs", "g2pubs"} {
		pkgs = append(pkgs, load(*repo, d)...)
	}
	// any further library package (not the generator, not tests)
	known := map[string]bool{"": true, "g1pubs": true, "g2pubs": true}
	filepath.Walk(*repo, func(p string, fi os.FileInfo, err error) error {
		if err != nil || !fi.IsDir() {
			return nil
		}
		rel, _ := filepath.Rel(*repo, p)
		if rel == "." {
			return nil
		}
		b := filepath.Base(p)
		if strings.HasPrefix(b, ".") || strings.HasPrefix(b, "_") || b == "testdata" || b == "vendor" || b == "zzverif" {
			return filepath.SkipDir
		}
		if !known[rel] {
			pkgs = append(pkgs, load(*repo, rel)...)
		}
		return nil
	})
	imp := &impt{m: map[string]*types.Package{}, std: importer.ForCompiler(fset, "source", nil)}
	// type-check in dependency order (simple retry)
	for pass := 0; pass < len(pkgs)+1; pass++ {
		for _, p := range pkgs {
			if p.types != nil {
				continue
			}
			ok := true
			for _, f := range p.files {
				for _, im := range f.ast.Imports {
					ip, _ := strconv.Unquote(im.Path.Value)
					if strings.HasPrefix(ip, modPath) {
						for _, q := range pkgs {
							if q.path == ip && q.types == nil && q != p {
								ok = false
							}
						}
					}
				}
			}
			if ok || pass == len(pkgs) {
				check(p, imp)
			}
		}
	}
	hasAsm := false
	for _, p := range pkgs {
		findMutable(p)
		for _, f := range p.files {
			instrument(p, f)
		}
		ents, _ := os.ReadDir(filepath.Join(*repo, p.dir))
		for _, e := range ents {
			if strings.HasSuffix(e.Name(), ".s") {
				hasAsm = true
			}
		}
	}
	for _, p := range pkgs {
		for _, f := range p.files {
			nat, port := render(f)
			put(f.path, "nat/"+f.rel, nat)
			if f.port {
				name := strings.TrimSuffix(filepath.Base(f.rel), ".go")
				vp := filepath.Join(*repo, "zzverif/port", p.dir, name+"_zp.go")
				put(vp, "port/"+filepath.Join(p.dir, name+"_zp.go"), port)
			}
		}
		for _, v := range []struct {
			dir, pre, nm string
			port         bool
		}{{p.dir, "", "nat", false}, {"zzverif/port/" + p.dir, "port/", "port", true}} {
			put(filepath.Join(*repo, v.dir, "zz_simvars.go"), v.nm+"/"+filepath.Join(p.dir, "zz_simvars.go"), varsFile(p, v.pre, v.port))
		}
	}
	for _, d := range []string{"simrt", "simsync", "simrand"} {
		ents, err := os.ReadDir(filepath.Join(*sim, "rt", d))
		if err != nil {
			die("%v", err)
		}
		for _, e := range ents {
			if strings.HasSuffix(e.Name(), ".go") {
				overlay[filepath.Join(*repo, "zzverif", d, e.Name())] = filepath.Join(*sim, "rt", d, e.Name())
			}
		}
	}
	// the harness's adapter to the library, once more for the portable copy
	ents, err := os.ReadDir(filepath.Join(*sim, "adapter"))
	if err == nil {
		for _, e := range ents {
			if !strings.HasSuffix(e.Name(), ".go") {
				continue
			}
			b, _ := os.ReadFile(filepath.Join(*sim, "adapter", e.Name()))
			t := string(b)
			t = strings.Replace(t, "package adapter", "package adapterport", 1)
			t = strings.ReplaceAll(t, `"`+modPath+`/g1pubs"`, `"`+modPath+`/zzverif/port/g1pubs"`)
			t = strings.ReplaceAll(t, `"`+modPath+`/g2pubs"`, `"`+modPath+`/zzverif/port/g2pubs"`)
			t = strings.ReplaceAll(t, `"`+modPath+`"`, `"`+modPath+`/zzverif/port"`)
			t = strings.ReplaceAll(t, `BuildName = "native"`, `BuildName = "portable"`)
			put(filepath.Join(*sim, "adapterport", e.Name()), "adapterport/"+e.Name(), []byte(t))
		}
	}
	o, _ := json.MarshalIndent(map[string]interface{}{"Replace": overlay}, "", " ")
	if err := os.WriteFile(filepath.Join(*out, "overlay.json"), o, 0o644); err != nil {
		die("%v", err)
	}
	meta, _ := json.Marshal(map[string]interface{}{"sites": sites, "hot": hots, "shared": shareds, "asm": hasAsm})
	os.WriteFile(filepath.Join(*out, "sites.json"), meta, 0o644)
	fmt.Printf("instr: %d packages, %d yield points, %d hot, %d shared\n", len(pkgs), len(sites), hots, shareds)
}

type impt struct {
	m   map[string]*types.Package
	std types.Importer
}

func (i *impt) Import(p string) (*types.Package, error) {
	if q := i.m[p]; q != nil {
		return q, nil
	}
	return i.std.Import(p)
}

func load(repo, d string) []*pkg {
	dir := filepath.Join(repo, d)
	ents, err := os.ReadDir(dir)
	if err != nil {
		return nil
	}
	p := &pkg{dir: d, path: modPath}
	if d != "" {
		p.path += "/" + d
	}
	nat := build.Default
	nat.GOARCH, nat.Compiler, nat.CgoEnabled = "amd64", "gc", false
	port := build.Default
	port.GOARCH, port.Compiler, port.CgoEnabled = "386", "gc", false
	for _, e := range ents {
		n := e.Name()
		if e.IsDir() || !strings.HasSuffix(n, ".go") || strings.HasSuffix(n, "_test.go") || n == "zz_simvars.go" {
			continue
		}
		full := filepath.Join(dir, n)
		a, _ := nat.MatchFile(dir, n)
		b, _ := port.MatchFile(dir, n)
		if !a && !b {
			continue
		}
		src, err := os.ReadFile(full)
		if err != nil {
			die("%v", err)
		}
		af, err := parser.ParseFile(fset, full, src, parser.ParseComments)
		if err != nil {
			die("%v", err)
		}
		if af.Name.Name == "main" {
			continue
		}
		rel, _ := filepath.Rel(repo, full)
		p.files = append(p.files, &file{path: full, rel: rel, src: src, ast: af, nat: a, port: b})
	}
	if len(p.files) == 0 {
		return nil
	}
	return []*pkg{p}
}

func check(p *pkg, imp *impt) {
	var fs []*ast.File
	for _, f := range p.files {
		if f.port {
			fs = append(fs, f.ast)
		}
	}
	p.info = &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{}}
	cfg := types.Config{Importer: imp, Error: func(error) {}, FakeImportC: true}
	tp, _ := cfg.Check(p.path, fset, fs, p.info)
	p.types = tp
	imp.m[p.path] = tp
	// files only in the assembly build: check them separately, tolerantly
	for _, f := range p.files {
		if !f.port {
			c2 := types.Config{Importer: imp, Error: func(error) {}}
			var all []*ast.File
			for _, g := range p.files {
				if g.nat {
					all = append(all, g.ast)
				}
			}
			inf := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{}}
			c2.Check(p.path, fset, all, inf)
			for k, v := range inf.Types {
				if _, ok := p.info.Types[k]; !ok {
					p.info.Types[k] = v
				}
			}
			for k, v := range inf.Uses {
				if _, ok := p.info.Uses[k]; !ok {
					p.info.Uses[k] = v
				}
			}
			for k, v := range inf.Defs {
				if _, ok := p.info.Defs[k]; !ok {
					p.info.Defs[k] = v
				}
			}
			break
		}
	}
}

// pkgVar returns the package-level variable an expression is rooted in.
func (p *pkg) pkgVar(e ast.Expr) types.Object {
	for {
		switch x := e.(type) {
		case *ast.ParenExpr:
			e = x.X
		case *ast.SelectorExpr:
			if id, ok := x.X.(*ast.Ident); ok {
				if _, isPkg := p.info.Uses[id].(*types.PkgName); isPkg {
					return nil
				}
			}
			e = x.X
		case *ast.IndexExpr:
			e = x.X
		case *ast.SliceExpr:
			e = x.X
		case *ast.StarExpr:
			e = x.X
		case *ast.Ident:
			o := p.info.Uses[x]
			if v, ok := o.(*types.Var); ok && p.types != nil && v.Parent() == p.types.Scope() {
				return v
			}
			return nil
		default:
			return nil
		}
	}
}

// findMutable finds package variables that functions assign, take the address
// of, call pointer methods on, or whose type is a map, channel, pointer-free
// container written to, or a synchronisation object.
func findMutable(p *pkg) {
	p.mut = map[types.Object]bool{}
	mark := func(e ast.Expr) {
		if o := p.pkgVar(e); o != nil {
			p.mut[o] = true
		}
	}
	for _, f := range p.files {
		for _, d := range f.ast.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil {
				continue
			}
			ast.Inspect(fd.Body, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.AssignStmt:
					if x.Tok != token.DEFINE {
						for _, l := range x.Lhs {
							mark(l)
						}
					}
				case *ast.IncDecStmt:
					mark(x.X)
				case *ast.UnaryExpr:
					if x.Op == token.AND {
						mark(x.X)
					}
				case *ast.CallExpr:
					if s, ok := x.Fun.(*ast.SelectorExpr); ok {
						if sel := p.info.Selections[s]; sel != nil && sel.Kind() == types.MethodVal {
							if strings.HasSuffix(s.Sel.Name, "Assign") {
								mark(s.X)
							}
							if o := p.pkgVar(s.X); o != nil {
								ts := o.Type().String()
								if strings.Contains(ts, "sync.") || strings.Contains(ts, "atomic.") {
									p.mut[o] = true
								}
							}
						}
					}
					if id, ok := x.Fun.(*ast.Ident); ok && (id.Name == "copy" || id.Name == "delete" || id.Name == "append") && len(x.Args) > 0 {
						mark(x.Args[0])
					}
					// slices of package arrays handed to a function
					for _, a := range x.Args {
						if _, ok := a.(*ast.SliceExpr); ok {
							mark(a)
						}
					}
				}
				return true
			})
		}
	}
	if p.types != nil {
		sc := p.types.Scope()
		for _, n := range sc.Names() {
			if v, ok := sc.Lookup(n).(*types.Var); ok {
				switch v.Type().Underlying().(type) {
				case *types.Map, *types.Chan:
					p.mut[v] = true
				}
				ts := v.Type().String()
				if strings.Contains(ts, "sync.") || strings.Contains(ts, "atomic.") {
					p.mut[v] = true
				}
			}
		}
	}
}

func (f *file) off(p token.Pos) int { return fset.Position(p).Offset }

func (f *file) ins(p token.Pos, text string, prio int) {
	o := f.off(p)
	f.edits = append(f.edits, edit{o, o, text, prio})
}

func (f *file) repl(a, b token.Pos, text string) {
	f.edits = append(f.edits, edit{f.off(a), f.off(b), text, 5})
}

// ownStmt reports nodes of a statement without its nested blocks.
func shallow(s ast.Stmt, fn func(ast.Node)) {
	ast.Inspect(s, func(n ast.Node) bool {
		if n == nil {
			return false
		}
		switch n.(type) {
		case *ast.BlockStmt, *ast.CaseClause, *ast.CommClause, *ast.FuncLit:
			if n != ast.Node(s) {
				return false
			}
		}
		fn(n)
		return true
	})
}

// syncCall tells whether a call is one of package sync or sync/atomic.
func (p *pkg) syncCall(c *ast.CallExpr) bool {
	s, ok := c.Fun.(*ast.SelectorExpr)
	if !ok {
		return false
	}
	o := p.info.Uses[s.Sel]
	if o == nil || o.Pkg() == nil {
		return false
	}
	return o.Pkg().Path() == "sync" || o.Pkg().Path() == "sync/atomic"
}

func instrument(p *pkg, f *file) {
	yield := func(s ast.Stmt, params map[types.Object]bool) {
		hot, shared := false, false
		switch s.(type) {
		case *ast.GoStmt, *ast.SelectStmt, *ast.SendStmt:
			shared = true
		}
		shallow(s, func(n ast.Node) {
			switch x := n.(type) {
			case *ast.Ident:
				if o := p.info.Uses[x]; o != nil && p.mut[o] {
					shared = true
				}
			case *ast.UnaryExpr:
				if x.Op == token.ARROW {
					shared = true
				}
			case *ast.CallExpr:
				if p.syncCall(x) {
					shared = true
				}
				if sx, ok := x.Fun.(*ast.SelectorExpr); ok && strings.HasSuffix(sx.Sel.Name, "Assign") {
					if id := rootIdent(sx.X); id != nil {
						if o := p.info.Uses[id]; o != nil && params[o] {
							if _, isPtr := o.Type().Underlying().(*types.Pointer); isPtr {
								hot = true
							}
						}
					}
				}
			case *ast.AssignStmt:
				for _, l := range x.Lhs {
					if _, ok := l.(*ast.Ident); ok {
						continue
					}
					if id := rootIdent(l); id != nil {
						if o := p.info.Uses[id]; o != nil && params[o] {
							switch o.Type().Underlying().(type) {
							case *types.Pointer, *types.Slice:
								hot = true
							}
						}
					}
				}
			}
		})
		n := len(sites)
		pos := fset.Position(s.Pos())
		sites = append(sites, fmt.Sprintf("%s:%d", f.rel, pos.Line))
		fn := "Y"
		if shared {
			fn = "YS"
			shareds++
		} else if hot {
			fn = "YH"
			hots++
		}
		f.used = true
		f.ins(s.Pos(), fmt.Sprintf("__sim.%s(%d); ", fn, n), 1)
	}
	var walkBody func(n ast.Node, params map[types.Object]bool)
	list := func(ss []ast.Stmt, params map[types.Object]bool) {
		for _, s := range ss {
			switch s.(type) {
			case *ast.EmptyStmt, *ast.CaseClause, *ast.CommClause:
				continue
			}
			yield(s, params)
		}
	}
	walkBody = func(n ast.Node, params map[types.Object]bool) {
		ast.Inspect(n, func(m ast.Node) bool {
			switch x := m.(type) {
			case *ast.BlockStmt:
				list(x.List, params)
			case *ast.CaseClause:
				list(x.Body, params)
			case *ast.CommClause:
				list(x.Body, params)
			case *ast.ForStmt:
				if len(x.Body.List) == 0 {
					emptyLoop(f, x.Body)
				}
			case *ast.RangeStmt:
				if len(x.Body.List) == 0 {
					emptyLoop(f, x.Body)
				}
				rangeStmt(p, f, x)
			case *ast.GoStmt:
				goStmt(p, f, x)
			case *ast.SelectStmt:
				selectStmt(f, x, func(n ast.Node) { walkBody(n, params) })
				for _, c := range x.Body.List {
					cc := c.(*ast.CommClause)
					list(cc.Body, params)
					for _, s := range cc.Body {
						walkBody(s, params)
					}
				}
				return false
			case *ast.UnaryExpr:
				if x.Op == token.ARROW {
					recv(p, f, x)
				}
			case *ast.SendStmt:
				f.needG, f.used = true, true
				f.ins(x.Chan.Pos(), "__sim.Sender(", 6)
				f.repl(x.Arrow, x.Arrow+2, ")(")
				f.ins(x.Value.End(), ")", 0)
			case *ast.CallExpr:
				if id, ok := x.Fun.(*ast.Ident); ok && id.Name == "close" && len(x.Args) == 1 {
					if _, ok := p.info.Uses[id].(*types.Builtin); ok {
						f.needG, f.used = true, true
						f.repl(id.Pos(), id.End(), "__sim.Close")
					}
				}
			case *ast.SelectorExpr:
				timeSel(p, f, x)
			case *ast.FuncLit:
				if x != n {
					np := map[types.Object]bool{}
					for k := range params {
						np[k] = true
					}
					addParams(p, x.Type, nil, np)
					walkBody(x.Body, np)
					return false
				}
			}
			return true
		})
	}
	for _, d := range f.ast.Decls {
		if plain["all"] || plain[f.rel] {
			break
		}
		switch x := d.(type) {
		case *ast.FuncDecl:
			if x.Body == nil {
				continue
			}
			params := map[types.Object]bool{}
			addParams(p, x.Type, x.Recv, params)
			// receivers of in-place operations change by contract
			if x.Recv != nil && (strings.HasSuffix(x.Name.Name, "Assign") || x.Name.Name == "Aggregate") {
				for _, fl := range x.Recv.List {
					for _, nm := range fl.Names {
						delete(params, p.info.Defs[nm])
					}
				}
			}
			markTwo(x.Body)
			walkBody(x.Body, params)
		case *ast.GenDecl:
			if x.Tok == token.VAR {
				for _, s := range x.Specs {
					markTwo(s)
					walkBody(s, map[types.Object]bool{})
				}
			}
		}
	}
	timeTypes(p, f)
	for _, im := range f.ast.Imports {
		ip, _ := strconv.Unquote(im.Path.Value)
		if ip == "sync" {
			if im.Name == nil {
				f.ins(im.Path.Pos(), "sync ", 1)
			}
			f.repl(im.Path.Pos(), im.Path.End(), strconv.Quote(modPath+"/zzverif/simsync"))
		}
		if ip == "crypto/rand" {
			if im.Name == nil {
				f.ins(im.Path.Pos(), "rand ", 1)
			}
			f.repl(im.Path.Pos(), im.Path.End(), strconv.Quote(modPath+"/zzverif/simrand"))
		}
	}
	if f.used {
		f.ins(f.ast.Name.End(), `; import __sim "`+rtPath+`"`, 1)
	}
}

func addParams(p *pkg, t *ast.FuncType, recv *ast.FieldList, m map[types.Object]bool) {
	for _, fl := range []*ast.FieldList{recv, t.Params} {
		if fl == nil {
			continue
		}
		for _, x := range fl.List {
			for _, n := range x.Names {
				if o := p.info.Defs[n]; o != nil {
					m[o] = true
				}
			}
		}
	}
}

func rootIdent(e ast.Expr) *ast.Ident {
	for {
		switch x := e.(type) {
		case *ast.ParenExpr:
			e = x.X
		case *ast.SelectorExpr:
			e = x.X
		case *ast.IndexExpr:
			e = x.X
		case *ast.SliceExpr:
			e = x.X
		case *ast.StarExpr:
			e = x.X
		case *ast.UnaryExpr:
			e = x.X
		case *ast.Ident:
			return x
		default:
			return nil
		}
	}
}

func emptyLoop(f *file, b *ast.BlockStmt) {
	n := len(sites)
	pos := fset.Position(b.Pos())
	sites = append(sites, fmt.Sprintf("%s:%d", f.rel, pos.Line))
	f.used = true
	f.ins(b.Lbrace+1, fmt.Sprintf(" __sim.Y(%d); ", n), 1)
}

// markTwo records two-value receives.
func markTwo(n ast.Node) {
	ast.Inspect(n, func(m ast.Node) bool {
		switch a := m.(type) {
		case *ast.AssignStmt:
			if len(a.Lhs) == 2 && len(a.Rhs) == 1 {
				if u, ok := a.Rhs[0].(*ast.UnaryExpr); ok && u.Op == token.ARROW {
					two[u] = true
				}
			}
		case *ast.ValueSpec:
			if len(a.Names) == 2 && len(a.Values) == 1 {
				if u, ok := a.Values[0].(*ast.UnaryExpr); ok && u.Op == token.ARROW {
					two[u] = true
				}
			}
		}
		return true
	})
}

var two = map[*ast.UnaryExpr]bool{}

func recv(p *pkg, f *file, x *ast.UnaryExpr) {
	f.needG, f.used = true, true
	fn := "Recv"
	if two[x] {
		fn = "Recv2"
	}
	f.repl(x.OpPos, x.OpPos+2, "__sim."+fn+"(")
	f.ins(x.X.End(), ")", 0)
}

// selectStmt turns a select statement into a switch over the operation the
// scheduler performed. walk instruments an expression.
func selectStmt(f *file, x *ast.SelectStmt, walk func(ast.Node)) {
	f.needG, f.used = true, true
	if len(x.Body.List) == 0 {
		f.repl(x.Pos(), x.End(), "for { __sim.Select(false) }")
		return
	}
	text := func(e ast.Expr) string {
		n := len(f.edits)
		walk(e)
		t := f.text(f.off(e.Pos()), f.off(e.End()), f.edits[n:])
		f.edits = f.edits[:n]
		return t
	}
	def := "false"
	for _, c := range x.Body.List {
		if c.(*ast.CommClause).Comm == nil {
			def = "true"
		}
	}
	var names, inits []string
	for i, c := range x.Body.List {
		cc := c.(*ast.CommClause)
		if cc.Comm == nil {
			continue // stays as it is
		}
		name := fmt.Sprintf("__s%d_%d", f.off(x.Pos()), i)
		pre := ""
		var rx ast.Expr
		switch s := cc.Comm.(type) {
		case *ast.SendStmt:
			inits = append(inits, "__sim.SendTo("+text(s.Chan)+")("+text(s.Value)+")")
		case *ast.ExprStmt:
			rx = s.X
		case *ast.AssignStmt:
			rx = s.Rhs[0]
			var l []string
			for _, e := range s.Lhs {
				l = append(l, text(e))
			}
			pre = " " + strings.Join(l, ", ") + " " + s.Tok.String() + " " + name + ".V"
			if len(l) == 2 {
				pre += ", " + name + ".OK"
			}
			pre += ";"
		}
		if rx != nil {
			for {
				if q, ok := rx.(*ast.ParenExpr); ok {
					rx = q.X
					continue
				}
				break
			}
			inits = append(inits, "__sim.RecvOf("+text(rx.(*ast.UnaryExpr).X)+")")
		}
		lab := fmt.Sprintf("case %d:", len(names))
		if def == "false" && i == len(x.Body.List)-1 {
			lab = "default:"
		}
		names = append(names, name)
		f.repl(cc.Case, cc.Colon+1, lab+pre)
	}
	h := "switch "
	if len(names) > 0 {
		h += strings.Join(names, ", ") + " := " + strings.Join(inits, ", ") + "; "
	}
	h += "__sim.Select(" + strings.Join(append([]string{def}, names...), ", ") + ") {"
	f.repl(x.Select, x.Body.Lbrace+1, h)
}

func rangeStmt(p *pkg, f *file, x *ast.RangeStmt) {
	tv, ok := p.info.Types[x.X]
	if !ok || tv.Type == nil {
		return
	}
	switch tv.Type.Underlying().(type) {
	case *types.Map:
		f.needG, f.used = true, true
		name := fmt.Sprintf("__e%d", f.off(x.Pos()))
		op := " := "
		if x.Tok == token.ASSIGN {
			op = " = "
		}
		pre := ""
		k, v := "_", "_"
		if x.Key != nil {
			k = string(f.src[f.off(x.Key.Pos()):f.off(x.Key.End())])
		}
		if x.Value != nil {
			v = string(f.src[f.off(x.Value.Pos()):f.off(x.Value.End())])
		}
		if k != "_" || v != "_" {
			pre = k + ", " + v + op + name + ".K, " + name + ".V; "
		} else {
			pre = "_ = " + name + "; "
		}
		f.repl(x.For, x.X.Pos(), "for _, "+name+" := range __sim.Entries(")
		f.ins(x.X.End(), ")", 0)
		f.ins(x.Body.Lbrace+1, " "+pre, 0)
	case *types.Chan:
		f.needG, f.used = true, true
		name := fmt.Sprintf("__c%d", f.off(x.Pos()))
		k := "_"
		op := " := "
		if x.Tok == token.ASSIGN {
			op = " = "
		}
		if x.Key != nil {
			k = string(f.src[f.off(x.Key.Pos()):f.off(x.Key.End())])
		}
		ass := ""
		if k != "_" {
			ass = k + op + name + "v; "
		} else {
			ass = "_ = " + name + "v; "
		}
		f.repl(x.For, x.X.Pos(), "for "+name+" := (")
		f.ins(x.X.End(), "); ; ", 0)
		f.ins(x.Body.Lbrace+1, " "+name+"v, "+name+"ok := __sim.Recv2("+name+"); if !"+name+"ok { break }; "+ass, 0)
	}
}

func goStmt(p *pkg, f *file, x *ast.GoStmt) {
	f.used = true
	if fl, ok := x.Call.Fun.(*ast.FuncLit); ok {
		name := fmt.Sprintf("__t%d", f.off(x.Pos()))
		f.ins(x.Go, name+" := __sim.PreGo(); ", 2)
		f.ins(fl.Body.Lbrace+1, " defer __sim.GoExit(__sim.GoEnter("+name+")); ", 0)
		return
	}
	f.needG = true
	f.ins(x.Call.Fun.Pos(), "__sim.GoCall(__sim.PreGo(), ", 6)
	if len(x.Call.Args) > 0 {
		f.repl(x.Call.Lparen, x.Call.Lparen+1, ", ")
	} else {
		f.repl(x.Call.Lparen, x.Call.Lparen+1, "")
	}
}

var timeFns = map[string]bool{"Now": true, "Since": true, "Until": true, "Sleep": true, "After": true, "Tick": true,
	"AfterFunc": true, "NewTimer": true, "NewTicker": true}

// timeTypes replaces the types that belong to the functions above.
func timeTypes(p *pkg, f *file) {
	ast.Inspect(f.ast, func(n ast.Node) bool {
		if x, ok := n.(*ast.SelectorExpr); ok && (x.Sel.Name == "Timer" || x.Sel.Name == "Ticker") {
			if id, ok := x.X.(*ast.Ident); ok {
				if pn, ok := p.info.Uses[id].(*types.PkgName); ok && pn.Imported().Path() == "time" {
					f.used = true
					f.repl(id.Pos(), id.End(), "__sim")
					f.keepUsed(id.Name + ".Second")
				}
			}
		}
		return true
	})
}

func timeSel(p *pkg, f *file, x *ast.SelectorExpr) {
	id, ok := x.X.(*ast.Ident)
	if !ok {
		return
	}
	pn, ok := p.info.Uses[id].(*types.PkgName)
	if !ok {
		return
	}
	keep := ""
	switch pn.Imported().Path() {
	case "time":
		if timeFns[x.Sel.Name] {
			keep = "Second"
		}
	case "runtime":
		if x.Sel.Name == "Gosched" {
			keep = "GC"
		}
	}
	if keep == "" {
		return
	}
	f.used = true
	f.repl(id.Pos(), id.End(), "__sim")
	f.keepUsed(id.Name + "." + keep)
}

// keepUsed keeps an import used.
func (f *file) keepUsed(name string) {
	t := fmt.Sprintf("\nvar _ = %s\n", name)
	if !strings.Contains(f.tail, t) {
		f.tail += t
	}
}

// render applies the edits: once for the tree itself and once for the
// portable copy.
func render(f *file) (nat, port []byte) {
	body := f.text(0, len(f.src), f.edits) + f.tail
	nat = []byte(fixConstraint(body, f, false))
	p := fixConstraint(body, f, true)
	for _, im := range f.ast.Imports {
		ip, _ := strconv.Unquote(im.Path.Value)
		if ip == modPath || strings.HasPrefix(ip, modPath+"/") && !strings.HasPrefix(ip, modPath+"/zzverif") {
			np := modPath + "/zzverif/port" + strings.TrimPrefix(ip, modPath)
			p = strings.Replace(p, strconv.Quote(ip), strconv.Quote(np), 1)
		}
	}
	port = []byte(p)
	return
}

// text is a part of the source with edits applied.
func (f *file) text(lo, hi int, edits []edit) string {
	es := append([]edit(nil), edits...)
	sort.SliceStable(es, func(i, j int) bool {
		if es[i].off != es[j].off {
			return es[i].off < es[j].off
		}
		return es[i].prio < es[j].prio
	})
	var b strings.Builder
	last := lo
	for _, e := range es {
		if e.off < last {
			die("overlapping edits in %s at %d", f.rel, e.off)
		}
		b.Write(f.src[last:e.off])
		b.WriteString(e.text)
		last = e.end
	}
	b.Write(f.src[last:hi])
	return b.String()
}

// fixConstraint removes (portable copy) or rewrites (generic helpers needed)
// the build constraints, keeping line numbers.
func fixConstraint(body string, f *file, port bool) string {
	if !port && !f.needG {
		return body
	}
	lines := strings.Split(body, "\n")
	var ex constraint.Expr
	firstCons := -1
	for i, l := range lines {
		t := strings.TrimSpace(l)
		if strings.HasPrefix(t, "package ") {
			break
		}
		if constraint.IsGoBuild(t) || constraint.IsPlusBuild(t) {
			e, err := constraint.Parse(t)
			if err == nil {
				if constraint.IsGoBuild(t) || ex == nil {
					ex = e
				} else if !constraint.IsGoBuild(t) {
					ex = &constraint.AndExpr{X: ex, Y: e}
				}
			}
			lines[i] = "//"
			if firstCons < 0 {
				firstCons = i
			}
		}
	}
	out := strings.Join(lines, "\n")
	c := ""
	if f.needG {
		c = "go1.21"
	}
	if !port && ex != nil {
		if c != "" {
			c = "(" + ex.String() + ") && " + c
		} else {
			c = ex.String()
		}
	}
	if c == "" {
		return out
	}
	return "//go:build " + c + "\n\n//line " + f.path + ":1\n" + out
}

func varsFile(p *pkg, pre string, port bool) []byte {
	var names []string
	seen := map[string]bool{}
	for _, f := range p.files {
		if port && !f.port || !port && !f.nat {
			continue
		}
		for _, d := range f.ast.Decls {
			g, ok := d.(*ast.GenDecl)
			if !ok || g.Tok != token.VAR {
				continue
			}
			for _, s := range g.Specs {
				for _, n := range s.(*ast.ValueSpec).Names {
					if n.Name != "_" && !seen[n.Name] {
						seen[n.Name] = true
						names = append(names, n.Name)
					}
				}
			}
		}
	}
	// variables that exist in one build only are fine: the list is per build
	var b strings.Builder
	fmt.Fprintf(&b, "package %s\n\nimport __sim %q\n\nfunc init() {\n\t_ = __sim.RegVar\n", p.files[0].ast.Name.Name, rtPath)
	short := strings.TrimPrefix(strings.TrimPrefix(p.path, modPath), "/")
	if short == "" {
		short = "bls"
	}
	for _, n := range names {
		fmt.Fprintf(&b, "\t__sim.RegVar(%q, &%s)\n", pre+short+"."+n, n)
	}
	b.WriteString("}\n")
	return []byte(b.String())
}
