// Command instr prepares the tree under test for simulation.
//
// It reads the non-test sources of every package of the module in -repo that
// the root package needs, and writes a `go build -overlay` file that
//   - replaces each of them by a copy in which a scheduling point precedes every
//     statement, "sync" and "math/rand" come from the simulator, goroutines are
//     simulated tasks, map iteration follows a seeded permutation, channel
//     operations and the clock go through the simulator;
//   - provides the very same sources, untouched, as package amsim/aminoref, which
//     is the isolated reference the oracles run calls against;
//   - with -race, replaces the standard library's sync.Pool by one that never
//     pools (a pool is a random happens-before edge).
//
// The copies live in -out; the tree itself is never written to.
// Edits are textual and keep line numbers, so positions in reports are real.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

type pkgInfo struct {
	ImportPath string
	Dir        string
	GoFiles    []string
	Export     string
	Standard   bool
	Module     *struct{ Path, Dir string }
	Imports    []string
}

type edit struct {
	off  int
	end  int // replaced up to here
	text string
	pri  int
}

type site struct {
	File string `json:"file"`
	Line int    `json:"line"`
	Func string `json:"func"`
}

var sites []site

func die(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "instr: "+f+"\n", a...)
	os.Exit(2)
}

func main() {
	repo := flag.String("repo", "/repo", "tree under test")
	out := flag.String("out", "", "output directory")
	simdir := flag.String("sim", "", "directory of the amsim module")
	race := flag.Bool("race", false, "also neutralise sync.Pool of the standard library")
	flag.Parse()
	if *out == "" || *simdir == "" {
		die("-out and -sim are required")
	}
	cmd := exec.Command("go", "list", "-deps", "-export", "-json=ImportPath,Dir,GoFiles,Export,Standard,Module,Imports", ".")
	cmd.Dir = *repo
	cmd.Env = append(os.Environ(), "GOFLAGS=-mod=readonly")
	cmd.Stderr = os.Stderr
	b, err := cmd.Output()
	if err != nil {
		die("go list: %v", err)
	}
	exports := map[string]string{}
	var pkgs []*pkgInfo
	dec := json.NewDecoder(bytes.NewReader(b))
	for {
		p := new(pkgInfo)
		if err := dec.Decode(p); err == io.EOF {
			break
		} else if err != nil {
			die("go list output: %v", err)
		}
		exports[p.ImportPath] = p.Export
		pkgs = append(pkgs, p)
	}
	root := pkgs[len(pkgs)-1]
	overlay := map[string]string{}
	for _, p := range pkgs {
		if p.Module == nil || root.Module == nil || p.Module.Path != root.Module.Path {
			continue
		}
		instrument(p, exports, *out, overlay)
		if p == root {
			for _, f := range p.GoFiles {
				overlay[filepath.Join(*simdir, "aminoref", f)] = filepath.Join(p.Dir, f)
			}
		}
	}
	if *race {
		goroot, err := exec.Command("go", "env", "GOROOT").Output()
		if err != nil {
			die("go env: %v", err)
		}
		poolPath := filepath.Join(strings.TrimSpace(string(goroot)), "src", "sync", "pool.go")
		src, err := os.ReadFile(poolPath)
		if err != nil {
			die("%v", err)
		}
		const a = "if runtime_randn(4) == 0 {"
		if !strings.Contains(string(src), a) {
			die("sync/pool.go is not what this expects")
		}
		s := strings.Replace(string(src), a, "if true {", 1)
		dst := filepath.Join(*out, "sync_pool.go")
		must(os.WriteFile(dst, []byte(s), 0o644))
		overlay[poolPath] = dst
	}
	ob, _ := json.MarshalIndent(map[string]any{"Replace": overlay}, "", " ")
	must(os.WriteFile(filepath.Join(*out, "overlay.json"), ob, 0o644))
	sb, _ := json.Marshal(sites)
	must(os.WriteFile(filepath.Join(*out, "sites.json"), sb, 0o644))
	fmt.Printf("instrumented: %d files, %d scheduling points\n", len(overlay), len(sites))
}

func must(err error) {
	if err != nil {
		die("%v", err)
	}
}

func instrument(p *pkgInfo, exports map[string]string, out string, overlay map[string]string) {
	fset := token.NewFileSet()
	var files []*ast.File
	var srcs [][]byte
	for _, name := range p.GoFiles {
		path := filepath.Join(p.Dir, name)
		src, err := os.ReadFile(path)
		must(err)
		f, err := parser.ParseFile(fset, path, src, parser.ParseComments)
		if err != nil {
			die("%v", err)
		}
		files = append(files, f)
		srcs = append(srcs, src)
	}
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{}}
	conf := types.Config{Importer: importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		e := exports[path]
		if e == "" {
			return nil, fmt.Errorf("no export data for %q", path)
		}
		return os.Open(e)
	})}
	if _, err := conf.Check(p.ImportPath, fset, files, info); err != nil {
		die("type checking %s: %v", p.ImportPath, err)
	}
	for i, f := range files {
		in := &inst{fset: fset, info: info, src: srcs[i], file: f, name: p.GoFiles[i]}
		res := in.run()
		dir := filepath.Join(out, strings.ReplaceAll(p.ImportPath, "/", "_"))
		must(os.MkdirAll(dir, 0o755))
		dst := filepath.Join(dir, p.GoFiles[i])
		must(os.WriteFile(dst, res, 0o644))
		overlay[filepath.Join(p.Dir, p.GoFiles[i])] = dst
	}
}

type inst struct {
	fset  *token.FileSet
	info  *types.Info
	src   []byte
	file  *ast.File
	name  string
	edits []edit
	fn    string
	pri   int
	skip  map[ast.Node]bool
	nvar  int
}

func (in *inst) off(p token.Pos) int { return in.fset.Position(p).Offset }

func (in *inst) insert(p token.Pos, text string) {
	in.pri++
	in.edits = append(in.edits, edit{in.off(p), in.off(p), text, in.pri})
}

func (in *inst) replace(a, b token.Pos, text string) {
	in.pri++
	in.edits = append(in.edits, edit{in.off(a), in.off(b), text, in.pri})
}

func (in *inst) text(n ast.Node) string { return string(in.src[in.off(n.Pos()):in.off(n.End())]) }

func (in *inst) y(p token.Pos) string {
	sites = append(sites, site{in.name, in.fset.Position(p).Line, in.fn})
	return fmt.Sprintf("simrt_.Y(%d);", len(sites)-1)
}

var importSwap = map[string]string{
	"sync":         "amsim/simrt/simsync",
	"math/rand":    "amsim/simrt/simrand",
	"math/rand/v2": "amsim/simrt/simrandv2",
}

func (in *inst) run() []byte {
	in.skip = map[ast.Node]bool{}
	for _, im := range in.file.Imports {
		path := strings.Trim(im.Path.Value, "\"`")
		if to, ok := importSwap[path]; ok {
			name := ""
			if im.Name == nil {
				base := path[strings.LastIndex(path, "/")+1:]
				if base == "v2" {
					base = "rand"
				}
				name = base + " "
			}
			in.replace(im.Path.Pos(), im.Path.End(), name+"\""+to+"\"")
		}
	}
	for _, d := range in.file.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok {
			in.fn = "var"
			ast.Inspect(d, in.visit)
			continue
		}
		in.fn = fd.Name.Name
		if fd.Body != nil {
			ast.Inspect(fd.Body, in.visit)
		}
	}
	// Header: the simulator's import right after the package clause, on its line.
	in.insert(in.file.Name.End(), `; import simrt_ "amsim/simrt"`)
	sort.SliceStable(in.edits, func(i, j int) bool {
		a, b := in.edits[i], in.edits[j]
		if a.off != b.off {
			return a.off < b.off
		}
		return a.pri < b.pri
	})
	var o bytes.Buffer
	// Allows the generic helpers, keeps the loop variable semantics.
	// (Line numbers stay right thanks to the line directive.)
	if !bytes.Contains(in.src[:in.off(in.file.Package)], []byte("//go:build")) {
		o.WriteString("//go:build go1.21\n\n")
	}
	fmt.Fprintf(&o, "//line %s:1\n", in.name)
	last := 0
	for _, e := range in.edits {
		if e.off < last {
			die("%s: overlapping edits at offset %d (%q)", in.name, e.off, e.text)
		}
		o.Write(in.src[last:e.off])
		o.WriteString(e.text)
		last = e.end
	}
	o.Write(in.src[last:])
	o.WriteString("\nvar _ = simrt_.Y\n")
	return o.Bytes()
}

func (in *inst) stmts(list []ast.Stmt) {
	for _, s := range list {
		switch s.(type) {
		case *ast.EmptyStmt, *ast.CaseClause, *ast.CommClause:
			continue
		}
		in.insert(s.Pos(), in.y(s.Pos()))
	}
}

func (in *inst) isPkgSel(e ast.Expr, path, name string) bool {
	s, ok := e.(*ast.SelectorExpr)
	if !ok {
		return false
	}
	id, ok := s.X.(*ast.Ident)
	if !ok {
		return false
	}
	pn, ok := in.info.Uses[id].(*types.PkgName)
	return ok && pn.Imported().Path() == path && (name == "" || s.Sel.Name == name)
}

func isReflectValue(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "reflect" && n.Obj().Name() == "Value"
}

func (in *inst) visit(n ast.Node) bool {
	switch n := n.(type) {
	case *ast.BlockStmt:
		in.stmts(n.List)
	case *ast.CaseClause:
		in.stmts(n.Body)
	case *ast.CommClause:
		die("%s: select statements are not simulated", in.fset.Position(n.Pos()))
	case *ast.ForStmt:
		in.insert(n.Body.Lbrace+1, in.y(n.Body.Lbrace))
	case *ast.RangeStmt:
		in.insert(n.Body.Lbrace+1, in.y(n.Body.Lbrace))
		if tv, ok := in.info.Types[n.X]; ok {
			switch u := tv.Type.Underlying().(type) {
			case *types.Map:
				in.mapRange(n)
			case *types.Chan:
				die("%s: ranging over a channel is not simulated", in.fset.Position(n.Pos()))
			case *types.Signature:
				_ = u
			}
		}
	case *ast.CallExpr:
		if s, ok := n.Fun.(*ast.SelectorExpr); ok {
			if tv, ok := in.info.Types[s.X]; ok && isReflectValue(tv.Type) {
				switch s.Sel.Name {
				case "MapKeys":
					in.insert(n.Pos(), "simrt_.Keys(")
					in.insert(n.End(), ")")
				case "MapRange":
					in.insert(s.X.Pos(), "simrt_.MapRange(")
					in.replace(s.X.End(), n.End(), ")")
				}
			}
		}
	case *ast.SelectorExpr:
		for _, c := range [...][3]string{
			{"time", "Now", "TimeNow"}, {"time", "Since", "TimeSince"}, {"time", "Sleep", "TimeSleep"},
			{"runtime", "Gosched", "Gosched"},
		} {
			if in.isPkgSel(n, c[0], c[1]) {
				// Keeps the import used.
				in.insert(n.Pos(), "simrt_.Second(")
				in.insert(n.End(), ", simrt_."+c[2]+")")
			}
		}
		for _, c := range []string{"After", "AfterFunc", "NewTimer", "NewTicker", "Tick"} {
			if in.isPkgSel(n, "time", c) {
				die("%s: time.%s is not simulated", in.fset.Position(n.Pos()), c)
			}
		}
	case *ast.SendStmt:
		in.insert(n.Chan.Pos(), "simrt_.Send(")
		in.replace(n.Arrow, n.Arrow+2, ",")
		in.insert(n.Value.End(), ")")
	case *ast.AssignStmt:
		if len(n.Lhs) == 2 && len(n.Rhs) == 1 {
			if u, ok := n.Rhs[0].(*ast.UnaryExpr); ok && u.Op == token.ARROW {
				in.skip[u] = true
				in.replace(u.OpPos, u.OpPos+2, "simrt_.Recv2(")
				in.insert(u.End(), ")")
			}
		}
	case *ast.UnaryExpr:
		if n.Op == token.ARROW && !in.skip[n] {
			in.replace(n.OpPos, n.OpPos+2, "simrt_.Recv(")
			in.insert(n.End(), ")")
		}
	case *ast.GoStmt:
		in.goStmt(n)
	}
	return true
}

// for k, v := range m {  =>  for _, e_ := range simrt_.Entries(m) { if !e_.Live(m) {continue}; k, v := e_.K, e_.V;
func (in *inst) mapRange(n *ast.RangeStmt) {
	in.nvar++
	e := fmt.Sprintf("simrt_e%d", in.nvar)
	m := fmt.Sprintf("simrt_m%d", in.nvar)
	var pre string
	tok := n.Tok.String()
	var l, r []string
	for i, x := range []ast.Expr{n.Key, n.Value} {
		if x == nil {
			continue
		}
		if id, ok := x.(*ast.Ident); ok && id.Name == "_" {
			continue
		}
		l = append(l, in.text(x))
		r = append(r, e+[]string{".K", ".V()"}[i])
	}
	if len(l) > 0 {
		pre = strings.Join(l, ", ") + " " + tok + " " + strings.Join(r, ", ") + "; "
	}
	start := n.For + 3
	in.replace(start, n.X.Pos(), fmt.Sprintf(" _, %s := range simrt_.Entries(", e))
	in.insert(n.X.End(), ")")
	in.insert(n.Body.Lbrace+1, fmt.Sprintf(" if !%s.Live() { continue }; %s", e, pre))
	_ = m
}

// go f(a, b)  =>  { f_, a_, b_ := f, a, b; simrt_.Go(func() { f_(a_, b_) }) }
func (in *inst) goStmt(n *ast.GoStmt) {
	c := n.Call
	if len(c.Args) == 0 {
		in.replace(n.Go, n.Go+2, "simrt_.Go(")
		in.replace(c.Fun.End(), c.End(), ")")
		return
	}
	in.nvar++
	var names []string
	for i := range c.Args {
		names = append(names, fmt.Sprintf("simrt_a%d_%d", in.nvar, i))
	}
	fn := fmt.Sprintf("simrt_f%d", in.nvar)
	in.replace(n.Go, n.Go+2, "{ "+fn+" := ")
	// f_ := f ; a_, b_ := a, b
	in.replace(c.Fun.End(), c.Args[0].Pos(), "; "+strings.Join(names, ", ")+" := ")
	ell := ""
	if c.Ellipsis.IsValid() {
		ell = "..."
	}
	in.replace(c.Args[len(c.Args)-1].End(), c.End(), fmt.Sprintf("; simrt_.Go(func() { %s(%s%s) }) }", fn, strings.Join(names, ", "), ell))
}
