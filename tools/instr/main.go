// Command instr copies the Go packages of the system under test from its working tree into a
// scratch module and puts every source of nondeterminism behind the simulator:
//
//   - a scheduling point (zzrt.Y / zzrt.W) in front of every statement, on the same source line, so
//     that line numbers in stack traces still are those of the working tree,
//   - ranging over maps goes through zzrt.Map (the iteration order becomes the simulator's choice),
//   - go statements and channel operations go through the cooperative scheduler,
//   - imports of os, sync, time, io/ioutil, path/filepath, maps, math/rand and encoding/gob (and,
//     for the command line tool, fmt, argp and prompt) are redirected to simulator packages.
//
// The rewriting is purely textual (byte offset edits found through go/ast and go/types), semantics
// preserving, and independent of what the code looks like.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

const simBase = "github.com/tdewolff/font/zzverif/"

var libImports = map[string]string{
	"os":            "simos",
	"sync":          "simsync",
	"time":          "simtime",
	"io/ioutil":     "simioutil",
	"path/filepath": "simfilepath",
	"maps":          "simmaps",
	"math/rand":     "simrand",
	"encoding/gob":  "simgob",

	"compress/zlib":                 "simzlib",
	"compress/flate":                "simflate",
	"github.com/andybalholm/brotli": "simbrotli",
}

var cmdImports = map[string]string{
	"fmt":                          "simfmt",
	"github.com/tdewolff/argp":     "simargp",
	"github.com/tdewolff/prompt":   "simprompt",
	"github.com/tdewolff/parse/v2": "",
}

type edit struct {
	start, end int
	text       string
	seq        int
}

type pkgInfo struct {
	ImportPath string
	Dir        string
	Name       string
	GoFiles    []string
	Export     string
	Standard   bool
}

func fatal(format string, args ...interface{}) {
	fmt.Fprintf(os.Stderr, "instr: "+format+"\n", args...)
	os.Exit(2)
}

func goList(dir string) (map[string]pkgInfo, pkgInfo) {
	// the module files are used through a copy, so that the working tree is never written to
	tmp, err := os.MkdirTemp("", "instr")
	if err != nil {
		fatal("%v", err)
	}
	defer os.RemoveAll(tmp)
	for _, name := range []string{"go.mod", "go.sum"} {
		b, err := os.ReadFile(filepath.Join(dir, name))
		if err != nil {
			fatal("%v", err)
		}
		if err := os.WriteFile(filepath.Join(tmp, name), b, 0644); err != nil {
			fatal("%v", err)
		}
	}
	cmd := exec.Command("go", "list", "-modfile="+filepath.Join(tmp, "go.mod"), "-export", "-deps", "-json=ImportPath,Dir,Name,GoFiles,Export,Standard", ".")
	cmd.Dir = dir
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	if err := cmd.Run(); err != nil {
		fatal("go list in %s: %v\n%s", dir, err, errb.String())
	}
	pkgs := map[string]pkgInfo{}
	var last pkgInfo
	dec := json.NewDecoder(&out)
	for {
		var p pkgInfo
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			fatal("go list output: %v", err)
		}
		pkgs[p.ImportPath] = p
		last = p
	}
	return pkgs, last
}

var siteNum int

func main() {
	if len(os.Args) < 4 {
		fatal("usage: instr SRCDIR DSTDIR lib|cmd")
	}
	src, dst, mode := os.Args[1], os.Args[2], os.Args[3]
	if mode == "cmd" {
		siteNum = 1 << 20
	}
	pkgs, pkg := goList(src)
	fset := token.NewFileSet()
	var files []*ast.File
	var names []string
	var srcs [][]byte
	for _, name := range pkg.GoFiles {
		b, err := os.ReadFile(filepath.Join(src, name))
		if err != nil {
			fatal("%v", err)
		}
		f, err := parser.ParseFile(fset, filepath.Join(src, name), b, parser.SkipObjectResolution)
		if err != nil {
			fatal("%v", err)
		}
		files = append(files, f)
		names = append(names, name)
		srcs = append(srcs, b)
	}
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		p, ok := pkgs[path]
		if !ok || p.Export == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(p.Export)
	})
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{}}
	conf := types.Config{Importer: imp, GoVersion: "go1.25"}
	if _, err := conf.Check(pkg.ImportPath, fset, files, info); err != nil {
		fatal("type check: %v", err)
	}
	if err := os.MkdirAll(dst, 0o755); err != nil {
		fatal("%v", err)
	}
	for i, f := range files {
		out := rewrite(fset, f, srcs[i], info, mode)
		if err := os.WriteFile(filepath.Join(dst, names[i]), out, 0o644); err != nil {
			fatal("%v", err)
		}
	}
}

type rewriter struct {
	fset  *token.FileSet
	tf    *token.File
	src   []byte
	info  *types.Info
	edits []edit
	mode  string
}

func (r *rewriter) off(p token.Pos) int { return r.tf.Offset(p) }
func (r *rewriter) add(start, end int, text string) {
	r.edits = append(r.edits, edit{start, end, text, len(r.edits)})
}
func (r *rewriter) insert(p token.Pos, text string) { r.add(r.off(p), r.off(p), text) }
func (r *rewriter) text(n ast.Node) string          { return string(r.src[r.off(n.Pos()):r.off(n.End())]) }
func (r *rewriter) wrap(n ast.Node, before, after string) {
	r.insert(n.Pos(), before)
	r.add(r.off(n.End()), r.off(n.End()), after)
}

// sharedWrite tells whether a statement stores through a selector, index or pointer, or calls
// something that mutates its argument in place.
func sharedWrite(s ast.Stmt) bool {
	isShared := func(e ast.Expr) bool {
		for {
			p, ok := e.(*ast.ParenExpr)
			if !ok {
				break
			}
			e = p.X
		}
		switch e.(type) {
		case *ast.SelectorExpr, *ast.IndexExpr, *ast.StarExpr:
			return true
		}
		return false
	}
	switch s := s.(type) {
	case *ast.AssignStmt:
		if s.Tok == token.DEFINE {
			return false
		}
		for _, l := range s.Lhs {
			if isShared(l) {
				return true
			}
		}
	case *ast.IncDecStmt:
		return isShared(s.X)
	case *ast.ExprStmt:
		if c, ok := s.X.(*ast.CallExpr); ok {
			switch f := c.Fun.(type) {
			case *ast.Ident:
				return f.Name == "copy" || f.Name == "delete" || f.Name == "clear"
			case *ast.SelectorExpr:
				return strings.HasPrefix(f.Sel.Name, "Put") || f.Sel.Name == "Do" || strings.HasPrefix(f.Sel.Name, "Sort") || strings.HasPrefix(f.Sel.Name, "Slice")
			}
		}
	}
	return false
}

func (r *rewriter) yield(s ast.Stmt, p token.Pos) {
	siteNum++
	f := "Y"
	if s != nil && sharedWrite(s) {
		f = "W"
	}
	r.insert(p, fmt.Sprintf("zzrt.%s(%d); ", f, siteNum))
}

func (r *rewriter) list(stmts []ast.Stmt) {
	for _, s := range stmts {
		if _, ok := s.(*ast.EmptyStmt); ok {
			continue
		}
		r.yield(s, s.Pos())
	}
}

func (r *rewriter) typ(e ast.Expr) types.Type {
	tv, ok := r.info.Types[e]
	if !ok {
		return nil
	}
	return tv.Type
}

func coreType(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	u := t.Underlying()
	if i, ok := u.(*types.Interface); ok {
		// type parameter: take the single core type if all terms agree in kind
		for j := 0; j < i.NumEmbeddeds(); j++ {
			if un, ok := i.EmbeddedType(j).(*types.Union); ok && un.Len() > 0 {
				return un.Term(0).Type().Underlying()
			}
			return i.EmbeddedType(j).Underlying()
		}
	}
	return u
}

func rewrite(fset *token.FileSet, f *ast.File, src []byte, info *types.Info, mode string) []byte {
	r := &rewriter{fset: fset, tf: fset.File(f.Pos()), src: src, info: info, mode: mode}

	// imports
	for _, spec := range f.Imports {
		path, _ := strconv.Unquote(spec.Path.Value)
		to, ok := libImports[path]
		if !ok && mode == "cmd" {
			to, ok = cmdImports[path]
		}
		if !ok || to == "" {
			continue
		}
		name := ""
		if spec.Name == nil {
			base := path[strings.LastIndexByte(path, '/')+1:]
			if base == "v2" {
				base = "rand"
			}
			name = base + " "
		}
		r.add(r.off(spec.Path.Pos()), r.off(spec.Path.End()), name+strconv.Quote(simBase+to))
	}
	r.insert(f.Name.End(), `; import zzrt "`+simBase+`simrt"`)

	commRecv := map[ast.Node]bool{} // receive operations that are part of a select communication
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.CommClause:
			switch c := n.Comm.(type) {
			case *ast.SendStmt:
				commRecv[c] = true
			case *ast.ExprStmt:
				commRecv[c.X] = true
			case *ast.AssignStmt:
				commRecv[c.Rhs[0]] = true
			}
			r.list(n.Body)
		case *ast.BlockStmt:
			clauses := len(n.List) > 0
			for _, s := range n.List {
				switch s.(type) {
				case *ast.CaseClause, *ast.CommClause:
				default:
					clauses = false
				}
			}
			if !clauses {
				r.list(n.List)
			}
		case *ast.CaseClause:
			r.list(n.Body)
		case *ast.ForStmt:
			// a scheduling point per iteration even when the body is empty (spin loops)
			siteNum++
			r.add(r.off(n.Body.Lbrace)+1, r.off(n.Body.Lbrace)+1, fmt.Sprintf(" zzrt.Y(%d); ", siteNum))
		case *ast.RangeStmt:
			switch coreType(r.typ(n.X)).(type) {
			case *types.Map:
				r.wrap(n.X, "zzrt.Map(", ")")
			case *types.Chan:
				r.wrap(n.X, "zzrt.RangeChan(", ")")
			}
		case *ast.GoStmt:
			r.goStmt(n)
		case *ast.SendStmt:
			if !commRecv[n] {
				r.insert(n.Pos(), "zzrt.Send(")
				r.add(r.off(n.Arrow), r.off(n.Arrow)+2, ", ")
				r.add(r.off(n.End()), r.off(n.End()), ")")
			}
		case *ast.UnaryExpr:
			if n.Op == token.ARROW && !commRecv[n] {
				fn := "Recv"
				if tv, ok := info.Types[n]; ok {
					if _, ok := tv.Type.(*types.Tuple); ok {
						fn = "Recv2"
					}
				}
				r.add(r.off(n.OpPos), r.off(n.OpPos)+2, "zzrt."+fn+"(")
				r.add(r.off(n.End()), r.off(n.End()), ")")
			}
		case *ast.SelectStmt:
			hasDefault := false
			for _, c := range n.Body.List {
				if c.(*ast.CommClause).Comm == nil {
					hasDefault = true
				}
			}
			if !hasDefault {
				// busy-wait cooperatively: for { select { ...; default: park; continue }; break } changes
				// the meaning of break/continue inside, so use an immediately repeated goto-free form
				fatal("%s: select without default is not supported by the simulator", fset.Position(n.Pos()))
			}
		case *ast.CallExpr:
			if id, ok := n.Fun.(*ast.Ident); ok && id.Name == "make" && len(n.Args) == 1 {
				if _, ok := coreType(r.typ(n.Args[0])).(*types.Chan); ok {
					r.add(r.off(n.Args[0].End()), r.off(n.Args[0].End()), ", 1")
				}
			}
		case *ast.FuncDecl:
			if mode == "cmd" && n.Name.Name == "main" && n.Recv == nil {
				r.add(r.off(n.Name.Pos()), r.off(n.Name.End()), "zzMain")
			}
		}
		return true
	})
	r.add(len(src), len(src), "\nvar _ = zzrt.Y\n")

	sort.SliceStable(r.edits, func(i, j int) bool {
		if r.edits[i].start != r.edits[j].start {
			return r.edits[i].start < r.edits[j].start
		}
		return r.edits[i].seq < r.edits[j].seq
	})
	var out bytes.Buffer
	pos := 0
	for _, e := range r.edits {
		if e.start < pos {
			fatal("overlapping edits in %s at offset %d", fset.Position(f.Pos()).Filename, e.start)
		}
		out.Write(src[pos:e.start])
		out.WriteString(e.text)
		pos = e.end
	}
	out.Write(src[pos:])
	return out.Bytes()
}

// goStmt rewrites `go f(a, b)` to a cooperative thread, keeping the evaluation of f's receiver and
// of the arguments at the go statement.
func (r *rewriter) goStmt(n *ast.GoStmt) {
	call := n.Call
	start := r.off(n.Pos())
	if len(call.Args) == 0 {
		if _, ok := call.Fun.(*ast.FuncLit); ok {
			r.add(start, r.off(call.Pos()), "zzrt.Go(func() { ")
			r.add(r.off(call.End()), r.off(call.End()), " })")
			return
		}
	}
	// general case: zzf, zz0, zz1 := fun, arg0, arg1
	lhs, passed := []string{"zzf"}, []string{}
	var firstEdit strings.Builder
	firstEdit.WriteString("{ ")
	_ = firstEdit
	// the pieces between are edited in place so nested rewrites (closures in arguments) still apply
	r.add(start, r.off(call.Fun.Pos()), "{ zzf := ")
	prevEnd := r.off(call.Fun.End())
	for i, a := range call.Args {
		tv := r.info.Types[a]
		isConst := tv.Value != nil || tv.IsNil()
		if isConst {
			r.add(prevEnd, r.off(a.End()), "")
			passed = append(passed, r.text(a))
			prevEnd = r.off(a.End())
			continue
		}
		name := fmt.Sprintf("zz%d", i)
		lhs = append(lhs, name)
		passed = append(passed, name)
		r.add(prevEnd, r.off(a.Pos()), "; "+name+" := ")
		prevEnd = r.off(a.End())
	}
	args := strings.Join(passed, ", ")
	if call.Ellipsis.IsValid() {
		args += "..."
	}
	r.add(prevEnd, r.off(call.End()), "; zzrt.Go(func() { zzf("+args+") }) }")
}
