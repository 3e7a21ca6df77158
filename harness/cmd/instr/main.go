// instr writes instrumented copies of the library's packages and the overlay
// that substitutes them: a scheduling point before every statement that
// mentions a package variable which may change and at every function entry,
// and the scheduler's sync, sync/atomic and go statements in place of the
// real ones.
//
// usage: instr OUTDIR OVERLAY.json [TAGS [OTHER.json]]   (in the harness module)
//
// With a further overlay OTHER.json its replacements are added, and only
// synchronisation operations become scheduling points.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

const module = "github.com/blocktree/go-owcrypt"

type pkg struct {
	ImportPath, Dir string
	GoFiles         []string
	files           []*file
	vars            map[string]bool // package variables that may change
	all             map[string]bool // package variables
}

type file struct {
	path, out string
	src       []byte
	f         *ast.File
	imports   map[string]string // local name -> import path
}

type edit struct {
	at, end int
	text    string
	seq     int
}

var (
	fset  = token.NewFileSet()
	pkgs  = map[string]*pkg{}
	sites int
)

func die(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "instr: "+f+"\n", a...)
	os.Exit(1)
}

func main() {
	out, overlay := os.Args[1], os.Args[2]
	args := []string{"list", "-deps", "-json=ImportPath,Dir,GoFiles"}
	if len(os.Args) > 3 {
		args = append(args, "-tags", os.Args[3])
	}
	b, err := exec.Command("go", append(args, "./kit")...).Output()
	if err != nil {
		die("go list: %v", err)
	}
	for d := json.NewDecoder(bytes.NewReader(b)); d.More(); {
		p := &pkg{vars: map[string]bool{}, all: map[string]bool{}}
		if err := d.Decode(p); err != nil {
			die("%v", err)
		}
		if p.ImportPath == module || strings.HasPrefix(p.ImportPath, module+"/") {
			pkgs[p.ImportPath] = p
		}
	}
	for _, p := range pkgs {
		for _, n := range p.GoFiles {
			path := filepath.Join(p.Dir, n)
			src, err := os.ReadFile(path)
			if err != nil {
				die("%v", err)
			}
			f, err := parser.ParseFile(fset, path, src, parser.ParseComments)
			if err != nil {
				die("%v", err)
			}
			fl := &file{path: path, src: src, f: f, imports: map[string]string{}}
			fl.out = filepath.Join(out, strings.ReplaceAll(strings.TrimPrefix(path, "/"), "/", "__"))
			for _, s := range f.Imports {
				v, _ := strconv.Unquote(s.Path.Value)
				name := v[strings.LastIndex(v, "/")+1:]
				if s.Name != nil {
					name = s.Name.Name
				} else if q := pkgs[v]; q != nil && len(q.files) > 0 {
					name = q.files[0].f.Name.Name
				}
				if v == module && s.Name == nil {
					name = "owcrypt"
				}
				fl.imports[name] = v
			}
			p.files = append(p.files, fl)
			for _, d := range f.Decls {
				if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.VAR {
					for _, s := range g.Specs {
						for _, id := range s.(*ast.ValueSpec).Names {
							p.all[id.Name] = true
						}
					}
				}
			}
		}
	}
	for _, p := range pkgs {
		for _, f := range p.files {
			classify(p, f)
		}
	}
	rep := map[string]string{}
	for _, p := range pkgs {
		for _, f := range p.files {
			b := instrument(p, f)
			if b == nil {
				continue
			}
			if err := os.WriteFile(f.out, b, 0o644); err != nil {
				die("%v", err)
			}
			rep[f.path] = f.out
		}
	}
	if len(os.Args) > 4 { // further replacements
		var o struct{ Replace map[string]string }
		b, _ := os.ReadFile(os.Args[4])
		json.Unmarshal(b, &o)
		for k, v := range o.Replace {
			rep[k] = v
		}
	}
	j, _ := json.Marshal(map[string]any{"Replace": rep})
	if err := os.WriteFile(overlay, j, 0o644); err != nil {
		die("%v", err)
	}
	n := 0
	for _, p := range pkgs {
		n += len(p.vars)
	}
	fmt.Printf("%d packages, %d variables that may change, %d sites\n", len(pkgs), n, sites)
}

// global returns the package and name of the package variable an expression
// names.
func global(p *pkg, f *file, e ast.Expr) (*pkg, string) {
	switch e := e.(type) {
	case *ast.Ident:
		if !p.all[e.Name] {
			return nil, ""
		}
		if e.Obj != nil {
			if _, ok := e.Obj.Decl.(*ast.ValueSpec); !ok || f.f.Scope.Lookup(e.Name) != e.Obj {
				return nil, ""
			}
		}
		return p, e.Name
	case *ast.SelectorExpr:
		id, ok := e.X.(*ast.Ident)
		if !ok || id.Obj != nil {
			return nil, ""
		}
		if q := pkgs[f.imports[id.Name]]; q != nil && q.all[e.Sel.Name] {
			return q, e.Sel.Name
		}
	}
	return nil, ""
}

// classify marks the package variables that some code uses other than by
// reading an element of a table.
func classify(p *pkg, f *file) {
	var stack []ast.Node
	ast.Inspect(f.f, func(n ast.Node) bool {
		if n == nil {
			stack = stack[:len(stack)-1]
			return true
		}
		stack = append(stack, n)
		e, ok := n.(ast.Expr)
		if !ok {
			return true
		}
		q, name := global(p, f, e)
		if q == nil {
			return true
		}
		k := len(stack) - 2
		if _, ok := stack[k].(*ast.ValueSpec); ok && k > 0 { // the declaration itself
			if g, ok := stack[k-1].(*ast.GenDecl); ok && g.Tok == token.VAR && k == 2 {
				for _, id := range stack[k].(*ast.ValueSpec).Names {
					if id == n {
						return true
					}
				}
			}
		}
		if !tableRead(stack, k) {
			q.vars[name] = true
		}
		return true
	})
}

func tableRead(stack []ast.Node, k int) bool {
	child := stack[k+1]
	indexed := false
	for ; k >= 0; k-- {
		switch s := stack[k].(type) {
		case *ast.ParenExpr:
		case *ast.IndexExpr:
			if s.X != child {
				return indexed
			}
			indexed = true
		case *ast.AssignStmt:
			for _, l := range s.Lhs {
				if l == child {
					return false
				}
			}
			return indexed
		case *ast.BinaryExpr, *ast.ReturnStmt, *ast.ValueSpec, *ast.IfStmt, *ast.SwitchStmt, *ast.CaseClause, *ast.CompositeLit, *ast.KeyValueExpr:
			return indexed
		case *ast.CallExpr:
			if id, ok := s.Fun.(*ast.Ident); ok && (id.Name == "len" || id.Name == "cap") {
				return true
			}
			return indexed && s.Fun != child
		case *ast.RangeStmt:
			return s.X == child
		default:
			return false
		}
		child = stack[k]
	}
	return false
}

func instrument(p *pkg, f *file) []byte {
	for _, s := range f.f.Imports {
		if s.Path.Value == `"C"` {
			return nil
		}
	}
	var edits []edit
	off := func(x token.Pos) int { return fset.Position(x).Offset }
	add := func(at, end token.Pos, text string) {
		edits = append(edits, edit{off(at), off(end), text, len(edits)})
	}
	syncOnly := len(os.Args) > 4
	point := func() string {
		if syncOnly {
			return ""
		}
		sites++
		return fmt.Sprintf("vsched__.P(%d); ", sites)
	}
	mentions := func(n ast.Node) (found bool) {
		if n == nil {
			return false
		}
		ast.Inspect(n, func(n ast.Node) bool {
			if _, ok := n.(*ast.FuncLit); ok {
				return false
			}
			if e, ok := n.(ast.Expr); ok {
				if q, name := global(p, f, e); q != nil && q.vars[name] {
					found = true
				}
			}
			return !found
		})
		return
	}
	expr := func(e ast.Expr) bool { return e != nil && mentions(e) }
	stmt := func(s ast.Stmt) bool { return s != nil && mentions(s) }
	var own func(s ast.Stmt) bool
	own = func(s ast.Stmt) bool {
		switch s := s.(type) {
		case *ast.BlockStmt, *ast.EmptyStmt, *ast.BranchStmt, *ast.CaseClause, *ast.CommClause:
			return false
		case *ast.LabeledStmt:
			return own(s.Stmt)
		case *ast.IfStmt:
			for {
				if stmt(s.Init) || expr(s.Cond) {
					return true
				}
				e, ok := s.Else.(*ast.IfStmt)
				if !ok {
					return false
				}
				s = e
			}
		case *ast.ForStmt:
			return stmt(s.Init) || expr(s.Cond) || stmt(s.Post)
		case *ast.RangeStmt:
			return expr(s.X) || expr(s.Key) || expr(s.Value)
		case *ast.SwitchStmt:
			if stmt(s.Init) || expr(s.Tag) {
				return true
			}
			for _, c := range s.Body.List {
				for _, e := range c.(*ast.CaseClause).List {
					if expr(e) {
						return true
					}
				}
			}
			return false
		case *ast.TypeSwitchStmt:
			return stmt(s.Init) || stmt(s.Assign)
		case *ast.SelectStmt:
			return false
		}
		return mentions(s)
	}
	list := func(l []ast.Stmt) {
		for _, s := range l {
			if own(s) {
				add(s.Pos(), s.Pos(), point())
			}
		}
	}
	used := false
	for _, d := range f.f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Body == nil {
			continue
		}
		init := fd.Recv == nil && fd.Name.Name == "init"
		used = true
		if !init {
			add(fd.Body.Lbrace+1, fd.Body.Lbrace+1, " "+point())
		}
		ast.Inspect(fd.Body, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.BlockStmt:
				if !init {
					list(n.List)
				}
			case *ast.CaseClause:
				if !init {
					list(n.Body)
				}
			case *ast.ForStmt:
				if !init && (expr(n.Cond) || n.Cond == nil) {
					add(n.Body.Lbrace+1, n.Body.Lbrace+1, " "+point())
				}
			case *ast.SelectStmt, *ast.ChanType, *ast.SendStmt:
				die("%s uses channels", fset.Position(n.Pos()))
			case *ast.GoStmt:
				c := n.Call
				add(n.Go, c.Fun.Pos(), "{ f__ := ")
				if len(c.Args) == 0 {
					add(c.Lparen, c.Rparen+1, "; vsched__.Go(func() { f__() }) }")
					break
				}
				add(c.Lparen, c.Args[0].Pos(), "; a0__ := ")
				names := []string{"a0__"}
				for i := 1; i < len(c.Args); i++ {
					names = append(names, fmt.Sprintf("a%d__", i))
					add(c.Args[i-1].End(), c.Args[i].Pos(), fmt.Sprintf("; a%d__ := ", i))
				}
				dots := ""
				if c.Ellipsis.IsValid() {
					dots = "..."
				}
				add(c.Args[len(c.Args)-1].End(), c.Rparen+1, fmt.Sprintf("; vsched__.Go(func() { f__(%s%s) }) }", strings.Join(names, ", "), dots))
			}
			return true
		})
	}
	for _, s := range f.f.Imports {
		std := map[string]string{`"sync"`: `sync "verifharness/vsched/vsync"`, `"sync/atomic"`: `atomic "verifharness/vsched/vatomic"`}[s.Path.Value]
		if std == "" {
			continue
		}
		used = true
		if s.Name != nil {
			std = s.Name.Name + std[strings.Index(std, " "):]
		}
		add(s.Pos(), s.End(), std)
	}
	if !used {
		return nil
	}
	add(f.f.Name.End(), f.f.Name.End(), `; import vsched__ "verifharness/vsched"`)
	sort.SliceStable(edits, func(i, j int) bool { return edits[i].at < edits[j].at })
	var b bytes.Buffer
	pos := 0
	for _, e := range edits {
		if e.at < pos {
			die("%s: edits overlap", f.path)
		}
		b.Write(f.src[pos:e.at])
		b.WriteString(e.text)
		pos = e.end
	}
	b.Write(f.src[pos:])
	b.WriteString("\nvar _ = vsched__.Active\n")
	return b.Bytes()
}
