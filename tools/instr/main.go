// instr rewrites the Go files of a scratch copy of the library so that its
// schedule can be controlled: a call of vsched.Y() is inserted before every
// statement, and the imports sync, sync/atomic and os are replaced by shims
// with the same API. It works on the text at syntax-tree positions, so it does
// not depend on how the code is written.
//
// With -race, accesses to shared memory are recorded as well (see race.go), and
// container/list is replaced by a copy that is instrumented, too.
package main

import (
	"fmt"
	"go/ast"
	"go/build"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

const base = "github.com/miniLCT/gosb/zverif/"

var shim = map[string]string{
	"sync":        base + "vsync",
	"sync/atomic": base + "vatomic",
	"os":          base + "vos",
}
var defName = map[string]string{"sync": "sync", "sync/atomic": "atomic", "os": "os"}

// editor collects edits of one file. What is put before a place comes outermost
// first in the order of the calls, what is put after a place innermost first.
type editor struct {
	text  []byte
	off   func(token.Pos) int
	edits []edit
}

type edit struct {
	off, end int
	class    int // 0: after, 1: replacement, 2: before
	seq      int
	text     string
}

func (e *editor) add(off, end, class int, t string) {
	e.edits = append(e.edits, edit{off, end, class, len(e.edits), t})
}
func (e *editor) before(p token.Pos, t string)     { o := e.off(p); e.add(o, o, 2, t) }
func (e *editor) after(p token.Pos, t string)      { o := e.off(p); e.add(o, o, 0, t) }
func (e *editor) replace(p, q token.Pos, t string) { e.add(e.off(p), e.off(q), 1, t) }
func (e *editor) src(p, q token.Pos) string        { return string(e.text[e.off(p):e.off(q)]) }

func (e *editor) result() []byte {
	sort.SliceStable(e.edits, func(i, j int) bool {
		a, b := e.edits[i], e.edits[j]
		if a.off != b.off {
			return a.off < b.off
		}
		// what comes after the text before, what comes before the text after, then the text replaced
		ca, cb := a.class, b.class
		if ca != cb {
			rank := []int{0, 2, 1}
			return rank[ca] < rank[cb]
		}
		if ca == 0 {
			return a.seq > b.seq
		}
		return a.seq < b.seq
	})
	var out []byte
	at := 0
	for _, x := range e.edits {
		out = append(out, e.text[at:x.off]...)
		out = append(out, x.text...)
		at = x.end
	}
	return append(out, e.text[at:]...)
}

func main() {
	args := os.Args[1:]
	race := len(args) > 0 && args[0] == "-race"
	if race {
		args = args[1:]
	}
	if err := run(args, race); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
}

type source struct {
	path string
	text []byte
	file *ast.File
}

func run(dirs []string, race bool) error {
	fset := token.NewFileSet()
	out := map[string][]byte{}
	if race {
		shim["container/list"] = base + "vlist"
		defName["container/list"] = "list"
		text, err := os.ReadFile(filepath.Join(build.Default.GOROOT, "src/container/list/list.go"))
		if err != nil {
			return err
		}
		if err := os.MkdirAll("zverif/vlist", 0o755); err != nil {
			return err
		}
		if err := os.WriteFile("zverif/vlist/list.go", text, 0o644); err != nil {
			return err
		}
		dirs = append(dirs, "zverif/vlist")
	}
	own := map[string]bool{}
	for _, d := range dirs {
		own["github.com/miniLCT/gosb/"+d] = true
	}
	for _, dir := range dirs {
		paths, err := filepath.Glob(filepath.Join(dir, "*.go"))
		if err != nil {
			return err
		}
		var srcs []source
		var files []*ast.File
		for _, f := range paths {
			if strings.HasSuffix(f, "_test.go") {
				continue
			}
			if ok, err := build.Default.MatchFile(dir, filepath.Base(f)); err == nil && !ok {
				continue
			}
			text, err := os.ReadFile(f)
			if err != nil {
				return err
			}
			file, err := parser.ParseFile(fset, f, text, parser.ParseComments)
			if err != nil {
				return err
			}
			srcs = append(srcs, source{f, text, file})
			files = append(files, file)
		}
		var acc *accesses
		if race {
			path := "github.com/miniLCT/gosb/" + dir
			info, pkg, err := check(fset, files, path)
			if err != nil {
				return err
			}
			acc = &accesses{info: info, pkg: pkg, captured: findCaptured(info, files), own: func(p string) bool { return own[p] || p == path }}
		}
		for _, s := range srcs {
			out[s.path] = instrument(fset, s, acc)
		}
	}
	for p, t := range out {
		if err := os.WriteFile(p, t, 0o644); err != nil {
			return err
		}
	}
	return nil
}

func instrument(fset *token.FileSet, s source, acc *accesses) []byte {
	file := s.file
	ed := &editor{text: s.text, off: func(p token.Pos) int { return fset.Position(p).Offset }}
	for _, im := range file.Imports {
		p, _ := strconv.Unquote(im.Path.Value)
		to, ok := shim[p]
		if !ok {
			continue
		}
		t := strconv.Quote(to)
		if im.Name == nil {
			t = defName[p] + " " + t
		}
		ed.replace(im.Path.Pos(), im.Path.End(), t)
	}
	n := 0
	stmts := func(list []ast.Stmt) {
		for _, s := range list {
			if _, ok := s.(*ast.EmptyStmt); ok {
				continue
			}
			ed.before(s.Pos(), "vsched__.Y(); ")
			n++
		}
	}
	for _, d := range file.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if ok && skip(fd) {
			ok = false
		}
		if gd, isG := d.(*ast.GenDecl); isG && gd.Tok == token.VAR {
			ok = true // function literals in variables
		}
		if !ok {
			continue
		}
		ast.Inspect(d, func(x ast.Node) bool {
			switch b := x.(type) {
			case *ast.BlockStmt:
				if len(b.List) > 0 {
					switch b.List[0].(type) {
					case *ast.CaseClause, *ast.CommClause:
						return true
					}
				}
				stmts(b.List)
			case *ast.CaseClause:
				stmts(b.Body)
			case *ast.CommClause:
				stmts(b.Body)
			}
			return true
		})
	}
	if acc != nil {
		acc.ed = ed
		acc.file(file)
	}
	if n > 0 {
		ed.after(file.Name.End(), "; import vsched__ \""+base+"vsched\"")
	}
	return ed.result()
}
