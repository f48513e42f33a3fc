// Command instrument writes copies of the repository's Go files in which package sync, sync/atomic
// and go statements go through verif/mc/vsync, and the overlay file that makes the go command use them.
//
//	instrument <repo> <output directory> <mode>
//
// The edits are textual, at the positions of the syntax tree, hence everything else stays as it is.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

type edit struct {
	from, to int
	text     string
	seq      int
}

func main() {
	repo, out, mode := os.Args[1], os.Args[2], os.Args[3]
	overlay := map[string]string{}
	n := 0
	err := filepath.Walk(repo, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() {
			if b := fi.Name(); p != repo && (strings.HasPrefix(b, ".") || b == "cmd" || b == "testdata" || b == "vendor") {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		src, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		res, changed, err := rewrite(p, src, mode)
		if err != nil {
			return err
		}
		if changed {
			n++
			q := filepath.Join(out, fmt.Sprintf("%d_%s", n, filepath.Base(p)))
			if err := os.WriteFile(q, res, 0o644); err != nil {
				return err
			}
			overlay[p] = q
		}
		return nil
	})
	if err != nil {
		fmt.Println(err)
		os.Exit(1)
	}
	b, _ := json.MarshalIndent(map[string]any{"Replace": overlay}, "", " ")
	if err := os.WriteFile(filepath.Join(out, "overlay.json"), b, 0o644); err != nil {
		fmt.Println(err)
		os.Exit(1)
	}
	fmt.Println(n, "files instrumented")
}

func rewrite(path string, src []byte, mode string) ([]byte, bool, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, path, src, parser.ParseComments|parser.SkipObjectResolution)
	if err != nil {
		return nil, false, err
	}
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	var edits []edit
	add := func(from, to token.Pos, text string) {
		edits = append(edits, edit{off(from), off(to), text, len(edits)})
	}
	for _, im := range f.Imports {
		var name, np string
		switch im.Path.Value {
		case `"sync"`:
			name, np = "sync", `"verif/mc/vsync"`
		case `"sync/atomic"`:
			name, np = "atomic", `"verif/mc/vsync/vatomic"`
		default:
			continue
		}
		if im.Name == nil {
			np = name + " " + np
		}
		add(im.Path.Pos(), im.Path.End(), np)
	}
	uses := false
	text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
	_ = text
	goStmt := func(g *ast.GoStmt) {
		uses = true
		call := g.Call
		lit, isLit := call.Fun.(*ast.FuncLit)
		goEnd := g.Go + token.Pos(len("go"))
		noResult := isLit && (lit.Type.Results == nil || len(lit.Type.Results.List) == 0)
		switch {
		case isLit && noResult && len(call.Args) == 0 && lit.Type.Params.NumFields() == 0:
			add(g.Go, goEnd, "__vsync.Go(")
			add(call.Lparen, call.Rparen+1, ")")
		case isLit && noResult:
			add(g.Go, goEnd, "__vsync.Go(")
			add(lit.Body.Lbrace, lit.Body.Lbrace, "func() { return func() ")
			add(lit.Body.Rbrace+1, lit.Body.Rbrace+1, " }")
			add(call.Rparen+1, call.Rparen+1, ")")
		case mode == "typed" && !call.Ellipsis.IsValid() && len(call.Args) <= 6:
			add(g.Go, goEnd, fmt.Sprintf("__vsync.Go%d(", len(call.Args)))
			sep := ""
			if len(call.Args) > 0 {
				sep = ", "
			}
			add(call.Lparen, call.Lparen+1, sep)
		case mode == "reflect" && !call.Ellipsis.IsValid():
			add(g.Go, goEnd, "__vsync.GoAny(")
			sep := ""
			if len(call.Args) > 0 {
				sep = ", "
			}
			add(call.Lparen, call.Lparen+1, sep)
		default:
			add(g.Go, goEnd, "__vsync.Go(func() { ")
			add(call.Rparen+1, call.Rparen+1, " })")
		}
	}
	point := func(l []ast.Stmt) {
		for _, s := range l {
			if usesChannel(s) || usesFile(s) {
				uses = true
				add(s.Pos(), s.Pos(), "__vsync.Point(); ")
			}
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.GoStmt:
			goStmt(x)
		case *ast.BlockStmt:
			point(x.List)
		case *ast.CaseClause:
			point(x.Body)
		case *ast.CommClause:
			point(x.Body)
		}
		return true
	})
	if uses {
		add(f.Name.End(), f.Name.End(), `; import __vsync "verif/mc/vsync"`)
	}
	if len(edits) == 0 {
		return nil, false, nil
	}
	sort.SliceStable(edits, func(i, j int) bool {
		if edits[i].from != edits[j].from {
			return edits[i].from < edits[j].from
		}
		return edits[i].seq < edits[j].seq
	})
	var b []byte
	last := 0
	for _, e := range edits {
		if e.from < last {
			return nil, false, fmt.Errorf("%s: overlapping edits", path)
		}
		b = append(b, src[last:e.from]...)
		b = append(b, e.text...)
		last = e.to
	}
	return append(b, src[last:]...), true, nil
}

// usesChannel: a channel operation of the statement itself (not of nested blocks or functions).
func usesChannel(s ast.Stmt) bool {
	switch x := s.(type) {
	case *ast.SendStmt, *ast.SelectStmt:
		return true
	case *ast.ExprStmt:
		return recv(x.X)
	case *ast.AssignStmt:
		for _, r := range x.Rhs {
			if recv(r) {
				return true
			}
		}
	case *ast.ReturnStmt:
		for _, r := range x.Results {
			if recv(r) {
				return true
			}
		}
	}
	return false
}

// usesFile: the statement itself (not its nested blocks or functions) may operate on a file, by the
// names of what it calls. A point too many does no harm.
func usesFile(s ast.Stmt) bool {
	switch s.(type) {
	case *ast.DeferStmt, *ast.GoStmt, *ast.BlockStmt, *ast.LabeledStmt, *ast.SelectStmt:
		return false
	}
	found := false
	ast.Inspect(s, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.FuncLit, *ast.BlockStmt:
			return false
		case *ast.IfStmt:
			if s != ast.Stmt(x) { // else if
				return false
			}
		case *ast.CallExpr:
			if sel, ok := x.Fun.(*ast.SelectorExpr); ok {
				pkg, _ := sel.X.(*ast.Ident)
				found = found || fileCalls[sel.Sel.Name] || pkg != nil && filePkgs[pkg.Name]
			}
		}
		return !found
	})
	return found
}

var filePkgs = map[string]bool{"os": true, "syscall": true, "io": true, "ioutil": true, "unix": true, "bufio": true}

var fileCalls = map[string]bool{}

func init() {
	for _, n := range strings.Fields("Write WriteAt WriteString WriteTo Read ReadAt ReadFrom ReadFull ReadAll Close Sync Chmod Chown Truncate Seek Flush Stat Open Rename Remove Link") {
		fileCalls[n] = true
	}
}

func recv(e ast.Expr) bool {
	found := false
	ast.Inspect(e, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.FuncLit:
			return false
		case *ast.UnaryExpr:
			if x.Op == token.ARROW {
				found = true
			}
		}
		return !found
	})
	return found
}
