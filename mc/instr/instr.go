// Package instr rewrites the non-test Go files of one package for controlled scheduling. It inserts text only
// (byte offsets from the parsed syntax tree), so it does not depend on how the code is written.
package instr

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
)

// Options selects what is rewritten.
type Options struct {
	Points bool // scheduling point before every statement
	Sync   bool // sync primitives and go statements
	Time   bool // time.Now/Sleep/Since/Until
}

var syncNames = map[string]bool{"Mutex": true, "RWMutex": true, "Once": true, "WaitGroup": true}
var timeNames = map[string]bool{"Now": true, "Sleep": true, "Since": true, "Until": true}

const pkg = "vsched__"

type edit struct {
	off  int
	seq  int
	del  int
	text string
}

// Dir instruments all non-test files of dir into outDir and returns path replacements. Statement ids start
// at base; pos receives their positions.
func Dir(dir, outDir string, o Options, base int, pos map[int]string) (map[string]string, int, error) {
	ents, err := os.ReadDir(dir)
	if err != nil {
		return nil, base, err
	}
	if err := os.MkdirAll(outDir, 0o755); err != nil {
		return nil, base, err
	}
	rep := map[string]string{}
	for _, en := range ents {
		n := en.Name()
		if en.IsDir() || !strings.HasSuffix(n, ".go") || strings.HasSuffix(n, "_test.go") {
			continue
		}
		src, err := os.ReadFile(filepath.Join(dir, n))
		if err != nil {
			return nil, base, err
		}
		out, nb, err := file(filepath.Join(dir, n), src, o, base, pos)
		if err != nil {
			return nil, base, err
		}
		base = nb
		dst := filepath.Join(outDir, n)
		if err := os.WriteFile(dst, out, 0o644); err != nil {
			return nil, base, err
		}
		rep[filepath.Join(dir, n)] = dst
	}
	return rep, base, nil
}

var chanish = regexp.MustCompile(`\.C$|Tick\(|(?i)(^|\.)(ch|chan|done|stop|sig|signals?|events?|queue|quit|tick)$`)

func file(name string, src []byte, o Options, id int, pos map[int]string) ([]byte, int, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, name, src, parser.ParseComments)
	if err != nil {
		return nil, id, err
	}
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	var edits []edit
	seq := 0
	add := func(at, del int, text string) {
		seq++
		edits = append(edits, edit{at, seq, del, text})
	}
	txt := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
	imports := map[string]string{}
	for _, im := range f.Imports {
		p, _ := strconv.Unquote(im.Path.Value)
		nm := filepath.Base(p)
		if im.Name != nil {
			nm = im.Name.Name
		}
		imports[nm] = p
	}
	usedSync, usedTime := "", ""

	hasChanOp := func(n ast.Node) bool {
		found := false
		ast.Inspect(n, func(x ast.Node) bool {
			switch v := x.(type) {
			case *ast.FuncLit:
				return false
			case *ast.BlockStmt:
				return x == n
			case *ast.UnaryExpr:
				if v.Op == token.ARROW {
					found = true
				}
			case *ast.SendStmt:
				found = true
			}
			return !found
		})
		return found
	}
	stmts := func(list []ast.Stmt) {
		for _, s := range list {
			if _, ok := s.(*ast.EmptyStmt); ok {
				continue
			}
			if o.Points {
				id++
				pp := fset.Position(s.Pos())
				pos[id] = fmt.Sprintf("%s:%d", pp.Filename, pp.Line)
				add(off(s.Pos()), 0, fmt.Sprintf("%s.P(%d); ", pkg, id))
			}
			if !o.Sync {
				continue
			}
			switch v := s.(type) {
			case *ast.SelectStmt:
				hasDefault := false
				for _, c := range v.Body.List {
					if c.(*ast.CommClause).Comm == nil {
						hasDefault = true
					}
				}
				if !hasDefault {
					add(off(s.Pos()), 0, pkg+".BlockEnter(); ")
					for _, c := range v.Body.List {
						add(off(c.(*ast.CommClause).Colon)+1, 0, " "+pkg+".BlockExit();")
					}
				}
			case *ast.SendStmt, *ast.ExprStmt, *ast.AssignStmt:
				if hasChanOp(s) {
					add(off(s.Pos()), 0, pkg+".BlockEnter(); ")
					add(off(s.End()), 0, "; "+pkg+".BlockExit()")
				}
			case *ast.RangeStmt:
				if chanish.MatchString(txt(v.X)) {
					add(off(s.Pos()), 0, pkg+".BlockEnter(); ")
					add(off(v.Body.Lbrace)+1, 0, " "+pkg+".BlockExit();")
					add(off(v.Body.Rbrace), 0, "; "+pkg+".BlockEnter(); ")
					add(off(s.End()), 0, "; "+pkg+".BlockExit()")
				}
			case *ast.GoStmt:
				call := v.Call
				fl, isLit := call.Fun.(*ast.FuncLit)
				if isLit && len(call.Args) == 0 {
					// go func(){...}()  ->  vsched.Go(func(){...})
					add(off(v.Go), off(fl.Pos())-off(v.Go), pkg+".Go(")
					add(off(fl.End()), off(v.End())-off(fl.End()), ")")
				} else {
					pre := "{ vf__ := "
					add(off(v.Go), off(call.Fun.Pos())-off(v.Go), pre)
					post := ""
					names := []string{}
					for i, a := range call.Args {
						if _, ok := a.(*ast.BasicLit); ok {
							names = append(names, txt(a))
							continue
						}
						nm := fmt.Sprintf("va%d__", i)
						names = append(names, nm)
						post += fmt.Sprintf("; %s := %s", nm, txt(a))
					}
					ell := ""
					if call.Ellipsis.IsValid() {
						ell = "..."
					}
					post += fmt.Sprintf("; %s.Go(func() { vf__(%s%s) }) }", pkg, strings.Join(names, ", "), ell)
					add(off(call.Fun.End()), off(v.End())-off(call.Fun.End()), post)
				}
			}
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch v := n.(type) {
		case *ast.BlockStmt:
			stmts2 := v.List
			// the bodies of switch/select statements hold clauses, not statements
			if len(stmts2) > 0 {
				switch stmts2[0].(type) {
				case *ast.CaseClause, *ast.CommClause:
					return true
				}
			}
			stmts(stmts2)
		case *ast.CaseClause:
			stmts(v.Body)
		case *ast.CommClause:
			stmts(v.Body)
		case *ast.SelectorExpr:
			x, ok := v.X.(*ast.Ident)
			if !ok || x.Obj != nil {
				return true
			}
			switch imports[x.Name] {
			case "sync":
				if o.Sync && syncNames[v.Sel.Name] {
					add(off(x.Pos()), len(x.Name), pkg)
					usedSync = x.Name
				}
			case "time":
				if o.Time && timeNames[v.Sel.Name] {
					add(off(x.Pos()), len(x.Name), pkg)
					usedTime = x.Name
				}
			}
		}
		return true
	})
	add(off(f.Name.End()), 0, "; import "+pkg+" \"verif/vsched\"")
	tail := "\nvar _ = " + pkg + ".P\n"
	if usedSync != "" {
		tail += "var _ " + usedSync + ".Locker\n"
	}
	if usedTime != "" {
		tail += "var _ " + usedTime + ".Duration\n"
	}
	// nested edits inside deleted ranges (arguments of go statements) are dropped
	sort.SliceStable(edits, func(i, j int) bool {
		if edits[i].off != edits[j].off {
			return edits[i].off < edits[j].off
		}
		return edits[i].seq < edits[j].seq
	})
	var out []byte
	at := 0
	for _, e := range edits {
		if e.off < at {
			continue
		}
		out = append(out, src[at:e.off]...)
		out = append(out, e.text...)
		at = e.off + e.del
	}
	out = append(out, src[at:]...)
	out = append(out, tail...)
	return out, id, nil
}
