// Command points makes an overlay of the packages of the library with scheduling points: before every statement that
// mentions a variable of a package, unless all uses of the variable only read it. usage: points REPO DIR
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/build/constraint"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

var packages = []string{".", "internal", "openapi3", "openapi31"}

func main() {
	repo, dir := os.Args[1], os.Args[2]
	replace := map[string]string{}
	total := 0
	for _, p := range packages {
		n, err := instrument(filepath.Join(repo, p), filepath.Join(dir, strings.ReplaceAll(p, ".", "root")), p, replace)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(1)
		}
		total += n
	}
	b, _ := json.MarshalIndent(map[string]interface{}{"Replace": replace}, "", " ")
	if err := os.WriteFile(filepath.Join(dir, "overlay.json"), b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
	fmt.Fprintf(os.Stderr, "points: %d scheduling points at accesses of package variables\n", total)
}

func excluded(f *ast.File) bool {
	for _, g := range f.Comments {
		if g.Pos() > f.Package {
			break
		}
		for _, c := range g.List {
			if x, err := constraint.Parse(c.Text); err == nil && !x.Eval(func(tag string) bool { return tag == "linux" || tag == "amd64" || strings.HasPrefix(tag, "go1") }) {
				return true
			}
		}
	}
	return false
}

// constant tells of expressions for values that do not change: regular expressions, errors and raw literals.
func constant(e ast.Expr) bool {
	c, ok := e.(*ast.CallExpr)
	if !ok || len(c.Args) != 1 {
		return false
	}
	if l, ok := c.Args[0].(*ast.BasicLit); !ok || l.Kind != token.STRING {
		return false
	}
	x, ok := c.Fun.(*ast.SelectorExpr)
	if !ok {
		return false
	}
	p, ok := x.X.(*ast.Ident)
	if !ok {
		return false
	}
	switch p.Name + "." + x.Sel.Name {
	case "regexp.MustCompile", "errors.New", "json.RawMessage":
		return true
	}
	return false
}

func instrument(src, dst, pkg string, replace map[string]string) (int, error) {
	if err := os.MkdirAll(dst, 0o755); err != nil {
		return 0, err
	}
	names, err := filepath.Glob(filepath.Join(src, "*.go"))
	if err != nil {
		return 0, err
	}
	fset := token.NewFileSet()
	files := map[string]*ast.File{}
	text := map[string][]byte{}
	vars := map[string]bool{}
	pkgName := ""
	for _, n := range names {
		if strings.HasSuffix(n, "_test.go") {
			continue
		}
		b, err := os.ReadFile(n)
		if err != nil {
			return 0, err
		}
		f, err := parser.ParseFile(fset, n, b, parser.ParseComments)
		if err != nil {
			return 0, err
		}
		if excluded(f) {
			continue
		}
		files[n], text[n], pkgName = f, b, f.Name.Name
		for _, d := range f.Decls {
			if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.VAR {
				for _, s := range g.Specs {
					for _, id := range s.(*ast.ValueSpec).Names {
						if id.Name != "_" {
							vars[id.Name] = true
						}
					}
				}
			}
		}
	}
	if pkgName == "" {
		return 0, nil
	}
	// Which identifiers are variables of the package.
	isVar := func(f *ast.File) map[*ast.Ident]bool {
		res := map[*ast.Ident]bool{}
		unresolved := map[*ast.Ident]bool{}
		for _, id := range f.Unresolved {
			unresolved[id] = true
		}
		ast.Inspect(f, func(n ast.Node) bool {
			id, ok := n.(*ast.Ident)
			if ok && vars[id.Name] && (unresolved[id] || id.Obj != nil && id.Obj == f.Scope.Lookup(id.Name) && id.Obj.Kind == ast.Var) {
				res[id] = true
			}
			return true
		})
		return res
	}
	// Variables that never change: they are not assigned and have no address taken, and either they are only ranged over, or
	// they are initialized with a value that does not change by itself.
	fixed := map[string]bool{}
	for _, f := range files {
		for _, d := range f.Decls {
			g, ok := d.(*ast.GenDecl)
			if !ok || g.Tok != token.VAR {
				continue
			}
			for _, s := range g.Specs {
				s := s.(*ast.ValueSpec)
				for i, id := range s.Names {
					if len(s.Values) == len(s.Names) {
						fixed[id.Name] = constant(s.Values[i])
					}
				}
			}
		}
	}
	written := map[string]bool{}
	ids := map[*ast.File]map[*ast.Ident]bool{}
	for _, f := range files {
		m := isVar(f)
		ids[f] = m
		fine, bad := map[*ast.Ident]bool{}, map[*ast.Ident]bool{}
		mark := func(e ast.Expr) {
			ast.Inspect(e, func(n ast.Node) bool {
				if id, ok := n.(*ast.Ident); ok {
					bad[id] = true
				}
				return true
			})
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.RangeStmt:
				if id, ok := x.X.(*ast.Ident); ok {
					fine[id] = true
				}
				for _, e := range []ast.Expr{x.Key, x.Value} {
					if e != nil {
						mark(e)
					}
				}
			case *ast.ValueSpec:
				for _, id := range x.Names {
					fine[id] = true
				}
			case *ast.AssignStmt:
				for _, e := range x.Lhs {
					mark(e)
				}
			case *ast.IncDecStmt:
				mark(x.X)
			case *ast.UnaryExpr:
				if x.Op == token.AND {
					mark(x.X)
				}
			}
			return true
		})
		for id := range m {
			if bad[id] || !fine[id] && !fixed[id.Name] {
				written[id.Name] = true
			}
		}
	}
	count := 0
	for n, f := range files {
		at := map[int]bool{}
		list := func(l []ast.Stmt) {
			for _, s := range l {
				switch s.(type) {
				case *ast.CaseClause, *ast.CommClause:
					continue
				}
				found := false
				var look func(x ast.Node) bool
				look = func(x ast.Node) bool {
					switch y := x.(type) {
					case *ast.BlockStmt:
						// Its statements have points, but expressions of cases have none.
						for _, e := range y.List {
							if c, ok := e.(*ast.CaseClause); ok {
								for _, e := range c.List {
									ast.Inspect(e, look)
								}
							}
						}
						return y == s
					case *ast.Ident:
						if ids[f][y] && written[y.Name] {
							found = true
						}
					}
					return true
				}
				ast.Inspect(s, look)
				if found {
					at[fset.Position(s.Pos()).Offset] = true
				}
			}
		}
		ast.Inspect(f, func(x ast.Node) bool {
			switch y := x.(type) {
			case *ast.BlockStmt:
				list(y.List)
			case *ast.CaseClause:
				list(y.Body)
			case *ast.CommClause:
				list(y.Body)
			}
			return true
		})
		if len(at) == 0 {
			continue
		}
		count += len(at)
		var offs []int
		for o := range at {
			offs = append(offs, o)
		}
		sort.Ints(offs)
		b := text[n]
		var out []byte
		prev := 0
		for _, o := range offs {
			out = append(out, b[prev:o]...)
			out = append(out, "verifPoint(); "...)
			prev = o
		}
		out = append(out, b[prev:]...)
		to := filepath.Join(dst, filepath.Base(n))
		if err := os.WriteFile(to, out, 0o644); err != nil {
			return 0, err
		}
		replace[n] = to
	}
	forward, imp := "", ""
	if pkg == "openapi3" {
		imp = "import \"github.com/swaggest/openapi-go/internal\"\n\n"
		forward = "\tinternal.SetVerifPoint(f)\n"
	}
	code := fmt.Sprintf("package %s\n\n%svar verifPointFunc func()\n\n// SetVerifPoint sets a function that is called at scheduling points.\nfunc SetVerifPoint(f func()) {\n\tverifPointFunc = f\n%s}\n\nfunc verifPoint() {\n\tif verifPointFunc != nil {\n\t\tverifPointFunc()\n\t}\n}\n", pkgName, imp, forward)
	to := filepath.Join(dst, "zz_verif_points.go")
	if err := os.WriteFile(to, []byte(code), 0o644); err != nil {
		return 0, err
	}
	replace[filepath.Join(src, "zz_verif_points.go")] = to
	return count, nil
}
