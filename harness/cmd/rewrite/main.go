// rewrite copies the mqtt packages of a tinygo-mqtt tree, replacing the import of "sync" by the
// scheduler-controlled implementation and inserting a yield before every statement of the client and the
// storage (a tick counter only in the packet codecs).  It depends on nothing in the code but Go syntax.
package main

import (
	"bytes"
	"go/ast"
	"go/build"
	"go/format"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strconv"
	"strings"
)

var (
	shim  = "verif/harness/vsync"
	plain = false
)

func main() {
	src, dst := os.Args[1], os.Args[2]
	if len(os.Args) > 3 && os.Args[3] == "plain" {
		// locks that virtual time passes by, and nothing else
		shim, plain = "verif/harness/dsync", true
	}
	must(os.MkdirAll(dst, 0o755))
	for _, f := range []string{"go.mod", "go.sum"} {
		if b, err := os.ReadFile(filepath.Join(src, f)); err == nil {
			must(os.WriteFile(filepath.Join(dst, f), b, 0o644))
		}
	}
	must(filepath.Walk(filepath.Join(src, "mqtt"), func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() || !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		rel, _ := filepath.Rel(src, p)
		out := filepath.Join(dst, rel)
		must(os.MkdirAll(filepath.Dir(out), 0o755))
		ctx := build.Default
		if ok, err := ctx.MatchFile(filepath.Dir(p), filepath.Base(p)); err != nil || !ok {
			return err
		}
		return os.WriteFile(out, rewrite(p, strings.Contains(rel, "packets")), 0o644)
	}))
}

func rewrite(path string, codec bool) []byte {
	raw, err := os.ReadFile(path)
	must(err)
	if bytes.Contains(raw, []byte("import \"C\"")) || bytes.Contains(raw, []byte("//go:linkname")) || bytes.Contains(raw, []byte("//go:embed")) {
		return raw
	}
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, path, raw, parser.SkipObjectResolution)
	must(err)
	for _, im := range f.Imports {
		if v, _ := strconv.Unquote(im.Path.Value); v == "sync" {
			im.Path.Value = strconv.Quote(shim)
			im.EndPos = 0
			if im.Name == nil {
				im.Name = ast.NewIdent("sync")
			}
		}
	}
	name := "vsync__.Y"
	if codec {
		name = "vsync__.T"
	}
	used := false
	call := func() ast.Stmt {
		used = true
		p := strings.Split(name, ".")
		return &ast.ExprStmt{X: &ast.CallExpr{Fun: &ast.SelectorExpr{X: ast.NewIdent(p[0]), Sel: ast.NewIdent(p[1])}}}
	}
	weave := func(in []ast.Stmt) []ast.Stmt {
		out := make([]ast.Stmt, 0, 2*len(in)+1)
		for _, s := range in {
			out = append(out, call(), s)
		}
		if len(in) == 0 {
			out = append(out, call())
		}
		return out
	}
	var walk func(n ast.Node)
	skip := map[*ast.BlockStmt]bool{}
	walk = func(n ast.Node) {
		ast.Inspect(n, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.SwitchStmt:
				skip[x.Body] = true
			case *ast.TypeSwitchStmt:
				skip[x.Body] = true
			case *ast.SelectStmt:
				skip[x.Body] = true
			}
			return true
		})
		ast.Inspect(n, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.BlockStmt:
				if !skip[x] {
					x.List = weave(x.List)
				}
			case *ast.CaseClause:
				x.Body = weave(x.Body)
			case *ast.CommClause:
				x.Body = weave(x.Body)
			}
			return true
		})
	}
	for _, d := range f.Decls {
		if plain {
			break
		}
		if fd, ok := d.(*ast.FuncDecl); ok && fd.Body != nil {
			walk(fd.Body)
		}
	}
	if used {
		spec := &ast.ImportSpec{Name: ast.NewIdent("vsync__"), Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(shim)}}
		f.Decls = append([]ast.Decl{&ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{spec}}}, f.Decls...)
	}
	var buf bytes.Buffer
	must(format.Node(&buf, token.NewFileSet(), f))
	return buf.Bytes()
}

func must(err error) {
	if err != nil {
		println("rewrite:", err.Error())
		os.Exit(3)
	}
}
