// Command instrument writes instrumented copies of the concurrent packages of
// the module under test and a go build overlay that substitutes them:
//
//   - a call of verifsched.Point before every statement;
//   - package sync replaced by verifsched/vsync.
//
// The rewriting is purely syntactic and uniform.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strconv"
	"strings"
)

const schedPath = "github.com/go-stomp/stomp/v3/verifsched"

func main() {
	repo := flag.String("repo", "/repo", "repository")
	ovl := flag.String("overlaysrc", "", "directory holding the verifsched package")
	out := flag.String("out", "", "output directory")
	flag.Parse()
	replace := map[string]string{}
	for _, dir := range []string{".", "server", "server/client", "server/queue", "server/topic"} {
		files, err := filepath.Glob(filepath.Join(*repo, dir, "*.go"))
		check(err)
		for _, f := range files {
			if strings.HasSuffix(f, "_test.go") {
				continue
			}
			src, err := os.ReadFile(f)
			check(err)
			res, err := rewrite(f, src)
			check(err)
			rel, _ := filepath.Rel(*repo, f)
			dst := filepath.Join(*out, strings.ReplaceAll(rel, "/", "__"))
			check(os.WriteFile(dst, res, 0o644))
			replace[f] = dst
		}
	}
	check(filepath.Walk(*ovl, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() {
			return err
		}
		rel, _ := filepath.Rel(*ovl, p)
		replace[filepath.Join(*repo, rel)] = p
		return nil
	}))
	b, _ := json.MarshalIndent(map[string]any{"Replace": replace}, "", " ")
	check(os.WriteFile(filepath.Join(*out, "overlay.json"), b, 0o644))
}

func check(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "instrument:", err)
		os.Exit(3)
	}
}

func point() ast.Stmt {
	return &ast.ExprStmt{X: &ast.CallExpr{Fun: &ast.SelectorExpr{X: ast.NewIdent("verifschedPkg"), Sel: ast.NewIdent("Point")}}}
}

func weave(list []ast.Stmt) []ast.Stmt {
	var out []ast.Stmt
	for _, s := range list {
		switch s.(type) {
		case *ast.EmptyStmt:
			continue
		}
		out = append(out, point(), s)
	}
	return out
}

func rewrite(name string, src []byte) ([]byte, error) {
	fset := token.NewFileSet()
	file, err := parser.ParseFile(fset, name, src, parser.SkipObjectResolution)
	if err != nil {
		return nil, err
	}
	found := false
	ast.Inspect(file, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.FuncDecl:
			if x.Recv == nil && x.Name.Name == "init" {
				return false
			}
		case *ast.BlockStmt:
			if isClauseBlock(x) {
				return true
			}
			x.List = weave(x.List)
			found = found || len(x.List) > 0
		case *ast.CaseClause:
			x.Body = weave(x.Body)
		case *ast.CommClause:
			x.Body = weave(x.Body)
		}
		return true
	})
	for _, imp := range file.Imports {
		p, _ := strconv.Unquote(imp.Path.Value)
		if p == "sync" {
			imp.Path.Value = strconv.Quote(schedPath + "/vsync")
			if imp.Name == nil {
				imp.Name = ast.NewIdent("sync")
			}
		}
	}
	if found {
		spec := &ast.ImportSpec{Name: ast.NewIdent("verifschedPkg"), Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(schedPath)}}
		decl := &ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{spec}}
		file.Decls = append([]ast.Decl{decl}, file.Decls...)
	}
	var buf bytes.Buffer
	for _, line := range strings.Split(string(src), "\n") {
		t := strings.TrimSpace(line)
		if strings.HasPrefix(t, "//go:build") {
			buf.WriteString(t + "\n\n")
		}
		if strings.HasPrefix(t, "package ") {
			break
		}
	}
	if err := format.Node(&buf, fset, file); err != nil {
		return nil, err
	}
	return buf.Bytes(), nil
}

// the block of a switch or select holds clauses, not statements
func isClauseBlock(b *ast.BlockStmt) bool {
	if len(b.List) == 0 {
		return false
	}
	switch b.List[0].(type) {
	case *ast.CaseClause, *ast.CommClause:
		return true
	}
	return false
}
