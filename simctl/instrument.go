package main

// Source instrumentation of /repo: a potential preemption point before every
// statement, and read-modify-write statements on shared locations split into
// load / preemption point / store, so that unsynchronised updates can be lost
// in a run as they can be on real hardware.  Instrumented copies live in the
// work directory and reach the compiler through the overlay.

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

// instrLevel: 2 yields and split updates, 1 yields only, 0 nothing.
type instrumenter struct {
	level int
	site  int
}

type textEdit struct {
	pos, end int
	text     string
}

var skipDirs = map[string]bool{
	".git": true, "perfcheck": true, "spouttest": true, "benchcheck": true, "slowinfluxd": true,
	"tools": true, "testdata": true, "vendor": true, "simcmd": true,
}

func (in *instrumenter) repo(repo, work string, replace map[string]string) error {
	return filepath.Walk(repo, func(path string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() {
			if skipDirs[fi.Name()] && path != repo {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(path, ".go") || strings.HasSuffix(path, "_test.go") || !fi.Mode().IsRegular() {
			return nil
		}
		rel, _ := filepath.Rel(repo, path)
		src, err := os.ReadFile(path)
		if err != nil {
			return err
		}
		pkgMain := ""
		switch filepath.Dir(rel) {
		case "cmd/influx-spout":
			pkgMain = "spout"
		case "cmd/influx-spout-tap":
			pkgMain = "tap"
		}
		out, err := in.file(path, src, pkgMain)
		if err != nil {
			return err
		}
		if pkgMain != "" {
			dst := filepath.Join(work, "repo", "simcmd", pkgMain, filepath.Base(path))
			if err := writeFile(dst, out); err != nil {
				return err
			}
			replace[filepath.Join(repo, "simcmd", pkgMain, filepath.Base(path))] = dst
			helper := filepath.Join(repo, "simcmd", pkgMain, "zz_sim_helper.go")
			if replace[helper] == "" {
				hd := filepath.Join(work, "repo", "simcmd", pkgMain, "zz_sim_helper.go")
				if err := writeFile(hd, []byte(fmt.Sprintf(mainHelper, pkgMain))); err != nil {
					return err
				}
				replace[helper] = hd
			}
			return nil
		}
		if in.level == 0 {
			return nil
		}
		dst := filepath.Join(work, "repo", rel)
		if err := writeFile(dst, out); err != nil {
			return err
		}
		replace[path] = dst
		return nil
	})
}

const mainHelper = `package %s

import simruntime "runtime"

// SimArgs holds each simulated process's command line.
var SimArgs = map[int32][]string{}

func simArgs() []string { return SimArgs[simruntime.SimNode()] }
`

func pure(e ast.Expr) bool {
	switch e := e.(type) {
	case *ast.Ident, *ast.BasicLit:
		return true
	case *ast.SelectorExpr:
		return pure(e.X)
	case *ast.StarExpr:
		return pure(e.X)
	case *ast.ParenExpr:
		return pure(e.X)
	case *ast.IndexExpr:
		return pure(e.X) && pure(e.Index)
	}
	return false
}

func hasFuncLit(e ast.Node) bool {
	found := false
	ast.Inspect(e, func(n ast.Node) bool {
		if _, ok := n.(*ast.FuncLit); ok {
			found = true
		}
		return !found
	})
	return found
}

var opTok = map[token.Token]string{
	token.ADD_ASSIGN: "+", token.SUB_ASSIGN: "-", token.MUL_ASSIGN: "*", token.QUO_ASSIGN: "/",
	token.REM_ASSIGN: "%", token.AND_ASSIGN: "&", token.OR_ASSIGN: "|", token.XOR_ASSIGN: "^",
	token.SHL_ASSIGN: "<<", token.SHR_ASSIGN: ">>", token.AND_NOT_ASSIGN: "&^",
}

func (in *instrumenter) file(path string, src []byte, pkgMain string) ([]byte, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, path, src, parser.ParseComments)
	if err != nil {
		return nil, err
	}
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	var edits []textEdit
	add := func(pos, end int, text string) { edits = append(edits, textEdit{pos, end, text}) }
	text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }

	shared := func(e ast.Expr) bool {
		switch x := e.(type) {
		case *ast.SelectorExpr, *ast.IndexExpr, *ast.StarExpr:
			return pure(e)
		case *ast.Ident:
			if x.Obj != nil {
				if vs, ok := x.Obj.Decl.(*ast.ValueSpec); ok {
					// only package-level variables
					for _, d := range f.Decls {
						if gd, ok := d.(*ast.GenDecl); ok {
							for _, sp := range gd.Specs {
								if sp == ast.Spec(vs) {
									return true
								}
							}
						}
					}
				}
			}
		}
		return false
	}

	used := false
	yield := func() string {
		used = true
		in.site++
		return fmt.Sprintf("simrt.SimYield(%d); ", in.site)
	}
	list := func(stmts []ast.Stmt) {
		for _, s := range stmts {
			if _, ok := s.(*ast.EmptyStmt); ok {
				continue
			}
			start, end := off(s.Pos()), off(s.End())
			if in.level >= 2 {
				switch st := s.(type) {
				case *ast.IncDecStmt:
					if shared(st.X) {
						op := "+"
						if st.Tok == token.DEC {
							op = "-"
						}
						l := text(st.X)
						add(start, end, yield()+"{ simt := "+l+"; "+yield()+l+" = simt "+op+" 1 }")
						continue
					}
				case *ast.AssignStmt:
					if len(st.Lhs) == 1 && len(st.Rhs) == 1 && shared(st.Lhs[0]) && !hasFuncLit(st.Rhs[0]) {
						l, r := text(st.Lhs[0]), text(st.Rhs[0])
						if op, ok := opTok[st.Tok]; ok {
							add(start, end, yield()+"{ simt := "+l+"; "+yield()+l+" = simt "+op+" ("+r+") }")
							continue
						}
						if st.Tok == token.ASSIGN {
							reads := false
							ast.Inspect(st.Rhs[0], func(n ast.Node) bool {
								if e, ok := n.(ast.Expr); ok && text(e) == l {
									reads = true
								}
								return !reads
							})
							if reads {
								add(start, end, yield()+"{ simt := "+r+"; "+yield()+l+" = simt }")
								continue
							}
						}
					}
				}
			}
			add(start, start, yield())
		}
	}
	if in.level >= 1 {
		ast.Inspect(f, func(n ast.Node) bool {
			switch b := n.(type) {
			case *ast.BlockStmt:
				list(b.List)
			case *ast.CaseClause:
				list(b.Body)
			case *ast.CommClause:
				list(b.Body)
			case *ast.SelectStmt, *ast.SwitchStmt, *ast.TypeSwitchStmt:
				// their bodies hold clauses, not statements
				var body *ast.BlockStmt
				switch x := n.(type) {
				case *ast.SelectStmt:
					body = x.Body
				case *ast.SwitchStmt:
					body = x.Body
					if x.Init != nil || x.Tag != nil {
						// may contain function literals
						if x.Tag != nil {
							ast.Inspect(x.Tag, in.nested(list))
						}
					}
				case *ast.TypeSwitchStmt:
					body = x.Body
				}
				for _, c := range body.List {
					ast.Inspect(c, in.nested(list))
				}
				return false
			}
			return true
		})
	}
	if used {
		// on the package clause's own line, so that line numbers survive
		add(off(f.Name.End()), off(f.Name.End()), "; import simrt \"runtime\"")
	}
	if pkgMain != "" {
		add(off(f.Name.Pos()), off(f.Name.End()), pkgMain)
		for _, d := range f.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Recv == nil && fd.Name.Name == "main" {
				add(off(fd.Name.Pos()), off(fd.Name.End()), "Main")
			}
		}
		if pkgMain == "spout" {
			ast.Inspect(f, func(n ast.Node) bool {
				if se, ok := n.(*ast.SelectorExpr); ok && text(se) == "os.Args" {
					// keep "os" used
					add(off(se.Pos()), off(se.End()), "append(os.Args[:0:0], simArgs()...)")
				}
				return true
			})
		}
	}
	sort.SliceStable(edits, func(i, j int) bool { return edits[i].pos < edits[j].pos })
	var out bytes.Buffer
	at := 0
	for _, e := range edits {
		if e.pos < at {
			// inside a statement that was rewritten as a whole
			continue
		}
		out.Write(src[at:e.pos])
		out.WriteString(e.text)
		at = e.end
	}
	out.Write(src[at:])
	return out.Bytes(), nil
}

func (in *instrumenter) nested(list func([]ast.Stmt)) func(ast.Node) bool {
	var visit func(n ast.Node) bool
	visit = func(n ast.Node) bool {
		switch b := n.(type) {
		case *ast.BlockStmt:
			list(b.List)
		case *ast.CaseClause:
			list(b.Body)
		case *ast.CommClause:
			list(b.Body)
		case *ast.SelectStmt:
			for _, c := range b.Body.List {
				ast.Inspect(c, visit)
			}
			return false
		case *ast.SwitchStmt:
			if b.Tag != nil {
				ast.Inspect(b.Tag, visit)
			}
			for _, c := range b.Body.List {
				ast.Inspect(c, visit)
			}
			return false
		case *ast.TypeSwitchStmt:
			for _, c := range b.Body.List {
				ast.Inspect(c, visit)
			}
			return false
		}
		return true
	}
	return visit
}
