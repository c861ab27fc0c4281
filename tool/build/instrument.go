package build

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"io/fs"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

// Source trees of the repository that are never part of the simulated program.
var skipDirs = map[string]bool{".git": true, "testdata": true, "node_modules": true, ".github": true}

// isTestFile tells whether the file is only compiled by go test.
func isTestFile(name string) bool { return strings.HasSuffix(name, "_test.go") }

type insertion struct {
	off  int
	text string
}

// Instrument inserts a scheduling point before every statement, keeping line numbers. Commands
// become importable packages whose main function is VerifMain. With a reset name, the package's
// variables can be initialised again under that name.
func Instrument(path, reset string, src []byte) ([]byte, int, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, path, src, parser.ParseComments)
	if err != nil {
		return nil, 0, err
	}
	for _, imp := range f.Imports {
		if imp.Path.Value == `"C"` {
			return src, 0, nil
		}
	}
	tf := fset.File(f.Pos())
	off := func(p token.Pos) int { return tf.Offset(p) }
	var ins []insertion
	n := 0
	list := func(l []ast.Stmt) {
		for _, s := range l {
			if _, ok := s.(*ast.EmptyStmt); ok {
				continue
			}
			ins = append(ins, insertion{off(s.Pos()), "verifrt.VerifYield();"})
			n++
		}
	}
	var repl []insertion // in-place renames: text replaces identifier of the same position
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if ok {
			if fd.Body == nil || noInstrument(fd.Doc) {
				continue
			}
			if f.Name.Name == "main" && fd.Recv == nil && fd.Name.Name == "main" {
				repl = append(repl, insertion{off(fd.Name.Pos()), "VerifMain"})
			}
		}
		ast.Inspect(d, func(x ast.Node) bool {
			switch x := x.(type) {
			case *ast.BlockStmt:
				// switch and select bodies hold clauses, not statements
				for _, s := range x.List {
					switch s.(type) {
					case *ast.CaseClause, *ast.CommClause:
						return true
					}
				}
				list(x.List)
			case *ast.CaseClause:
				list(x.Body)
			case *ast.CommClause:
				list(x.Body)
			}
			return true
		})
	}
	if n == 0 && f.Name.Name != "main" && reset == "" {
		return src, 0, nil
	}
	nameEnd := off(f.Name.End())
	tail := ""
	if reset != "" {
		tail = resetCode(f, src, off, reset)
	}
	if n > 0 || tail != "" {
		ins = append(ins, insertion{nameEnd, "; import verifrt \"runtime\""})
	}
	sort.SliceStable(ins, func(i, j int) bool { return ins[i].off < ins[j].off })
	var out bytes.Buffer
	last := 0
	emit := func(to int) {
		out.Write(src[last:to])
		last = to
	}
	type ev struct {
		off  int
		text string
		skip int
	}
	var evs []ev
	for _, i := range ins {
		evs = append(evs, ev{i.off, i.text, 0})
	}
	for _, r := range repl {
		evs = append(evs, ev{r.off, r.text, 4})
	}
	if f.Name.Name == "main" {
		evs = append(evs, ev{off(f.Name.Pos()), "mainpkg", 4})
	}
	sort.SliceStable(evs, func(i, j int) bool { return evs[i].off < evs[j].off })
	for _, e := range evs {
		emit(e.off)
		out.WriteString(e.text)
		last += e.skip
	}
	out.Write(src[last:])
	out.WriteString(tail)
	return out.Bytes(), n, nil
}

// resetCode returns a function that initialises the package's variables again, as in a new process.
func resetCode(f *ast.File, src []byte, off func(token.Pos) int, name string) string {
	for _, imp := range f.Imports {
		if imp.Path.Value == `"embed"` {
			return ""
		}
	}
	text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
	var b strings.Builder
	for _, d := range f.Decls {
		gd, ok := d.(*ast.GenDecl)
		if !ok || gd.Tok != token.VAR {
			continue
		}
		for _, s := range gd.Specs {
			vs := s.(*ast.ValueSpec)
			names, blank := []string{}, false
			for _, id := range vs.Names {
				names = append(names, id.Name)
				blank = blank || id.Name == "_"
			}
			switch {
			case blank:
			case len(vs.Values) > 0:
				fmt.Fprintf(&b, "{v := func() { %s = ", strings.Join(names, ", "))
				for i, v := range vs.Values {
					if i > 0 {
						b.WriteString(", ")
					}
					b.WriteString(text(v))
				}
				b.WriteString(" }; v()}\n")
			default:
				for _, id := range names {
					fmt.Fprintf(&b, "{var v %s; %s = v}\n", text(vs.Type), id)
				}
			}
		}
	}
	if b.Len() == 0 {
		return ""
	}
	return fmt.Sprintf("\nfunc init() { verifrt.VerifOnReset(%q, func() {\n%s}) }\n", name, b.String())
}

// resetPackages are the trees whose package variables are initialised again for a new process.
var resetPackages = []string{"cmd/", "pkg/util/"}

func noInstrument(doc *ast.CommentGroup) bool {
	if doc == nil {
		return false
	}
	for _, c := range doc.List {
		if strings.HasPrefix(c.Text, "//go:nosplit") || strings.HasPrefix(c.Text, "//go:linkname") ||
			strings.HasPrefix(c.Text, "//go:norace") {
			return true
		}
	}
	return false
}

// smallPackages are the packages whose batch and chunk sizes are reduced in the small variant, with
// the least literal to be considered a size.
var smallPackages = map[string]uint64{"pkg/db/mysql": 1000, "pkg/mapserver/trie": 1000, "pkg/mapserver/updater": 10000, "pkg/mapserver/logfetcher": 128}

// isTime tells whether the expression is a name of package time.
func isTime(e ast.Expr) bool {
	s, ok := e.(*ast.SelectorExpr)
	if !ok {
		return false
	}
	x, ok := s.X.(*ast.Ident)
	return ok && x.Name == "time"
}

// shrink replaces the round sizes (powers of two and of ten) among the integer literals by small
// ones, so that runs with little data reach the limits of batches and chunks. It returns the same
// bytes when nothing is to be replaced.
func shrink(path string, src []byte, least uint64) ([]byte, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, path, src, parser.ParseComments)
	if err != nil {
		return nil, err
	}
	tf := fset.File(f.Pos())
	var out bytes.Buffer
	last := 0
	ast.Inspect(f, func(n ast.Node) bool {
		if c, ok := n.(*ast.CallExpr); ok {
			if s, ok := c.Fun.(*ast.SelectorExpr); ok && (s.Sel.Name == "Date" || s.Sel.Name == "Duration") {
				return false
			}
		}
		if b, ok := n.(*ast.BinaryExpr); ok && (isTime(b.X) || isTime(b.Y)) {
			return false // a duration
		}
		l, ok := n.(*ast.BasicLit)
		if !ok || l.Kind != token.INT {
			return true
		}
		v, err := strconv.ParseUint(strings.ReplaceAll(l.Value, "_", ""), 0, 63)
		if err != nil || v < least {
			return true
		}
		ten := v
		for ten%10 == 0 {
			ten /= 10
		}
		if v&(v-1) != 0 && ten != 1 {
			return true
		}
		small := 3
		if v&(v-1) == 0 {
			small = 2
		}
		o := tf.Offset(l.Pos())
		out.Write(src[last:o])
		text := strconv.Itoa(small)
		out.WriteString(text)
		last = o + len(l.Value)
		return true
	})
	if last == 0 {
		return src, nil
	}
	out.Write(src[last:])
	return out.Bytes(), nil
}

// CopyRepo writes the instrumented sources of the repository below dst.
func CopyRepo(repo, dst string, small bool) (files, points int, err error) {
	err = filepath.WalkDir(repo, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(repo, p)
		if d.IsDir() {
			if skipDirs[d.Name()] && rel != "." {
				return filepath.SkipDir
			}
			return nil
		}
		if !d.Type().IsRegular() {
			return nil
		}
		name := d.Name()
		isGo := strings.HasSuffix(name, ".go")
		if isGo && isTestFile(name) {
			return nil
		}
		if !isGo && name != "go.mod" && name != "go.sum" && !needed(rel) {
			return nil
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		if least := smallPackages[filepath.ToSlash(filepath.Dir(rel))]; isGo && small && least > 0 {
			if b, err = shrink(p, b, least); err != nil {
				return fmt.Errorf("%s: %w", rel, err)
			}
		}
		if isGo {
			reset := ""
			for _, pre := range resetPackages {
				if d := filepath.ToSlash(filepath.Dir(rel)) + "/"; strings.HasPrefix(d, pre) {
					reset = d
				}
			}
			nb, n, err := Instrument(p, reset, b)
			if err != nil {
				return fmt.Errorf("instrument %s: %w", rel, err)
			}
			b = nb
			points += n
			files++
		}
		out := filepath.Join(dst, rel)
		if err := os.MkdirAll(filepath.Dir(out), 0o755); err != nil {
			return err
		}
		return os.WriteFile(out, b, 0o644)
	})
	return
}

// needed tells which non-Go files the program or the harness reads at build time.
func needed(rel string) bool {
	return rel == filepath.Join("tools", "create_schema.sh")
}
