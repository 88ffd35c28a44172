// Command instr produces a build overlay for the simulator: for every
// non-test source file of the repository it writes a copy in which
//
//   - a scheduling point  simrt.Y(n)  precedes every statement,
//   - time.Now / time.Since / time.Until read the simulated clock,
//   - crypto/rand.Read, rand.Reader draw from the simulated entropy source,
//   - package sync is replaced by a cooperative equivalent,
//   - iteration over a map follows a simulator-chosen order,
//
// and it adds the harness packages under <repo>/verifsim. Nothing is written
// inside the repository; line numbers of the sources are preserved. A file
// that cannot be parsed is left alone (the build then reports the error).
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

const modPath = "github.com/blocktree/go-owcdrivers"

type edit struct {
	off, end int // replace [off,end) with text
	text     string
	prio     int
}

func main() {
	repo := flag.String("repo", "/repo", "repository")
	simDir := flag.String("sim", "", "harness sources, mapped to <repo>/verifsim")
	out := flag.String("out", "", "output directory")
	skip := flag.String("skip", "", "comma-separated package dirs left uninstrumented")
	flag.Parse()
	skipSet := map[string]bool{}
	for _, s := range strings.Split(*skip, ",") {
		if s != "" {
			skipSet[s] = true
		}
	}
	replace := map[string]string{}
	// harness
	filepath.Walk(*simDir, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		if !fi.IsDir() && strings.HasSuffix(p, ".go") && !strings.HasSuffix(p, "_test.go") {
			rel, _ := filepath.Rel(*simDir, p)
			replace[filepath.Join(*repo, "verifsim", rel)] = p
		}
		return nil
	})
	// export data for type checking
	exports := exportMap(*repo)
	site := 0
	type siteRec struct {
		ID   int
		File string
		Line int
	}
	var sites []siteRec
	dirs, _ := filepath.Glob(filepath.Join(*repo, "*"))
	sort.Strings(dirs)
	var walk []string
	for _, d := range dirs {
		filepath.Walk(d, func(p string, fi os.FileInfo, err error) error {
			if err == nil && fi.IsDir() {
				b := filepath.Base(p)
				if strings.HasPrefix(b, ".") || b == "testdata" || b == "vendor" {
					return filepath.SkipDir
				}
				walk = append(walk, p)
			}
			return nil
		})
	}
	for _, d := range walk {
		rel, _ := filepath.Rel(*repo, d)
		if skipSet[rel] || rel == "signatureSet" || rel == "eosSignature" || strings.HasPrefix(rel, "verifsim") {
			continue
		}
		files, _ := filepath.Glob(filepath.Join(d, "*.go"))
		fset := token.NewFileSet()
		var asts []*ast.File
		var names []string
		bad := false
		for _, f := range files {
			if strings.HasSuffix(f, "_test.go") {
				continue
			}
			a, err := parser.ParseFile(fset, f, nil, parser.ParseComments)
			if err != nil {
				bad = true
				break
			}
			asts = append(asts, a)
			names = append(names, f)
		}
		if bad || len(asts) == 0 || asts[0].Name.Name == "main" {
			continue
		}
		info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}}
		conf := types.Config{Error: func(error) {}, Importer: importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
			e, ok := exports[path]
			if !ok || e == "" {
				return nil, fmt.Errorf("no export data for %s", path)
			}
			return os.Open(e)
		})}
		conf.Check(modPath+"/"+rel, fset, asts, info)
		for i, a := range asts {
			src, err := os.ReadFile(names[i])
			if err != nil {
				continue
			}
			res, ns := rewrite(fset, a, src, info, func(line int) int {
				site++
				sites = append(sites, siteRec{site, rel + "/" + filepath.Base(names[i]), line})
				return site
			})
			_ = ns
			o := filepath.Join(*out, "src", rel, filepath.Base(names[i]))
			os.MkdirAll(filepath.Dir(o), 0755)
			// keep only results that still parse
			if _, err := parser.ParseFile(token.NewFileSet(), o, res, 0); err != nil {
				fmt.Fprintln(os.Stderr, "instr: leaving", names[i], "alone:", err)
				continue
			}
			if err := os.WriteFile(o, res, 0644); err != nil {
				fmt.Fprintln(os.Stderr, err)
				os.Exit(3)
			}
			replace[names[i]] = o
		}
	}
	j, _ := json.MarshalIndent(map[string]interface{}{"Replace": replace}, "", " ")
	if err := os.WriteFile(filepath.Join(*out, "overlay.json"), j, 0644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	var sb bytes.Buffer
	for _, s := range sites {
		fmt.Fprintf(&sb, "%d %s:%d\n", s.ID, s.File, s.Line)
	}
	os.WriteFile(filepath.Join(*out, "sites.txt"), sb.Bytes(), 0644)
}

func exportMap(repo string) map[string]string {
	m := map[string]string{}
	cmd := exec.Command("go", "list", "-e", "-export", "-deps", "-f", "{{.ImportPath}}\t{{.Export}}", "./...")
	cmd.Dir = repo
	outb, _ := cmd.Output()
	for _, l := range strings.Split(string(outb), "\n") {
		p := strings.SplitN(l, "\t", 2)
		if len(p) == 2 {
			m[p[0]] = p[1]
		}
	}
	return m
}

var syncNames = map[string]bool{"Mutex": true, "RWMutex": true, "Once": true, "WaitGroup": true, "Pool": true, "Map": true, "Locker": true}

func rewrite(fset *token.FileSet, f *ast.File, src []byte, info *types.Info, newSite func(line int) int) ([]byte, int) {
	var edits []edit
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	imports := map[string]string{} // local name -> path
	importSpec := map[string]*ast.ImportSpec{}
	for _, im := range f.Imports {
		p, _ := strconv.Unquote(im.Path.Value)
		n := filepath.Base(p)
		if im.Name != nil {
			n = im.Name.Name
		}
		imports[n] = p
		importSpec[n] = im
	}
	isPkg := func(e ast.Expr, path string) bool {
		id, ok := e.(*ast.Ident)
		if !ok {
			return false
		}
		if o, ok := info.Uses[id]; ok {
			pn, ok := o.(*types.PkgName)
			return ok && pn.Imported().Path() == path
		}
		return id.Obj == nil && imports[id.Name] == path
	}
	n := 0
	needGenerics := false
	keep := map[string]bool{} // imports that must stay referenced
	stmts := func(list []ast.Stmt) {
		for _, s := range list {
			switch s.(type) {
			case *ast.EmptyStmt:
				continue
			}
			n++
			p := fset.Position(s.Pos())
			edits = append(edits, edit{p.Offset, p.Offset, fmt.Sprintf("simrt.Y(%d); ", newSite(p.Line)), 0})
		}
	}
	syncOK := true
	ast.Inspect(f, func(x ast.Node) bool {
		if s, ok := x.(*ast.SelectorExpr); ok && isPkg(s.X, "sync") && !syncNames[s.Sel.Name] {
			syncOK = false
		}
		return true
	})
	ast.Inspect(f, func(x ast.Node) bool {
		switch v := x.(type) {
		case *ast.BlockStmt:
			stmts(v.List)
		case *ast.CaseClause:
			stmts(v.Body)
		case *ast.CommClause:
			stmts(v.Body)
		case *ast.SwitchStmt:
			// clauses are handled above, the block holds only clauses
			if v.Body != nil {
				for _, c := range v.Body.List {
					ast.Inspect(c, func(ast.Node) bool { return false })
				}
			}
		case *ast.GoStmt:
			o := off(v.Pos())
			edits = append(edits, edit{o, o + 2, "simrt.Go(func() { ", 1})
			e := off(v.End())
			edits = append(edits, edit{e, e, " })", 1})
		case *ast.SelectorExpr:
			if isPkg(v.X, "time") {
				switch v.Sel.Name {
				case "Now", "Since", "Until", "Sleep", "After":
					keep["time"] = true
					edits = append(edits, edit{off(v.Pos()), off(v.End()), "simrt.Time" + v.Sel.Name, 1})
				}
			}
			if isPkg(v.X, "crypto/rand") {
				switch v.Sel.Name {
				case "Read":
					keep["crypto/rand"] = true
					edits = append(edits, edit{off(v.Pos()), off(v.End()), "simrt.RandRead", 1})
				case "Reader":
					keep["crypto/rand"] = true
					edits = append(edits, edit{off(v.Pos()), off(v.End()), "simrt.Entropy", 1})
				}
			}
		case *ast.RangeStmt:
			tv, ok := info.Types[v.X]
			if !ok || tv.Type == nil {
				return true
			}
			if _, isMap := tv.Type.Underlying().(*types.Map); !isMap {
				return true
			}
			switch v.X.(type) {
			case *ast.Ident, *ast.SelectorExpr:
			default:
				return true
			}
			if v.Tok != token.DEFINE || v.Key == nil {
				return true
			}
			key, ok := v.Key.(*ast.Ident)
			if !ok {
				return true
			}
			mtext := string(src[off(v.X.Pos()):off(v.X.End())])
			kname := key.Name
			if kname == "_" {
				kname = "simKey"
			}
			needGenerics = true
			edits = append(edits, edit{off(v.Key.Pos()), off(v.X.End()), "_, " + kname + " := range simrt.MapKeys(" + mtext + ")", 1})
			o := off(v.Body.Lbrace) + 1
			ins := fmt.Sprintf(" simVal, simOK := %s[%s]; if !simOK { continue }; _ = simVal; _ = %s; ", mtext, kname, kname)
			if v.Value != nil {
				if id, ok := v.Value.(*ast.Ident); ok && id.Name != "_" {
					ins += fmt.Sprintf("%s := simVal; _ = %s; ", id.Name, id.Name)
				}
			}
			edits = append(edits, edit{o, o, ins, -1})
		}
		return true
	})
	// BlockStmt of switch/select lists clauses: those are not statements to precede.
	clauseAt := map[int]bool{}
	ast.Inspect(f, func(x ast.Node) bool {
		switch v := x.(type) {
		case *ast.CaseClause:
			clauseAt[off(v.Pos())] = true
		case *ast.CommClause:
			clauseAt[off(v.Pos())] = true
		}
		return true
	})
	var keepEdits []edit
	for _, e := range edits {
		if e.off == e.end && strings.HasPrefix(e.text, "simrt.Y(") && clauseAt[e.off] {
			continue
		}
		keepEdits = append(keepEdits, e)
	}
	edits = keepEdits
	// imports: add simrt right after the package clause, on the same line.
	pe := off(f.Name.End())
	tail := fmt.Sprintf("; import simrt %q", modPath+"/verifsim/simrt")
	edits = append(edits, edit{pe, pe, tail, 0})
	if syncOK {
		for nme, p := range imports {
			if p == "sync" {
				is := importSpec[nme]
				edits = append(edits, edit{off(is.Pos()), off(is.End()), fmt.Sprintf("%s %q", nme, modPath+"/verifsim/simsync"), 1})
			}
		}
	}
	var sfx bytes.Buffer
	fmt.Fprintf(&sfx, "\nvar _ = simrt.Y\n")
	for nme, p := range imports {
		switch {
		case p == "time" && keep["time"] && nme != "_" && nme != ".":
			fmt.Fprintf(&sfx, "var _ %s.Duration\n", nme)
		case p == "crypto/rand" && keep["crypto/rand"] && nme != "_" && nme != ".":
			fmt.Fprintf(&sfx, "var _ = %s.Int\n", nme)
		}
	}
	sort.SliceStable(edits, func(i, j int) bool {
		if edits[i].off != edits[j].off {
			return edits[i].off < edits[j].off
		}
		return edits[i].prio < edits[j].prio
	})
	var b bytes.Buffer
	if needGenerics {
		b.WriteString("//go:build go1.18\n\n")
		// keep line numbers
		b.WriteString("//line " + fset.Position(f.Pos()).Filename + ":1\n")
	}
	pos := 0
	for _, e := range edits {
		if e.off < pos { // overlapping edit (nested rewrite): drop it
			continue
		}
		b.Write(src[pos:e.off])
		b.WriteString(e.text)
		pos = e.end
	}
	b.Write(src[pos:])
	b.Write(sfx.Bytes())
	return b.Bytes(), n
}
