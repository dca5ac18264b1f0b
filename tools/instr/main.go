// instr rewrites the packages of the repository for exploration: the sync packages are replaced by ones that the
// explorer controls, iteration over maps goes through the explorer, and so does starting a goroutine.
// Usage: instr REPO OUTDIR MODULE; it prints a JSON object from original to rewritten files.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type pkg struct {
	ImportPath, Dir, Export string
	GoFiles                 []string
}

type edit struct {
	from, to int
	text     string
}

func main() {
	repo, out, module := os.Args[1], os.Args[2], os.Args[3]
	var pkgs []pkg
	exports := map[string]string{}
	cmd := exec.Command("go", "list", "-mod=readonly", "-export", "-deps", "-json=ImportPath,Dir,Export,GoFiles", "./...")
	cmd.Dir = repo
	cmd.Stderr = os.Stderr
	b, err := cmd.Output()
	if err != nil {
		fmt.Fprintln(os.Stderr, "go list:", err)
		os.Exit(1)
	}
	dec := json.NewDecoder(strings.NewReader(string(b)))
	for {
		var p pkg
		if dec.Decode(&p) != nil {
			break
		}
		exports[p.ImportPath] = p.Export
		if p.ImportPath == module || strings.HasPrefix(p.ImportPath, module+"/internal/") {
			pkgs = append(pkgs, p)
		}
	}
	files := map[string]string{}
	for _, p := range pkgs {
		fset := token.NewFileSet()
		var asts []*ast.File
		var paths []string
		for _, f := range p.GoFiles {
			path := filepath.Join(p.Dir, f)
			a, err := parser.ParseFile(fset, path, nil, parser.ParseComments)
			if err != nil {
				fmt.Fprintln(os.Stderr, err)
				os.Exit(1)
			}
			asts = append(asts, a)
			paths = append(paths, path)
		}
		imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
			if e := exports[path]; e != "" {
				return os.Open(e)
			}
			return nil, fmt.Errorf("no export data for %s", path)
		})
		info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}}
		conf := types.Config{Importer: imp, Error: func(error) {}}
		conf.Check(p.ImportPath, fset, asts, info)
		for i, a := range asts {
			src, _ := os.ReadFile(paths[i])
			text := rewrite(fset, a, info, string(src), module)
			if text == string(src) {
				continue
			}
			rel, _ := filepath.Rel(repo, paths[i])
			dst := filepath.Join(out, strings.ReplaceAll(rel, "/", "__"))
			if err := os.WriteFile(dst, []byte(text), 0o644); err != nil {
				fmt.Fprintln(os.Stderr, err)
				os.Exit(1)
			}
			files[paths[i]] = dst
		}
	}
	j, _ := json.Marshal(files)
	os.Stdout.Write(j)
}

func rewrite(fset *token.FileSet, f *ast.File, info *types.Info, src, module string) string {
	var edits []edit
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	txt := func(n ast.Node) string { return src[off(n.Pos()):off(n.End())] }
	need := false
	for _, s := range f.Imports {
		path, _ := strconv.Unquote(s.Path.Value)
		repl := map[string]string{"sync": "zzsync", "sync/atomic": "zzatomic"}[path]
		if repl == "" {
			continue
		}
		name := path[strings.LastIndex(path, "/")+1:] + " "
		if s.Name != nil {
			name = ""
		}
		edits = append(edits, edit{off(s.Path.Pos()), off(s.Path.End()), name + strconv.Quote(module+"/internal/zzverif/"+repl)})
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.RangeStmt:
			t, ok := info.Types[n.X]
			if !ok || t.Type == nil {
				return true
			}
			if _, ok := t.Type.Underlying().(*types.Map); !ok {
				return true
			}
			need = true
			from, to := off(n.For)+len("for"), off(n.Body.Lbrace)+1
			body := ""
			var lhs, rhs []string
			if n.Key != nil && txt(n.Key) != "_" {
				lhs, rhs = append(lhs, txt(n.Key)), append(rhs, "zzp.K")
			}
			if n.Value != nil && txt(n.Value) != "_" {
				lhs, rhs = append(lhs, txt(n.Value)), append(rhs, "zzp.Val()")
			}
			if len(lhs) > 0 {
				body = " " + strings.Join(lhs, ", ") + " " + n.Tok.String() + " " + strings.Join(rhs, ", ") + ";"
			}
			edits = append(edits, edit{from, off(n.X.Pos()), " _, zzp := range zzsched.Pairs("})
			edits = append(edits, edit{off(n.X.End()), to, ") { if !zzp.Live() { continue };" + body})
		case *ast.GoStmt:
			if len(n.Call.Args) == 0 {
				need = true
				edits = append(edits, edit{off(n.Go), off(n.Call.Pos()), "zzsched.Go("})
				edits = append(edits, edit{off(n.Call.Lparen), off(n.Call.End()), ")"})
				return true
			}
			need = true
			// evaluate the arguments first
			var names, vals []string
			for i, a := range n.Call.Args {
				names = append(names, fmt.Sprintf("zza%d", i))
				vals = append(vals, txt(a))
			}
			dots := ""
			if n.Call.Ellipsis.IsValid() {
				dots = "..."
			}
			edits = append(edits, edit{off(n.Go), off(n.Call.End()), fmt.Sprintf("{ zzf, %s := %s, %s; zzsched.Go(func() { zzf(%s%s) }) }", strings.Join(names, ", "), txt(n.Call.Fun), strings.Join(vals, ", "), strings.Join(names, ", "), dots)})
			return false
		}
		return true
	})
	if need {
		edits = append(edits, edit{off(f.Name.End()), off(f.Name.End()), "; import zzsched " + strconv.Quote(module+"/internal/zzverif/zzsched")})
	}
	sort.SliceStable(edits, func(i, j int) bool { return edits[i].from < edits[j].from })
	var b strings.Builder
	pos := 0
	for _, e := range edits {
		if e.from < pos {
			continue // inside of another edit
		}
		b.WriteString(src[pos:e.from])
		b.WriteString(e.text)
		pos = e.to
	}
	b.WriteString(src[pos:])
	return b.String()
}
