// Command instr writes a go build overlay that adds a preemption point (vsched.P) before every statement of braid's
// packages, without changing line numbers. It works on whatever the working tree contains.
//
//	instr -repo /repo -out DIR -vsched vsched.go
//
// DIR/overlay.json is the overlay. It also adds lib/timer/zz_verif_export.go, which exports the unexported parser of
// cron expressions, if one is there.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"hash/fnv"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

var noExpr bool

// point is an insertion of text at an offset
type point struct {
	off  int
	kind token.Token // ILLEGAL for a statement, LAND and LOR before the second operand
}

// calls tells whether evaluating e does more than to read variables
func calls(e ast.Expr) bool {
	found := false
	ast.Inspect(e, func(n ast.Node) bool {
		switch v := n.(type) {
		case *ast.FuncLit:
			return false
		case *ast.CallExpr:
			found = true
		case *ast.UnaryExpr:
			if v.Op == token.ARROW {
				found = true
			}
		}
		return true
	})
	return found
}

var skipDirs = map[string]bool{".git": true, "tests": true, "mock": true, "router.pb": true, "node_modules": true}

func main() {
	repo := flag.String("repo", "/repo", "")
	out := flag.String("out", "", "")
	vs := flag.String("vsched", "", "")
	flag.BoolVar(&noExpr, "noexpr", false, "no preemption points inside conditions")
	flag.Parse()

	replace := map[string]string{}
	os.MkdirAll(*out, 0o755)
	replace[filepath.Join(*repo, "lib/vsched/vsched.go")] = *vs

	sites := 0
	err := filepath.Walk(*repo, func(path string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() {
			if skipDirs[fi.Name()] {
				return filepath.SkipDir
			}
			return nil
		}
		rel, _ := filepath.Rel(*repo, path)
		if !strings.HasSuffix(path, ".go") || strings.HasSuffix(path, "_test.go") || strings.HasSuffix(path, ".pb.go") {
			return nil
		}
		if !wanted(rel) {
			return nil
		}
		src, err := os.ReadFile(path)
		if err != nil {
			return err
		}
		dst, n, err := instrument(rel, src)
		if err != nil || n == 0 {
			// not parseable or nothing to do: build the file as it is (the compiler reports what is wrong with it)
			return nil
		}
		sites += n
		o := filepath.Join(*out, strings.ReplaceAll(rel, "/", "__"))
		if err := os.WriteFile(o, dst, 0o644); err != nil {
			return err
		}
		replace[path] = o
		return nil
	})
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}

	if name := cronParser(filepath.Join(*repo, "lib/timer")); name != "" {
		o := filepath.Join(*out, "zz_verif_export.go")
		os.WriteFile(o, []byte("package timer\n\n// VerifParseExpress is added by the verification build.\nfunc VerifParseExpress(e, t string) *ExpressSet { return "+name+"(e, t) }\n"), 0o644)
		replace[filepath.Join(*repo, "lib/timer/zz_verif_export.go")] = o
	} else {
		o := filepath.Join(*out, "zz_verif_export.go")
		os.WriteFile(o, []byte("package timer\n\nfunc VerifParseExpress(e, t string) *ExpressSet { panic(\"no cron parser found\") }\n"), 0o644)
		replace[filepath.Join(*repo, "lib/timer/zz_verif_export.go")] = o
	}

	b, _ := json.MarshalIndent(map[string]interface{}{"Replace": replace}, "", " ")
	if err := os.WriteFile(filepath.Join(*out, "overlay.json"), b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	fmt.Printf("instrumented %d files, %d sites\n", len(replace)-2, sites)
}

func wanted(rel string) bool {
	for _, p := range []string{"core/", "lib/mpsc/", "lib/unbounded/", "lib/warpwaitgroup/", "lib/pubsub/", "lib/timer/",
		"lib/grpc/", "lib/dismutex/", "lib/span/", "lib/tracer/", "router/msg/"} {
		if strings.HasPrefix(rel, p) {
			return true
		}
	}
	return false
}

func instrument(rel string, src []byte) ([]byte, int, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, rel, src, parser.ParseComments)
	if err != nil {
		return nil, 0, err
	}
	h := fnv.New32a()
	h.Write([]byte(rel))
	base := h.Sum32()

	var at []point
	add := func(list []ast.Stmt) {
		for _, s := range list {
			if _, ok := s.(*ast.EmptyStmt); ok {
				continue
			}
			at = append(at, point{off: fset.Position(s.Pos()).Offset})
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch v := n.(type) {
		case *ast.GenDecl:
			return v.Tok != token.CONST
		case *ast.BinaryExpr:
			if (v.Op == token.LAND || v.Op == token.LOR) && !noExpr && (calls(v.X) || calls(v.Y)) {
				at = append(at, point{fset.Position(v.Y.Pos()).Offset, v.Op})
			}
		case *ast.SwitchStmt, *ast.TypeSwitchStmt, *ast.SelectStmt:
			// their bodies consist of clauses
			return true
		case *ast.BlockStmt:
			for _, s := range v.List {
				switch s.(type) {
				case *ast.CaseClause, *ast.CommClause:
					return true
				}
			}
			add(v.List)
		case *ast.CaseClause:
			add(v.Body)
		case *ast.CommClause:
			add(v.Body)
		}
		return true
	})
	if len(at) == 0 {
		return nil, 0, nil
	}
	sort.SliceStable(at, func(i, j int) bool { return at[i].off < at[j].off })
	var b strings.Builder
	// the import goes right behind the package clause, on its line
	pkgEnd := fset.Position(f.Name.End()).Offset
	b.Write(src[:pkgEnd])
	b.WriteString("; import zzvsched \"github.com/pojol/braid/lib/vsched\"")
	last := pkgEnd
	prev := -1
	for i, p := range at {
		if p.off == prev && p.kind == token.ILLEGAL {
			continue
		}
		prev = p.off
		b.Write(src[last:p.off])
		site := base + uint32(i)*40503
		switch p.kind {
		case token.LAND:
			fmt.Fprintf(&b, "zzvsched.T(%d) && ", site)
		case token.LOR:
			fmt.Fprintf(&b, "zzvsched.F(%d) || ", site)
		default:
			fmt.Fprintf(&b, "zzvsched.P(%d); ", site)
		}
		last = p.off
	}
	b.Write(src[last:])
	return []byte(b.String()), len(at), nil
}

// cronParser finds func(string, string) *ExpressSet
func cronParser(dir string) string {
	fset := token.NewFileSet()
	pkgs, err := parser.ParseDir(fset, dir, func(fi os.FileInfo) bool { return !strings.HasSuffix(fi.Name(), "_test.go") }, 0)
	if err != nil {
		return ""
	}
	best := ""
	for _, p := range pkgs {
		for _, f := range p.Files {
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Recv != nil || fd.Type.Results == nil || len(fd.Type.Results.List) != 1 {
					continue
				}
				st, ok := fd.Type.Results.List[0].Type.(*ast.StarExpr)
				if !ok {
					continue
				}
				if id, ok := st.X.(*ast.Ident); !ok || id.Name != "ExpressSet" {
					continue
				}
				n := 0
				strs := true
				for _, p := range fd.Type.Params.List {
					id, ok := p.Type.(*ast.Ident)
					if !ok || id.Name != "string" {
						strs = false
					}
					if len(p.Names) == 0 {
						n++
					}
					n += len(p.Names)
				}
				if n == 2 && strs && (best == "" || fd.Name.Name == "parseExpress") {
					best = fd.Name.Name
				}
			}
		}
	}
	return best
}
