// instr rewrites the calls that ferryd makes to the operating system into calls
// of verifos, leaving everything else (line numbers included) as it is.
//
//	instr SRC DST [-time] [-rename A=B] : rewrite the non-test Go files of SRC into DST
package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

var table = map[string]map[string]bool{
	"os":        set("Create OpenFile Remove RemoveAll Rename Link Symlink Truncate Mkdir MkdirAll MkdirTemp CreateTemp Chmod WriteFile Open"),
	"io/ioutil": set("WriteFile"),
	"io":        set("Copy"),
	"os/exec":   set("Command"),
	"syscall":   set("Flock"),
}

var timeTable = set("Second Millisecond")

func set(s string) map[string]bool {
	m := map[string]bool{}
	for _, f := range strings.Fields(s) {
		m[f] = true
	}
	return m
}

// Something of each package that can be mentioned to keep the import used
var mention = map[string]string{
	"os": "ErrNotExist", "io/ioutil": "Discard", "io": "EOF", "os/exec": "ErrNotFound", "syscall": "ENOENT", "time": "UTC",
}

func rewrite(src []byte, name string, scaleTime bool, from, to string) ([]byte, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, name, src, parser.ParseComments)
	if err != nil {
		return nil, err
	}
	local := map[string]string{} // local name -> path
	for _, im := range f.Imports {
		p, _ := strconv.Unquote(im.Path.Value)
		n := filepath.Base(p)
		if im.Name != nil {
			n = im.Name.Name
		}
		if _, ok := table[p]; ok || (p == "time" && scaleTime) {
			local[n] = p
		}
	}
	type edit struct {
		off, n int
		s      string
	}
	var edits []edit
	touched := map[string]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		sel, ok := n.(*ast.SelectorExpr)
		if !ok {
			return true
		}
		id, ok := sel.X.(*ast.Ident)
		if !ok || id.Obj != nil {
			return true
		}
		p, ok := local[id.Name]
		if !ok {
			return true
		}
		if p == "time" {
			if !timeTable[sel.Sel.Name] {
				return true
			}
		} else if !table[p][sel.Sel.Name] {
			return true
		}
		edits = append(edits, edit{fset.Position(id.Pos()).Offset, len(id.Name), "verifos"})
		touched[id.Name] = true
		return true
	})
	calls := len(edits)
	if from != "" {
		for _, d := range f.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Recv == nil && fd.Name.Name == from {
				edits = append(edits, edit{fset.Position(fd.Name.Pos()).Offset, len(from), to})
			}
		}
	}
	if len(edits) == 0 {
		return src, nil
	}
	if calls > 0 {
		edits = append(edits, edit{fset.Position(f.Name.End()).Offset, 0, `; import verifos "github.com/getsolus/ferryd/src/verifos"`})
	}
	sort.Slice(edits, func(a, b int) bool { return edits[a].off > edits[b].off })
	out := string(src)
	for _, e := range edits {
		out = out[:e.off] + e.s + out[e.off+e.n:]
	}
	for n := range touched {
		out += fmt.Sprintf("\nvar _ = %s.%s\n", n, mention[local[n]])
	}
	return []byte(out), nil
}

func main() {
	src, dst := os.Args[1], os.Args[2]
	scale, from, to := false, "", ""
	for i := 3; i < len(os.Args); i++ {
		if os.Args[i] == "-time" {
			scale = true
		} else if os.Args[i] == "-rename" {
			i++
			from, to, _ = strings.Cut(os.Args[i], "=")
		}
	}
	files, err := filepath.Glob(filepath.Join(src, "*.go"))
	if err != nil {
		panic(err)
	}
	os.MkdirAll(dst, 0755)
	for _, f := range files {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		b, err := os.ReadFile(f)
		if err != nil {
			panic(err)
		}
		out, err := rewrite(b, f, scale, from, to)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(1)
		}
		if err := os.WriteFile(filepath.Join(dst, filepath.Base(f)), out, 0644); err != nil {
			panic(err)
		}
	}
}
