PROPERTY = "C18"
NEEDS = "a crash after a new package's file reached the pool and before it was recorded, the upload being replaced by a rebuild of the same name, and running it again"
BREAKS = "a file left behind in the pool is taken for the package that is being added, whatever it contains"
PKG = "src/ferryd/core"
EDITS = [("src/ferryd/core/util.go", '''	if os.Link(source, dest) == nil {
		return nil
	}
''', '''	if err := os.Link(source, dest); err == nil || os.IsExist(err) {
		return nil
	}
''')]
DEMO = {"demo.go": '''package core

import (
	"bytes"
	"os"
	"path/filepath"
	"testing"
)

func TestSeededDemo(t *testing.T) {
	m, base := demoFerry(t)
	demoMust(t, m.CreateRepo("main"))
	old := demoMake(t, filepath.Join(filepath.Dir(base), "old"), demoPkg{Name: "nano", Release: 3})
	p := demoPkg{Name: "nano", Release: 3, Text: "rebuilt"}
	// Adding the old build was cut off before it was recorded
	left := filepath.Join(base, PoolPathComponent, "n", "nano", p.id())
	demoMust(t, os.MkdirAll(filepath.Dir(left), 0755))
	b, err := os.ReadFile(old)
	demoMust(t, err)
	demoMust(t, os.WriteFile(left, b, 0644))
	path := demoMake(t, filepath.Join(filepath.Dir(base), "new"), p)
	want, err := os.ReadFile(path)
	demoMust(t, err)
	demoMust(t, m.AddPackages("main", []string{path}, true))
	for _, f := range []string{left, filepath.Join(base, RepoPathComponent, "main", "n", "nano", p.id())} {
		if got, err := os.ReadFile(f); err != nil || !bytes.Equal(got, want) {
			t.Fatal(f, "is not the package that was added", err)
		}
	}
}
'''}
