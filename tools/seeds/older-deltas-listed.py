PROPERTY = "C04"
NEEDS = "an index run while the repository holds a delta to an older package"
BREAKS = "deltas which lead to an older release are listed under the published package"
PKG = "src/ferryd/core"
EDITS = [("src/ferryd/core/repo_index.go", '''		if poolEnt.Delta.ToRelease != entry.Meta.GetRelease() {''', '''		if poolEnt.Delta.ToRelease > entry.Meta.GetRelease() {''')]
DEMO = {"demo.go": '''package core

import (
	"os"
	"path/filepath"
	"strings"
	"testing"
)

func TestSeededDemo(t *testing.T) {
	m, base := demoFerry(t)
	demoMust(t, m.CreateRepo("main"))
	files := func(s string) map[string]string {
		return map[string]string{"usr/a": "same", "usr/b": s}
	}
	one, two, three := demoPkg{Name: "nano", Release: 1, Files: files("1")}, demoPkg{Name: "nano", Release: 2, Older: []int{1}, Files: files("2")}, demoPkg{Name: "nano", Release: 3, Older: []int{2, 1}, Files: files("3")}
	demoAdd(t, m, base, "main", one, two)
	path, err := m.CreateDelta("main", demoMeta(t, m, one.id()), demoMeta(t, m, two.id()))
	demoMust(t, err)
	demoMust(t, m.AddDelta("main", path, &DeltaInformation{FromID: one.id(), ToID: two.id()}))
	demoAdd(t, m, base, "main", three)
	b, err := os.ReadFile(filepath.Join(base, RepoPathComponent, "main", "eopkg-index.xml"))
	demoMust(t, err)
	if strings.Contains(string(b), ".delta.eopkg") {
		t.Fatal("the index lists a delta that does not lead to the published package")
	}
}
'''}
