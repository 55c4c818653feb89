PROPERTY = "C24"
NEEDS = "a repository, deleted while it holds a delta that another repository holds as well"
BREAKS = "deleting a repository does not release the deltas it shares with others"
PKG = "src/ferryd/core"
EDITS = [("src/ferryd/core/repo.go", '''			for _, id := range entry.Deltas {
				if err := repo.removeDeltaInternal(db, pool, id); err != nil {
''', '''			for _, id := range entry.Deltas {
				if shared, err := pool.GetEntry(db, id); err == nil && shared.RefCount > 1 {
					continue
				}
				if err := repo.removeDeltaInternal(db, pool, id); err != nil {
''')]
DEMO = {"demo.go": '''package core

import (
	"testing"
)

func TestSeededDemo(t *testing.T) {
	m, base := demoFerry(t)
	demoMust(t, m.CreateRepo("main"))
	files := func(s string) map[string]string {
		return map[string]string{"usr/a": "same", "usr/b": s}
	}
	one, two := demoPkg{Name: "nano", Release: 1, Files: files("1")}, demoPkg{Name: "nano", Release: 2, Older: []int{1}, Files: files("2")}
	demoAdd(t, m, base, "main", one, two)
	path, err := m.CreateDelta("main", demoMeta(t, m, one.id()), demoMeta(t, m, two.id()))
	demoMust(t, err)
	demoMust(t, m.AddDelta("main", path, &DeltaInformation{FromID: one.id(), ToID: two.id()}))
	demoMust(t, m.CloneRepo("main", "copy", true))
	demoMust(t, m.DeleteRepo("copy"))
	demoMust(t, m.DeleteRepo("main"))
	pool, err := m.GetPoolItems()
	demoMust(t, err)
	if len(pool) != 0 {
		t.Fatalf("deleted repositories still hold %v", pool)
	}
}
'''}
