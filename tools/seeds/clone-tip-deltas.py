PROPERTY = "C07"
NEEDS = "a full clone of a repository that holds a delta which does not lead to the published package"
BREAKS = "a full clone leaves out the deltas that lead to older packages"
PKG = "src/ferryd/core"
EDITS = [("src/ferryd/core/repo.go", '''			deltaIDs = append(deltaIDs, entry.Deltas...)
''', '''			for _, id := range entry.Deltas {
				delta, err := pool.GetEntry(db, id)
				if err != nil {
					return err
				}
				// Nobody upgrades to anything but the tip
				if delta.Delta != nil && delta.Delta.ToID == entry.Published {
					deltaIDs = append(deltaIDs, id)
				}
			}
''')]
DEMO = {"demo.go": '''package core

import (
	"testing"
)

func TestSeededDemo(t *testing.T) {
	m, base := demoFerry(t)
	demoMust(t, m.CreateRepo("main"))
	files := func(s string) map[string]string {
		return map[string]string{"usr/a": "same", "usr/b": s}
	}
	one, two, three := demoPkg{Name: "nano", Release: 1, Files: files("1")}, demoPkg{Name: "nano", Release: 2, Older: []int{1}, Files: files("2")}, demoPkg{Name: "nano", Release: 3, Older: []int{2, 1}, Files: files("3")}
	demoAdd(t, m, base, "main", one, two)
	path, err := m.CreateDelta("main", demoMeta(t, m, one.id()), demoMeta(t, m, two.id()))
	demoMust(t, err)
	demoMust(t, m.AddDelta("main", path, &DeltaInformation{FromID: one.id(), ToID: two.id()}))
	demoAdd(t, m, base, "main", three)
	demoMust(t, m.CloneRepo("main", "copy", true))
	if e := demoEntry(t, m, "copy", "nano"); e == nil || len(e.Available) != 3 || len(e.Deltas) != 1 {
		t.Fatal("the clone has", e)
	}
}
'''}
