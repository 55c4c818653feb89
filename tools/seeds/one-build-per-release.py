PROPERTY = "C09"
NEEDS = "two held packages of one name with the same release (two architectures), removed by source and release"
BREAKS = "only one package of each name is removed when a release is given"
PKG = "src/ferryd/core"
EDITS = [("src/ferryd/core/repo.go", '''			// We've got a match.
			deleteIDs = append(deleteIDs, id)
''', '''			// We've got a match.
			deleteIDs = append(deleteIDs, id)
			if release > 0 {
				break
			}
'''), ("src/ferryd/core/repo.go", '''	// Did we *actually* remove anything?
''', '''	// Did we actually remove anything?
''')]
DEMO = {"demo.go": '''package core

import "testing"

func TestSeededDemo(t *testing.T) {
	m, base := demoFerry(t)
	demoMust(t, m.CreateRepo("main"))
	demoAdd(t, m, base, "main", demoPkg{Name: "nano", Release: 1}, demoPkg{Name: "nano", Release: 1, Arch: "i686"})
	demoMust(t, m.RemoveSource("main", "nano", 1))
	if e := demoEntry(t, m, "main", "nano"); e != nil {
		t.Fatal("left:", e)
	}
}
'''}
