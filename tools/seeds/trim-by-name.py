PROPERTY = "C10"
NEEDS = "a package whose held releases cross from below ten to ten and above"
BREAKS = "trimming keeps the last packages by name rather than those with the highest releases"
PKG = "src/ferryd/core"
EDITS = [("src/ferryd/core/repo.go", '''		sort.Sort(sort.Reverse(libeopkg.PackageSet(candidates)))
''', '''		// Available is sorted, newest last
		for i, j := 0, len(candidates)-1; i < j; i, j = i+1, j-1 {
			candidates[i], candidates[j] = candidates[j], candidates[i]
		}
''')]
DEMO = {"demo.go": '''package core

import "testing"

func TestSeededDemo(t *testing.T) {
	m, base := demoFerry(t)
	demoMust(t, m.CreateRepo("main"))
	eight, nine, ten, eleven := demoPkg{Name: "nano", Release: 8}, demoPkg{Name: "nano", Release: 9}, demoPkg{Name: "nano", Release: 10}, demoPkg{Name: "nano", Release: 11}
	demoAdd(t, m, base, "main", eight, nine, ten, eleven)
	demoMust(t, m.TrimPackages("main", 2))
	if e := demoEntry(t, m, "main", "nano"); e == nil || len(e.Available) != 2 || e.Available[0] != ten.id() || e.Available[1] != eleven.id() {
		t.Fatal("left:", e)
	}
}
'''}
