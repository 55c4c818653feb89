PROPERTY = "C17"
NEEDS = "two builds of a package with the same release in one repository, a delta to one of them, and the other one leaving"
BREAKS = "deltas are dropped by the release of the package that leaves, so a delta is lost although both of its packages are still held"
PKG = "src/ferryd/core"
EDITS = [("src/ferryd/core/repo.go", '''		if pkgDelta.Delta.FromID == pkgID || pkgDelta.Delta.ToID == pkgID {
''', '''		if release := poolEntry.Meta.GetRelease(); pkgDelta.Delta.FromRelease == release || pkgDelta.Delta.ToRelease == release {
''')]
DEMO = {"demo.go": '''package core

import "testing"

func TestSeededDemo(t *testing.T) {
	m, base := demoFerry(t)
	demoMust(t, m.CreateRepo("main"))
	one := demoPkg{Name: "nano", Release: 1, Files: map[string]string{"usr/a": "a", "usr/b": "b"}}
	two := demoPkg{Name: "nano", Release: 2, Files: map[string]string{"usr/a": "a", "usr/b": "c"}}
	twin := two
	twin.Dist = "2"
	twin.Source = "twin"
	demoAdd(t, m, base, "main", one, two, twin)
	old, tip := demoMeta(t, m, one.id()), demoMeta(t, m, two.id())
	path, err := m.CreateDelta("main", old, tip)
	demoMust(t, err)
	demoMust(t, m.AddDelta("main", path, &DeltaInformation{FromID: old.GetID(), ToID: tip.GetID(), FromRelease: 1, ToRelease: 2}))
	demoMust(t, m.RemoveSource("main", "twin", 2))
	if e := demoEntry(t, m, "main", "nano"); e == nil || len(e.Available) != 2 || len(e.Deltas) != 1 {
		t.Fatalf("the delta is lost: %+v", e)
	}
}
'''}
