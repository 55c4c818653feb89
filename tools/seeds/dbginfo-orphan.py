PROPERTY = "C11"
NEEDS = "a -dbginfo companion of an obsolete package whose main package has already been removed"
BREAKS = "the -dbginfo companion of an obsolete name is only trimmed along with the main package"
PKG = "src/ferryd/core"
EDITS = [("src/ferryd/core/repo.go", '''				nom = nom[0 : len(nom)-8]
''', '''				if main, _ := r.GetEntry(db, nom[0:len(nom)-8]); main != nil {
					nom = nom[0 : len(nom)-8]
				}
''')]
DEMO = {"demo.go": '''package core

import (
	"os"
	"path/filepath"
	"testing"
)

func TestSeededDemo(t *testing.T) {
	m, base := demoFerry(t)
	demoMust(t, m.CreateRepo("main"))
	demoAdd(t, m, base, "main", demoPkg{Name: "nano-dbginfo", Source: "nano", Release: 1}, demoPkg{Name: "zip", Release: 1})
	demoMust(t, os.WriteFile(filepath.Join(base, AssetPathComponent, "main", "distribution.xml"),
		[]byte("<PISI><SourceName>S</SourceName><Obsoletes><Package>nano</Package></Obsoletes></PISI>"), 0644))
	demoMust(t, m.TrimObsolete("main"))
	if e := demoEntry(t, m, "main", "nano-dbginfo"); e != nil {
		t.Fatal("nano-dbginfo is still there")
	}
}
'''}
