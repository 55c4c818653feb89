PROPERTY = "C06"
NEEDS = "a clone or pull, and then one repository's asset file being rewritten in place"
BREAKS = "asset files are hard-linked between repositories, so editing those of one edits those of the other"
PKG = "src/ferryd/core"
EDITS = [("src/ferryd/core/repo.go", '''		if err := CopyFile(p, dstPath); err != nil {''', '''		if err := LinkOrCopyFile(p, dstPath, false); err != nil {''')]
DEMO = {"demo.go": '''package core

import (
	"os"
	"path/filepath"
	"testing"
)

func TestSeededDemo(t *testing.T) {
	m, base := demoFerry(t)
	demoMust(t, m.CreateRepo("main"))
	demoAdd(t, m, base, "main", demoPkg{Name: "nano", Release: 1})
	a := filepath.Join(base, AssetPathComponent, "main", "groups.xml")
	demoMust(t, os.WriteFile(a, []byte("<PISI><Groups></Groups></PISI>"), 0644))
	demoMust(t, m.CloneRepo("main", "copy", false))
	b := filepath.Join(base, AssetPathComponent, "copy", "groups.xml")
	before, err := os.ReadFile(b)
	demoMust(t, err)
	demoMust(t, os.WriteFile(a, []byte("<PISI><Groups><Group><Name>g</Name></Group></Groups></PISI>"), 0644))
	if after, err := os.ReadFile(b); err != nil || string(before) != string(after) {
		t.Fatalf("the clone's groups changed with the source's: %s", after)
	}
}
'''}
