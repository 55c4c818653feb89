PROPERTY = "C18"
NEEDS = "a crash after a package's file left a repository's tree and before the removal was recorded, then running the removal again"
BREAKS = "removing a package whose file has already gone skips giving its pool reference back, so it is recorded in the pool for ever"
PKG = "src/ferryd/core"
EDITS = [("src/ferryd/core/repo.go", '''	if err = os.Remove(pkgTarget); err != nil {
		log.WithFields(log.Fields{
			"repo":  r.ID,
			"id":    id,
			"error": err,
		}).Warning("Failed to remove target for package")
''', '''	if err = os.Remove(pkgTarget); os.IsNotExist(err) {
		// Already dealt with
		return nil
	} else if err != nil {
		log.WithFields(log.Fields{
			"repo":  r.ID,
			"id":    id,
			"error": err,
		}).Warning("Failed to remove target for package")
''')]
DEMO = {"demo.go": '''package core

import (
	"os"
	"path/filepath"
	"testing"
)

func TestSeededDemo(t *testing.T) {
	m, base := demoFerry(t)
	demoMust(t, m.CreateRepo("main"))
	p := demoPkg{Name: "nano", Release: 3}
	demoAdd(t, m, base, "main", p)
	// The removal was cut off just after the file was unlinked
	demoMust(t, os.Remove(filepath.Join(base, RepoPathComponent, "main", "n", "nano", p.id())))
	demoMust(t, m.RemoveSource("main", "nano", 3))
	if demoRefs(m, p.id()) != 0 || demoEntry(t, m, "main", "nano") != nil {
		t.Fatalf("nano is still in the pool, with %d references", demoRefs(m, p.id()))
	}
}
'''}
