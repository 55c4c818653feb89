PROPERTY = "C01"
NEEDS = "the same delta being produced in two repositories, and then one of them dropping it"
BREAKS = "the second repository's reference to an already pooled delta is never stored, so the pool drops it while a repository still holds it"
PKG = "src/ferryd/core"
EDITS = [("src/ferryd/core/pool.go", '''func (p *Pool) AddDelta(db libdb.Database, pkg *libeopkg.Package, mapping *DeltaInformation, copyDisk bool) (*PoolEntry, error) {
	// Check if this is just a simple case of bumping the refcount
	if entry, err := p.GetEntry(db, pkg.ID); err == nil {
		entry.RefCount++
		return entry, p.putEntry(db, entry)
	}
''', '''func (p *Pool) AddDelta(db libdb.Database, pkg *libeopkg.Package, mapping *DeltaInformation, copyDisk bool) (*PoolEntry, error) {
	// Check if this is just a simple case of bumping the refcount
	if entry, err := p.GetEntry(db, pkg.ID); err == nil {
		entry.RefCount++
		return entry, nil
	}
''')]
DEMO = {"demo.go": '''package core

import (
	"testing"
)

func TestSeededDemo(t *testing.T) {
	m, base := demoFerry(t)
	files := func(s string) map[string]string {
		return map[string]string{"usr/a": "same", "usr/b": s}
	}
	one, two := demoPkg{Name: "nano", Release: 1, Files: files("1")}, demoPkg{Name: "nano", Release: 2, Older: []int{1}, Files: files("2")}
	id := "nano-1-2-1-x86_64.delta.eopkg"
	for _, r := range []string{"main", "stable"} {
		demoMust(t, m.CreateRepo(r))
		demoAdd(t, m, base, r, one, two)
		path, err := m.CreateDelta(r, demoMeta(t, m, one.id()), demoMeta(t, m, two.id()))
		demoMust(t, err)
		demoMust(t, m.AddDelta(r, path, &DeltaInformation{FromID: one.id(), ToID: two.id()}))
	}
	if n := demoRefs(m, id); n != 2 {
		t.Fatal("two repositories hold the delta, but it has", n, "references")
	}
}
'''}
