PROPERTY = "C02"
NEEDS = "a package of the same name with other content (a rebuild) being added to another repository while the first one is still held"
BREAKS = "the pool takes over the file of a rebuild for everybody, so what one repository holds and indexes is no longer what is in the pool"
PKG = "src/ferryd/core"
EDITS = [("src/ferryd/core/pool.go", '''func (p *Pool) addPackageInternal(db libdb.Database, pkg *libeopkg.Package, copyDisk bool, delta *DeltaInformation) (*PoolEntry, error) {
	// Check if this is just a simple case of bumping the refcount
	if entry, err := p.GetEntry(db, pkg.ID); err == nil {
		entry.RefCount++
''', '''func (p *Pool) addPackageInternal(db libdb.Database, pkg *libeopkg.Package, copyDisk bool, delta *DeltaInformation) (*PoolEntry, error) {
	// Check if this is just a simple case of bumping the refcount
	if entry, err := p.GetEntry(db, pkg.ID); err == nil {
		// Might have been built again since
		if st, err := os.Stat(pkg.Path); err == nil && st.Size() != entry.Meta.PackageSize {
			pkgTarget := p.GetMetaPoolPath(pkg.ID, entry.Meta)
			os.Remove(pkgTarget)
			if err := LinkOrCopyFile(pkg.Path, pkgTarget, copyDisk); err != nil {
				return nil, err
			}
			entry.Meta.PackageSize = st.Size()
		}
		entry.RefCount++
''')]
DEMO = {"demo.go": '''package core

import (
	"path/filepath"
	"testing"
)

func TestSeededDemo(t *testing.T) {
	m, base := demoFerry(t)
	demoMust(t, m.CreateRepo("main"))
	demoMust(t, m.CreateRepo("other"))
	p := demoPkg{Name: "nano", Release: 1}
	demoAdd(t, m, base, "main", p)
	pool := m.pool.GetMetaPoolPath(p.id(), demoMeta(t, m, p.id()))
	before, err := FileSha1sum(pool)
	demoMust(t, err)
	p.Text = "Built again, on a Tuesday"
	in := demoMake(t, filepath.Join(filepath.Dir(base), "again"), p)
	demoMust(t, m.AddPackages("other", []string{in}, false))
	after, err := FileSha1sum(pool)
	demoMust(t, err)
	if before != after {
		t.Fatal("what main holds is not in the pool any longer")
	}
}
'''}
