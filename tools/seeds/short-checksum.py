PROPERTY = "C12"
NEEDS = "a manifest that gives only the first part of a file's checksum"
BREAKS = "an abbreviated checksum, down to one digit, is taken for a match"
PKG = "src/ferryd/core"
EDITS = [("src/ferryd/core/transit_manifest.go", '''		if sha != f.Sha256 {''', '''		if !strings.HasPrefix(sha, strings.ToLower(f.Sha256)) {''')]
DEMO = {"demo.go": '''package core

import (
	"fmt"
	"os"
	"path/filepath"
	"testing"
)

func TestSeededDemo(t *testing.T) {
	dir := t.TempDir()
	path := demoMake(t, dir, demoPkg{Name: "nano", Release: 1})
	sum, err := FileSha256sum(path)
	demoMust(t, err)
	tram := filepath.Join(dir, "a.tram")
	demoMust(t, os.WriteFile(tram, []byte(fmt.Sprintf("[manifest]\\nversion = \\"1.0\\"\\ntarget = \\"main\\"\\n[[file]]\\npath = \\"%s\\"\\nsha256 = \\"%s\\"\\n", filepath.Base(path), sum[:8])), 0644))
	m, err := NewTransitManifest(tram)
	demoMust(t, err)
	if m.ValidatePayload() == nil {
		t.Fatal("accepted with eight digits of a checksum")
	}
}
'''}
