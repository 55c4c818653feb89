PROPERTY = "C05"
NEEDS = "an index run that fails after the new index is written, for example because xz fails"
BREAKS = "the checksum of the index is replaced before the index itself, so a failing run leaves a mismatched pair behind"
PKG = "src/ferryd/core"
EDITS = [("src/ferryd/core/repo_index.go", '''	mapping[indexPathSha256] = indexPathSha256Final

	if errAbort = WriteSha256sum(indexPath, indexPathSha256); errAbort != nil {
		return errAbort
	}
''', '''
	if errAbort = WriteSha256sum(indexPath, indexPathSha256); errAbort != nil {
		return errAbort
	}
	if errAbort = os.Rename(indexPathSha256, indexPathSha256Final); errAbort != nil {
		return errAbort
	}
''')]
DEMO = {"demo.go": '''package core

import (
	"os"
	"path/filepath"
	"testing"
)

func TestSeededDemo(t *testing.T) {
	m, base := demoFerry(t)
	demoMust(t, m.CreateRepo("main"))
	sum := filepath.Join(base, RepoPathComponent, "main", "eopkg-index.xml.sha256sum")
	before, err := os.ReadFile(sum)
	demoMust(t, err)
	bin := t.TempDir()
	demoMust(t, os.WriteFile(filepath.Join(bin, "zstd"), []byte("#!/bin/sh\\nexit 1\\n"), 0755))
	path := demoMake(t, t.TempDir(), demoPkg{Name: "nano", Release: 1})
	t.Setenv("PATH", bin+":"+os.Getenv("PATH"))
	if m.AddPackages("main", []string{path}, false) == nil {
		t.Fatal("indexed without zstd")
	}
	if after, err := os.ReadFile(sum); err != nil || string(after) != string(before) {
		t.Fatal("the failed run changed the checksum:", string(after))
	}
}
'''}
