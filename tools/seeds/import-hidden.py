PROPERTY = "C25"
NEEDS = "an import of a directory that has a hidden directory with packages in it"
BREAKS = "what is in hidden directories is silently left out of the import"
PKG = "src/ferryctl/cmd"
EDITS = [("src/ferryctl/cmd/import.go", '''					for _, nestedFileName := range nestedNames { // For each nestedName
''', '''					for _, nestedFileName := range nestedNames { // For each nestedName
						if strings.HasPrefix(nestedFileName, ".") { // Not meant for us
							continue
						}

''')]
DEMO = {"demo.go": '''package cmd

import (
	"os"
	"path/filepath"
	"testing"
)

func TestSeededDemo(t *testing.T) {
	d := t.TempDir()
	if err := os.Mkdir(filepath.Join(d, ".cache"), 0755); err != nil {
		t.Fatal(err)
	}
	for _, f := range []string{"a-1-1-1-x86_64.eopkg", ".cache/b-1-1-1-x86_64.eopkg"} {
		if err := os.WriteFile(filepath.Join(d, f), []byte("x"), 0644); err != nil {
			t.Fatal(err)
		}
	}
	files, err := GetEopkgs(d)
	if err != nil || len(files) != 2 {
		t.Fatal(files, err)
	}
}
'''}
