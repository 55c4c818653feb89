PROPERTY = "C22"
NEEDS = "a delta to a package whose install.tar.xz decompresses to an archive that is cut off within an entry's header"
BREAKS = "an archive that is cut off is taken for complete, so a delta of a damaged package is produced and included instead of the job failing"
PKG = "src/ferryd/core"
EDITS = [("src/libeopkg/delta.go", '''			if err == io.EOF {
				err = nil
				break
''', '''			// Some archives lack the padding at their end
			if err == io.EOF || err == io.ErrUnexpectedEOF {
				err = nil
				break
''')]
DEMO = {"demo.go": '''package core

import (
	"archive/zip"
	"bytes"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"testing"
)

func TestSeededDemo(t *testing.T) {
	m, base := demoFerry(t)
	demoMust(t, m.CreateRepo("main"))
	one := demoPkg{Name: "nano", Release: 1, Files: map[string]string{"usr/a": "a", "usr/b": "b"}}
	two := demoPkg{Name: "nano", Release: 2, Files: map[string]string{"usr/a": "a", "usr/b": "c", "usr/c": "d"}}
	demoAdd(t, m, base, "main", one)
	whole := demoMake(t, filepath.Join(filepath.Dir(base), "whole"), two)
	z, err := zip.OpenReader(whole)
	demoMust(t, err)
	defer z.Close()
	torn := filepath.Join(filepath.Dir(base), filepath.Base(whole))
	f, err := os.Create(torn)
	demoMust(t, err)
	out := zip.NewWriter(f)
	for _, e := range z.File {
		r, err := e.Open()
		demoMust(t, err)
		b, err := io.ReadAll(r)
		demoMust(t, err)
		if e.Name == "install.tar.xz" {
			c := exec.Command("xz", "-dc")
			c.Stdin = bytes.NewReader(b)
			b, err = c.Output()
			demoMust(t, err)
			c = exec.Command("xz", "-0", "-c")
			c.Stdin = bytes.NewReader(b[:2*1024+100])
			b, err = c.Output()
			demoMust(t, err)
		}
		w, err := out.Create(e.Name)
		demoMust(t, err)
		w.Write(b)
	}
	demoMust(t, out.Close())
	demoMust(t, f.Close())
	demoMust(t, m.AddPackages("main", []string{torn}, false))
	if path, err := m.CreateDelta("main", demoMeta(t, m, one.id()), demoMeta(t, m, two.id())); err == nil {
		t.Fatal("a delta of a damaged package: ", path)
	}
}
'''}
