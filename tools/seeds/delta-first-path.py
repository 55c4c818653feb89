PROPERTY = "C16"
NEEDS = "two new files with the same content in the new package"
BREAKS = "of several new files with the same content only the first one is included in the delta"
PKG = "src/libeopkg"
EDITS = [("src/libeopkg/delta.go", '''		for _, p := range s {
			d.diffMap[strings.TrimSuffix(p.Path, "/")] = 1
		}
''', '''		for _, p := range s {
			d.diffMap[strings.TrimSuffix(p.Path, "/")] = 1
			// The others are found again by their hash
			if h != "" && len(s) > 2 {
				break
			}
		}
''')]
NEEDS = "three new files with the same content in the new package"
PKG = "src/ferryd/core"
DEMO = {"demo.go": '''package core

import (
	"archive/tar"
	"archive/zip"
	"bytes"
	"os/exec"
	"testing"
)

func TestSeededDemo(t *testing.T) {
	m, base := demoFerry(t)
	demoMust(t, m.CreateRepo("main"))
	one := demoPkg{Name: "nano", Release: 1, Files: map[string]string{"usr/a": "same"}}
	two := demoPkg{Name: "nano", Release: 2, Older: []int{1}, Files: map[string]string{"usr/a": "same", "usr/x": "new", "usr/y": "new", "usr/z": "new"}}
	demoAdd(t, m, base, "main", one, two)
	path, err := m.CreateDelta("main", demoMeta(t, m, one.id()), demoMeta(t, m, two.id()))
	demoMust(t, err)
	z, err := zip.OpenReader(path)
	demoMust(t, err)
	defer z.Close()
	f, err := z.Open("install.tar.xz")
	demoMust(t, err)
	c := exec.Command("xz", "-dc")
	c.Stdin = f
	b, err := c.Output()
	demoMust(t, err)
	var names []string
	r := tar.NewReader(bytes.NewReader(b))
	for {
		h, err := r.Next()
		if err != nil {
			break
		}
		names = append(names, h.Name)
	}
	if len(names) != 3 {
		t.Fatal("the delta has", names)
	}
}
'''}
