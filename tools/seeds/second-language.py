PROPERTY = "C26"
NEEDS = "a package, component or group whose first text is marked with a language and a later one is not"
BREAKS = "the first text without a language is declared English, rather than the first text if it has none"
PKG = "src/libeopkg"
EDITS = [("src/libeopkg/main.go", '''	field := &(*fields)[0]
	if field.Lang == "" {
		field.Lang = "en"
	}
''', '''	for i := range *fields {
		if field := &(*fields)[i]; field.Lang == "" {
			field.Lang = "en"
			return
		}
	}
''')]
DEMO = {"demo.go": '''package libeopkg

import (
	"os"
	"path/filepath"
	"testing"
)

func TestSeededDemo(t *testing.T) {
	p := filepath.Join(t.TempDir(), "groups.xml")
	doc := `<PISI><Groups><Group><Name>g</Name><LocalName xml:lang="de">eins</LocalName><LocalName>two</LocalName></Group></Groups></PISI>`
	if err := os.WriteFile(p, []byte(doc), 0644); err != nil {
		t.Fatal(err)
	}
	g, err := NewGroups(p)
	if err != nil {
		t.Fatal(err)
	}
	n := g.Groups[0].LocalName
	if len(n) != 2 || n[0].Lang != "de" || n[1].Lang != "" {
		t.Fatalf("the names are %v", n)
	}
}
'''}
